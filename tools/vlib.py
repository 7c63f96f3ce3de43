"""Shared machinery: driver processes, scratch directories, TLC, evidence."""
import concurrent.futures
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build  # noqa

SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))


class CheckError(Exception):
    """Something went wrong with the check itself"""


class Violation(Exception):
    def __init__(self, what, replay=None):
        super().__init__(what)
        self.what = what
        self.replay = replay


_scratch_root = None


def scratch_root():
    """Scratch directory for this process, in memory if possible"""
    global _scratch_root
    if _scratch_root is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        _scratch_root = tempfile.mkdtemp(prefix="verif-", dir=base)
        import atexit
        atexit.register(shutil.rmtree, _scratch_root, True)
    return _scratch_root


_count = 0


def scratch_dir(name="d"):
    return tempfile.mkdtemp(prefix=name + "-", dir=scratch_root())


class DriverDied(CheckError):
    pass


class Driver:
    """A harness driver process"""

    def __init__(self, exe, env=None, timeout=90):
        self.timeout = timeout
        e = dict(os.environ)
        e.update({"TZ": "UTC", "LC_ALL": "C"})
        if env:
            e.update(env)
        self.exe = exe
        self.log = []
        self.errf = tempfile.TemporaryFile(dir=scratch_root())
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.errf, env=e)

    def send(self, *args):
        line = "\t".join(str(a) for a in args)
        assert "\n" not in line
        self.log.append(line)
        try:
            self.p.stdin.write((line + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def recv(self):
        timer = threading.Timer(self.timeout, self.p.kill)
        timer.start()
        l = self.p.stdout.readline()
        timer.cancel()
        if not l:
            self.p.wait()
            raise DriverDied(f"driver exited with {self.p.returncode} after: {self.log[-1]}\n{self.stderr()[-2000:]}")
        return json.loads(l)

    def cmd(self, *args):
        self.send(*args)
        return self.recv()

    def ok(self, *args):
        r = self.cmd(*args)
        if not r.get("ok"):
            raise CheckError(f"driver command failed: {args}: {r.get('error')}")
        return r

    def stderr(self):
        self.errf.seek(0)
        return self.errf.read().decode(errors="replace")

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        self.errf.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


#
# TLC
#

class TLCResult:
    def __init__(self, rc, out):
        self.rc = rc
        self.out = out
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            pass
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else None
        self.ok = rc == 0 and "Model checking completed. No error has been found" in out or \
            rc == 0 and "Finished in" in out and "Error:" not in out

    def tail(self, n=3000):
        return self.out[-n:]


def tlc(module, cfg, env=None, workers=1, extra=(), timeout=800, xmx="3g", dfs=False, specdir=SPEC):
    """Run TLC on module with a cfg file"""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch_root())
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    jopts = ["-Dtlc2.tool.queue.IStateQueue=StateDeque"] if dfs else []
    cmd = ["java", gc, f"-Xmx{xmx}", "-Xss16m", "-XX:TieredStopAtLevel=4", f"-Djava.io.tmpdir={meta}"] + jopts + \
          ["-cp", CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
           "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=specdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise CheckError(f"TLC timed out on {module} {cfg}: {str(ex.stdout)[-500:]}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(p.returncode, p.stdout)


def tlc_model(module, cfg, workers=None, timeout=800, **kw):
    """Exhaustive check of a design model; raises CheckError if it does not hold"""
    r = tlc(module, cfg, workers=workers or JOBS, timeout=timeout, **kw)
    if not r.ok:
        raise CheckError(f"model {module}/{cfg} does not hold or failed:\n{r.tail(4000)}")
    return r


TRACE_RE = re.compile(r"VERIF-REJECT (\d+)")


def tlc_trace(module, cfg, events, timeout=800, dfs=False, xmx="2g", env=None):
    """
    Validate a sequence of events against a trace specification.

    Returns (accepted_prefix_length, TLCResult). Accepted if it's len(events).
    """
    d = tempfile.mkdtemp(prefix="trace-", dir=scratch_root())
    path = os.path.join(d, "trace.ndjson")
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
    e = {"TRACE": path}
    e.update(env or {})
    try:
        r = tlc(module, cfg, env=e, timeout=timeout, dfs=dfs, xmx=xmx)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m = TRACE_RE.search(r.out)
    # What the specification expected, as it says it
    # (values that are long are printed on many lines)
    why = re.findall(r'^<<\s*"VERIF-WHY".*(?:\n\s+.*)*|^.*VERIF-WHY.*', r.out, re.M)
    r.why = " ".join(why[-1].split()).strip('"').replace('\\"', '"')[:3000] if why else ""
    if m:
        return int(m.group(1)), r
    if r.rc == 0 and "No error has been found" in r.out:
        return len(events), r
    raise CheckError(f"TLC failed validating a trace with {module}/{cfg}:\n{r.tail(4000)}")


def pmap(func, items, jobs=None):
    """Run in parallel threads (work is in subprocesses); exceptions propagate"""
    with concurrent.futures.ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(func, items))


#
# Times
#

def days(y, m, d):
    y -= m <= 2
    era = (y if y >= 0 else y - 399) // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def epoch(t):
    """Epoch from YYYYMMDDhhmmss"""
    return days(int(t[0:4]), int(t[4:6]), int(t[6:8])) * 86400 + int(t[8:10]) * 3600 + int(t[10:12]) * 60 + int(t[12:14])


def tstr(e):
    g = time.gmtime(e)
    return f"{g.tm_year:04d}{g.tm_mon:02d}{g.tm_mday:02d}{g.tm_hour:02d}{g.tm_min:02d}{g.tm_sec:02d}"


def iso(t):
    return f"{t[0:4]}-{t[4:6]}-{t[6:8]}T{t[8:10]}:{t[10:12]}:{t[12:14]}Z"


#
# Running a check
#

def known_findings(prop):
    """Findings recorded for a property in known-findings.txt: key -> description"""
    res = {}
    with open(os.path.join(VERIF, "known-findings.txt")) as fd:
        for line in fd:
            if line.startswith(f"KNOWN-FINDING: property={prop} "):
                key, _, what = line.split(" ", 2)[2].partition(" | ")
                res[key.strip()] = what.strip()
    return res


class Check:
    """Context for a running check: parameters, evidence, verdict"""

    def __init__(self, prop, tier, seed, level):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.level = level
        self.rng = random.Random(f"{seed}-{prop}")
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.known = []
        self.violation = None
        self.budget = float(os.environ.get("VERIF_BUDGET", 40 if tier == "quick" else 600))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def found(self, key):
        """Report a known finding"""
        line = f"{key} {known_findings(self.prop)[key]}"
        if line not in self.known:
            self.known.append(line)

    def elapsed(self):
        return time.time() - self.t0

    def sample(self, s, limit=5):
        if len(self.samples) < limit:
            self.samples.append(s)

    def model(self, module, cfg, **kw):
        r = tlc_model(module, cfg, **kw)
        self.add("states", r.distinct)
        self.add("transitions", r.generated)
        self.cov.setdefault("models", []).append({"module": module, "cfg": cfg, "distinct": r.distinct, "generated": r.generated})
        return r

    def save_replay(self, data):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        text = json.dumps(data, indent=1)
        h = hashlib.sha256(text.encode()).hexdigest()[:12]
        path = os.path.join(d, f"{self.prop}-{h}.json")
        with open(path, "w") as f:
            f.write(text)
        return path

    def finish(self):
        cov = dict(self.cov)
        cov["samples"] = self.samples
        for k in ("states", "transitions", "traces_validated_against_impl") if self.level == "model_checking" else \
                ("evaluations", "distinct_nontrivial"):
            cov.setdefault(k, 0)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(self.elapsed(), 2), "violations": 1 if self.violation else 0}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(path + ".tmp", path)
