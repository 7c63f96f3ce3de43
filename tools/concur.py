"""Episodes with many processes on the same dataset, for ConcurTrace"""
import glob
import json
import os
import random
import re
import select
import shutil
import sys
import threading

import build
import dsgen
import dsprofiles
import durable
import vlib
from dsgen import Q

#: Known findings that can be met here, see known-findings.txt
KNOWN = vlib.known_findings("C13")
#: A query of an iseg dataset while a segment is moved to the archive
MOVED = "archive-during-query"
#: A query of a simple dataset while data is imported in segments that are not new
APPENDING = "query-while-appending"
#: A summary of a dataset while data is imported or removed
SUMMARY = "summary-during-change"

#: Give up on processes that do not end
MAX_STEPS = 20000


class Proc:
    """A driver process that stops before each system call that matters"""

    def __init__(self, name):
        self.name = name
        self.drv = vlib.Driver(build.exe("dsdrv"))
        self.buf = b""
        # What it stopped at, None if it's not doing anything
        self.at = None
        self.blocked = False
        self.handles = {}

    def recv(self):
        while b"\n" not in self.buf:
            if not select.select([self.drv.p.stdout], [], [], 60)[0]:
                raise vlib.DriverDied(f"process {self.name} does not answer, after {self.drv.log[-1]}")
            b = os.read(self.drv.p.stdout.fileno(), 1 << 20)
            if not b:
                raise vlib.DriverDied(f"process {self.name} died, after {self.drv.log[-1]}\n{self.drv.stderr()[-1000:]}")
            self.buf += b
        line, _, self.buf = self.buf.partition(b"\n")
        return json.loads(line)

    def cmd(self, *args):
        self.drv.send(*args)
        return self.recv()

    def ok(self, *args):
        r = self.cmd(*args)
        if not r.get("ok"):
            raise vlib.CheckError(f"{args}: {r}")
        return r

    def resume(self):
        self.drv.send("go")
        return self.recv()


#: Processes are reused for many episodes: one set for each thread
POOLS = {}
NAMES = ["A", "B", "C"]


class Pool:
    def __init__(self):
        self.procs = [Proc(n) for n in NAMES]

    def close(self):
        for p in self.procs:
            p.drv.p.kill()
            p.drv.close()


class ConcurEpisode(dsgen.Episode):
    def __init__(self, pool, rng, conf, items, now):
        self.pool = pool
        self.rng = rng
        self.procs = {p.name: p for p in pool.procs}
        super().__init__(pool.procs[0], conf, items, now)
        for p in pool.procs:
            p.handles = {}
            p.at, p.blocked = None, False
            if p is not pool.procs[0]:
                p.ok("session")
                p.ok("chdir", self.root)
                p.ok("now", now)
                p.ok("ds", self.name, *conf.args(self.path))
            p.ok("nowait", 0)
            p.ok("sysroot", self.path)
        # Data of segments that have been moved to the archive since a query began
        self.moved = {}
        # Old versions of MANIFEST
        self.manifests = []

    def ev(self, op, err=None, **kw):
        e = super().ev(op, err, **kw)
        e["why"] = err or ""
        return e

    # Scheduling

    def lockfile(self, path):
        """The lock file of a data file"""
        # Parts of a segment, and directories used while writing or removing one
        d, b = os.path.split(path)
        if re.match(r"^\d{6}\.", b) or b == ".sequence":
            path = d
        d, b = os.path.split(path)
        b = re.sub(r"\.(repack|delete|tmp)$", "", b)
        path = os.path.join(d, b[1:] if b.startswith(".") else b)
        if path.startswith(".archive/last/"):
            return ".archive/last/lock"
        if self.conf.type == "simple":
            return "lock"
        return durable.classify(path)[1] + ".lock"

    def note(self, p, r):
        """Write in the trace what a process does next, when it gets its turn"""
        op, path, arg = r["yield"], r["path"], r["arg"]
        if op in ("locked", "unlocked"):
            return
        t, s = durable.classify(path)
        if t == "data" and op in ("write", "create", "truncate", "unlink"):
            self.ev("Sys", p=p.name, k=op, path=path, lk=[self.lockfile(path)])
        elif op == "rename":
            # The name it will have is not known here, but the lock is the same
            if t == "data":
                self.ev("Sys", p=p.name, k=op, path=path, lk=[self.lockfile(path)])
            else:
                base = path
                for x in (".repack", ".tmp"):
                    if base.endswith(x):
                        base = base[:-len(x)]
                if base != path and durable.classify(base)[0] == "data":
                    self.ev("Sys", p=p.name, k=op, path=path, lk=[self.lockfile(base)])

    def noted(self, p, r):
        """Write in the trace what a process has just done"""
        op, path, arg = r["yield"], r["path"], r["arg"]
        if op in ("locked", "unlocked"):
            start, n = arg % 10000 // 100, arg % 100
            bs = list(range(start, start + n))
            if op == "locked":
                self.ev("Lock", p=p.name, f=path, b=bs, w=arg // 10000 == 1)
            else:
                self.ev("Unlock", p=p.name, f=path, b=bs)
        elif op == "close" and path.endswith("lock"):
            self.ev("Unlock", p=p.name, f=path, b=[0, 1])

    def advance(self, p, r):
        """Handle what a process answered. Returns True if it has ended"""
        if "yield" not in r:
            p.at = None
            p.result = r
            return True
        p.at = r
        p.blocked = r["yield"] in ("blocked", "sleep")
        self.noted(p, r)
        return False

    def run(self, jobs, policy):
        """
        Run together the jobs of each process (lists of pairs: function that
        starts it, function that handles its result)
        """
        for p in self.pool.procs:
            p.ok("sched", 1)
        queue = {p: list(js) for p, js in jobs.items() if js}
        current = {}
        # Since when nobody has done anything but waiting
        stuck = 0
        steps = 0

        def start(p):
            current[p] = queue[p].pop(0)
            cmd, e, _ = current[p]
            self.moved[p.name] = set().union(*(x[1].get("ids", ()) for x in current.values()))
            for q in current:
                self.moved[q.name].update(e.get("ids", ()))
            self.ev("Start", p=p.name, cmd=e)
            p.drv.send(*cmd)
            end(p, p.recv())

        def end(p, r):
            if not self.advance(p, r):
                return
            current.pop(p)[2](p, p.result)
            if not queue[p]:
                del queue[p]
            wake(p)

        def wake(p):
            for q in current:
                if q is not p:
                    q.blocked = False

        while queue or current:
            ready = [p for p in jobs if (p in current and not p.blocked) or (p in queue and p not in current)]
            if not ready:
                # Everyone waits: it may be because of locks that have just been released
                stuck += 1
                if stuck > 50:
                    self.ev("Hang", "all processes are waiting: " + " ".join(f"{q.name} {q.at['yield']} {q.at['path']}" for q in current))
                    raise Stuck()
                for q in current:
                    q.blocked = False
                continue
            p = policy(ready, steps)
            steps += 1
            if steps > MAX_STEPS:
                self.ev("Hang", "processes go on forever")
                raise Stuck()
            if p not in current:
                start(p)
                continue
            op = p.at["yield"]
            if os.environ.get("VERIF_DEBUG"):
                print(p.name, op, p.at["path"], p.at["arg"], file=sys.stderr)
            if op not in ("blocked", "sleep"):
                stuck = 0
                self.note(p, p.at)
            if op in ("unlock", "unlocked", "close") or op not in ("blocked", "sleep", "lock"):
                wake(p)
            end(p, p.resume())
        for p in self.pool.procs:
            p.ok("sched", 0)

    # Jobs

    def job_import(self, p, ids, strategy):
        specs = [self.items[i].spec() for i in ids]
        if "w" in p.handles:
            cmd = ["wimport", "w", strategy, *specs]
        else:
            cmd = ["import", self.name, strategy, *specs]

        def done(p, r):
            self.ev("End", self.error(r), p=p.name, res=[x["r"] for x in r.get("results", [])])
        return cmd, {"op": "Import", "batch": list(ids), "strategy": strategy}, done

    def job_query(self, p, q=None):
        if "r" in p.handles:
            cmd = ["rquery", "r"]
        else:
            cmd = ["query", self.name]
        cmd += [q.matcher() if q else "-", "-", 1]

        def done(p, r):
            ids = self.ids(r)
            gone = []
            if self.conf.type == "iseg" and MOVED in KNOWN:
                gone = sorted(self.moved[p.name] - set(ids))
            self.ev("End", self.error(r), p=p.name, q=ids, gone=gone, appending=self.appending())
        return cmd, {"op": "Query", "query": (q or Q()).tla(), "all": q is None}, done

    def job_remove(self, p, q):
        return ["remove", self.name, q.matcher()], {"op": "Remove", "query": q.tla()}, self.done

    def job_maint(self, p, cmd, *extra):
        # Once the dataset archives by age, any maintenance can move data
        ids = sorted(self.items) if self.conf.archive_age else []
        return [cmd, self.name, "f", "-", *extra], {"op": "Maint", "what": cmd, "ids": ids}, self.done

    def job_archive(self, p, cmd, path, ids):
        return [cmd, self.name, path], {"op": "Maint", "what": cmd, "ids": ids}, self.done

    def job_summary(self, p):
        cmd = ["rsummary", "r", "-"] if "r" in p.handles else ["summary", self.name, "-"]

        def done(p, r):
            self.ev("End", self.error(r), p=p.name, n=r.get("count", 0), size=r.get("size", 0))
        return cmd, {"op": "Summary"}, done

    def appending(self):
        """If queries may miss what is in segments that are being appended to"""
        return self.conf.type == "simple" and APPENDING in KNOWN

    def done(self, p, r):
        self.ev("End", self.error(r), p=p.name, gone=[], appending=self.appending())

    # Rest

    def see(self, op, p, rq, rs):
        r = p.ok(*rs)
        q = p.cmd(*rq)
        self.ev(op, self.error(q), q=self.ids(q), n=r["count"], size=r["size"])

    def quiet(self, op="Quiet", excuse=False):
        """
        See what there is, when nobody is doing anything. With excuse, the
        summary may be outdated
        """
        first = self.pool.procs[0]
        if excuse and SUMMARY in KNOWN:
            ids = self.ids(first.cmd("query", self.name, "-", "-", 1))
            r = first.ok("summary", self.name, "-")
            if r["count"] != len(ids) or r["size"] != sum(self.items[i].size for i in ids):
                self.found.add(SUMMARY)
                for fn in [os.path.join(self.path, "summary")] + glob.glob(os.path.join(self.path, ".summaries", "*.summary")):
                    if os.path.exists(fn):
                        os.unlink(fn)
        self.see(op, first, ["query", self.name, "-", "-", 1], ["summary", self.name, "-"])
        if op != "Setup":
            for p in self.pool.procs:
                if "r" in p.handles:
                    self.see(op, p, ["rquery", "r", "-", "-", 1], ["rsummary", "r", "-"])

    def get_older(self, secs=10):
        """Let some time pass: all of the dataset gets older"""
        man = os.path.join(self.path, "MANIFEST")
        if os.path.exists(man):
            with open(man) as fd:
                lines = [x.split(";") for x in fd]
            with open(man + ".new", "w") as fd:
                fd.write("".join(";".join([x[0], str(int(x[1]) - secs), *x[2:]]) for x in lines))
            os.rename(man + ".new", man)
        for dp, dns, fns in os.walk(self.path):
            for x in dns + fns:
                st = os.stat(os.path.join(dp, x))
                os.utime(os.path.join(dp, x), ns=(st.st_atime_ns - secs * 10**9, st.st_mtime_ns - secs * 10**9))

    def keep_manifest(self):
        """Keep the inode of this version of MANIFEST for later"""
        src = os.path.join(self.path, "MANIFEST")
        dst = os.path.join(self.root, f"manifest{len(self.events)}")
        if os.path.exists(src):
            os.link(src, dst)
            self.manifests.append(dst)

    def reuse_inode(self, n):
        """
        Give to MANIFEST the inode of one of its old versions, as file systems
        may do when a new file is created
        """
        src = os.path.join(self.path, "MANIFEST")
        if not os.path.exists(src):
            return
        old = self.manifests[n]
        ino = os.stat(src).st_ino
        with open(src) as fd:
            new = fd.read()
        if os.stat(old).st_ino == ino:
            return
        with open(old, "w") as fd:
            fd.write(new)
        os.rename(old, src)
        del self.manifests[n]

    def fine(self):
        r = self.pool.procs[0].cmd("state", self.name, "")
        bad = []
        for x in r.get("reports", []):
            if "seg" in x:
                words = set(x["msg"].split(" ")[0].split(","))
                if words & {"MISSING", "CORRUPTED", "UNALIGNED"}:
                    bad.append([x["seg"], x["msg"].split(" ")[0]])
        self.ev("Fine", self.error(r), bad=bad)


class Stuck(Exception):
    pass


# Schedules

def mostly(rng, prob):
    """Switch with some probability at each step"""
    last = [None]

    def policy(ready, n):
        if last[0] not in ready or rng.random() < prob:
            last[0] = rng.choice(ready)
        return last[0]
    return policy


def preempting(rng, procs, points):
    """Run by priority; at each of some points, who is running becomes the last"""
    order = list(procs)
    rng.shuffle(order)

    def policy(ready, n):
        top = next(p for p in order if p in ready)
        if n in points:
            order.remove(top)
            order.append(top)
            top = next(p for p in order if p in ready)
        return top
    return policy


def random_policy(rng, procs):
    r = rng.random()
    if r < 0.35:
        return mostly(rng, rng.choice([0.02, 0.1, 0.3, 0.6]))
    return preempting(rng, procs, {rng.randrange(rng.choice([20, 60, 150])) for _ in range(rng.choice([1, 1, 2, 3, 4]))})


ROUNDS = {"import": 4, "maint": 3, "mixed": 4, "convert": 1.5, "remove": 1.5, "archive": 1.5, "ages": 1.5}


def run_scenario(rng, conf, items, now, scenario):
    t = threading.get_ident()
    if t not in POOLS:
        POOLS[t] = Pool()
    pool = POOLS[t]
    ep = ConcurEpisode(pool, rng, conf, items, now)
    try:
        scenario(ep)
    except Stuck:
        ep.died = True
    except vlib.DriverDied as ex:
        ep.died = True
        ep.ev("Died", str(ex))
    finally:
        if ep.died:
            pool.close()
            del POOLS[t]
        else:
            for p in pool.procs:
                for h in p.handles:
                    p.cmd("close", h)
        ep.cleanup()
    return ep


def cleanup():
    """End the processes of this thread"""
    pool = POOLS.pop(threading.get_ident(), None)
    if pool:
        pool.close()


def episode(drv, key):
    rng = random.Random(key)
    conf = dsprofiles.random_conf(rng)
    conf.smallfiles = False
    items = dsprofiles.random_items(rng, conf, n=16)
    now = max(vlib.epoch(i.t) for i in items) + rng.randrange(2 * dsprofiles.DAY)
    return run_scenario(rng, conf, items, now, lambda ep: scenario(ep, rng, items))


def interrupting(first, second, at):
    """The first process goes up to some point, then the second does all of its work"""
    def policy(ready, n):
        if first in ready and not (first.at and at(first.at) and second in ready):
            return first
        return second if second in ready else first
    return policy


def known(drv, key):
    """Known findings, each in the schedule that shows it"""
    rng = random.Random(key)
    t = ["20070707000000", "20070707120000", "20070708000000", "20070709000000"]
    items = [dsgen.Item(f"i{n}", "grib", t[n], o="1", p=p, a="1", k="t1") for n, p in enumerate("3213")]
    conf = dsprofiles.random_conf(rng, step="daily", fmt="grib", type="simple" if key == APPENDING else "iseg")

    def scenario(ep):
        a, b, _ = ep.pool.procs
        a.ok("import", ep.name, "default", *[i.spec() for i in items if i.id != "i1"])
        ep.quiet("Setup")
        ep.get_older()
        seg = "2007/07-07.grib"
        if key == MOVED:
            jobs = {a: [ep.job_query(a)], b: [ep.job_archive(b, "archive", seg, ["i0"])]}
            policy = interrupting(a, b, lambda at: at["yield"] == "lock" and at["path"] == seg + ".lock")
        elif key == APPENDING:
            jobs = {a: [ep.job_import(a, ["i1"], "default")], b: [ep.job_query(b)]}
            policy = interrupting(a, b, lambda at: ".metadata" in at["path"] and at["yield"] == "write")
        else:
            first = sorted(glob.glob(os.path.join(ep.path, ".summaries", "*.summary")))
            for f in first:
                os.unlink(f)
            jobs = {a: [ep.job_summary(a)], b: [ep.job_import(b, ["i1"], "default")]}
            policy = interrupting(a, b, lambda at: at["path"].startswith(".summaries/2007-07") and at["yield"] == "write")
        ep.run(jobs, policy)
        qs = [e["q"] for e in ep.events if e["op"] == "End" and "q" in e]
        if qs and "i0" not in qs[0]:
            ep.found.add(key)
        ep.quiet(excuse=key == SUMMARY)
    return run_scenario(rng, conf, items, vlib.epoch("20070801000000"), scenario)


def scenario(ep, rng, items):
    first = ep.pool.procs[0]
    todo = [i.id for i in items]
    rng.shuffle(todo)

    def take(n):
        res = todo[:n]
        del todo[:n]
        return res

    for _ in range(rng.choice([1, 2, 2])):
        first.ok("import", ep.name, "default", *[ep.items[i].spec() for i in take(rng.choice([2, 3, 4]))])
    if rng.random() < 0.5:
        first.ok("remove", ep.name, dsprofiles.random_query(rng, items).matcher())
    if rng.random() < 0.5:
        first.ok("check", ep.name, "f", "-")
    ep.quiet("Setup")
    # Some processes keep the dataset open
    for p in ep.pool.procs:
        if rng.random() < 0.3:
            p.ok("open_reader", "r", ep.name)
            p.handles["r"] = True
        if rng.random() < 0.3:
            p.ok("open_writer", "w", ep.name)
            p.handles["w"] = True
    converted = False
    for _ in range(rng.choice([1, 2, 2, 3])):
        kind = dsprofiles.pick(rng, {k: v for k, v in ROUNDS.items() if not (converted and k in ("import", "mixed", "remove"))})
        n = rng.choice([2, 2, 3])
        procs = rng.sample(ep.pool.procs, n)
        query = lambda p: ep.job_query(p, dsprofiles.random_query(rng, items) if rng.random() < 0.4 else None)
        strategy = lambda: rng.choice(["default", "never", "always", "usn"])
        imp = lambda p: ep.job_import(p, take(rng.choice([1, 1, 2, 3])), strategy()) if todo else query(p)
        maint = lambda p: ep.job_maint(p, rng.choice(["repack", "repack", "check"]))
        reads = {"import": [imp, imp, query], "maint": [maint, maint, query, query], "mixed": [imp, maint, query, imp],
                 "remove": [query, imp]}
        if kind == "ages":
            # From now on, old segments go in the archive at each repack
            es = sorted(vlib.epoch(i.t) for i in items)
            ep.conf.archive_age = max(1, (ep.now - rng.choice(es[len(es) // 3:])) // dsprofiles.DAY)
            for q in ep.pool.procs:
                for h in list(q.handles):
                    q.cmd("close", h)
                    del q.handles[h]
                q.ok("ds", ep.name, *ep.conf.args(ep.path))
        if kind in reads:
            jobs = {p: [rng.choice(reads[kind])(p) for _ in range(rng.choice([1, 1, 2]))] for p in procs}
            if kind == "remove":
                p = procs[0]
                jobs[p] = [ep.job_remove(p, dsprofiles.random_query(rng, items))]
        else:
            jobs = {p: [query(p) for _ in range(rng.choice([1, 2]))] for p in procs}
            p = procs[0]
            if kind == "ages":
                for q in procs[:rng.choice([1, 2, 2, len(procs)])]:
                    jobs[q] = [ep.job_maint(q, rng.choice(["repack", "repack", "check"])) for _ in range(rng.choice([1, 1, 2]))]
                converted = True
            elif kind == "convert":
                how = rng.choice(["tar", "zip", "compress"])
                jobs[p] = [ep.job_maint(p, how, *([rng.choice([0, 1, 2, 512])] if how == "compress" else []))]
                converted = True
            else:
                ss = [s for s in dsprofiles.segs(ep, "on") if os.path.exists(dsprofiles.index_path(ep, s))]
                arc = {s["p"] for s in dsprofiles.segs(ep, "arc")}
                ss = [s for s in ss if s["p"] not in arc]
                if not ss:
                    continue
                s = rng.choice(ss)
                converted = True
                jobs[p] = [ep.job_archive(p, "archive", s["p"], sorted({x[0] for x in s["s"] if x[1] == "ok"}))]
        summary = rng.random() < 0.15
        if summary:
            p = procs[-1]
            jobs[p].append(ep.job_summary(p))
            rng.shuffle(jobs[p])
        if rng.random() < 0.3 and not os.path.isdir(os.path.join(ep.path, ".archive")):
            ep.get_older()
        reuse = ep.conf.type == "simple" and rng.random() < 0.5
        if reuse:
            ep.keep_manifest()
        ep.run(jobs, random_policy(rng, procs))
        if reuse and ep.manifests and rng.random() < 0.7:
            ep.reuse_inode(rng.randrange(len(ep.manifests)))
        ep.quiet(excuse=summary)
    ep.fine()
    r = first.cmd("check", ep.name, "f", "-")
    ep.ev("Fine", ep.error(r), bad=[])
    ep.quiet()
