"""Drive real datasets, for demonstrations"""
import json
import os
import shutil
import subprocess
import sys

WORK = os.environ["ARKIDEMO_WORK"]


def item(id, t, fmt="grib", o="1", p="1", a="1", k="t1", usn="-", pad=20):
    """A synthetic data item: t is YYYYMMDDhhmmss"""
    return ",".join([id, fmt, t, o, p, a, k, str(usn), "-", str(pad)])


class Driver:
    def __init__(self, env=None):
        e = dict(os.environ, TZ="UTC", LC_ALL="C", **(env or {}))
        self.p = subprocess.Popen([os.environ["ARKIDEMO_DRIVER"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=e)
        self.cmd("session")
        self.cmd("chdir", WORK)
        self.cmd("nowait", 1)

    def send(self, *args):
        self.p.stdin.write(("\t".join(str(a) for a in args) + "\n").encode())
        self.p.stdin.flush()

    def cmd(self, *args):
        self.send(*args)
        line = self.p.stdout.readline()
        if not line:
            return {"ok": False, "died": True, "error": "driver died"}
        return json.loads(line)

    def ds(self, name, **kw):
        """Configure a dataset, in a directory of its own"""
        path = os.path.join(WORK, name)
        os.makedirs(path, exist_ok=True)
        conf = {"type": "iseg", "step": "daily", "format": "grib", "path": path,
                "unique": "reftime, origin, product, area, task"}
        conf.update({k.replace("_", " "): v for k, v in kw.items()})
        self.cmd("ds", name, *[f"{k}={v}" for k, v in conf.items() if v is not None])
        return path

    def imp(self, name, *items, strategy="default"):
        r = self.cmd("import", name, strategy, *items)
        if not r.get("ok"):
            return r.get("error")
        return [x["r"] for x in r["results"]]

    def ids(self, name, matcher="-"):
        r = self.cmd("query", name, matcher, "-", 1)
        if not r.get("ok"):
            return r.get("error")
        return [x.get("id") for x in r["items"]]

    def counts(self, name, matcher="-"):
        r = self.cmd("summary", name, matcher)
        if not r.get("ok"):
            return r.get("error")
        return sum(x["count"] for x in r["items"])


failures = 0


def expect(what, got, exp):
    global failures
    if got == exp:
        print("ok:", what)
    else:
        print(f"FAILED: {what}: got {got!r} instead of {exp!r}")
        failures += 1


def done():
    sys.stdout.flush()
    sys.exit(1 if failures else 0)
