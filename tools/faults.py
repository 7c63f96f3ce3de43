"""Episodes where operations are interrupted by crashes or errors, for FaultTrace"""
import json
import os
import random
import shutil
import time

import build
import dscheck
import dsgen
import dsprofiles
import vlib
from dsgen import Q
from vlib import CheckError, Violation

KNOWN = {**vlib.known_findings("C03"), **vlib.known_findings("C27")}
FAIL_OPS = "write,fsync,create,open,lock,mkdir"
ERRNO = {"write": 28, "fsync": 5, "create": 28, "open": 13, "lock": 11, "mkdir": 28}


#: Known findings that can be met here, see known-findings.txt
TRUNCATED = "truncated-message"
TORN_LINE = "torn-line"
TAR_SCAN = "tar-not-scannable"


class FaultEpisode(dsgen.Episode):
    def disk(self):
        """
        Contents of the data files. What an interrupted operation left behind,
        that is not used anymore, does not count
        """
        order = ["dir", "concat", "lines", "gz", "gzidx", "tar", "zip"]
        res = {}
        for x in super().disk():
            if x["k"] == "dir" and not x["s"] and not os.listdir(os.path.join(self.zroot(x["z"]), x["p"])):
                continue
            old = res.get((x["z"], x["p"]))
            if old is None or (x["k"] in order and (old["k"] not in order or order.index(x["k"]) < order.index(old["k"]))):
                res[x["z"], x["p"]] = x
        return list(res.values())

    #: The last crash left a partial write behind
    partial = False
    #: The last crash was in a conversion to tar
    to_tar = False

    def is_known(self, key):
        if key not in KNOWN:
            return False
        self.found.add(key)
        return True

    def snapshot(self):
        self.snap = self.path + ".saved"
        shutil.copytree(self.path, self.snap, symlinks=True)
        self.flags_saved = (self.unreadable, self.uncached, self.truncated, self.removed)
        self.drv.ok("sysroot", self.path)
        self.ev("Save")

    def restore(self):
        shutil.rmtree(self.path)
        shutil.copytree(self.snap, self.path, symlinks=True)
        self.unreadable, self.uncached, self.truncated, self.removed = self.flags_saved
        self.ev("Restore")

    def op_import(self, ids, strategy):
        return (["import", self.name, strategy, *[self.items[i].spec() for i in ids]],
                {"op": "Import", "batch": list(ids), "strategy": strategy})

    def op_maint(self, op, cmd, extra=(), fix=True, **kw):
        return ([cmd, self.name, self.flags(fix), "-", *extra],
                {"op": op, "fix": fix, "accurate": False, "online": True, "offline": True, **kw})

    def op_remove(self, q):
        return ["remove", self.name, q.matcher()], {"op": "Remove", "query": q.tla()}

    def op_path(self, op, path):
        return [op.lower(), self.name, path], {"op": op, "path": path}

    def run_again(self, cmd, e):
        """Run the operation with no faults"""
        if e["op"] == "Import":
            self.imp(e["batch"], e["strategy"])
        elif e["op"] == "Remove":
            r = self.drv.cmd(*cmd)
            self.ev("Remove", self.error(r), query=e["query"], count=r.get("count", -1))
        elif e["op"] in ("Archive", "Unarchive"):
            r = self.drv.cmd(*cmd)
            self.ev(e["op"], self.error(r), path=e["path"])
        else:
            r = self.drv.cmd(*cmd)
            self.ev(e["op"], self.error(r), **{k: v for k, v in e.items() if k != "op"}, **self.reports(r))

    def crash(self, cmd, e, n, partial):
        """Run a command that is killed at step n. Returns True if it was killed"""
        self.partial = partial
        self.to_tar = e.get("how") == "tar"
        r = self.drv.ok("crashat", n, 1 if partial else 0, *cmd)
        st = r["status"]
        self.ev("Crash", None if st in (0, 77) else f"exit status {st}", cmd=e, n=n, partial=partial, at=r["at"])
        return r

    def all_ids(self):
        r = self.drv.cmd("query", self.name, "-", "-", 1)
        return r, self.ids(r)

    def recover(self):
        r = self.drv.cmd("check", self.name, "f", "-")
        if self.partial and not r.get("ok") and self.conf.fmt in ("grib", "bufr") and "truncated" in r["error"] and self.is_known(TRUNCATED):
            self.ev("Known", key=TRUNCATED)
            return False
        if self.to_tar and not r.get("ok") and "tar scanning is not yet implemented" in r["error"] and self.is_known(TAR_SCAN):
            self.ev("Known", key=TAR_SCAN)
            return False
        e = self.ev("Recover", self.error(r), q=[])
        if not r.get("ok"):
            return False
        r, e["q"] = self.all_ids()
        if not r.get("ok"):
            e["err"], e["errmsg"] = True, "query: " + r["error"][:300]
        return r.get("ok")

    def adopt(self):
        r = self.drv.cmd("repack", self.name, "f", "-")
        e = self.ev("Adopt", self.error(r), q=[], disk=[])
        if not r.get("ok"):
            return False
        r, e["q"] = self.all_ids()
        if not r.get("ok"):
            e["err"], e["errmsg"] = True, "query: " + r["error"][:300]
            return False
        e["disk"] = self.disk()
        self.removed = False
        clean = all(c == "ok" for x in e["disk"] for _, c in x["s"])
        if not clean and self.partial and self.conf.fmt == "vm2" and self.is_known(TORN_LINE):
            self.events.pop()
            self.ev("Known", key=TORN_LINE)
        return clean

    def fail(self, ids, strategy, n, errno, sticky, partial, again=None):
        """Import with a system call that fails"""
        if again:
            cmd = ["import2", self.name, strategy, len(ids), *[self.items[i].spec() for i in list(ids) + list(again)]]
        else:
            cmd = ["import", self.name, strategy, *[self.items[i].spec() for i in ids]]
        r = self.drv.ok("failat", n, errno, 1 if sticky else 0, 1 if partial else 0, FAIL_OPS, *cmd)
        if not r["child"]:
            self.ev("Fail", f"exit status {r['status']}", died=True, batch=list(ids), strategy=strategy, res=[], n=n, errno=errno, at=r["at"], unsure=False)
            return None
        res = r["child"]["res"]
        first = res["first"] if again else res
        if not first.get("ok"):
            # The import raised an exception
            self.partial = self.to_tar = False
            e = self.ev("Crash", cmd={"op": "Import", "batch": list(ids) + list(again or ()), "strategy": strategy}, n=n, errno=errno, at=r["at"], raised=first["error"][:300])
            q, e["now"] = self.all_ids()
            if not q.get("ok"):
                e["err"], e["errmsg"] = True, "query: " + q["error"][:300]
            return True
        self.ev("Fail", died=False, batch=list(ids), strategy=strategy, res=self.results(first, ids), n=n, errno=errno, at=r["at"],
                unsure=r["at"].startswith("fsync ") and r["at"].endswith("-wal"))
        if again:
            second = res["second"]
            self.ev("Import", self.error(second), batch=list(again), strategy=strategy, res=self.results(second, again))
        return False

    @staticmethod
    def results(r, ids):
        res = []
        for n, x in enumerate(r.get("results", [])):
            v = x["r"]
            if v == "OK" and not (x["md"].get("bytes") and x["md"].get("id") == ids[n] and x["md"].get("md")):
                v = "UNREADABLE"
            res.append(v)
        return res


def prepare(drv, rng, prof):
    """Start an episode with a few operations"""
    conf_kw = dict(prof.conf)
    for k, v in list(conf_kw.items()):
        if isinstance(v, list):
            conf_kw[k] = rng.choice(v)
    conf = dsprofiles.random_conf(rng, **conf_kw)
    items = dsprofiles.random_items(rng, conf, n=prof.nitems)
    now = max(vlib.epoch(i.t) for i in items) + rng.randrange(2 * dsprofiles.DAY)
    ep = FaultEpisode(drv, conf, items, now)
    for _ in range(rng.choice([0, 1, 1, 2, 2])):
        dsprofiles.do_import(ep, rng, prof, items)
    for _ in range(rng.choice([0, 1, 2, 3])):
        dsprofiles.do_op(ep, rng, prof, items, dsprofiles.pick(rng, prof.ops))
    return ep, items


def crash_points(rng, steps, limit):
    pts = [(n, False) for n in range(steps)] + [(n, True) for n in range(steps)]
    return sorted(rng.sample(pts, min(limit, len(pts))))


def choose_op(ep, rng, items, kind):
    if kind == "import":
        n = min(len(items), rng.choice([1, 2, 3, 4]))
        return ep.op_import([i.id for i in rng.sample(items, n)], rng.choice(["default", "never", "always", "usn"]))
    if kind == "repack":
        return ep.op_maint("Repack", "repack")
    if kind == "check":
        return ep.op_maint("Check", "check")
    if kind == "remove":
        return ep.op_remove(dsprofiles.random_query(rng, items))
    if kind in ("tar", "zip"):
        return ep.op_maint("Convert", kind, how=kind, gs=0)
    if kind == "compress":
        gs = rng.choice([0, 1, 2, 512])
        return ep.op_maint("Convert", "compress", (gs,), how="compress", gs=gs)
    if kind == "archive":
        ss = [s for s in dsprofiles.segs(ep, "on") if os.path.exists(dsprofiles.index_path(ep, s))]
        arc = {s["p"] for s in dsprofiles.segs(ep, "arc")}
        ss = [s for s in ss if s["p"] not in arc]
        return ep.op_path("Archive", rng.choice(ss)["p"]) if ss else None
    if kind == "unarchive":
        on = {s["p"] for s in dsprofiles.segs(ep, "on")}
        ss = [s for s in dsprofiles.segs(ep, "arc") if s["p"] not in on and os.path.exists(dsprofiles.index_path(ep, s))]
        return ep.op_path("Unarchive", rng.choice(ss)["p"]) if ss else None
    raise AssertionError(kind)


class Died(Exception):
    pass


def crash_episode(drv, key, prof, kinds, limit=40, damage=False):
    rng = random.Random(key)
    ep = None
    try:
        ep, items = prepare(drv, rng, prof)
        ep.see_all(state=False)
        if rng.random() < 0.5:
            time.sleep(1.01)
        kind = dsprofiles.pick(rng, kinds)
        if kind in ("repack", "check") and rng.random() < 0.7:
            dsprofiles.do_op(ep, rng, prof, items, "remove")
        if kind == "check":
            dsprofiles.do_op(ep, rng, prof, items, "dmg:rmindex+rmsummary+stale")
        c = choose_op(ep, rng, items, kind)
        if c is None:
            return ep
        ep.snapshot()
        cmd, e = c
        steps = drv.ok("crashat", 1000000, 0, *cmd)["child"]["steps"]
        for n, partial in crash_points(rng, steps, limit):
            ep.restore()
            ep.crash(cmd, e, n, partial)
            if not ep.recover() or not ep.adopt():
                continue
            if e["op"] in ("Archive", "Unarchive"):
                z = "on" if e["op"] == "Archive" else "arc"
                o = "arc" if e["op"] == "Archive" else "on"
                ss = {(x["z"], x["p"]) for x in ep.disk()}
                if (z, e["path"]) not in ss or (o, e["path"]) in ss:
                    continue
            ep.run_again(cmd, e)
            ep.see_all(state=rng.random() < 0.5)
    except vlib.DriverDied as ex:
        if ep is None:
            raise
        ep.died = True
        ep.ev("Died", err=str(ex))
    finally:
        if ep:
            ep.cleanup()
    return ep


def fail_episode(drv, key, prof, limit=40):
    rng = random.Random(key)
    ep = None
    try:
        ep, items = prepare(drv, rng, prof)
        ep.see_all(state=False)
        if rng.random() < 0.5:
            time.sleep(1.01)
        ids = [i.id for i in rng.sample(items, min(len(items), rng.choice([1, 2, 3, 4])))]
        strategy = rng.choice(["default", "never", "always", "usn"])
        ep.snapshot()
        r = drv.ok("failat", 1000000, 5, 0, 0, FAIL_OPS, "import", ep.name, strategy, *[ep.items[i].spec() for i in ids])
        steps = r["child"]["steps"]
        for n, partial in crash_points(rng, steps, limit):
            ep.restore()
            errno = rng.choice([28, 5])
            sticky = rng.random() < 0.15
            again = ids if rng.random() < 0.5 else None
            raised = ep.fail(ids, strategy, n, errno, sticky and not again, partial, again)
            if raised is None:
                continue
            if raised:
                if ep.recover() and ep.adopt():
                    ep.imp(ids, strategy)
                    ep.see_all(state=False)
                continue
            if not again:
                ep.see_query()
                if rng.random() < 0.5:
                    ep.see_query(dsprofiles.random_query(rng, items))
                ep.imp(ids, strategy)
            ep.see_query()
            ep.see_summary()
            r = drv.cmd("check", ep.name, "f", "-")
            ep.ev("Observe")
            ep.see_query()
            ep.see_summary()
    except vlib.DriverDied as ex:
        if ep is None:
            raise
        ep.died = True
        ep.ev("Died", err=str(ex))
    finally:
        if ep:
            ep.cleanup()
    return ep


PROFILE = dsprofiles.Profile({"import": 3, "remove": 2, "repack": 1, "fixrepack": 1, "archive": 1, "compress": .5}, nitems=10)
KINDS = {
    "import": {"import": 1},
    "maint": {"repack": 2, "check": 2, "remove": 1, "tar": 1, "zip": 1, "compress": 1, "archive": 1.5, "unarchive": 1.5},
}

#: Where to find the known findings
DEMOS = {
    TRUNCATED: (dsprofiles.Profile({"import": 1}, nitems=6, conf={"type": "simple", "fmt": "grib"}), {"import": 1}),
    TORN_LINE: (dsprofiles.Profile({"import": 1}, nitems=6, conf={"type": "simple", "fmt": "vm2"}), {"import": 1}),
    TAR_SCAN: (dsprofiles.Profile({"import": 1}, nitems=6, conf={"type": "simple", "fmt": "odimh5"}), {"tar": 1}),
}


def runner(profile):
    mode, _, kind = profile.partition(":")
    if kind in DEMOS:
        return lambda drv, key: crash_episode(drv, key, *DEMOS[kind])
    if mode == "fail":
        return lambda drv, key: fail_episode(drv, key, PROFILE)
    return lambda drv, key: crash_episode(drv, key, PROFILE, KINDS[kind])
