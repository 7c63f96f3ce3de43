"""Episodes on real datasets where all system calls are recorded, for DurableTrace"""
import os
import random
import re
import sqlite3

import dsgen
import dsprofiles
import vlib

RE_DATA = re.compile(r"^(.+?\.(?:grib|bufr|vm2|odimh5|netcdf|jpeg))(?:\.tar|\.zip|\.gz|\.gz\.idx|/[0-9]+\.\w+)?$")
RE_INDEX = re.compile(r"^(.+)\.index(-wal)?$")
RE_META = re.compile(r"^(.+)\.(metadata|summary)$")
KINDS = {"write", "create", "link", "fsync", "rename", "unlink", "rmdir"}


def classify(path):
    """Type of a file, and the segment it belongs to"""
    path = path.replace("/./", "/")
    if path.endswith("/MANIFEST") or path == "MANIFEST":
        return "manifest", "-"
    for t, r in (("index", RE_INDEX), ("meta", RE_META), ("data", RE_DATA)):
        m = r.match(path)
        if m:
            return t, re.sub(r"\.(tar|zip|gz)$", "", m.group(1)) if t == "meta" else m.group(1)
    return "other", "-"


def split(path):
    return [x for x in path.split("/") if x and x != "."]


class Recorder:
    """Driver that records the system calls of all commands that go through it"""

    #: Commands that do not change datasets, or that are not for them
    PLAIN = {"session", "chdir", "nowait", "now", "ds", "state", "query", "summary", "sysroot", "segments"}

    def __init__(self, drv):
        self.drv = drv
        self.calls = []

    def cmd(self, *args):
        if args[0] in self.PLAIN:
            return self.drv.cmd(*args)
        r = self.drv.ok("trace", *args)
        self.calls += r["events"]
        return r["res"]

    def ok(self, *args):
        r = self.cmd(*args)
        if not r.get("ok"):
            raise vlib.CheckError(f"{args}: {r}")
        return r


class DurableEpisode(dsgen.Episode):
    def __init__(self, drv, conf, items, now, lazy):
        self.lazy = lazy
        self.with_readers = False
        conf.lazy = lazy
        super().__init__(drv, conf, items, now)
        drv.ok("sysroot", self.path)

    def ev(self, op, err=None, **kw):
        # What we need instead of the events of DatasetTrace
        if op == "Reset":
            return super().ev("Reset", lazy=self.lazy)
        if op in ("Tick", "Observe"):
            return {}
        self.flush()
        if op == "Import":
            segs = kw.pop("segs")
            # Whether operations should work is not decided here
            return super().ev("Ack", None, segs=segs, why=err or "")
        return super().ev("Done", None, what=op, why=err or "")

    def flush(self):
        for c in self.drv.calls:
            k = c["op"]
            if k == "create" and c["arg"] == 2:
                k = "link"
            if k not in KINDS or c["path"].endswith((".index-shm", "/lock", "/.sequence")):
                continue
            t, s = classify(c["path"])
            e = {"op": "Sys", "err": False, "k": k, "p": split(c["path"]), "t": t, "s": s}
            if k == "rename":
                e["qt"], e["qs"] = classify(c["path2"])
                e["q"] = split(c["path2"])
            self.events.append(e)
        self.drv.calls = []

    def imp(self, ids, strategy="default"):
        """Import, and stop recording before the writer has another chance to flush anything"""
        self.drv.drv.ok("open_writer", "w", self.name)
        readers = self.open_indices() if self.with_readers else []
        r = self.drv.cmd("wimport", "w", strategy, *[self.items[i].spec() for i in ids])
        segs = []
        for n, x in enumerate(r.get("results", [])):
            # (what is older than the delete age is not stored)
            if x["r"] == "OK" and x["md"].get("file", "inline") != "inline":
                segs.append(x["md"]["file"])
        self.ev("Import", self.error(r), segs=sorted(set(segs)))
        self.drv.ok("close", "w")
        for db in readers:
            db.close()

    def open_indices(self):
        """
        Keep the indices open as a query would, so that they are not
        reorganised (and flushed) when the writer is done with them
        """
        res = []
        for dp, dns, fns in os.walk(self.path):
            for fn in fns:
                if fn.endswith(".index"):
                    db = sqlite3.connect(os.path.join(dp, fn), check_same_thread=False)
                    db.execute("SELECT COUNT(*) FROM sqlite_master").fetchall()
                    res.append(db)
        return res


#: Operations that may drop or move data
OPS = {"import": 4, "remove": 1.5, "repack": 1, "fixrepack": 1.5, "tar": 1, "zip": 1, "compress": 1.5, "archive": 1.5, "unarchive": 1.5,
       "fix": 1, "dmg:rmindex": .5, "dmg:rmsummary": .3, "tick": .5}


def episode(drv, key):
    rng = random.Random(key)
    prof = dsprofiles.Profile(OPS, nitems=10)
    conf = dsprofiles.random_conf(rng)
    items = dsprofiles.random_items(rng, conf, n=10)
    now = max(vlib.epoch(i.t) for i in items) + rng.randrange(2 * dsprofiles.DAY)
    if rng.random() < 0.25:
        conf.archive_age = rng.randrange(20)
    ep = DurableEpisode(Recorder(drv), conf, items, now, lazy=rng.random() < 0.1)
    try:
        dsprofiles.do_import(ep, rng, prof, items)
        for _ in range(rng.choice([4, 6, 8, 10])):
            ep.with_readers = rng.random() < 0.5
            dsprofiles.do_op(ep, rng, prof, items, dsprofiles.pick(rng, prof.ops))
    except vlib.DriverDied as ex:
        ep.died = True
        dsgen.Episode.ev(ep, "Died", str(ex))
    finally:
        ep.cleanup()
    return ep


def runner(profile):
    return episode
