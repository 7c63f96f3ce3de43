"""Run episodes of operations on real datasets, and record them as events for DatasetTrace."""
import gzip
import io
import json
import os
import re
import shutil
import sqlite3
import tarfile
import time
import zipfile

import vlib
from vlib import CheckError, epoch, tstr, iso

POSTPROC = os.path.join(vlib.VERIF, "harness", "postproc")

MAGIC = {"grib": b"GRIB", "bufr": b"BUFR", "vm2": b"VM2:", "odimh5": b"\x89HDF\r\n\x1a\n",
         "netcdf": b"CDF\x01....", "jpeg": b"\xff\xd8"}
TRAILER = {"grib": b"7777", "bufr": b"7777", "jpeg": b"\xff\xd9"}
SINGLE = ("grib", "bufr", "vm2")
FORMATS = ("grib", "bufr", "vm2", "odimh5", "netcdf", "jpeg")


class Item:
    def __init__(self, id, fmt, t, o="-", p="-", a="-", k="-", usn=-1, valid=True, pad=0):
        self.id, self.fmt, self.t, self.o, self.p, self.a, self.k = id, fmt, t, o, p, a, k
        self.usn, self.valid, self.pad = usn, valid, pad
        self.bytes = self.encode()
        self.size = len(self.bytes)

    def spec(self):
        return ",".join([self.id, self.fmt, self.t, self.o, self.p, self.a, self.k,
                         str(self.usn) if self.usn >= 0 else "-", "-" if self.valid else "B", str(self.pad)])

    def encode(self):
        body = ";".join(["", self.id, self.fmt, self.t, self.o, self.p, self.a, self.k,
                         str(self.usn) if self.usn >= 0 else "-", "-" if self.valid else "B", str(self.pad), ""]).encode()
        x = 17
        for c in self.id.encode():
            x = (x * 31 + c) & 0xffffffff
        pad = bytearray()
        for _ in range(self.pad):
            x = (x * 1103515245 + 12345) & 0xffffffff
            pad.append(97 + ((x >> 16) % 26))
        body += bytes(pad) + b"#"
        m, tr = MAGIC[self.fmt], TRAILER.get(self.fmt, b"")
        if not self.valid and tr:
            tr = b"0" * len(tr)
        tot = len(m) + 7 + len(body) + len(tr)
        res = m + b"@%06d" % tot + body + tr
        if not self.valid and not tr:
            res = b"X" + res[1:]
        return res

    def tla(self):
        return {"t": [] if self.t == "-" else [int(self.t[0:4])] + [int(self.t[n:n + 2]) for n in range(4, 14, 2)],
                "o": self.o, "p": self.p, "a": self.a, "k": self.k, "usn": self.usn, "size": self.size,
                "fmt": self.fmt, "valid": self.valid}


HEAD = re.compile(rb"(?:GRIB|BUFR|VM2:|\x89HDF\r\n\x1a\n|CDF\x01\.\.\.\.|\xff\xd8)@(\d{6});([^;]*);", re.S)


def decode_stream(buf, items, lines=False):
    """[[id, cond]...] for the payloads concatenated in buf"""
    res = []
    pos = 0
    while pos < len(buf):
        m = HEAD.match(buf, pos)
        if not m:
            res.append(["?%d" % pos, "junk"])
            return res
        size = int(m.group(1))
        id = m.group(2).decode()
        if id not in items:
            res.append(["?" + id, "junk"])
            return res
        exp = items[id].bytes + (b"\n" if lines else b"")
        got = buf[pos:pos + len(exp)]
        if got == exp:
            res.append([id, "ok"])
        elif len(got) < len(exp):
            res.append([id, "cut"])
            return res
        else:
            res.append([id, "bad"])
        pos += len(exp)
    return res


def decode_one(buf, items):
    r = decode_stream(buf, items)
    return r[0] if len(r) == 1 else ["?multi", "junk"]


RE_SEG = re.compile(r"^(.+\.(grib|bufr|vm2|odimh5|netcdf|jpeg))(\.tar|\.zip|\.gz|)$")


def read_zone(root, zone, items):
    """Decode all segment data under root: list of {z,p,k,s}"""
    res = []
    for dp, dns, fns in os.walk(root):
        dns.sort()
        rel = os.path.relpath(dp, root)
        for dn in list(dns):
            if dn.startswith("."):
                dns.remove(dn)
                continue
            m = RE_SEG.match(dn)
            if not m:
                continue
            dns.remove(dn)
            p = os.path.normpath(os.path.join(rel, dn))
            if m.group(3) or not os.path.exists(os.path.join(dp, dn, ".sequence")):
                if m.group(3):
                    res.append({"z": zone, "p": p, "k": "odd", "s": []})
                    continue
            nums = {}
            for fn in os.listdir(os.path.join(dp, dn)):
                mm = re.match(r"^(\d{6})\.(\w+)$", fn)
                if mm:
                    with open(os.path.join(dp, dn, fn), "rb") as fd:
                        nums[int(mm.group(1))] = decode_one(fd.read(), items)
            res.append({"z": zone, "p": p, "k": "dir", "s": [nums[n] for n in sorted(nums)]})
        for fn in sorted(fns):
            m = RE_SEG.match(fn)
            if not m:
                continue
            p = os.path.normpath(os.path.join(rel, m.group(1)))
            path = os.path.join(dp, fn)
            ext = m.group(3)
            fmt = m.group(2)
            try:
                if ext == "":
                    with open(path, "rb") as fd:
                        buf = fd.read()
                    kind = "lines" if fmt == "vm2" else "concat"
                    s = decode_stream(buf, items, fmt == "vm2")
                elif ext == ".gz":
                    with gzip.open(path, "rb") as fd:
                        buf = fd.read()
                    kind = "gzidx" if os.path.exists(path + ".idx") else "gz"
                    s = decode_stream(buf, items, fmt == "vm2")
                elif ext == ".tar":
                    kind = "tar"
                    s = []
                    with tarfile.open(path) as tf:
                        for ti in tf:
                            s.append(decode_one(tf.extractfile(ti).read(), items))
                else:
                    kind = "zip"
                    s = []
                    with zipfile.ZipFile(path) as zf:
                        for n in sorted(zf.namelist()):
                            s.append(decode_one(zf.read(n), items))
            except Exception as e:
                kind, s = "unreadable " + type(e).__name__, []
            res.append({"z": zone, "p": p, "k": kind, "s": s})
    return res


def matcher_date(e):
    t = tstr(e)
    return f"{t[0:4]}-{t[4:6]}-{t[6:8]} {t[8:10]}:{t[10:12]}:{t[12:14]}"


FOREVER = 2000000000


OPS = {"ge": ">=", "gt": ">", "le": "<=", "lt": "<", "eq": "="}


def clause(op="none", v=(), step=0, base=-1):
    """A clause of an expression on the reference time, as in Reftime.tla"""
    return {"op": op, "v": list(v), "step": step, "base": base}


def clause_text(c):
    res = ""
    if c["op"].startswith("t"):
        res = OPS[c["op"][1:]] + ":".join("%02d" % x for x in c["v"])
    elif c["op"] != "none":
        v = c["v"]
        res = OPS[c["op"]] + "-".join(("%04d" if n == 0 else "%02d") % x for n, x in enumerate(v[:3]))
        if len(v) > 3:
            res += " " + ":".join("%02d" % x for x in v[3:])
    if c["base"] >= 0:
        res += "@%02d:%02d:%02d" % (c["base"] // 3600, c["base"] // 60 % 60, c["base"] % 60)
    if c["step"]:
        s = c["step"]
        res += " %%%dh" % (s // 3600) if s % 3600 == 0 else " %%%dm" % (s // 60) if s % 60 == 0 else " %%%ds" % s
    return res


def rt_text(rt):
    return " or ".join(",".join(clause_text(c) for c in alt) for alt in rt)


def sort_text(sort):
    return (sort["period"] + ":" if sort["period"] else "") + ",".join(("-" if rev else "") + k for k, rev in sort["keys"])


class Q:
    """A query"""

    def __init__(self, lo=-FOREVER, hi=FOREVER, o=(), p=(), a=(), k=(), rt=()):
        self.lo, self.hi = lo, hi
        self.rt = list(rt)
        self.o, self.p, self.a, self.k = tuple(o), tuple(p), tuple(a), tuple(k)

    def tla(self):
        return {"lo": self.lo, "hi": self.hi, "o": list(self.o), "p": list(self.p), "a": list(self.a), "k": list(self.k), "rt": self.rt}

    def matcher(self):
        res = []
        rt = []
        if self.rt:
            rt.append(rt_text(self.rt))
        if self.lo > -FOREVER:
            rt.append(">=" + matcher_date(self.lo))
        if self.hi < FOREVER:
            rt.append("<" + matcher_date(self.hi))
        if rt:
            res.append("reftime:" + ",".join(rt))
        if self.o:
            res.append("origin:" + " or ".join(f"GRIB1,{v}" for v in self.o))
        if self.p:
            res.append("product:" + " or ".join(f"GRIB1,1,2,{v}" for v in self.p))
        if self.a:
            res.append("area:" + " or ".join(f"GRIB:x={v}" for v in self.a))
        if self.k:
            res.append("task:" + " or ".join(self.k))
        return "; ".join(res) or "-"


class Conf:
    #: Do not flush data to disk
    lazy = False
    #: Names of the programs that can be used to postprocess data (none: all)
    postprocess = ()

    def __init__(self, type="iseg", step="daily", fmt="grib", unique=("origin", "product", "area", "task"), replace="never",
                 archive_age=-1, delete_age=-1, gz=None, smallfiles=False, index=()):
        self.type, self.step, self.fmt, self.unique, self.replace = type, step, fmt, tuple(unique), replace
        self.archive_age, self.delete_age = archive_age, delete_age
        self.gz = gz
        self.smallfiles = smallfiles
        self.index = tuple(index)

    def tla(self):
        return {"type": self.type, "step": self.step, "fmt": self.fmt, "unique": list(self.unique) if self.type == "iseg" else [],
                "replace": self.replace, "gz": 512 if self.gz is None else self.gz, "archive_age": self.archive_age, "delete_age": self.delete_age}

    def args(self, path):
        res = [f"type={self.type}", f"step={self.step}", f"path={path}"]
        if self.type == "iseg":
            res.append(f"format={self.fmt}")
            res.append("unique=" + ", ".join(("reftime",) + self.unique))
            if self.index:
                res.append("index=" + ", ".join(("reftime",) + self.index))
        res.append("replace=" + {"never": "no", "always": "yes", "usn": "USN"}[self.replace])
        if self.archive_age >= 0:
            res.append(f"archive age={self.archive_age}")
        if self.delete_age >= 0:
            res.append(f"delete age={self.delete_age}")
        if self.gz is not None:
            res.append(f"gz group size={self.gz}")
        if self.smallfiles:
            res.append("smallfiles=yes")
        if self.postprocess:
            res.append("postprocess=" + (", ", ",", "  ")[len(self.postprocess) % 3].join(self.postprocess))
        if self.lazy:
            res.append("eatmydata=yes")
        return res


def g1(s):
    return [str(int(x)) for x in re.findall(r"\d+", s)[1:]]


def attrs(i):
    return {"o": "-" if i["o"] == "-" else g1(i["o"])[0],
            "p": "-" if i["p"] == "-" else g1(i["p"])[2],
            "a": "-" if i["a"] == "-" else re.findall(r"\d+", i["a"])[0],
            "k": i["t"]}


def sum_items(reply):
    """Summary reply to what the spec expects"""
    res = []
    for i in reply["items"]:
        res.append({**attrs(i), "count": i["count"], "size": i["size"],
                    "begin": epoch(i["begin"]), "end": epoch(i["end"])})
    return res


class Episode:
    """A history of operations on a dataset"""

    def __init__(self, drv, conf, items, now, name="ds", desc=None):
        self.drv = drv
        self.conf = conf
        self.items = {i.id: i for i in items}
        self.events = []
        self.now = now
        self.died = False
        # Known findings that have been met
        self.found = set()
        # Some data has been damaged and cannot be read
        self.unreadable = False
        # Something has been changed from outside, and not checked yet
        self.uncached = False
        # A segment has been damaged in a way that makes it unsafe to import
        # until it is fixed
        self.truncated = False
        # Some data has been removed
        self.removed = False
        self.root = vlib.scratch_dir("ep")
        self.path = os.path.join(self.root, name)
        os.mkdir(self.path)
        self.name = name
        drv.ok("session")
        drv.ok("chdir", self.root)
        drv.ok("nowait", 1)
        drv.ok("now", now)
        drv.ok("ds", name, *conf.args(self.path))
        self.bad = []   # direct inconsistencies: observations that cannot be represented in the trace
        self.ev("Reset", items={i.id: i.tla() for i in items}, conf=conf.tla(), now=now)

    def cleanup(self):
        shutil.rmtree(self.root, ignore_errors=True)

    #: Name of the archive
    arcname = "last"

    def ev(self, op, err=None, **kw):
        e = {"op": op, "err": err is not None}
        if err is not None:
            e["errmsg"] = err
        e.update(kw)
        self.events.append(e)
        return e

    def tick(self, now):
        self.now = now
        self.drv.ok("now", now)
        self.ev("Tick", now=now)

    @staticmethod
    def error(r):
        return None if r.get("ok") else r.get("error", "?")[:300]

    def imp(self, ids, strategy="default"):
        r = self.drv.cmd("import", self.name, strategy, *[self.items[i].spec() for i in ids])
        res = []
        for n, x in enumerate(r.get("results", [])):
            v = x["r"]
            # What can be read back from an item that has been imported must be the item
            if v == "OK" and not (x["md"].get("bytes") and x["md"].get("id") == ids[n] and x["md"].get("md")):
                v = "UNREADABLE"
            res.append(v)
        return self.ev("Import", self.error(r), batch=list(ids), strategy=strategy, res=res)

    def remove(self, q):
        r = self.drv.cmd("remove", self.name, q.matcher())
        self.removed = True
        return self.ev("Remove", self.error(r), query=q.tla(), count=r.get("count", -1))

    KINDS = {"manual", "repack", "rescan", "deindex", "archive", "remove", "aborted", "issue51"}

    def reports(self, r):
        on, arc = set(), set()
        for x in r.get("reports", []):
            k = x["k"]
            if k in self.KINDS:
                v = (k, x.get("seg", ""))
                if x["ds"] == self.name:
                    on.add(v)
                else:
                    arc.add(v)
        return {"rep": sorted(map(list, on)), "arep": sorted(map(list, arc))}

    @staticmethod
    def flags(fix, accurate=False, online=True, offline=True):
        return ("f" if fix else "") + ("a" if accurate else "") + ("" if online else "n") + ("" if offline else "o")

    #: Interval of the segments to work on, as a query, for the next maintenance operation
    filter = None

    def filtered(self):
        """Use up the filter: matcher, and what to tell about it"""
        f, self.filter = self.filter, None
        return (f.matcher(), {"only": [f.lo, f.hi]}) if f else ("-", {})

    def maint(self, op, cmd, fix, accurate=False, online=True, offline=True, extra=(), **kw):
        matcher, only = self.filtered()
        r = self.drv.cmd(cmd, self.name, self.flags(fix, accurate, online, offline), matcher, *extra)
        return self.ev(op, self.error(r), fix=fix, accurate=accurate, online=online, offline=offline, **self.reports(r), **only, **kw)

    def check(self, fix, accurate=False, online=True, offline=True):
        if fix and online and offline and not self.filter:
            self.uncached = False
            self.truncated = self.unreadable
        return self.maint("Check", "check", fix, accurate, online, offline)

    def repack(self, fix, online=True, offline=True):
        return self.maint("Repack", "repack", fix, False, online, offline)

    def remove_old(self, fix, online=True, offline=True):
        return self.maint("RemoveOld", "remove_old", fix, False, online, offline)

    def remove_all(self, fix, online=True, offline=True):
        return self.maint("RemoveAll", "remove_all", fix, False, online, offline)

    def convert(self, how, gs, fix=True, online=True, offline=True):
        if how == "compress":
            return self.maint("Convert", "compress", fix, False, online, offline, (gs,), how=how, gs=gs)
        return self.maint("Convert", how, fix, False, online, offline, how=how, gs=0)

    def archive(self, path):
        r = self.drv.cmd("archive", self.name, path)
        return self.ev("Archive", self.error(r), path=path)

    def unarchive(self, path):
        r = self.drv.cmd("unarchive", self.name, path)
        return self.ev("Unarchive", self.error(r), path=path)

    def rename_archive(self, name):
        """Give a name of its own to the last archive"""
        os.rename(self.zroot("arc"), os.path.join(self.path, ".archive", name))
        self.arcname = name
        self.ev("Rename")

    # Observations, added to the last event (or to a new Observe event)

    def target(self):
        if self.events[-1]["op"] in ("Reset", "Tick"):
            self.ev("Observe")
        return self.events[-1]

    def see(self, key, err, val):
        e = self.target()
        if err is not None:
            e["err"] = True
            e["errmsg"] = f"{key}: {err}"
        elif key in ("qs", "qns", "qlim", "qpost", "sums"):
            e.setdefault(key, []).append(val)
        else:
            e[key] = val

    def ids(self, r):
        """Ids of the items returned by a query, checking data and metadata"""
        res = []
        for x in r.get("items", []):
            id = x.get("id", "?")
            if not x.get("bytes"):
                id = "?unreadable"
            elif not (x.get("md") and x.get("szok")):
                id = "?mdmismatch-" + id
            elif self.items[id].t != re.sub(r"\D", "", x["rt"])[:14]:
                id = "?rt-" + id
            res.append(id)
        return res

    def see_query(self, q=None, withdata=True, sort=None):
        r = self.drv.cmd("query", self.name, q.matcher() if q else "-", sort_text(sort) if sort else "-", 1 if withdata else 0)
        if not withdata:
            self.see("qns", self.error(r), {"q": (q or Q()).tla(), "recs": [
                {**attrs(x), "e": epoch(re.sub(r"\D", "", x["rt"])[:14]), "size": x["dsize"]} for x in r.get("items", [])]})
        elif q is None and sort is None:
            self.see("q", self.error(r), self.ids(r))
        else:
            self.see("qs", self.error(r), {"q": (q or Q()).tla(), "ids": self.ids(r), **({"sort": sort} if sort else {})})

    def see_stopped(self, q, limit, sort=None):
        """A query whose consumer stops after some items"""
        r = self.drv.cmd("query", self.name, q.matcher(), sort_text(sort) if sort else "-", 1, limit)
        self.see("qlim", self.error(r), {"q": q.tla(), "ids": self.ids(r), "limit": limit, "complete": r.get("complete", False),
                                         "sort": sort or {"period": "", "keys": []}})

    def see_bytes(self, q=None):
        q = q or Q()
        r = self.drv.cmd("query_bytes", self.name, q.matcher(), "-")
        ids = list(r.get("ids", []))
        if r.get("junk"):
            ids.append("?junk")
        self.see("qs", self.error(r), {"q": q.tla(), "ids": ids})

    def see_post(self, q, how, sort=None, infile=True):
        """A query with its data passed to a program"""
        dest = os.path.join(self.root, "post") if infile else "mem"
        r = self.drv.cmd("query_post", self.name, q.matcher(), sort_text(sort) if sort else "-", dest, os.path.join(POSTPROC, "pp-" + how) + ("  a   -b" if how == "args" else ""))
        if not r.get("ok"):
            return self.see("qpost", r["error"], None)
        allowed = not self.conf.postprocess or "pp-" + how in self.conf.postprocess
        ids = self.ids(r)
        if r["junk"] and how != "early":
            ids.append("?junk")
        self.see("qpost", None, {"q": q.tla(), "ids": ids, "how": how if allowed else "refuse", "failed": r["failed"], "allowed": allowed,
                                 "told": "went wrong" in r["why"],
                                 "sort": sort or {"period": "", "keys": []}})

    def see_summary(self, q=None):
        r = self.drv.cmd("summary", self.name, q.matcher() if q else "-")
        if not r.get("ok"):
            return self.see("sum", r["error"], None)
        if q is None:
            self.see("sum", None, sum_items(r))
        else:
            self.see("sums", None, {"q": q.tla(), "items": sum_items(r)})

    def disk(self):
        return read_zone(self.path, "on", self.items) + \
            (read_zone(self.zroot("arc"), "arc", self.items) if os.path.isdir(self.zroot("arc")) else [])

    def see_disk(self):
        self.see("disk", None, self.disk())

    def see_state(self, accurate=False):
        matcher, only = self.filtered()
        r = self.drv.cmd("state", self.name, self.flags(False, accurate), matcher)
        if not r.get("ok"):
            return self.see("state", r["error"], None)
        on, arc = [], []
        for x in r["reports"]:
            if "seg" not in x:
                continue
            m = re.match(r"^([A-Z0-9_]+(?:,[A-Z0-9_]+)*) .* to ", x["msg"])
            if m is None:
                continue
            states = [s for s in m.group(1).split(",") if s != "OK"]
            (on if x["ds"] == self.name else arc).append([x["seg"], states])
        self.see("state", None, {"accurate": accurate, "on": on, "arc": arc, **only})

    def see_all(self, state=True):
        self.see_query(withdata=not self.unreadable)
        if not self.uncached:
            self.see_summary()
        self.see_disk()
        if state:
            self.see_state()

    # Damage

    def zroot(self, zone):
        return self.path if zone == "on" else os.path.join(self.path, ".archive", self.arcname)

    def damage(self, zone, path, how, n=0):
        """Damage a segment from outside. n is a 1-based slot number"""
        self.uncached = True
        if how in ("corrupt", "cutlast", "rmslot"):
            self.unreadable = True
        if how != "corrupt" or path.endswith(".bufr"):
            self.truncated = True
        ap = os.path.join(self.zroot(zone), path)
        seg = [x for x in self.disk() if x["z"] == zone and x["p"] == path][0]
        data = ap + {"tar": ".tar", "zip": ".zip", "gz": ".gz", "gzidx": ".gz"}.get(seg["k"], "")
        iseg = self.conf.type == "iseg" and zone == "on"
        idx = ap + (".index" if iseg else ".metadata")
        newest = max(os.stat(f).st_mtime for f in self.seg_files(data) + ([idx] if os.path.exists(idx) else []))
        if how == "rmindex":
            os.unlink(idx)
            if os.path.exists(ap + ".summary"):
                os.unlink(ap + ".summary")
        elif how == "rmdata":
            if os.path.isdir(data):
                shutil.rmtree(data)
            else:
                os.unlink(data)
            if os.path.exists(data + ".idx"):
                os.unlink(data + ".idx")
        elif how == "rmsummary":
            os.unlink(ap + ".summary")
        elif how == "stale":
            # What matters is that the metadata is older than the data
            for f in (idx, ap + ".summary"):
                if os.path.exists(f):
                    t = min(os.stat(x).st_mtime for x in self.seg_files(data)) - 10
                    os.utime(f, (t, t))
        elif how == "older":
            # As if restored from a backup
            for f in self.seg_files(data) + [idx, ap + ".summary"]:
                if os.path.exists(f):
                    t = os.stat(f).st_mtime - 100000
                    os.utime(f, (t, t))
        elif how in ("corrupt", "cutlast", "rmslot"):
            times = [(f, os.stat(f).st_mtime) for f in self.seg_files(data)]
            sizes = [self.items[i].size + (1 if seg["k"] == "lines" else 0) for i, c in seg["s"]]
            if seg["k"] == "dir":
                fns = sorted(f for f in os.listdir(data) if re.match(r"^\d{6}\.", f))
                fn = os.path.join(data, fns[n - 1])
                if how == "rmslot":
                    os.unlink(fn)
                    times = [x for x in times if x[0] != fn]
                elif how == "cutlast":
                    os.truncate(fn, sizes[n - 1] - 3)
                else:
                    with open(fn, "r+b") as fd:
                        fd.seek(sizes[n - 1] - 2)
                        fd.write(b"00")
            else:
                if how == "cutlast":
                    os.truncate(data, sum(sizes) - 3)
                else:
                    with open(data, "r+b") as fd:
                        fd.seek(sum(sizes[:n]) - 4)
                        fd.write(b"0000")
            for f, t in times:
                os.utime(f, (t, t))
        else:
            raise CheckError("unknown damage " + how)
        self.ev("Damage", zone=zone, path=path, how=how, n=n)

    @staticmethod
    def seg_files(data):
        if os.path.isdir(data):
            return [data] + [os.path.join(data, f) for f in os.listdir(data)]
        return [data]

    def rmmanifest(self):
        self.uncached = True
        os.unlink(os.path.join(self.path, "MANIFEST"))
        self.ev("RmManifest")

    def dont(self):
        with open(os.path.join(self.path, "needs-check-do-not-pack"), "w"):
            pass
        self.ev("Dont")
