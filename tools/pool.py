"""Episodes with several datasets: dispatch, simulated dispatch, and merged queries, recorded as events for PoolTrace"""
import os
import random
import re
import shutil

import dsgen
import dsprofiles
import vlib
from dsgen import Conf, Item, Q, FORMATS
from vlib import epoch

DAY = 86400
#: Known findings that can be met here, see known-findings.txt
SIM_DUPS = "simulated-duplicates"
SIM_FORMATS = "simulated-formats"


def bt(t):
    return [int(t[0:4])] + [int(t[n:n + 2]) for n in range(4, 14, 2)]


class Pool:
    def __init__(self, drv, dss, items, now):
        """dss: list of (name, role, Conf, filter)"""
        self.drv, self.items, self.now = drv, {i.id: i for i in items}, now
        self.names = sorted(d[0] for d in dss)
        self.confs = {n: c for n, _, c, _ in dss}
        self.roles = {n: r for n, r, _, _ in dss}
        self.events = []
        self.found = set()
        self.died = False
        self.root = vlib.scratch_dir("pool")
        drv.ok("session")
        drv.ok("chdir", self.root)
        drv.ok("nowait", 1)
        drv.ok("now", now)
        confs = {}
        for n, role, c, f in dss:
            path = os.path.join(self.root, n)
            os.mkdir(path)
            args = [a for a in c.args(path) if not a.startswith("type=")] + ["type=" + role]
            if f is not None:
                args.append("filter=" + f.matcher())
            drv.ok("ds", n, *args)
            confs[n] = {**c.tla(), "role": role, "filter": (f or Q()).tla()}
        drv.ok("pool", *self.names)
        self.ev("Reset", items={i.id: i.tla() for i in items},
                confs=confs, names=self.names, now=now, nowt=bt(vlib.tstr(now)))

    def cleanup(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def ev(self, op, r=None, **kw):
        e = {"op": op, "err": r is not None and not r.get("ok"), **kw}
        if e["err"]:
            e["errmsg"] = r.get("error", "?")[:300]
        self.events.append(e)
        return e

    def specs(self, ids):
        return [self.items[i].spec() for i in ids]

    def results(self, r, ids, mds):
        out = []
        for i, x in zip(ids, r.get("results", [])):
            v = x["r"]
            if mds and v == "OK" and not (x["md"].get("bytes") and x["md"].get("id") == i):
                v = "UNREADABLE"
            out.append([v, x["dest"]])
        return out

    def dispatch(self, ids, rejected, simulate=False):
        r = self.drv.cmd("dispatch", "test" if simulate else "real", "+".join(rejected) or "-", *self.specs(ids))
        return self.ev("Simulate" if simulate else "Dispatch", r, batch=list(ids), rejected=list(rejected),
                       out=self.results(r, ids, not simulate), outfail=r.get("outfail", -1))

    def imp(self, name, ids):
        r = self.drv.cmd("import", name, "default", *self.specs(ids))
        self.ev("Import", r, ds=name, batch=list(ids), res=[x[0] for x in self.results(r, ids, True)])

    def remove(self, name, q):
        r = self.drv.cmd("remove", name, q.matcher())
        self.ev("Remove", r, ds=name, query=q.tla())

    def archive(self, name, path):
        r = self.drv.cmd("archive", name, path)
        self.ev("Archive", r, ds=name, path=path)

    def damage(self, name):
        """Make a dataset impossible to read"""
        with open(os.path.join(self.root, name, "MANIFEST"), "w") as fd:
            fd.write("not a manifest\n")
        self.ev("Break", ds=name)

    def ids(self, r):
        """Ids of what was read, checking data and metadata"""
        res = []
        for x in r.get("items", []):
            id = x.get("id", "?")
            if not x.get("bytes"):
                id = "?unreadable"
            elif not (x.get("szok")):
                id = "?mdmismatch-" + id
            elif self.items[id].t != "-" and not (x.get("md") and self.items[id].t == re.sub(r"\D", "", x["rt"])[:14]):
                id = "?mdmismatch-" + id
            res.append(id)
        return res

    def mquery(self, q, sort=None, limit=None):
        r = self.drv.cmd("mquery", "-", q.matcher(), dsgen.sort_text(sort) if sort else "-", 1, *([limit] if limit else []))
        self.ev("MQuery", r, q=q.tla(), sort=sort or {"period": "", "keys": [["reftime", False]]}, limit=limit or -1,
                ids=self.ids(r), complete=r.get("complete", False))

    def msummary(self, q):
        r = self.drv.cmd("msummary", "-", q.matcher())
        self.ev("MSummary", r, q=q.tla(), sum=dsgen.sum_items(r) if r.get("ok") else [])

    def disk(self, n):
        p = os.path.join(self.root, n)
        arc = os.path.join(p, ".archive", "last")
        return dsgen.read_zone(p, "on", self.items) + (dsgen.read_zone(arc, "arc", self.items) if os.path.isdir(arc) else [])

    def observe(self):
        res, bad = {}, None
        for n in self.names:
            r = self.drv.cmd("query", n, "-", "-", 1)
            if not r.get("ok"):
                bad = r
            res[n] = {"q": self.ids(r), "disk": self.disk(n)}
        self.ev("Observe", bad, ds=res)

    def label(self, sim, real):
        """Find what is different between a simulated and a real dispatch, among the known findings"""
        for a, b in zip(sim["out"], real["out"]):
            if a == b:
                continue
            self.found.add(SIM_DUPS if b[1] == "duplicates" else SIM_FORMATS)
        if sim["outfail"] != real["outfail"]:
            self.found.add(SIM_FORMATS)


def some_filter(rng, items):
    r = rng.random()
    if r < 0.6:
        return Q(**{rng.choice("oa"): (rng.choice(["1", "2"]),)})
    if r < 0.8:
        return Q(p=tuple(rng.sample(["1", "2", "3"], rng.choice([1, 2]))))
    q = dsprofiles.random_query(rng, [i for i in items if i.t != "-"], rt=0.2)
    return q if q.matcher() != "-" else Q(k=("t1",))


def random_pool(drv, rng, ndata=(1, 3), special=True, outbounds=True, ages=0.25, nitems=18, fmts=0.3, undated=0.15):
    base_conf = dsprofiles.random_conf(rng, type="simple", step="daily")
    several = rng.random() < fmts
    formats = rng.sample(FORMATS, 2) if several else [rng.choice(FORMATS)]
    items = dsprofiles.random_items(rng, base_conf, n=nitems, fmts=formats)
    es = sorted(epoch(i.t) for i in items)
    now = es[-1] + rng.randrange(2 * DAY)
    if special and rng.random() < undated:
        for n in rng.sample(range(nitems), 2):
            i = items[n]
            items[n] = Item(i.id, i.fmt, "-", i.o, i.p, i.a, i.k, i.usn, pad=i.pad)

    def conf(**kw):
        c = dsprofiles.random_conf(rng, fmt=rng.choice(formats), **kw)
        if rng.random() < ages:
            span = (es[-1] - es[0]) // DAY + 2
            a, d = rng.randrange(span + 2), rng.randrange(span + 2)
            r = rng.random()
            if r < 0.3:
                c.archive_age = a
            elif r < 0.6:
                c.delete_age = d
            else:
                c.archive_age, c.delete_age = min(a, d), max(a, d)
        return c
    dss = []
    split = rng.choice(["o", "o", "a", None])
    names = rng.sample(["alpha", "beta", "delta", "gamma", "zeta", "Err"], rng.randint(*ndata))
    for n, name in enumerate(names):
        c = conf()
        f = Q(**{split: (str(n + 1),)}) if split and rng.random() < 0.8 else some_filter(rng, items)
        dss.append((name, c.type, c, f))
    if special:
        role = rng.choice(["error", "error", "simple", "iseg"])
        c = conf(type="iseg" if role == "iseg" else "simple")
        dss.append(("error", role, c, None))
        role = rng.choice(["duplicates", "duplicates", "simple", "iseg"])
        c = conf(type="iseg" if role == "iseg" else "simple")
        dss.append(("duplicates", role, c, None))
    if outbounds:
        for name in rng.sample(["out1", "Aout", "mout"], rng.choice([0, 1, 1, 2])):
            dss.append((name, "outbound", conf(type="simple"), some_filter(rng, items)))
    return Pool(drv, dss, items, now), items


def batch(rng, items):
    ids = [i.id for i in items]
    n = rng.choice([1, 2, 3, 5, 8, 12])
    if rng.random() < 0.3:
        return [rng.choice(ids) for _ in range(n)]
    return rng.sample(ids, min(n, len(ids)))


def ending(p, body):
    try:
        body()
    except vlib.DriverDied as e:
        p.died = True
        p.ev("Died", {"error": str(e)})
    finally:
        p.cleanup()
    return p


def dispatch_episode(drv, rng, simulate):
    p, items = random_pool(drv, rng)

    def body():
        for _ in range(rng.randint(2, 6)):
            ids = batch(rng, items)
            rejected = rng.choice([["t1"], ["t2"], ["t1", "t2"], ["t2", "t1"], ["t1", "t9"]]) if rng.random() < 0.35 else []
            sim = None
            if simulate:
                sim = p.dispatch(ids, rejected, True)
                p.observe()
            real = p.dispatch(ids, rejected)
            if sim:
                p.label(sim, real)
            p.observe()
            if rng.random() < 0.2:
                n = rng.choice([x for x in p.names if p.roles[x] != "outbound"])
                p.remove(n, dsprofiles.random_query(rng, [i for i in items if i.t != "-"]))
                p.observe()
    return ending(p, body)


def merged_episode(drv, rng):
    p, items = random_pool(drv, rng, ndata=(1, 5), special=False, outbounds=rng.random() < 0.2, ages=0, nitems=rng.choice([10, 20, 40, 80]), fmts=0.2)
    dated = [i for i in items]

    def body():
        data = [n for n in p.names if p.roles[n] != "outbound"]
        for _ in range(rng.randint(1, 7)):
            n = rng.choice(data)
            c = p.confs[n]
            mine = [i.id for i in items if c.type == "simple" or i.fmt == c.fmt]
            if not mine:
                continue
            fmt = p.items[rng.choice(mine)].fmt
            mine = [i for i in mine if p.items[i].fmt == fmt]
            p.imp(n, rng.sample(mine, rng.randint(1, len(mine))))
            if rng.random() < 0.15:
                disk = p.disk(n)
                segs = sorted({x["p"] for x in disk if x["z"] == "on"} - {x["p"] for x in disk if x["z"] == "arc"})
                if segs:
                    p.archive(n, rng.choice(segs))
            if rng.random() < 0.15:
                p.remove(n, dsprofiles.random_query(rng, dated))
        p.observe()
        broken = [n for n in data if p.confs[n].type == "simple"]
        for n in range(6):
            if n == 4 and broken and rng.random() < 0.3:
                p.damage(rng.choice(broken))
            q = dsprofiles.random_query(rng, dated) if rng.random() < 0.6 else Q()
            sort = dsprofiles.random_sort(rng) if rng.random() < 0.3 else None
            limit = rng.choice([1, 2, 5, 9, 10, 11, 12, 20, 30]) if rng.random() < 0.4 else None
            p.mquery(q, sort, limit)
            if rng.random() < 0.4:
                p.msummary(dsprofiles.random_query(rng, dated) if rng.random() < 0.5 else Q())
    return ending(p, body)


MODES = {"dispatch": lambda drv, rng: dispatch_episode(drv, rng, False),
         "simulate": lambda drv, rng: dispatch_episode(drv, rng, True),
         "merged": merged_episode}


def runner(profile):
    mode = MODES[profile.split(":")[1]]
    return (lambda drv, key: mode(drv, random.Random(key))), "dsdrv", "PoolTrace", "PoolTrace.cfg"
