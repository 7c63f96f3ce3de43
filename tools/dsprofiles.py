"""Random episodes for each of the properties about datasets"""
import os
import random

import dsgen
import vlib
from dsgen import Conf, Episode, Item, Q, SINGLE, FORMATS

DAY = 86400


def pick(rng, weights):
    tot = sum(weights.values())
    x = rng.random() * tot
    for k, w in weights.items():
        x -= w
        if x < 0:
            return k
    return k


# Not single: the monthly caches of the summary of an iseg dataset would be made for each month from 1000 to 100000
STEPS_ISEG = ("daily", "daily", "weekly", "biweekly", "monthly", "yearly")
STEPS_SIMPLE = ("daily", "daily", "weekly", "biweekly", "monthly", "yearly", "single")
SPREAD = {"daily": 3 * DAY, "weekly": 20 * DAY, "biweekly": 40 * DAY, "monthly": 75 * DAY, "yearly": 800 * DAY, "single": 100 * DAY}
BASES = ("20070701000000", "20071230000000", "20080227000000", "19991231000000", "20070101000000", "20121001120000")


def random_conf(rng, **fixed):
    type = fixed.pop("type", None) or rng.choice(["iseg", "iseg", "simple"])
    step = fixed.pop("step", None) or rng.choice(STEPS_ISEG if type == "iseg" else STEPS_SIMPLE)
    fmt = fixed.pop("fmt", None) or rng.choice(FORMATS)
    kw = {}
    kw["unique"] = rng.choice([("origin", "product", "area", "task"), ("origin", "product"), (), ("origin", "task"), ("area",)])
    kw["replace"] = rng.choice(["never", "always", "usn"])
    kw["index"] = rng.choice([(), ("origin",), ("origin", "product", "area")])
    kw["gz"] = rng.choice([None, 0, 1, 2, 3])
    kw["smallfiles"] = rng.random() < 0.3
    kw.update(fixed)
    return Conf(type=type, step=step, fmt=fmt, **kw)


def random_items(rng, conf, n=14, fmts=None, base=None, spread=None):
    base = vlib.epoch(base or rng.choice(BASES))
    spread = spread or SPREAD[conf.step]
    # Few distinct times, some close to the boundaries of segments
    times = []
    for _ in range(rng.randint(3, 7)):
        e = base + rng.randrange(spread)
        r = rng.random()
        if r < 0.3:
            e -= e % DAY
        elif r < 0.5:
            e = e - e % DAY + DAY - 1
        elif r < 0.7:
            e -= e % (DAY // 4)
        times.append(e)
    res = []
    missing = rng.random() < 0.4
    for i in range(n):
        fmt = rng.choice(fmts) if fmts else conf.fmt

        def val(vs):
            return "-" if missing and rng.random() < 0.3 else rng.choice(vs)
        res.append(Item(f"{chr(97 + i % 26)}{i}", fmt, vlib.tstr(rng.choice(times)), o=val(["1", "2"]), p=val(["1", "2", "3"]),
                        a=val(["1", "2"]), k=val(["t1", "t2"]), usn=rng.choice([-1, 1, 2, 3]) if fmt == "bufr" or rng.random() < 0.5 else -1,
                        pad=rng.choice([0, 1, 5, 30, 100, 700]) if rng.random() < 0.97 else rng.choice([5000, 20000])))
        if rng.random() < 0.06:
            # Fill blocks exactly
            while res[-1].size % 512 and res[-1].pad < 2000:
                i = res.pop()
                res.append(Item(i.id, i.fmt, i.t, o=i.o, p=i.p, a=i.a, k=i.k, usn=i.usn, pad=i.pad + (512 - i.size) % 512))
    return res


def random_clause(rng, items):
    """A clause on a time close to the one of an item"""
    t = vlib.tstr(vlib.epoch(rng.choice(items).t) + rng.choice([0, 0, 0, -1, 1, -DAY, DAY]))
    v = [int(t[0:4])] + [int(t[n:n + 2]) for n in range(4, 14, 2)]
    step, base = 0, -1
    r = rng.random()
    if r < 0.35:
        step = rng.choice([3600, 7200, 10800, 21600, 43200, 86400, 60, 600, 1800, 25200, 1, 5, 90000])
        if rng.random() < 0.3:
            base = rng.choice([v[3] * 3600, v[3] * 3600 + v[4] * 60, v[3] * 3600 + v[4] * 60 + v[5], 0, 10800])
    op = rng.choice(["ge", "gt", "le", "lt", "eq"])
    r = rng.random()
    if r < 0.2 and step:
        return dsgen.clause("none", (), step, base)
    if r < 0.5:
        return dsgen.clause("t" + op, v[3:3 + rng.choice([1, 2, 3])], step, base)
    return dsgen.clause(op, v[:rng.randint(1, 6)], step, base)


def random_rt(rng, items):
    return [[random_clause(rng, items) for _ in range(rng.choice([1, 1, 1, 2]))] for _ in range(rng.choice([1, 1, 1, 2, 3]))]


def random_sort(rng, conf=None):
    keys = rng.sample(["reftime", "origin", "product", "area", "task"], rng.choice([1, 1, 2, 3]))
    return {"period": rng.choice(["", "", "minute", "hour", "day", "month", "year"]), "keys": [[k, rng.random() < 0.4] for k in keys]}


def random_query(rng, items, rt=0.0):
    q = Q()
    if rng.random() < rt:
        q.rt = random_rt(rng, items)
    elif rng.random() < 0.7:
        es = sorted(vlib.epoch(i.t) for i in items)

        def bound():
            e = rng.choice(es)
            r = rng.random()
            if r < 0.4:
                return e
            if r < 0.5:
                return e + 1
            if r < 0.7:
                return e - e % DAY
            if r < 0.8:
                return e - e % DAY + DAY
            if r < 0.9:
                t = vlib.tstr(e)
                return vlib.epoch(t[:6] + "01000000")
            t = vlib.tstr(e)
            y, m = int(t[:4]), int(t[4:6]) + 1
            if m > 12:
                y, m = y + 1, 1
            return vlib.epoch("%04d%02d01000000" % (y, m))
        a, b = bound(), bound()
        r = rng.random()
        if r < 0.25:
            q.lo = a
        elif r < 0.5:
            q.hi = b
        else:
            q.lo, q.hi = min(a, b), max(a, b)
            if q.lo == q.hi:
                q.hi += rng.choice([1, DAY])
    for f, vs in (("o", ["1", "2"]), ("p", ["1", "2", "3"]), ("a", ["1", "2"]), ("k", ["t1", "t2"])):
        if rng.random() < 0.25:
            setattr(q, f, tuple(rng.sample(vs, rng.choice([1, 1, 2]))))
    return q


class Profile:
    """What to do in a random episode"""

    def __init__(self, ops, length=(4, 10), conf=None, items=None, observe=1.0, state=0.5, queries=0, summaries=0, ages=0.0, setup=1,
                 nitems=14, fmts=None, bytes=0.0, rt=0.1, sort=0.1, stop=0.0, post=0.0, filter=0.1):
        self.ops, self.length, self.conf, self.items = ops, length, conf or {}, items or {}
        self.observe, self.state, self.queries, self.summaries = observe, state, queries, summaries
        self.ages, self.setup, self.nitems, self.fmts, self.bytes = ages, setup, nitems, fmts, bytes
        self.rt, self.sort, self.stop, self.post, self.filter = rt, sort, stop, post, filter


def segs(ep, zone=None):
    return [x for x in ep.disk() if zone is None or x["z"] == zone]


def listed(ep):
    try:
        with open(os.path.join(ep.path, "MANIFEST")) as fd:
            return {line.split(";")[0] for line in fd if line.strip()}
    except FileNotFoundError:
        return set()


def stale(ep, seg):
    """Check if the data of a segment of a simple dataset is newer than its metadata"""
    idx = index_path(ep, seg)
    if idx.endswith(".index") or not os.path.exists(idx):
        return False
    ap = os.path.join(ep.zroot(seg["z"]), seg["p"])
    for suffix in ("/.sequence", "", ".tar", ".zip", ".gz"):
        if os.path.exists(ap + suffix):
            return os.stat(ap + suffix).st_mtime > os.stat(idx).st_mtime
    return False


def index_path(ep, seg):
    ap = os.path.join(ep.zroot(seg["z"]), seg["p"])
    return ap + (".index" if ep.conf.type == "iseg" and seg["z"] == "on" else ".metadata")


#: Programs for postprocessing
POST = ("copy", "copy", "copy2", "args", "slow", "fail", "killed", "deaf", "early", "refuse")


def observe(ep, rng, prof, items):
    if rng.random() >= prof.observe:
        return
    # Damaged data cannot be read
    ep.see_query(withdata=not ep.unreadable)
    # Caches of summaries do not follow changes made from outside, until the
    # dataset is checked
    if not ep.uncached:
        ep.see_summary()
    ep.see_disk()
    for _ in range(prof.queries):
        q = random_query(rng, items, prof.rt)
        if ep.unreadable:
            ep.see_query(q, withdata=False)
        elif rng.random() < prof.post:
            ep.see_post(q if rng.random() < 0.6 else Q(), rng.choice(POST), random_sort(rng) if rng.random() < 0.3 else None, infile=rng.random() < 0.6)
        elif rng.random() < prof.stop:
            ep.see_stopped(q, rng.choice([1, 1, 2, 3, 5, 8]), random_sort(rng) if rng.random() < max(prof.sort, 0.3) else None)
        elif rng.random() < prof.sort:
            ep.see_query(q, sort=random_sort(rng))
        elif rng.random() < prof.bytes:
            ep.see_bytes(q)
        else:
            ep.see_query(q, withdata=rng.random() < 0.7)
    for _ in range(prof.summaries if not ep.uncached else 0):
        ep.see_summary(random_query(rng, items, prof.rt))
    if rng.random() < prof.state:
        ep.filter = random_filter(ep, rng, prof, items)
        ep.see_state(accurate=rng.random() < 0.5)


def period_start(step, t):
    """Start of the period of the segment of t"""
    day = int(t[6:8])
    first = {"daily": day, "weekly": day - (day - 1) % 7, "biweekly": 16 if day > 15 else 1}.get(step, 1)
    return vlib.epoch(t[:4] + ("01" if step == "yearly" else t[4:6]) + "%02d000000" % first)


def random_filter(ep, rng, prof, items):
    """
    From time to time, work only on the segments in an interval. It begins and
    ends where segments do, since simple datasets look at the data that the
    segments have, and the others at their names. Data that was damaged may
    leave simple datasets without knowing the interval.
    """
    if rng.random() >= prof.filter or ep.conf.step == "single" or ep.truncated or ep.unreadable:
        return None
    bounds = sorted({period_start(ep.conf.step, i.t) for i in items})
    f = Q(o=rng.choice([(), (), ("1",)]))
    if len(bounds) > 1 and rng.random() < 0.4:
        f.lo, f.hi = sorted(rng.sample(bounds, 2))
    elif rng.random() < 0.5:
        f.lo = rng.choice(bounds)
    else:
        f.hi = rng.choice(bounds)
    return f


def do_import(ep, rng, prof, items):
    if ep.truncated:
        # Data would be appended to what is not what the index says
        return
    n = min(len(items), rng.choice([1, 1, 2, 3, 4, 6] if len(items) < 40 else [1, 6, 25, 40]))
    ids = [i.id for i in rng.sample(items, n)]
    if rng.random() < 0.1:
        ids.append(rng.choice(ids))
    ep.imp(ids, rng.choice(["default", "default", "never", "always", "usn"]))


def do_damage(ep, rng, prof, items, hows):
    ss = [s for s in segs(ep) if s["s"] and all(c == "ok" for _, c in s["s"]) and s["k"] in ("concat", "lines", "dir")]
    if not ss:
        return False
    s = rng.choice(ss)
    how = rng.choice(hows)
    if how == "rmindex" and not os.path.exists(index_path(ep, s)):
        return False
    if how == "rmsummary" and (index_path(ep, s).endswith(".index") or
                               not os.path.exists(index_path(ep, s)[:-8] + "summary")):
        return False
    n = rng.randint(1, len(s["s"]))
    if ep.unreadable or (ep.uncached and how in ("corrupt", "cutlast", "rmslot")):
        # Combinations like rescanning data that cannot be scanned
        return False
    if how == "rmdata" and (not os.path.exists(index_path(ep, s)) or (ep.conf.type == "simple" and ep.uncached)):
        # There would be no trace left of the segment
        return False
    if how in ("corrupt", "rmslot", "cutlast"):
        if not os.path.exists(index_path(ep, s)):
            return False
        if how == "corrupt" and ep.items[s["s"][0][0]].fmt not in ("grib", "bufr"):
            return False
        if how == "rmslot" and s["k"] != "dir":
            return False
        if how == "rmslot" and len(ep.drv.cmd("query", ep.name, "-", "-", 0).get("items", [])) != sum(len(x["s"]) for x in segs(ep)):
            # Only remove elements that are indexed
            return False
        if how == "cutlast":
            n = len(s["s"])
            if s["k"] == "lines" or s["k"] == "dir":
                return False
    ep.damage(s["z"], s["p"], how, n)
    return True


def do_op(ep, rng, prof, items, op):
    b = lambda p=0.5: rng.random() < p
    if op in ("check", "fix", "mockrepack", "repack", "removeold", "removeall", "tar", "zip", "compress"):
        ep.filter = random_filter(ep, rng, prof, items)
    if op == "import":
        do_import(ep, rng, prof, items)
    elif op == "remove":
        q = random_query(rng, items, prof.rt)
        ep.remove(q)
    elif op == "removeall_q":
        ep.remove(Q())
    elif op == "check":
        ep.check(False, accurate=b(), online=b(0.9), offline=b(0.9))
    elif op == "fix":
        ep.check(True, accurate=b(), online=b(0.9), offline=b(0.9))
    elif op == "mockrepack":
        ep.repack(False, online=b(0.9), offline=b(0.9))
    elif op == "repack":
        ep.repack(True, online=b(0.9), offline=b(0.9))
    elif op == "fixrepack":
        ep.check(True, accurate=b())
        ep.repack(True)
    elif op == "removeold":
        ep.remove_old(b(0.8), online=b(0.8), offline=b(0.8))
    elif op == "removeall":
        ep.remove_all(b(0.8), online=b(0.8), offline=b(0.5))
    elif op in ("tar", "zip", "compress"):
        f, ep.filter = ep.filter, None
        if ep.conf.type == "simple" and not listed(ep) >= {s["p"] for s in segs(ep, "on")}:
            # Segments not in the MANIFEST cannot be converted
            return False
        if op == "tar" and any(os.path.exists(index_path(ep, s)) and not os.path.exists(index_path(ep, s)[:-8] + "summary")
                               for s in segs(ep) if index_path(ep, s).endswith(".metadata")):
            # They would need to be scanned by the next check, and scanning
            # data in tar files is not implemented
            return False
        if ep.removed and any(stale(ep, s) for s in segs(ep)):
            # Converting resurrects the removed data, without telling summaries
            return False
        ep.filter = f
        ep.convert(op, rng.choice([0, 1, 2, 3, 512]), fix=b(0.9), online=b(0.8), offline=b(0.8))
    elif op == "archive":
        ss = [s for s in segs(ep, "on") if os.path.exists(index_path(ep, s))]
        if ep.arcname != "last":
            return False
        arc = {s["p"] for s in segs(ep, "arc")}
        # It fails, if the archive already has it
        ss = [s for s in ss if s["p"] not in arc or b(0.2)]
        if not ss:
            return False
        ep.archive(rng.choice(ss)["p"])
    elif op == "unarchive":
        if ep.arcname != "last":
            return False
        on = {s["p"] for s in segs(ep, "on")}
        ss = [s for s in segs(ep, "arc") if (s["p"] not in on or b(0.2)) and os.path.exists(index_path(ep, s))]
        if not ss:
            return False
        ep.unarchive(rng.choice(ss)["p"])
    elif op == "rename":
        # Nothing more is archived after this, so the segments of an archive are always in a single place
        if ep.arcname != "last" or ep.conf.archive_age >= 0 or not segs(ep, "arc"):
            return False
        ep.rename_archive(rng.choice(["2007", "aaa", "zzz", "last1", "old data"]))
    elif op == "tick":
        es = sorted(vlib.epoch(i.t) for i in items)
        ep.tick(rng.choice(es) + rng.choice([0, DAY, 3 * DAY, 10 * DAY, 40 * DAY, 400 * DAY]) + rng.randrange(DAY))
    elif op == "dont":
        ep.dont()
    elif op == "rmmanifest":
        if ep.conf.type != "simple" or not os.path.exists(os.path.join(ep.path, "MANIFEST")) or ep.uncached or ep.unreadable:
            return False
        if any(s["k"] == "tar" for s in segs(ep, "on")):
            # Scanning data in tar files is not implemented
            return False
        ep.rmmanifest()
    elif op.startswith("dmg:"):
        return do_damage(ep, rng, prof, items, op[4:].split("+"))
    elif op == "observe":
        ep.ev("Observe")
    else:
        raise AssertionError(op)
    return True


def random_episode(drv, rng, prof):
    conf_kw = dict(prof.conf)
    for k, v in list(conf_kw.items()):
        if isinstance(v, list):
            conf_kw[k] = rng.choice(v)
    conf = random_conf(rng, **conf_kw)
    fmts = prof.fmts if conf.type == "simple" or rng.random() < 0.2 else None
    # From time to time, many items in few segments
    crowd = rng.random() < 0.05
    items = random_items(rng, conf, n=44 if crowd else prof.nitems, fmts=fmts, **prof.items)
    es = sorted(vlib.epoch(i.t) for i in items)
    now = es[-1] + rng.randrange(2 * DAY)
    if rng.random() < prof.ages:
        span = (es[-1] - es[0]) // DAY + 2
        a, d = rng.randrange(span + 2), rng.randrange(span + 2)
        r = rng.random()
        if r < 0.3:
            conf.archive_age = a
        elif r < 0.6:
            conf.delete_age = d
        else:
            conf.archive_age, conf.delete_age = min(a, d), max(a, d)
    if prof.post and rng.random() < 0.4:
        conf.postprocess = tuple(sorted({"pp-" + rng.choice(POST) for _ in range(3)}))
    ep = Episode(drv, conf, items, now)
    try:
        for _ in range(prof.setup):
            do_import(ep, rng, prof, items)
            observe(ep, rng, prof, items)
        for _ in range(rng.randint(*prof.length)):
            op = pick(rng, prof.ops)
            if do_op(ep, rng, prof, items, op):
                observe(ep, rng, prof, items)
        if ep.events[-1]["op"] != "Observe":
            ep.ev("Observe")
            ep.see_all()
    except vlib.DriverDied as e:
        ep.died = True
        ep.ev("Died", err=str(e))
    finally:
        ep.cleanup()
    return ep


PROFILES = {
    # A bit of everything, with increasing ranges of operations
    "basic": Profile({"import": 5, "remove": 2, "check": 1, "fix": 1, "mockrepack": 1, "repack": 1, "fixrepack": 1, "observe": 0.3},
                     queries=1, summaries=1),
    "all": Profile({"import": 5, "remove": 2, "check": 1, "fix": 1, "mockrepack": 1, "repack": 1, "fixrepack": 1, "archive": 1.5, "unarchive": 1,
                    "tar": 0.5, "zip": 0.5, "compress": 1, "tick": 0.5, "removeall": 0.2, "dont": 0.2}, ages=0, queries=1, summaries=1),
    "age": Profile({"import": 5, "remove": 1, "check": 1, "fix": 1, "mockrepack": 1, "repack": 1, "fixrepack": 2, "tick": 2, "removeold": 1}, ages=1.0,
                   queries=1, summaries=1),
    "damage": Profile({"import": 3, "remove": 1, "check": 1, "fix": 2, "mockrepack": 1, "repack": 1, "fixrepack": 2, "archive": 0.5, "rmmanifest": 0.3,
                       "dmg:rmindex": 0.5, "dmg:rmdata": 0.5, "dmg:stale": 0.5, "dmg:corrupt+rmslot+cutlast": 0.5, "dmg:rmsummary": 0.3, "dmg:older": 0.3}, queries=1, summaries=1),
    "renames": Profile({"import": 4, "archive": 4, "rename": 1.5, "remove": 1, "repack": 1, "fix": 1, "check": 0.5, "mockrepack": 0.5, "tar": 0.4, "zip": 0.4, "compress": 0.7,
                        "fixrepack": 0.5, "removeall": 0.3, "removeold": 0.3, "tick": 0.3, "dont": 0.2, "dmg:rmindex": 0.2, "dmg:stale": 0.2}, ages=0.2,
                       length=(5, 11), queries=2, summaries=2, nitems=16, fmts=FORMATS),
    # Focused on single guarantees
    "imports": Profile({"import": 10, "tick": 0.5, "fixrepack": 0.5, "remove": 0.5, "observe": 0.5}, length=(5, 12), ages=0.15, queries=1, bytes=0.4,
                       fmts=FORMATS, nitems=20, state=0.2),
    "dups": Profile({"import": 10, "remove": 1, "fix": 0.5, "repack": 0.5, "fixrepack": 0.5}, conf={"type": "iseg"}, length=(5, 12), nitems=9, queries=1,
                    summaries=1),
    "queries": Profile({"import": 5, "remove": 1, "archive": 1, "unarchive": 0.5, "fixrepack": 1, "compress": 0.5}, length=(3, 8), nitems=22, queries=6,
                       bytes=0.3, fmts=FORMATS, state=0, rt=0.4, sort=0.2, stop=0.15),
    "summaries": Profile({"import": 5, "remove": 2, "archive": 1, "unarchive": 0.5, "fixrepack": 1, "repack": 0.5, "removeall": 0.2, "removeold": 0.3, "tick": 0.3,
                          "compress": 0.3, "tar": 0.3, "rename": 0.3},
                         length=(4, 9), nitems=20, summaries=5, ages=0.3, fmts=FORMATS, state=0),
    "repack": Profile({"import": 5, "remove": 3, "repack": 3, "fixrepack": 1, "mockrepack": 1, "compress": 0.7, "tar": 0.4, "zip": 0.4, "dont": 0.2},
                      length=(5, 10), queries=1, bytes=0.3, state=1),
    "archive": Profile({"import": 4, "archive": 4, "unarchive": 3, "remove": 1, "repack": 1, "fix": 1, "tar": 0.4, "zip": 0.4, "compress": 0.7,
                        "fixrepack": 0.5, "rename": 0.5}, length=(5, 11), queries=2, summaries=1, nitems=16, fmts=FORMATS),
    "remove": Profile({"import": 4, "remove": 5, "fixrepack": 1, "fix": 0.5, "tar": 0.4, "zip": 0.4, "compress": 0.7, "removeall_q": 0.1, "removeall": 0.1},
                      length=(4, 9), queries=2, summaries=1, nitems=18),
    "convert": Profile({"import": 3, "tar": 1.5, "zip": 1.5, "compress": 3, "archive": 1, "unarchive": 0.5, "remove": 1, "repack": 1, "fixrepack": 1, "fix": 1},
                       length=(4, 10), queries=2, summaries=1, bytes=0.5, nitems=18, sort=0.4),
    "post": Profile({"import": 5, "remove": 0.5, "archive": 1, "compress": 0.7, "tar": 0.4, "zip": 0.4, "fixrepack": 0.5}, length=(2, 5), nitems=22, queries=5,
                    fmts=FORMATS, state=0, rt=0.1, sort=0, post=1.0),
    "sorted": Profile({"import": 6, "archive": 1, "unarchive": 0.3, "remove": 0.5, "compress": 0.3, "fixrepack": 0.5}, length=(3, 6), nitems=24, queries=8,
                      fmts=FORMATS, state=0, rt=0.1, sort=1.0, stop=0.15),
    "states": Profile({"import": 4, "remove": 1, "check": 2, "fix": 0.7, "mockrepack": 2, "repack": 0.5, "tick": 0.5, "archive": 0.5, "rmmanifest": 0.2,
                       "dmg:rmindex": 0.5, "dmg:rmdata": 0.5, "dmg:stale": 0.5, "dmg:corrupt+rmslot+cutlast": 0.8, "dmg:rmsummary": 0.3, "dmg:older": 0.3},
                      ages=0.4, state=1),
    "manifest": Profile({"import": 5, "remove": 1, "fix": 1, "repack": 1, "rmmanifest": 1, "dmg:rmsummary": 0.3, "dmg:stale": 0.3, "dmg:older": 0.4, "archive": 1, "unarchive": 0.5,
                         "mockrepack": 0.5, "fixrepack": 1, "dont": 0.3, "tar": 0.3, "compress": 0.3}, conf={"type": "simple"}, queries=2, summaries=2,
                        fmts=FORMATS, nitems=18),
}


#: Known findings that can be met here, see known-findings.txt
ACROSS = "sort-across-segments"


def sort_across(drv, key):
    """
    Sort with no period, or with one longer than the segments, the data of
    several segments: each is sorted, and they come one after the other
    """
    rng = random.Random(key)
    conf = random_conf(rng, step="daily", fmt="grib", type=key)
    t = ["20070707000000", "20070708000000", "20070708120000", "20070709000000"]
    ep = Episode(drv, conf, [Item(f"i{n}", "grib", t[n], o="1", p=p, a="1", k="t1") for n, p in enumerate("3213")], vlib.epoch("20300101000000"))
    try:
        ep.imp(["i0", "i1", "i2", "i3"])
        for period in ("", "month"):
            ep.see_query(Q(), sort={"period": period, "keys": [["product", False]]})
        got = [x["ids"] for x in ep.events[-1]["qs"]]
        if got != [["i2", "i1", "i0", "i3"]] * 2:
            ep.found.add(ACROSS)
    finally:
        ep.cleanup()
    return ep
