"""Names of segments, searches for segments, times and intervals"""
import calendar
import os
import shutil

import dsgen
import dsprofiles
import vlib

STEPS = ["daily", "weekly", "biweekly", "monthly", "yearly", "single"]
FMTS = ["grib", "bufr", "vm2"]


def tup(s):
    """YYYYMMDDhhmmss to a list"""
    if s == "-" or int(s[4:6]) == 0:
        return []
    return [int(s[:4])] + [int(s[n:n + 2]) for n in range(4, 14, 2)]


def text(t):
    return "%04d%02d%02d%02d%02d%02d" % tuple(t)


def year(rng):
    return rng.choice([rng.randrange(1000, 3000), 1999, 2000, 1900, 2004, 2007, 2038, 9800])


def near(rng, y, mo):
    """A time near some boundary in a month"""
    dim = calendar.monthrange(y, mo)[1]
    d = rng.choice([1, 2, 7, 8, 14, 15, 16, 21, 22, 28, 29, dim - 1, dim, rng.randint(1, dim)])
    d = min(d, dim)
    return [y, mo, d] + rng.choice([[0, 0, 0], [23, 59, 59], [12, 30, 15], [rng.randrange(24), rng.randrange(60), rng.randrange(60)]])


def any_time(rng):
    return near(rng, year(rng), rng.choice([1, 2, 2, 3, 11, 12, rng.randint(1, 12)]))


def names(ep, rng):
    for step in STEPS:
        ts = [any_time(rng) for _ in range(25)]
        y, mo = ts[0][:2]
        # All days of a month
        ts += [[y, mo, d, h, 0, 0] for d in range(1, calendar.monthrange(y, mo)[1] + 1) for h in (0, 23)]
        r = ep.drv.cmd("step", step, *[text(t) for t in ts])
        res = [dict(x, lo=tup(x["lo"]), hi=tup(x["hi"])) for x in r.get("res", [])]
        paths = [x["path"] for x in res]
        ep.ev("Names", r, step=step, ts=ts, res=res, order=[n + 1 for n in sorted(range(len(paths)), key=lambda n: paths[n])])


def bounds(step, t):
    """Where to look around a time for more times in the same segment. The specification says which ones are"""
    y, mo, d = t[:3]
    dim = calendar.monthrange(y, mo)[1]
    if step == "daily":
        days = [(mo, d, d)]
    elif step == "weekly":
        first = (d - 1) // 7 * 7 + 1
        days = [(mo, first, min(first + 6, dim))]
    elif step == "biweekly":
        days = [(mo, 1, 15) if d < 16 else (mo, 16, dim)]
    elif step == "monthly":
        days = [(mo, 1, dim)]
    else:
        days = [(m, 1, calendar.monthrange(y, m)[1]) for m in range(1, 13)]
    res = []
    for m, a, b in days:
        for x in {a, b, (a + b) // 2}:
            res += [[y, m, x, 0, 0, 0], [y, m, x, 23, 59, 59], [y, m, x] + t[3:]]
    return res


def search(ep, rng):
    root = vlib.scratch_dir()
    try:
        step = rng.choice(STEPS)
        files, ts = [], {}
        y = rng.choice([2007, 2008, 1999, 2020])
        for _ in range(rng.choice([0, 1, 3, 8, 20])):
            t = near(rng, y + rng.choice([0, 0, 0, 1, -1, 12]), rng.choice([1, 2, 3, 6, 12, rng.randint(1, 12)]))
            fmt = rng.choice(["grib", "grib", "grib", "bufr", "vm2"])
            path = ep.drv.ok("step", step, text(t))["res"][0]["path"] + "." + fmt
            if (path, fmt) in ts:
                ts[path, fmt]["more"].append(t)
                continue
            full = os.path.join(root, path)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            kind = rng.choice(["", "", "/", ".tar", ".zip", ".gz"]) if step != "single" else rng.choice(["", "/"])
            if kind == "/":
                os.mkdir(full)
            else:
                open(full + kind, "w").close()
            if rng.random() < 0.5:
                for ext in (".metadata", ".summary", ".index"):
                    open(full + ext, "w").close()
            ts[path, fmt] = f = {"t": t, "fmt": fmt, "more": []}
            files.append(f)
        # What is not a segment
        for d in os.listdir(root):
            if os.path.isdir(os.path.join(root, d)) and rng.random() < 0.5:
                for n in ("README", "notes.txt", "01-01.tmp", "a-b.grib", ".hidden.grib", "01.grib.bak", "1999.grib.old"):
                    open(os.path.join(root, d, n), "w").close()
        for d in ("lost+found", ".archive", "20xx", "123"):
            if rng.random() < 0.3:
                os.makedirs(os.path.join(root, d))
        for f in files:
            f["es"] = sorted({vlib.epoch(text(x)) for x in [f["t"]] + f.pop("more") + bounds(step, f["t"])})
        fake = [type("T", (), {"t": text(f["t"])})() for f in files] or [type("T", (), {"t": text([y, 6, 1, 0, 0, 0])})()]
        for _ in range(8):
            rt = dsprofiles.random_rt(rng, fake) if rng.random() < 0.9 else []
            if rt == [] and rng.random() < 0.5:
                expr = "-"
            else:
                expr = "reftime:" + dsgen.rt_text(rt) if rt else "origin:GRIB1"
            fmt = rng.choice(["grib", "grib", "bufr"])
            r = ep.drv.cmd("step_list", step, root, fmt, expr,
                           *[ep.drv.ok("step", step, text(f["t"]))["res"][0]["path"] + "." + f["fmt"] for f in files])
            ep.ev("Search", r, step=step, text=expr, rt=rt, fmt=fmt, files=files, found=r.get("found", []), lo=tup(r.get("lo", "-")),
                  hi=tup(r.get("hi", "-")), pm=r.get("path_matches", []))
    finally:
        shutil.rmtree(root)


def pair(s):
    return [tup(x) for x in s.split(" ")]


def times(ep, rng):
    for _ in range(30):
        t = any_time(rng)
        d = [0] * 6
        for n in rng.sample(range(6), rng.choice([0, 1, 1, 2, 6])):
            d[n] = rng.choice([1, -1, rng.randint(-3, 3), rng.randint(-100, 100)]) * (rng.choice([1, 1, 30, 800]) if n > 2 else 1)
        r = ep.drv.cmd("time", text(t), *d)
        f = {k: tup(r.get(k, "-")) for k in ("norm", "som", "sonm", "sopm", "eom", "prev", "next", "iso", "iso_", "sql", "bin")}
        ep.ev("Time", r, t=t, d=d, is_som=r.get("is_som"), dim=r.get("dim"), diy=r.get("diy"), dur=[r.get("days"), r.get("secs")],
              cmp=r.get("cmp"), eq=r.get("eq"), lb=[tup(x) for x in r.get("lb", [])], ub=[tup(x) for x in r.get("ub", [])], **f)
        y = year(rng)
        pool = [near(rng, y, rng.choice([1, 2, 6, 12])) for _ in range(3)] + [[y, 3, 1, 0, 0, 0], [y + 1, 1, 1, 0, 0, 0], [y, 2, 1, 0, 0, 0], [y + 1, 2, 28, 0, 0, 1]]
        ivs = []
        for _ in range(2):
            a, b = rng.sample(pool, 2)
            while a == b:
                b = rng.choice(pool)
            a, b = sorted([a, b])
            ivs.append([a if rng.random() < 0.8 else [], b if rng.random() < 0.8 else []])
        r = ep.drv.cmd("interval", *[text(x) if x else "-" for i in ivs for x in i], *[text(t) for t in pool])
        ep.ev("Intervals", r, i1=ivs[0], i2=ivs[1], ts=pool, in_=r.get("in", []), contains=r.get("contains"), intersects=r.get("intersects"),
              spans=r.get("spans"), isect=r.get("isect"), isect_iv=pair(r.get("isect_iv", "- -")), extend=pair(r.get("extend", "- -")),
              months=[pair(x) for x in r.get("months", [])])
