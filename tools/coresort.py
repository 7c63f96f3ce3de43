"""Sorting, and splitting in batches"""
import os
import shutil

import corematch
import corestep
import vlib

STYLES = {"origin": {"GRIB1": 1, "GRIB2": 2, "BUFR": 3, "ODIMH5": 4}, "product": {"GRIB1": 1, "GRIB2": 2, "BUFR": 3, "ODIMH5": 4, "VM2": 5},
          "level": {"GRIB1": 1, "GRIB2S": 2, "GRIB2D": 3, "ODIMH5": 4}}
TYPES = ["origin", "product", "level", "run", "task", "timerange"]
FMTS = ["grib", "bufr", "vm2", "odimh5"]
TIMERANGES = [("Timedef(6h)", [2, 21600]), ("Timedef(360m)", [2, 21600]), ("Timedef(1d)", [2, 86400]), ("Timedef(2mo)", [3, 2]),
              ("Timedef(1y)", [3, 12]), ("Timedef(0s)", [2, 0])]


def order(t, it):
    """How a value is ordered, as integers"""
    if t == "task":
        return it["text"]
    if t == "run":
        return [int(it["v"][0])]
    res = [STYLES[t][it["st"]]]
    if t == "level" and it["st"] == "ODIMH5":
        return res + [it["min"], it["max"]]
    for v in it["v"]:
        if it["st"] == "ODIMH5":
            res += [ord(c) for c in v] + [-1]
        else:
            # What is missing is after what is not
            res.append(1 << 30 if v == "-" else int(v))
    if t == "level" and it["st"] == "GRIB1":
        res += [0] * (4 - len(res))
    return res


def make_item(rng, times, pools):
    text, item = [], {"t": [], "k": {}}
    for t in TYPES:
        if rng.random() < 0.8:
            s, k = rng.choice(pools[t])
            text.append(f"{t}={s}")
            item["k"][t] = k
    if rng.random() < 0.93:
        item["t"] = rng.choice(times)
        text.append("reftime=" + vlib.iso(corestep.text(item["t"])))
    return "|".join(text) or "-", item


def make_pools(rng):
    pools = {"timerange": rng.sample(TIMERANGES, 3)}
    for t in TYPES[:-1]:
        pools[t] = []
        while len(pools[t]) < 3:
            s, it = corematch.VALUES[t](rng)
            if not it.get("kv"):
                pools[t].append((s, order(t, it)))
    return pools


def make_times(rng, n=8):
    """Times at the two sides of boundaries of all the periods"""
    y = rng.choice([1999, 2000, 2008])
    base = [y, rng.choice([1, 2, 6]), rng.choice([1, 28, 15]), rng.choice([0, 12, 23]), rng.choice([0, 30, 59]), rng.choice([0, 30, 59])]
    res = [base]
    for _ in range(n):
        t = list(rng.choice(res))
        k = rng.randrange(6)
        t[k] = [y + rng.choice([0, 1, 2]), rng.choice([1, 2, 3, 12]), rng.choice([1, 2, 28]), rng.choice([0, 11, 12, 23]), rng.choice([0, 1, 59]), rng.choice([0, 1, 59])][k]
        res.append(t)
    return res


PERIODS = ["", "year", "month", "day", "hour", "minute"]


def sort(ep, rng):
    pools = make_pools(rng)
    for _ in range(30):
        times = make_times(rng)
        items = [make_item(rng, times, pools) for _ in range(rng.choice([0, 1, 2, 5, 10, 14]))]
        period = rng.choice(["", ""] + PERIODS)
        mode = rng.choice(["collection", "again", "stream", "stream"])
        if rng.random() < 0.7:
            n = PERIODS.index(period)
            items.sort(key=lambda i: i[1]["t"][:n])
            if rng.random() < 0.3:
                items.sort(key=lambda i: i[1]["t"])
        by = [{"t": t, "rev": rng.random() < 0.4} for t in rng.sample(TYPES + ["reftime"], rng.choice([0, 1, 1, 2, 3]))]
        if not by:
            expr = period + ":" if period else "-"
        else:
            sep = rng.choice([",", ", ", " , "])
            expr = (rng.choice([period, period.upper()]) + ":" if period else "") + sep.join(("-" if b["rev"] else rng.choice(["", "+"])) + b["t"] for b in by)
        stop = rng.choice([0, 0, 0, 1, 2, 5])
        r = ep.drv.cmd("sort", expr, mode, stop, *[t for t, _ in items])
        ep.ev("Sort", r, text=expr, period=period, by=by, mode=mode, stop=stop, items=[i for _, i in items], out=r.get("out", []), completed=r.get("completed", False))


def batch_items(ep, rng, count, no_reftime):
    times = make_times(rng, 4)
    texts, items = [], []
    fmts = rng.sample(FMTS, rng.choice([1, 1, 2]))
    trs = rng.sample(TIMERANGES, rng.choice([1, 2, 3]))
    fmt, tr, t = rng.choice(fmts), rng.choice(trs), rng.choice(times)
    for n in range(count):
        if rng.random() < 0.2:
            fmt = rng.choice(fmts)
        if rng.random() < 0.3:
            tr = rng.choice(trs + [None])
        if rng.random() < 0.5:
            t = rng.choice(times)
        size = rng.choice([1, 10, 10, 50, 100, rng.randint(1, 300)])
        item = {"t": [] if no_reftime and rng.random() < 0.2 else t, "k": {}, "fmt": fmt, "size": size}
        text = f"{chr(97 + n)}{n};"
        parts = [f"data={fmt}:{size}:{text}"]
        # Data in VM2 are lines, without the newline
        item["data"] = (text * size)[:size] + ("\n" if fmt == "vm2" else "")
        if item["t"]:
            parts.append("reftime=" + vlib.iso(corestep.text(t)))
        if tr:
            parts.append("timerange=" + tr[0])
            item["k"]["timerange"] = tr[1]
        texts.append("|".join(parts))
        items.append(item)
    return texts, items


def limits(rng):
    return {"count": rng.choice([0, 0, 1, 2, 3, 5]), "bytes": rng.choice([0, 0, 1, 50, 100, 250]), "interval": rng.choice([0, 0, 1, 2, 3, 4, 5]),
            "timerange": rng.random() < 0.4}


def batches(ep, rng):
    for _ in range(25):
        c = limits(rng)
        texts, items = batch_items(ep, rng, rng.choice([0, 1, 3, 8, 14]), not c["interval"])
        r = ep.drv.cmd("cluster", c["count"], c["bytes"], c["interval"], int(c["timerange"]), *texts)
        for i in items:
            del i["data"]
        ep.ev("Batches", r, items=items, batches=r.get("batches", []), closed=r.get("closed", []), **c)
    for _ in range(3):
        c = limits(rng)
        texts, items = batch_items(ep, rng, rng.choice([1, 3, 6]), not c["interval"])
        d = vlib.scratch_dir()
        try:
            r = ep.drv.cmd("xargs", c["count"], c["bytes"], PERIODS[c["interval"]] or "-", int(c["timerange"]), d, *texts)
            runs, n = [], 0
            while os.path.exists(f"{d}/{n}.env"):
                name, name1, fmt, count, lo, hi = open(f"{d}/{n}.env").read().split("\n")[:6]
                data = open(f"{d}/{n}.data").read()
                first = sum(len(x["items"]) for x in runs)
                got = []
                while first + len(got) < len(items) and data.startswith(items[first + len(got)]["data"]):
                    data = data[len(items[first + len(got)]["data"]):]
                    got.append(first + len(got) + 1)
                tup = [corestep.tup(x.translate(str.maketrans("", "", "-: TZ"))) if x else [] for x in (lo, hi)]
                runs.append({"items": got, "same": not data and name == name1 and os.path.dirname(name) == d, "fmt": fmt.lower(), "count": int(count),
                             "lo": tup[0], "hi": tup[1]})
                n += 1
            left = len([f for f in os.listdir(d) if not f.endswith((".env", ".data"))])
        finally:
            shutil.rmtree(d)
        for i in items:
            del i["data"]
        ep.ev("Programs", r, items=items, runs=runs, left=left, **c)
