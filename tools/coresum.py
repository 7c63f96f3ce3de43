"""Summaries of random items"""
import re

import corematch
import vlib

UNIT = 1009


def size(text):
    """In units, to stay within the integers of TLC"""
    n = int(text)
    return n // UNIT if n % UNIT == 0 else -1


def tup(t):
    return vlib.epoch(t)


def units(m):
    """The same length is the same value, in any unit"""
    n, u = int(m.group(1)), m.group(2)
    return f"{n * 12}mo" if u == "y" else f"{n}mo" if u == "mo" else f"{n * corematch.UNITS[u]}s"


def key(k):
    if k.get("timerange", "").startswith(("BUFR", "GRIB1", "Timedef")):
        return {**k, "timerange": re.sub(r"(\d+)(mo|[smhdy])", units, k["timerange"])}
    return k


def rows(rs):
    return [{"k": key(r["k"]), "n": r["n"], "size": size(r["size"]), "lo": tup(r["lo"]), "hi": tup(r["hi"])} for r in rs]


def summary(ep, rng):
    ep.drv.ok("aliases")
    base = vlib.epoch("20071231000000")
    for _ in range(16):
        pools = {t: [f(rng) for _ in range(rng.choice([1, 2, 2, 3]))] for t, f in corematch.VALUES.items()}
        some = rng.choice([0.2, 0.6, 0.9])
        big = rng.random() < 0.3
        texts, items = [], []
        for _ in range(rng.choice([0, 1, 2, 5, 12, 12, 25, 40])):
            text, md = [], {}
            for t in pools:
                if rng.random() < some:
                    s, md[t] = rng.choice(pools[t])
                    text.append(f"{t}={s}")
            e = base + rng.choice([0, 1, -1, 86399, 86400, rng.randrange(80 * 86400), -rng.randrange(80 * 86400)])
            text.append("reftime=" + vlib.iso(vlib.tstr(e)))
            n = rng.choice([1, 2, 5000000, 40000000]) if big else rng.choice([1, 2, 3, 50])
            text.append(f"blob=grib:{n * UNIT}")
            texts.append("|".join(text))
            md["reftime"] = {"e": e}
            items.append({"e": e, "size": n, "md": md})
        order = list(range(len(items)))
        rng.shuffle(order)
        groups, left = [], len(items)
        while left > 0 and rng.random() < 0.8:
            n = rng.randint(0, left)
            groups += [n, rng.randrange(7)]
            left -= n
        codes = rng.sample(list(pools), rng.choice([0, 1, 1, 2, 3]))
        text, expr = corematch.make_expr(rng, [(None, i["md"]) for i in items], {}) if items else ("-", [])
        r = ep.drv.cmd("summary", text, ",".join(codes) or "-", ",".join(map(str, order)) or "-", ",".join(map(str, groups)) or "0,0", *texts)
        obs = {}
        if r.get("ok"):
            for i, k in zip(items, r["keys"]):
                i["key"] = key(k)
            obs = {"count": r["count"], "size": size(r["size"]), "bounded": bool(r["lo"]) and bool(r["hi"]), "equal": r["equal"],
                   "lo": tup(r["lo"]) if r["lo"] else 0, "hi": tup(r["hi"]) if r["hi"] else 0,
                   "forms": r["forms"], "match": r["match"], "equal_less": r["equal_less"], **{k: rows(r[k]) for k in ("rows", "other", "filtered", "only")}}
        for i in items:
            i["md"] = {t: corematch.fix_item(v) for t, v in i["md"].items()}
        ep.ev("Summary", r, text=text, expr=expr, codes=codes, items=items, **obs)
