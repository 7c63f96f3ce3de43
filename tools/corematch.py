"""Random items, matchers, and what they match"""
import dsgen
import dsprofiles
import vlib


def num(rng):
    return str(rng.choice([0, 1, 2, 3, 98, 200, 254]))


def bag(rng):
    """key=value pairs, of numbers and strings"""
    res = {}
    for k in rng.sample(["lat", "lon", "x", "sta", "t", "blo"], rng.choice([1, 1, 2, 3])):
        res[k] = rng.choice(["1", "2", "10", "-5", "45000", "synop", "temp", '"a b"', '"12"'])
    return [f"{k}={v}" for k, v in sorted(res.items())]


UNITS = {"s": 1, "m": 60, "h": 3600, "d": 86400}


def length(rng):
    n = rng.choice([1, 2, 3, 6, 12, 24, 60])
    return {"set": True, "miss": False, "n": n, "u": rng.choice(["m", "h", "h", "h", "d", "mo", "y"])}


UNSET = {"set": False, "miss": False, "n": 0, "u": "s"}
ZERO = {"set": True, "miss": False, "n": 0, "u": "s"}


def len_text(x):
    if x["miss"]:
        return "-"
    return f"{x['n']}{x['u']}" if x["set"] else ""


# Values: return (text that parses to it, description)

def origin(rng):
    st = rng.choice(["GRIB1", "GRIB2", "BUFR", "ODIMH5"])
    if st == "ODIMH5":
        v = [rng.choice(["wmo", "02954", ""]), rng.choice(["rad", "r2", ""]), rng.choice(["plc", "p2", "Gattatico"])]
    else:
        v = [num(rng) for _ in range({"GRIB1": 3, "GRIB2": 5, "BUFR": 2}[st])]
    return f"{st}({', '.join(v)})", {"st": st, "v": v, "kv": []}


def product(rng):
    st = rng.choice(["GRIB1", "GRIB2", "GRIB2", "BUFR", "ODIMH5", "VM2"])
    if st == "ODIMH5":
        v, kv = [rng.choice(["PVOL", "SCAN"]), rng.choice(["SCAN", "PPI", "CAPPI"])], []
    elif st == "BUFR":
        v, kv = [num(rng) for _ in range(3)], rng.choice([[], bag(rng)])
    elif st == "GRIB2":
        v, kv = [num(rng) for _ in range(rng.choice([4, 5, 6]))], []
        text = f"{st}({', '.join(v)})"
        return text, {"st": st, "v": v + ["4", "255"][len(v) - 4:], "kv": kv}
    else:
        v, kv = [num(rng) for _ in range({"GRIB1": 3, "VM2": 1}[st])], []
    return f"{st}({', '.join(v + kv)})", {"st": st, "v": v, "kv": kv}


def angle(rng):
    return rng.choice([0, 50, 100, 150, 250, 550, 1000, 1050, -50])


def level(rng):
    st = rng.choice(["GRIB1", "GRIB2S", "GRIB2D", "ODIMH5"])
    if st == "ODIMH5":
        a, b = sorted([angle(rng), angle(rng)])
        return f"ODIMH5({a / 100:g}, {b / 100:g})", {"st": st, "min": a, "max": b}
    if st == "GRIB1":
        t, n = rng.choice([("1", 0), ("102", 0), ("100", 1), ("103", 1), ("105", 1), ("104", 2), ("106", 2), ("112", 2)])
        v = [t] + [rng.choice(["0", "1", "10", "100", "200"]) for _ in range(n)]
    else:
        v = []
        for _ in range(1 if st == "GRIB2S" else 2):
            v += [rng.choice(["1", "103", "-"]), rng.choice(["0", "1", "-"]), rng.choice(["0", "10", "1000", "-"])]
    return f"{st}({', '.join(v)})", {"st": st, "v": v, "kv": []}


def timerange(rng):
    st = rng.choice(["GRIB1", "GRIB1", "GRIB2", "Timedef", "Timedef", "BUFR"])
    if st == "GRIB2":
        v = [num(rng), rng.choice(["0", "1", "11", "254"]), num(rng), num(rng)]
        return f"GRIB2({v[0]}, {v[1]}, {v[2]}h, {v[3]}h)", {"st": st, "v": v, "kv": []}
    p1, p2 = length(rng), length(rng)
    if st == "GRIB1":
        ty = rng.choice([0, 0, 1, 2, 3, 4, 5, 10])
        p2["u"] = p1["u"]
        if ty == 10:
            p1["n"] = rng.choice([1, 24, 300, 1000])
        args = {0: [p1], 1: [], 10: [p1]}.get(ty, [p1, p2])
        it = {"st": st, "ty": ty, "p1": p1 if args else UNSET, "p2": p2 if len(args) > 1 else UNSET}
        return f"GRIB1({', '.join([str(ty)] + [len_text(a) for a in args])})", it
    if st == "BUFR":
        return f"BUFR({len_text(p1)})", {"st": st, "ty": -1, "p1": p1, "p2": UNSET}
    # Timedef
    if rng.random() < 0.2:
        p1 = dict(UNSET)
    step = len_text(p1) or "-"
    r = rng.random()
    if r < 0.3:
        return f"Timedef({step})", {"st": st, "ty": -1, "p1": p1, "p2": UNSET}
    ty = rng.choice([0, 1, 2])
    if r < 0.5:
        return f"Timedef({step}, {ty})", {"st": st, "ty": ty, "p1": p1, "p2": UNSET}
    return f"Timedef({step}, {ty}, {len_text(p2)})", {"st": st, "ty": ty, "p1": p1, "p2": p2}


def area(rng):
    st = rng.choice(["GRIB", "GRIB", "ODIMH5"])
    kv = bag(rng)
    return f"{st}({', '.join(kv)})", {"st": st, "v": [], "kv": kv}


def proddef(rng):
    kv = bag(rng)
    return f"GRIB({', '.join(kv)})", {"st": "GRIB", "v": [], "kv": kv}


def run(rng):
    m = rng.choice([0, 6, 12, 18]) * 60 + rng.choice([0, 0, 30, 5])
    return f"MINUTE({m // 60:02d}:{m % 60:02d})", {"st": "MINUTE", "v": [str(m)], "kv": []}


def codes(s):
    return [ord(c) for c in s]


def task(rng):
    s = rng.choice(["task", "prova 123", "Prova", "a", "prova123", "QC-radar"])
    return s, {"text": codes(s), "str": s}


def quantity(rng):
    kv = sorted(rng.sample(["a", "b", "c", "DBZH", "TH"], rng.choice([1, 2, 3])))
    return ",".join(kv), {"kv": kv}


VALUES = {"origin": origin, "product": product, "level": level, "timerange": timerange, "area": area, "proddef": proddef,
          "run": run, "task": task, "quantity": quantity}


# Patterns: made from a value, so that they match often. Return (text, description)

def positional(rng, st, v, kv=(), maxlen=0):
    a = list(v)
    if rng.random() < 0.35 and a:
        n = rng.randrange(len(a))
        a[n] = rng.choice([x for x in ("0", "1", "2", "99") if x != a[n]])
    for n in range(len(a)):
        if rng.random() < 0.35:
            a[n] = ""
    if rng.random() < 0.5:
        a = a[:rng.randrange(len(a) + 1)]
    if rng.random() < 0.05 and len(a) < maxlen:
        a.append("7")
    kv = [k for k in kv if rng.random() < 0.6]
    if rng.random() < 0.2 and kv:
        kv = [kv[0].split("=")[0] + "=77"] + kv[1:]
    text = ",".join([st] + a)
    if kv:
        text += ":" + ",".join(kv)
    while a and a[-1] == "":
        a.pop()
    return text, {"st": st, "a": a, "kv": kv}


def len_pattern(rng, x):
    """Pattern for a length"""
    r = rng.random()
    if r < 0.3:
        return dict(UNSET)
    if not x["set"] or r < 0.4:
        return length(rng)
    if r < 0.65 and x["u"] in UNITS:
        # The same, in another unit
        secs = x["n"] * UNITS[x["u"]]
        u = rng.choice([u for u in UNITS if secs % UNITS[u] == 0])
        return {**x, "n": secs // UNITS[u], "u": u}
    if r < 0.7 and x["u"] == "y":
        return {**x, "n": x["n"] * 12, "u": "mo"}
    if r < 0.8:
        return {**x, "u": rng.choice(["m", "h", "d", "mo", "y"])}
    return dict(x)


def pattern(rng, t, it):
    if t == "task":
        s = it["str"]
        a, b = sorted([rng.randrange(len(s) + 1), rng.randrange(len(s) + 1)])
        s = rng.choice([s, s[a:b].strip(), s.upper(), s.lower(), "foo", ""])
        return s, {"text": codes(s), "str": s}
    if t == "quantity":
        kv = [k for k in it["kv"] if rng.random() < 0.7]
        if rng.random() < 0.2:
            kv.append("x")
        return ",".join(kv), {"kv": kv}
    st = it["st"]
    if t == "run":
        m = int(it["v"][0]) if rng.random() < 0.7 else rng.choice([0, 720, 750])
        r = rng.random()
        if r < 0.2:
            return "MINUTE", {"st": st, "a": [], "kv": []}
        if r < 0.5:
            return f"MINUTE,{m // 60}", {"st": st, "a": [str(m // 60 * 60)], "kv": []}
        return f"MINUTE,{m // 60:02d}:{m % 60:02d}", {"st": st, "a": [str(m)], "kv": []}
    if t == "level" and st == "ODIMH5":
        if rng.random() < 0.4:
            a, b = angle(rng), angle(rng)
            if rng.random() < 0.5:
                a, b = it["min"], it["max"] + rng.choice([0, 0, 100])
            return f"ODIMH5,range {a / 100:g} {b / 100:g}", {"st": st, "range": True, "min": min(a, b), "max": max(a, b), "vals": [], "offset": 0}
        vals = [rng.choice([angle(rng), it["min"], it["max"]]) for _ in range(rng.choice([1, 2, 3]))]
        off = rng.choice([0, 0, 50, 100])
        text = "ODIMH5," + " ".join(f"{v / 100:g}" for v in vals) + (f" offset {off / 100:g}" if off else "")
        return text, {"st": st, "range": False, "min": 0, "max": 0, "vals": vals, "offset": off}
    if t == "timerange" and st != "GRIB2":
        cl = {"st": st, "ty": -1, "p1": dict(UNSET), "p2": dict(UNSET)}
        if st == "BUFR":
            cl["p1"] = len_pattern(rng, it["p1"])
            args = [len_text(cl["p1"])]
        elif st == "GRIB1":
            if rng.random() < 0.7:
                cl["ty"] = it["ty"] if rng.random() < 0.8 else rng.choice([0, 1, 2])
            if rng.random() < 0.6:
                cl["p1"] = len_pattern(rng, it["p1"])
                if rng.random() < 0.1:
                    cl["p1"] = dict(ZERO)
            if rng.random() < 0.5:
                cl["p2"] = len_pattern(rng, it["p2"])
                if cl["p1"]["set"] and cl["p2"]["set"] and (cl["p1"]["u"] in UNITS) != (cl["p2"]["u"] in UNITS):
                    cl["p2"]["u"] = cl["p1"]["u"]
            # These have significance only for other types
            args = [str(cl["ty"]) if cl["ty"] >= 0 else "", len_text(cl["p1"]), len_text(cl["p2"])]
        else:
            cl["ty"] = -2
            if rng.random() < 0.6:
                cl["p1"] = len_pattern(rng, it["p1"])
                if rng.random() < 0.15 or not it["p1"]["set"] and rng.random() < 0.5:
                    cl["p1"] = {**UNSET, "set": True, "miss": True}
            if rng.random() < 0.6:
                cl["ty"] = it["ty"] if rng.random() < 0.7 else rng.choice([-1, 0, 1, 2])
            # With no statistical processing, there is no length of it
            if cl["ty"] != -1 and rng.random() < 0.5:
                cl["p2"] = len_pattern(rng, it["p2"])
                if rng.random() < 0.15 or not it["p2"]["set"] and rng.random() < 0.5:
                    cl["p2"] = {**UNSET, "set": True, "miss": True}
            args = [len_text(cl["p1"]), "-" if cl["ty"] == -1 else "" if cl["ty"] == -2 else str(cl["ty"]), len_text(cl["p2"])]
        while args and not args[-1]:
            args.pop()
        return ",".join([st] + args), cl
    if t in ("area", "proddef"):
        text, cl = positional(rng, st, [], it["kv"])
        return text if ":" in text else text + ":", cl
    return positional(rng, st, it["v"], it["kv"], {"level": {"GRIB1": 3}.get(st, 0)}.get(t, 0))


def fix_item(it):
    """Remove what is only used here"""
    return {k: v for k, v in it.items() if k != "str"}


def make_item(rng, times):
    text, tla = [], {}
    for t in VALUES:
        if rng.random() < 0.75:
            s, it = VALUES[t](rng)
            text.append(f"{t}={s}")
            tla[t] = it
    if rng.random() < 0.9:
        e = rng.choice(times)
        text.append("reftime=" + vlib.iso(vlib.tstr(e)))
        tla["reftime"] = {"e": e}
    return "|".join(text) or "-", tla


class FakeItem:
    def __init__(self, t):
        self.t = t


def make_expr(rng, items, aliases):
    """Returns (text, description). It takes most of its values from one of the items"""
    _, like = rng.choice(items)
    ts = [t for t in list(VALUES) + ["reftime"] if rng.random() < 0.3]
    text, clauses = [], []
    rng.shuffle(ts)
    for t in ts:
        s, alts = make_alts(rng, t, items, like, aliases)
        text.append(f"{t}:{rng.choice(['', ' '])}{s}")
        clauses.append({"t": t, "alts": alts})
    return rng.choice(["; ", ";"]).join(text) or "-", clauses


def make_alts(rng, t, items, like, aliases):
    texts, alts = [], []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        names = sorted(aliases.get(t, ()))
        if names and rng.random() < 0.4:
            name = rng.choice(names)
            texts.append(rng.choice([name, name.upper()]))
            alts.append({"alias": name})
            continue
        if t == "reftime":
            e = like.get(t, {"e": 1190000000})["e"]
            fakes = [FakeItem(vlib.tstr(e))] + [FakeItem(vlib.tstr(i["reftime"]["e"])) for _, i in items if "reftime" in i]
            rt = [dsprofiles.random_clause(rng, fakes) for _ in range(rng.choice([1, 1, 2]))]
            texts.append(dsgen.rt_text([rt]))
            alts.append({"alias": "", "rt": rt})
            continue
        it = like.get(t) if rng.random() < 0.8 else None
        if it is None:
            have = [i[t] for _, i in items if t in i]
            it = rng.choice(have) if have and rng.random() < 0.7 else VALUES[t](rng)[1]
        s, cl = pattern(rng, t, it)
        if t in ("task", "quantity") and not s and (texts or alts):
            continue
        texts.append(s)
        alts.append({"alias": "", **fix_item(cl)})
        if t in ("task", "quantity") and not s:
            break
    return " or ".join(texts), alts


def make_aliases(rng, items):
    aliases, cmd = {}, []
    for t in rng.sample(list(VALUES), 3):
        for n in range(rng.choice([1, 2])):
            name = rng.choice(["foo", "bar", "baz"]) + str(n)
            s, alts = make_alts(rng, t, items, rng.choice(items)[1], aliases)
            if not s:
                continue
            aliases.setdefault(t, {})[name] = alts
            cmd.append((t, name, s))
    rng.shuffle(cmd)
    return aliases, [x for c in cmd for x in c]


def match(ep, rng):
    base = vlib.epoch(rng.choice(dsprofiles.BASES))
    times = [base + rng.choice([0, 1, -1, 3600, 86399, 86400, rng.randrange(90 * 86400)]) for _ in range(4)]
    items = [make_item(rng, times) for _ in range(12)]
    aliases, cmd = ({}, []) if rng.random() < 0.4 else make_aliases(rng, items)
    r = ep.drv.ok("aliases", *cmd)
    ep.ev("Aliases", aliases=aliases, text=cmd)
    tla = [{t: fix_item(v) for t, v in i.items()} for _, i in items]
    for _ in range(24):
        text, expr = make_expr(rng, items, aliases)
        if rng.random() < 0.2:
            text2, expr2 = make_expr(rng, items, aliases)
            r = ep.drv.cmd("combine", text, text2, *[t for t, _ in items])
            ep.ev("Combine", r, text=[text, text2], e1=expr, e2=expr2, items=tla, res=r.get("res", []))
        else:
            r = ep.drv.cmd("match", text, *[t for t, _ in items])
            ep.ev("Match", r, text=text, printed=r.get("exp", ""), expr=expr, items=tla, res=r.get("res", []), stable=r.get("stable", False))


def reftime(ep, rng):
    """Times around the ones in the expressions, and spread in the days"""
    ep.drv.ok("aliases")
    for _ in range(12):
        base = vlib.epoch(rng.choice(dsprofiles.BASES)) + rng.randrange(400 * 86400)
        fakes = [FakeItem(vlib.tstr(base + rng.choice([0, rng.randrange(86400), rng.randrange(40 * 86400)]))) for _ in range(3)]
        rt = dsprofiles.random_rt(rng, fakes)
        es = set()
        for alt in rt:
            for c in alt:
                if c["op"] in ("ge", "gt", "le", "lt", "eq"):
                    v = c["v"]
                    lo = vlib.epoch("%04d%02d%02d%02d%02d%02d" % tuple(list(v) + [1970, 1, 1, 0, 0, 0][len(v):]))
                    for off in (0, 60, 3600, 86400):
                        es |= {lo + off - 1, lo + off, lo + off + 1}
                    t = vlib.tstr(lo)
                    es |= {vlib.epoch("%04d0101000000" % (int(t[:4]) + 1)) - d for d in (0, 1)}
                    y, m = int(t[:4]), int(t[4:6])
                    es |= {vlib.epoch("%04d%02d01000000" % ((y, m + 1) if m < 12 else (y + 1, 1))) - d for d in (0, 1)}
                elif c["v"]:
                    v = list(c["v"]) + [0, 0]
                    lo = v[0] * 3600 + v[1] * 60 + v[2]
                    for day in (0, 1, 33):
                        for off in (0, 60, 3600):
                            es |= {base - base % 86400 + day * 86400 + lo + off + d for d in (-1, 0, 1)}
                if c["step"]:
                    b = base - base % 86400 + max(c["base"], 0)
                    es |= {b + c["step"] * n + d for n in rng.sample(range(30), 8) for d in (-1, 0, 1)}
                    es |= {base - base % 86400 + rng.randrange(86400) for _ in range(5)}
        es = sorted(rng.sample(sorted(es), min(len(es), 40)))
        text = "reftime:" + dsgen.rt_text(rt)
        r = ep.drv.cmd("reftime", text, *[vlib.tstr(e) for e in es])
        if "sqlerr" in r:
            r["ok"], r["error"] = False, r["sqlerr"]
        ep.ev("Reftime", r, text=text, printed=r.get("exp", ""), rt=rt, ts=es, m=r.get("m", []), again=r.get("again", []), exp=r.get("exp_m", []),
              buf=r.get("buf", []), sql=r.get("sql", []), int=r.get("int", []), some=r.get("some", False), sqltext=r.get("sqltext", ""),
              haslo=bool(r.get("lo")), hashi=bool(r.get("hi")), lo=vlib.epoch(r["lo"]) if r.get("lo") else 0, hi=vlib.epoch(r["hi"]) if r.get("hi") else 0)
