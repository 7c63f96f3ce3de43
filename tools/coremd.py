"""Encoding and decoding of random metadata"""
import corematch
import vlib

FMTS = ["grib", "bufr", "vm2", "odimh5"]


def note(rng):
    return "note=" + rng.choice(["a", "note with spaces", "x" * 300])


def make_item(rng, times, inline=True, small=False):
    text, _ = corematch.make_item(rng, times)
    parts = [] if text == "-" else text.split("|")
    if small:
        parts = parts[:1]
    for _ in range(rng.choice([0, 0, 1, 3])):
        parts.append(note(rng))
    if inline and rng.random() < 0.6:
        body = rng.choice(["", ":MD", ":a;b", ":MD\0\0", ":GRIB7777"]).replace("\0", "")
        parts.append(f"data={rng.choice(FMTS)}:{rng.choice([0, 1, 2, 7, 8, 9, 16, 64, rng.randrange(300)])}{body}")
    else:
        parts.append(f"blob={rng.choice(FMTS)}:{rng.choice([0, 1, 100, 1 << 31, 1 << 40])}")
    return "|".join(parts)


def stream(ep, rng):
    times = [1190000000, 1190086400, 0, 4102444800]
    for _ in range(14):
        items = [make_item(rng, times, small=rng.random() < 0.5) for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 8]))]
        probe = ep.drv.ok("mdstream", "memory", -1, "-", *items)
        ends, total = probe["ends"], probe["total"]

        def near():
            return max(0, rng.choice([rng.randint(0, total), rng.choice(ends + [0]) + rng.choice([-9, -8, -7, -1, 0, 1, 2, 7, 8, 9])]))
        for _ in range(3):
            cut = -1 if rng.random() < 0.6 else near()
            chunks = rng.choice([[1], [2], [3], [7], [8], [100000], [rng.randint(1, 300)], [rng.randint(1, 40) for _ in range(5)],
                                 [near() or 1, 1, 100000]])
            r = ep.drv.cmd("mdstream", "stream", cut, ",".join(map(str, chunks)), *items)
            ep.ev("Incremental", r, text=items, ends=ends, total=total, cut=cut, chunks=chunks, out=r.get("out", []), left=r.get("left", -1),
                  error=r.get("error", True) if r.get("ok") else True, message=r.get("message", ""))
        for mode in ("memory", "fd", "group"):
            cut = -1 if rng.random() < 0.4 else near()
            its = items
            if mode == "group":
                its = [make_item(rng, times, inline=False) for _ in range(rng.choice([0, 1, 5, 20]))]
                tot = ep.drv.ok("mdstream", mode, -1, "-", *its)["total"]
                cut = -1 if rng.random() < 0.4 else rng.randint(0, tot)
            r = ep.drv.cmd("mdstream", mode, cut, "-", *its)
            ep.ev("Read", r, text=its, mode=mode, group=mode == "group", items=len(its), ends=r.get("ends", []), total=r.get("total", 0), cut=cut,
                  out=r.get("out", []), error=r.get("error", True) if r.get("ok") else True, message=r.get("message", ""))
        if items:
            bad = rng.randrange(len(items))
            sig = rng.random() < 0.6
            begin = ends[bad - 1] if bad else 0
            pos = begin + (rng.choice([0, 1]) if sig else rng.randrange(8, ends[bad] - begin))
            r = ep.drv.cmd("mdstream", rng.choice(["stream", "memory", "fd"]), -1, f"garble:{pos}:{rng.choice([0, 1, 35, 255])}", *items)
            ep.ev("Garbled", r, text=items, bad=bad + 1, signature=sig, out=r.get("out", []), error=r.get("error", True) if r.get("ok") else True,
                  message=r.get("message", ""))


def forms(ep, rng):
    ep.drv.ok("aliases")
    times = [1190000000, 1190086400, 0, 4102444800, rng.randrange(1 << 31)]
    for _ in range(6):
        items = [make_item(rng, times, inline=False) for _ in range(8)]
        r = ep.drv.cmd("mdforms", *items)
        ep.ev("Forms", r, text=items, res=r.get("res", []))
    for t, f in corematch.VALUES.items():
        vals = [f(rng)[0] for _ in range(9)]
        r = ep.drv.cmd("types", t, *vals)
        ep.ev("Forms", r, type=t, text=vals, res=[{k: v for k, v in x.items() if isinstance(v, bool)} for x in r.get("res", [])])
        ep.ev("Order", r, type=t, text=vals, cmp=r.get("cmp", []), eq=r.get("eq", []))
