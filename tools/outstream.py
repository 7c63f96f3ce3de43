"""Episodes of data sent to an output stream, recorded as events for OutTrace"""
import random

import vlib
from core import CoreEpisode

SIZES = [0, 1, 2, 7, 100, 3000, 4095, 4096, 4097, 8192, 16383, 16384, 16385, 20000, 32768, 40000, 65536, 70000, 100000, 150000]


def size(rng, big=True):
    s = rng.choice(SIZES if big else SIZES[:12])
    return max(0, s + rng.choice([-1, 0, 0, 1])) if rng.random() < 0.3 else s


def sends(rng, n, big=True, short=0.0):
    res = []
    for _ in range(n):
        how = rng.choice("bbfffl")
        s = size(rng, big)
        if how == "f":
            missing = rng.choice([1, s // 2, s]) if s and rng.random() < short else 0
            res.append(f"f:{s}:{rng.choice([0, 0, 3, 5000])}:{missing}")
        else:
            res.append(f"{how}:{s}")
    return res


def random_filter(rng, c):
    c["num"], c["den"] = rng.choice([(1, 1), (1, 1), (1, 1), (2, 1), (1, 2), (0, 1), (5, 1), (1, 7)])
    c["extra"] = rng.choice([0, 0, 0, 1, 5000, 70000])
    c["held"] = rng.choice([1, 4096, 65536, 1 << 20])
    c["slurp"] = int(rng.random() < 0.2)
    c["closes"] = int(rng.random() < 0.4)
    if rng.random() < 0.25:
        c["limit"] = rng.choice([0, 1, 5000, 70000, 100000, 200000])
    if rng.random() < 0.1:
        c["outclose"] = rng.choice([0, 1, 5000, 70000])
    if rng.random() < 0.3:
        c["errsize"] = rng.choice([1, 10, 5000, 70000, 150000])
        c["errat"] = rng.choice([0, 100, 70000, 1 << 30])
    if rng.random() < 0.3:
        c["status"] = rng.choice([1, 2, 255])
    elif rng.random() < 0.07:
        c["killed"] = 1


def random_conf(rng, filters=True):
    c = {"dest": rng.choice(["pipe", "pipe", "pipe", "pipe", "file", "append", "append", "memory"])}
    c["cap"] = rng.choice([4096, 8192, 16384, 65536, 65536])
    c["dcap"] = rng.choice([4096, 65536])
    c["rspeed"] = rng.choice([1, 3, 10, 10, 100])
    c["fspeed"] = rng.choice([1, 3, 10, 10, 100])
    if c["dest"] == "pipe" and rng.random() < 0.25:
        c["dclose"] = rng.choice([0, 1, 100, 5000, 50000, 100000])
    if c["dest"] in ("file", "append"):
        c["base"] = rng.choice([0, 100])
        if rng.random() < 0.15:
            c["fsize"] = rng.choice([0, 10, 5000, 100000])
    if rng.random() < 0.12:
        c["timeout"] = 30
        if c["dest"] == "pipe" and rng.random() < 0.5:
            c["stall"] = 1
    ops = []
    short = 0.1 if rng.random() < 0.2 else 0
    if rng.random() < 0.4 or not filters:
        ops += sends(rng, rng.choice([1, 1, 2, 3]), short=short)
    if filters:
        random_filter(rng, c)
        ops += ["F"] + sends(rng, rng.choice([0, 1, 1, 2, 3, 6]), short=short) + ["S"]
        if rng.random() < 0.3:
            ops += sends(rng, 1)
    return c, ops


def make(filters):
    def run(drv, key):
        rng = random.Random(key)
        ep = CoreEpisode(drv)
        c, ops = random_conf(rng, filters)
        path = vlib.scratch_dir("out")
        try:
            r = drv.ok("fork", "episode", rng.randrange(1 << 60), path, *[f"{k}={v}" for k, v in c.items()], ";", *ops)
        except vlib.DriverDied as ex:
            ep.died = True
            ep.ev("Died", {"ok": False, "error": str(ex)})
            return ep
        ep.ev("Reset", conf=c, ops=ops)
        child = r.get("child")
        if not child or not child["res"].get("ok"):
            ep.ev("Died", {"ok": False, "error": f"status {r['status']} {child and child['res'].get('error')}"})
            return ep
        ep.events += child["res"]["events"]
        return ep
    return run
