"""
Histories that cover the transitions of DatasetMC, run on the real datasets

A history is named by its scene and the numbers of its operations, like
"iseg:0,3,5".
"""
import collections
import json
import os
import random
import re
import shutil
import tempfile

import dscheck
import vlib
from dsgen import Conf, Episode, Item, Q
from vlib import CheckError

DAY = 86400
E = vlib.epoch


class Scene:
    def __init__(self, conf, items, ops, depth, now="20070720000000"):
        self.conf, self.items, self.ops, self.depth, self.now = conf, items, ops, depth, E(now)

    def json(self, depth):
        return {"conf": self.conf.tla(), "items": {i.id: i.tla() for i in self.items}, "now": self.now, "depth": depth,
                "ops": [o[0] for o in self.ops]}


def imp(ids, strategy="default"):
    ids = ids.split()
    return {"op": "Import", "batch": ids, "strategy": strategy}, lambda ep: ep.imp(ids, strategy)


def rem(**kw):
    q = Q(**kw)
    return {"op": "Remove", "query": q.tla()}, lambda ep: ep.remove(q)


def maint(op, fix=True, accurate=False, online=True, offline=True):
    e = {"op": op, "fix": fix, "accurate": accurate, "online": online, "offline": offline}
    return e, {"Check": lambda ep: ep.check(fix, accurate, online, offline), "Repack": lambda ep: ep.repack(fix, online, offline),
               "RemoveOld": lambda ep: ep.remove_old(fix, online, offline), "RemoveAll": lambda ep: ep.remove_all(fix, online, offline)}[op]


def conv(how, gs=0, online=True, offline=True):
    return ({"op": "Convert", "how": how, "gs": gs, "fix": True, "online": online, "offline": offline},
            lambda ep: ep.convert(how, gs, True, online, offline))


def arc(path):
    return {"op": "Archive", "path": path}, lambda ep: ep.archive(path)


def unarc(path):
    return {"op": "Unarchive", "path": path}, lambda ep: ep.unarchive(path)


def dmg(path, how, n=1, zone="on"):
    return {"op": "Damage", "zone": zone, "path": path, "how": how, "n": n}, lambda ep: ep.damage(zone, path, how, n)


def tick(t):
    return {"op": "Tick", "now": E(t)}, lambda ep: ep.tick(E(t))


RMMAN = {"op": "RmManifest"}, lambda ep: ep.rmmanifest()
DONT = {"op": "Dont"}, lambda ep: ep.dont()


def data(fmt, *descs):
    """Items from day, hour, product and usn"""
    return [Item(f"i{n}", fmt, "200707%02d%02d0000" % (d, h), o="1", p=p, a="1", k="t1" if n % 2 else "-", usn=u)
            for n, (d, h, p, u) in enumerate(descs)]


DUPS = data("grib", (7, 12, "1", 1), (7, 12, "1", 2), (7, 0, "1", 1), (8, 6, "2", -1))
DUPS[1].k = DUPS[0].k
DUPS = [Item(i.id, i.fmt, i.t, i.o, i.p, i.a, i.k, i.usn) for i in DUPS]
THREE = ((7, 12, "1", -1), (7, 0, "2", -1), (8, 6, "1", -1))
D1, D2 = "2007/07-07", "2007/07-08"
ON7 = dict(lo=E("20070707000000"), hi=E("20070708000000"))
NOON = dict(lo=E("20070707120000"), hi=E("20070707120001"))
FIX, REPACK = maint("Check"), maint("Repack")
MOVES = [imp("i0 i1 i2"), imp("i1"), rem(**NOON), rem(p=("2",)), FIX, REPACK, maint("Repack", fix=False)]
DMG = [imp("i0 i1 i2"), imp("i1"), rem(**NOON), rem(p=("2",)), FIX, maint("Check", accurate=True), maint("Check", fix=False), REPACK]


def zones(ext):
    return [arc(f"{D1}.{ext}"), unarc(f"{D1}.{ext}"), arc(f"{D2}.{ext}")]


SCENES = {
    # Imports, duplicates and replacements
    "dups": Scene(Conf("iseg", replace="usn"), DUPS,
                  [imp("i0"), imp("i1"), imp("i1", "never"), imp("i0", "always"), imp("i1", "always"), imp("i3 i2"), imp("i2 i0 i1"), imp("i1 i3 i0", "always"),
                   imp("i0 i0", "never"), rem(**NOON), rem(p=("2",)), FIX, REPACK], 5),
    # Segments that are archived and compressed
    "iseg": Scene(Conf("iseg", gz=1), data("grib", *THREE), MOVES + zones("grib") + [conv("compress", 0), conv("compress", 1, offline=False)], 7),
    "simple": Scene(Conf("simple", gz=1), data("grib", *THREE), MOVES + zones("grib") + [conv("compress", 0), conv("compress", 1, offline=False), RMMAN], 6),
    "vm2": Scene(Conf("iseg", fmt="vm2", smallfiles=True), data("vm2", *THREE), MOVES + zones("vm2") + [conv("compress", 1)], 8),
    "dirs": Scene(Conf("iseg", fmt="odimh5"), data("odimh5", *THREE), MOVES + zones("odimh5") + [conv("tar"), conv("zip", offline=False)], 7),
    "tars": Scene(Conf("simple"), data("odimh5", *THREE), MOVES + zones("odimh5") + [conv("tar", online=False), conv("zip")], 6),
    # Time that goes by
    "ages": Scene(Conf("iseg", archive_age=2, delete_age=4), data("grib", *THREE),
                  [imp("i0 i1 i2"), imp("i1"), rem(**NOON), FIX, REPACK, maint("RemoveOld"), maint("RemoveOld", fix=False), maint("Repack", fix=False),
                   tick("20070709120000"), tick("20070710000000"), tick("20070711000000"), tick("20070712000000"), tick("20070713100000"), arc(f"{D1}.grib")], 8,
                  now="20070708200000"),
    "agesimple": Scene(Conf("simple", archive_age=2, delete_age=3), data("bufr", *THREE),
                       [imp("i0 i1 i2"), imp("i1"), rem(**NOON), FIX, REPACK, maint("RemoveOld"), maint("Repack", fix=False), DONT,
                        tick("20070709120000"), tick("20070710000000"), tick("20070711000000"), tick("20070712000000")], 7, now="20070708200000"),
    # Damage
    "damage": Scene(Conf("iseg"), data("grib", *THREE),
                    DMG + [arc(f"{D1}.grib"), conv("compress", 1)] + [dmg(f"{D1}.grib", h) for h in ("rmindex", "rmdata", "stale", "corrupt")] +
                    [dmg(f"{D1}.grib", "cutlast", 2), dmg(f"{D1}.grib", "stale", zone="arc"), dmg(f"{D1}.grib", "rmindex", zone="arc")], 6),
    "damagesimple": Scene(Conf("simple"), data("grib", *THREE),
                          DMG + [arc(f"{D1}.grib"), RMMAN, conv("compress", 0)] + [dmg(f"{D1}.grib", h) for h in ("rmindex", "rmdata", "stale", "corrupt", "rmsummary", "older")] +
                          [dmg(f"{D1}.grib", "cutlast", 2)], 5),
    "damagedir": Scene(Conf("iseg", fmt="odimh5"), data("odimh5", *THREE),
                       DMG + [conv("tar")] + [dmg(f"{D1}.odimh5", h) for h in ("rmindex", "rmdata", "stale")] +
                       [dmg(f"{D1}.odimh5", "rmslot", n) for n in (1, 2)], 7),
}


def explore(check, name, depth, edges=True, workers=1):
    """Check the guarantees on all the histories, and return the transitions: {state: {operation: state}}"""
    scene = SCENES[name]
    d = tempfile.mkdtemp(prefix="scene-", dir=vlib.scratch_root())
    path = os.path.join(d, "scene.json")
    with open(path, "w") as f:
        json.dump(scene.json(depth), f)
    r = vlib.tlc("DatasetMC", "DatasetMC.cfg", workers=workers, env={"SCENE": path, "PRINT": "1" if edges else "0", "TRACE": ""})
    shutil.rmtree(d)
    if not r.ok:
        text = re.sub(r"\"VERIF-EDGE.*\n", "", r.out)
        text = text[text.find("Error:"):]
        raise CheckError(f"scene {name} does not hold or failed:\n{text[:200]}\n" + "\n".join(re.findall(r"^/\\ last = .*(?:\n .*)*", text, re.M)) + "\n" +
                         "\n".join(re.findall(r"^/\\ ds = .*(?:\n .*)*", text, re.M)[-2:]))
    if check:
        check.add("states", r.distinct)
        check.add("transitions", r.generated)
        check.cov.setdefault("models", []).append({"module": "DatasetMC", "scene": name, "depth": depth, "distinct": r.distinct, "generated": r.generated})
    graph = collections.defaultdict(dict)
    start = None
    for m in re.finditer(r'VERIF-EDGE (-?\d+) (\d+) (-?\d+)', r.out):
        a, n, b = m.groups()
        graph[a][int(n) - 1] = b
        start = start or a
    return graph, start, r


def walks(graph, start, rng, count, length):
    """Histories that go through as many different transitions as possible"""
    # Shortest ways to get to each state
    way = {start: []}
    todo = collections.deque([start])
    while todo:
        a = todo.popleft()
        for n, b in sorted(graph.get(a, {}).items()):
            if b not in way:
                way[b] = way[a] + [(a, n)]
                todo.append(b)
    left = {(a, n) for a in graph for n in graph[a] if a in way}
    total = len(left)
    order = sorted(left)
    rng.shuffle(order)
    res = []
    for a, n in order:
        if len(res) >= count:
            break
        if (a, n) not in left:
            continue
        path = way[a] + [(a, n)]
        while len(path) < length:
            at = graph[path[-1][0]][path[-1][1]]
            fresh = sorted(m for m in graph.get(at, {}) if (at, m) in left and (at, m) not in path)
            if not fresh:
                break
            path.append((at, rng.choice(fresh)))
        left.difference_update(path)
        res.append([n for _, n in path])
    return res, total - len(left), total


def episode(drv, key):
    name, _, ops = key.partition(":")
    scene = SCENES[name]
    rng = random.Random(key)
    ep = Episode(drv, scene.conf, scene.items, scene.now)
    queries = [Q(**ON7), Q(**NOON), Q(p=("2",)), Q(lo=E("20070707120000")), Q(k=("t1",))]
    try:
        for n in map(int, ops.split(",")):
            try:
                scene.ops[n][1](ep)
            except (OSError, IndexError):
                # What was to be damaged is not there: if this is not as
                # specified, it has already been observed
                ep.skipped = True
                break
            if ep.events[-1]["op"] == "Tick":
                continue
            ep.see_query(withdata=not ep.unreadable)
            ep.see_query(rng.choice(queries), withdata=False)
            if not ep.uncached:
                ep.see_summary()
                ep.see_summary(rng.choice(queries))
            ep.see_disk()
            if rng.random() < 0.25:
                ep.see_state(accurate=rng.random() < 0.5)
        if ep.events[-1]["op"] != "Tick":
            ep.see_state()
    except vlib.DriverDied as e:
        ep.died = True
        ep.ev("Died", err=str(e))
    finally:
        ep.cleanup()
    return ep


def run(check, scenes, count=80):
    """Explore the scenes, and run histories that cover their transitions"""
    # One worker for each goes through the states in the same order every time
    found = vlib.pmap(lambda name: explore(check, name, SCENES[name].depth + (1 if check.thorough else 0)), scenes)
    for name, (graph, start, r) in zip(scenes, found):
        rng = random.Random(f"{check.seed}-{name}")
        ws, covered, total = walks(graph, start, rng, 3000 if check.thorough else count, 10)
        check.add("graph_transitions", total)
        check.add("graph_transitions_covered", covered)
        dscheck.episodes(check, "graph", [name + ":" + ",".join(map(str, w)) for w in ws], name="graph-" + name)
