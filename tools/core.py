"""Episodes on the parts of arkimet that are functions from values to values"""
import random

import vlib


class CoreEpisode:
    def __init__(self, drv):
        self.drv = drv
        self.events = []
        self.died = False

    def ev(self, op, r=None, **kw):
        e = {"op": op, "err": not r.get("ok") if r is not None else False, **kw}
        if e["err"]:
            e["errmsg"] = r["error"][:300]
        self.events.append(e)
        return e


def make(func):
    def run(drv, key):
        ep = CoreEpisode(drv)
        try:
            func(ep, random.Random(key))
        except vlib.DriverDied as ex:
            ep.died = True
            ep.ev("Died", {"ok": False, "error": str(ex)})
        return ep
    return run


def runner(profile):
    name = profile.partition(":")[2]
    import corematch
    import coremd
    import coresort
    import corestep
    import coresum
    funcs = {
        "match": (corematch.match, "MatcherTrace"),
        "reftime": (corematch.reftime, "MatcherTrace"),
        "names": (corestep.names, "StepTrace"),
        "search": (corestep.search, "StepTrace"),
        "sort": (coresort.sort, "SortTrace"),
        "batches": (coresort.batches, "SortTrace"),
        "stream": (coremd.stream, "StreamTrace"),
        "forms": (coremd.forms, "StreamTrace"),
        "summary": (coresum.summary, "SummaryTrace"),
        "times": (corestep.times, "StepTrace"),
    }
    func, module = funcs[name]
    return make(func), "coredrv", module, module + ".cfg"
