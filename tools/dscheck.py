"""Run batches of random episodes against the real datasets, and validate them with DatasetTrace"""
import collections
import json
import random

import build
import dsgen
import dsprofiles
import vlib
from vlib import CheckError, Violation


def runner(profile):
    """Returns (function that runs an episode given a driver and a key, driver, specification, its configuration)"""
    if profile.startswith(("crash:", "fail:")):
        import faults
        return faults.runner(profile), "dsdrv", "FaultTrace", "FaultTrace.cfg"
    if profile.startswith("core:"):
        import core
        return core.runner(profile)
    if profile.startswith("pool:"):
        import pool
        return pool.runner(profile)
    if profile in ("concur", "concur:known"):
        import concur
        return concur.known if ":" in profile else concur.episode, "dsdrv", "ConcurTrace", "ConcurTrace.cfg"
    if profile in ("out:plain", "out:filter"):
        import outstream
        return outstream.make(profile == "out:filter"), "streamdrv", "OutTrace", "OutTrace.cfg"
    if profile == "durable":
        import durable
        return durable.episode, "dsdrv", "DurableTrace", "DurableTrace.cfg"
    if profile == "sorted:across":
        return dsprofiles.sort_across, "dsdrv", "DatasetTrace", "DatasetTrace.cfg"
    if profile == "graph":
        import graph
        return graph.episode, "dsdrv", "DatasetTrace", "DatasetTrace.cfg"
    prof = dsprofiles.PROFILES[profile]
    return (lambda drv, key: dsprofiles.random_episode(drv, random.Random(key), prof)), "dsdrv", "DatasetTrace", "DatasetTrace.cfg"


def make_driver(name="dsdrv"):
    return vlib.Driver(build.exe(name))


def generate(keys, profile):
    """Run the episodes, each worker with its own driver"""
    n = vlib.JOBS
    run_episode, exe, _, _ = runner(profile)

    def work(w):
        res = []
        drv = make_driver(exe)
        try:
            for key in keys[w::n]:
                ep = run_episode(drv, key)
                if ep.died:
                    drv.close()
                    drv = make_driver(exe)
                res.append((key, ep))
        finally:
            drv.close()
            if profile.startswith("concur"):
                import concur
                concur.cleanup()
        return res

    return [x for l in vlib.pmap(work, range(n)) for x in l]


def validate(eps, module="DatasetTrace", cfg="DatasetTrace.cfg", limit=3):
    """
    Validate (key, events) pairs. Returns (number of events accepted, [(key, event number, why)] rejected)
    """
    n = vlib.JOBS

    def work(w):
        rej, done, todo = [], 0, list(eps[w::n])
        while todo:
            evs, idx = [], []
            for k, (key, events) in enumerate(todo):
                for m, e in enumerate(events):
                    evs.append(e)
                    idx.append((k, m))
            acc, r = vlib.tlc_trace(module, cfg, evs)
            done += acc
            if acc == len(evs):
                break
            k, m = idx[acc]
            rej.append((todo[k][0], m, r.why))
            todo = todo[k + 1:]
            if len(rej) >= limit:
                break
        return done, rej

    out = vlib.pmap(work, range(min(n, len(eps))))
    return sum(o[0] for o in out), [r for o in out for r in o[1]]


def describe(ep, m):
    e = {k: v for k, v in ep.events[m].items() if k not in ("q", "sum", "disk", "qs", "qns", "sums", "state")}
    return f"event {m} {json.dumps(e)}"


def episodes(check, profile, count, name=None, confirm=2):
    """Run count random episodes of a profile, and fail on any that is rejected and repeats"""
    name = name or profile
    _, _, *spec = runner(profile)
    serial = check.cov.get("batches", 0)
    check.add("batches")
    keys = count if isinstance(count, list) else [f"{check.seed}-{name}-{serial}-{i}" for i in range(count)]
    eps = generate(keys, profile)
    accepted, rej = validate([(k, e.events) for k, e in eps], *spec)
    ops = check.cov.setdefault("operations", {})
    for _, e in eps:
        for v in e.events:
            ops[v["op"]] = ops.get(v["op"], 0) + 1
            if v["op"] in ("Crash", "Fail"):
                check.add("interrupted_operations")
        for key in sorted(getattr(e, "found", ())):
            check.found(key)
    check.add("traces_validated_against_impl", len(eps) - len(rej))
    check.add("events", accepted)
    check.add("observations", sum(len([k for k in v if k in ("q", "sum", "disk", "state")]) + len(v.get("qs", ())) +
                                  len(v.get("qns", ())) + len(v.get("qpost", ())) + len(v.get("sums", ())) for _, e in eps for v in e.events))
    if eps:
        check.sample({"key": eps[0][0], "conf": eps[0][1].events[0].get("conf"),
                      "ops": [{k: v[:6] if isinstance(v, list) else v for k, v in e.items() if k in ("op", "batch", "strategy", "res", "fix", "how", "path", "rep", "query", "text")}
                              for e in eps[0][1].events[1:6]]})
    for key, m, why in rej:
        confirm_rejection(check, profile, key, m, why)


def confirm_rejection(check, profile, key, m, why):
    """Run the episode again, alone, and report it if it is rejected again"""
    _, _, *spec = runner(profile)
    for _ in range(3):
        (k, ep), = generate([key], profile)
        acc, rej = validate([(key, ep.events)], *spec)
        if rej:
            _, m, why = rej[0]
            path = check.save_replay({"property": check.prop, "kind": "episode", "profile": profile, "key": key,
                                      "rejected_event": m, "expected": why, "events": ep.events})
            raise Violation(f"the specification does not accept {describe(ep, m)}: {why}", path)
    check.add("unconfirmed")
    check.sample({"unconfirmed": key, "event": m, "why": why[:300]}, limit=10)


def replay(check, data):
    confirm_rejection(check, data["profile"], data["key"], -1, "")


def run(check, *profiles):
    """
    Run episodes for (profile, count for the quick tier) pairs; in the thorough
    tier keep going until the time budget is over
    """
    for profile, count in profiles:
        episodes(check, profile, count)
    profiles = [(p, c) for p, c in profiles if not isinstance(c, list)]
    if check.thorough:
        while check.elapsed() < check.budget:
            for profile, count in profiles:
                episodes(check, profile, count * 3)
                if check.elapsed() >= check.budget:
                    break
