"""The properties, and how each is checked"""
import os

import dscheck
import graph
import vlib


TRACE = "TLA+ specification checked with TLC; traces recorded from the real code are checked against it"
NOTE = ("Operations with random arguments are run on real datasets, and TLC accepts each recorded sequence only if it is a behaviour of the specification; "
        "bounded by the number of sequences, their length and the sets of items.")


class Prop:
    def __init__(self, run, level="model_checking", drivers=("dsdrv",), replay=dscheck.replay, assumptions=(), technique=TRACE, note=NOTE):
        self.run, self.level, self.drivers, self.replay, self.assumptions = run, level, list(drivers), replay, assumptions
        self.technique, self.note = technique, note


NOT_APPLICABLE = {}


def run_models(check, models):
    for module, cfg in models:
        deep = cfg.replace(".cfg", "Thorough.cfg")
        check.model(module, deep if check.thorough and os.path.exists(os.path.join(vlib.SPEC, deep)) else cfg)


def ds(*profiles, models=(), scenes=()):
    def run(check):
        run_models(check, models)
        graph.run(check, scenes)
        dscheck.run(check, *profiles)
    return Prop(run, assumptions=["data is in synthetic messages with the framing of each format",
                                  "time moves as decided by the test"])


def faults(*profiles):
    def run(check):
        dscheck.run(check, *profiles)
    return Prop(run, level="fault_enumeration",
                assumptions=["data is in synthetic messages with the framing of each format",
                             "a crash is of the process and not of the system: what was written stays written"],
                note="Operations with random arguments are run on real datasets, and interrupted at each of their system calls (a sample of up to 40 for each operation); "
                     "TLC accepts each recorded sequence only if it is a behaviour of the specification.")


def durable(*profiles):
    def run(check):
        run_models(check, [("Durable", "Durable.cfg")])
        dscheck.run(check, *profiles)
    return Prop(run, assumptions=["data is in synthetic messages with the framing of each format",
                                  "renames reach the disk no later than what is flushed after them, as in file systems with a journal",
                                  "SQLite flushes what its settings say that it does, and its system calls are seen like the others"],
                note="Operations with random arguments are run on real datasets with all their system calls recorded, and TLC accepts each sequence of calls only if it follows the rules "
                     "that the model of power losses needs; bounded by the number of sequences, their length and the sets of items.")


def concur(*profiles):
    def run(check):
        run_models(check, [("Locks", "Locks.cfg"), ("Locks", "LocksSimple.cfg")])
        dscheck.run(check, *profiles)
    return Prop(run, assumptions=["data is in synthetic messages with the framing of each format",
                                  "processes are preempted at system calls that change files or take locks, and when a query gives an element",
                                  "processes are not preempted while SQLite holds the locks of the shared memory of its log"],
                note="Processes work together on real datasets, one at a time, switched at system calls by random schedulers, and TLC accepts the sequence of what they did only if it "
                     "is a behaviour of the specification; bounded by the number of schedules, up to three processes, and the sets of items.")


def core(*profiles, assumptions=(), note=None, models=(), drivers=("coredrv",)):
    def run(check):
        run_models(check, models)
        dscheck.run(check, *profiles)
    return Prop(run, drivers=drivers, assumptions=list(assumptions),
                note=note or "Random values go through the real code, and TLC accepts each result only if it is what the specification says; bounded by the number of values and the vocabulary they are made from.")


PROPS = {
    "C01": ds(("imports", 700), scenes=("dups", "simple")),
    "C02": faults(("fail:import", 48)),
    "C03": faults(("crash:import", 56), ("crash:truncated-message", ["d3", "d4"]), ("crash:torn-line", ["d3", "d4"])),
    "C04": ds(("dups", 800), scenes=("dups",)),
    "C05": ds(("queries", 600)),
    "C06": ds(("summaries", 600)),
    "C07": ds(("damage", 800), scenes=("damage", "damagesimple", "damagedir")),
    "C08": ds(("repack", 700), scenes=("iseg", "tars")),
    "C09": ds(("age", 700), scenes=("ages", "agesimple")),
    "C10": ds(("archive", 600), ("renames", 250), scenes=("iseg", "simple", "vm2")),
    "C11": ds(("remove", 700), scenes=("dups", "vm2")),
    "C12": ds(("convert", 600), scenes=("dirs", "tars", "vm2")),
    "C13": concur(("concur", 1000), ("concur:known", ["archive-during-query", "query-while-appending", "summary-during-change"])),
    "C14": durable(("durable", 400)),
    "C15": ds(("manifest", 700), scenes=("simple",)),
    "C16": ds(("pool:dispatch", 1000)),
    "C17": ds(("pool:simulate", 700)),
    "C18": ds(("pool:merged", 800), models=[("Merged", "Merged.cfg")]),
    "C19": ds(("states", 700), scenes=("damagesimple", "agesimple")),
    "C20": core(("core:names", 60), ("core:search", 160), ("core:times", 80), models=[("TimeCheck", "TimeCheck.cfg")]),
    "C21": core(("core:stream", 140), ("core:forms", 100)),
    "C22": core(("core:summary", 420)),
    "C23": core(("core:match", 320), ("core:reftime", 240), assumptions=["values use a vocabulary of each type with the corner cases of its fields"]),
    "C24": core(("core:sort", 500), ("sorted", 200), ("sorted:across", ["iseg", "simple"]), drivers=("coredrv", "dsdrv")),
    "C25": core(("core:batches", 480)),
    "C26": core(("out:plain", 500), ("out:filter", 1600), models=[("StreamPump", "StreamPump.cfg"), ("StreamPump", "StreamPumpStored.cfg")], drivers=("streamdrv",),
                assumptions=["filter commands are stood in for by a program that is told when to read, write, close and exit",
                             "destinations are pipes, files and memory, and the kernel is the real one"],
                note="Data of random sizes is sent to real outputs and filters, with scripted readers and filters, partial writes and interruptions, and TLC accepts what happened only if it "
                     "is a behaviour of the specification; the loop that moves the data is modelled, and its liveness checked, for one or two sends and small pipes."),
    "C28": ds(("post", 330)),
    "C27": faults(("crash:maint", 72), ("crash:tar-not-scannable", ["d0", "d2"])),
}
