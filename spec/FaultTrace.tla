----------------------------- MODULE FaultTrace -----------------------------
(***************************************************************************)
(* Histories of a real dataset in which operations are interrupted, by a   *)
(* crash of the process or by an error from the system.                    *)
(*                                                                         *)
(* The history of a dataset is the one of DatasetTrace, up to a point that *)
(* is saved.  From there, operations are interrupted at each of their      *)
(* steps, in a branch of its own:                                          *)
(*                                                                         *)
(*   Crash    the process was killed while doing the operation             *)
(*   Recover  check with fix: what is found after it must be allowed       *)
(*   Adopt    repack, after which what is on disk is exactly what is in    *)
(*            the dataset, and the branch goes on from there as any other  *)
(*   Fail     an import where a system call failed: segments are either    *)
(*            imported, or as they were before. If instead it raises an    *)
(*            exception, it is an interruption like a crash, but nothing   *)
(*            can be missing even before a check (.now)                    *)
(***************************************************************************)
EXTENDS DatasetTrace

VARIABLES saved, \* state to go back to
          broken \* what was interrupted: [before, after, cmd, obs]
fvars == <<l, conf, items, now, ds, saved, broken>>

None == [op |-> "none"]
FaultOps == {"Save", "Restore", "Crash", "Recover", "Adopt", "Fail", "Known"}

Count(bag, i) == IF i \in DOMAIN bag THEN bag[i] ELSE 0

\* All elements of all segments that are intact on disk, in the order they come
Physical(d) == LET zs == SetToSeq(Zones(d)) IN
    FlattenSeq([n \in 1..Len(zs) |->
        LET there == SelectSeq(ZSeg(d, zs[n]).slots, LAMBDA x : x.c = "ok")
        IN [m \in 1..Len(there) |-> there[m].i]])

UniqueKeys(s) == \A a, b \in 1..Len(s) : a /= b => Key(conf, items, s[a]) /= Key(conf, items, s[b])

\* What may be found after an operation that was interrupted, and a check with
\* fix. Elements that were removed, but whose data is still on disk, can come
\* back.
Allowed(b, obs) ==
    LET was == AllIds(conf, items, b.before)
        B == BagOf(was)
        F == BagOf(AllIds(conf, items, b.after))
        O == BagOf(obs)
        batch == IF b.cmd.op = "Import" THEN b.cmd.batch ELSE <<>>
        P == BagOf(Physical(b.before) \o batch)
        replaced(i) == b.cmd.op = "Import" /\ ~IsSimple(conf) /\
                       \E j \in Set(batch) : Key(conf, items, j) = Key(conf, items, i) /\ Count(O, j) > 0
        least(i) == IF replaced(i) THEN 0 ELSE IF b.cmd.op = "Check" THEN Count(F, i) ELSE Min2(Count(B, i), Count(F, i))
        \* archives can have duplicates (data that was replaced, or deleted and
        \* imported again, before it was archived), that come back if rescanned
        phys == Physical(b.before)
        archived == Physical([b.before EXCEPT !.on = <<>>])
        again == \/ b.cmd.op \in {"Archive", "Unarchive"}
                 \/ \E i \in Set(archived) : Cardinality({n \in 1..Len(phys) : Key(conf, items, phys[n]) = Key(conf, items, i)}) > 1
    IN /\ Chk("items that exist", "", \A n \in 1..Len(obs) : obs[n] \in DOMAIN items)
       /\ Chk("nothing lost", <<"before", B, "found", O>>,
              \A i \in DOMAIN items : Count(O, i) >= least(i))
       /\ b.cmd.op = "Import" =>
              Chk("nothing lost without its replacement", <<"before", B, "found", O>>,
                  \A i \in DOMAIN B : Count(O, i) < Count(B, i) => replaced(i))
       /\ Chk("nothing that was not there", <<"on disk", P, "found", O>>,
              \A i \in DOMAIN O : Count(O, i) <= Count(P, i))
       /\ ~IsSimple(conf) /\ ~again /\ UniqueKeys(was) /\ UniqueKeys(AllIds(conf, items, b.after)) => Chk("no duplicates", O, UniqueKeys(obs))

\* State from what is found on disk, when it's all valid and indexed
AdoptZone(z, zone) ==
    LET segs == {x \in Set(Ev.disk) : x.z = z}
    IN [p \in {x.p : x \in segs} |->
          LET x == CHOOSE y \in segs : y.p = p IN
          [NoSeg EXCEPT !.kind = x.k, !.slots = [n \in 1..Len(x.s) |-> Slot(x.s[n][1])],
                        !.idx = [n \in 1..Len(x.s) |-> n], !.has = TRUE, !.listed = zone]]

Save == /\ Ev.op = "Save"
        /\ saved' = ds
        /\ UNCHANGED <<ds, broken>>

Restore == /\ Ev.op = "Restore"
           /\ ds' = saved
           /\ broken' = None
           /\ UNCHANGED saved

Crash == /\ Ev.op = "Crash"
         /\ Chk("the process does not hang", "", ~Ev.err)
         /\ LET b == [before |-> ds, after |-> Outcome(Ev.cmd, OpenedFor(Ev.cmd, ds)).ds, cmd |-> Ev.cmd, obs |-> <<>>]
            IN broken' = b /\ (Has("now") => Allowed(b, Ev.now))
         /\ UNCHANGED <<ds, saved>>

Recover == /\ Ev.op = "Recover"
           /\ Chk("check after a crash", "", ~Ev.err)
           /\ Allowed(broken, Ev.q)
           /\ broken' = [broken EXCEPT !.obs = Ev.q]
           /\ UNCHANGED <<ds, saved>>

Adopt == /\ Ev.op = "Adopt"
         /\ Chk("repack after a check", "", ~Ev.err)
         /\ SameItems(Ev.q, broken.obs)
         /\ Chk("clean after repack", Ev.disk, \A x \in Set(Ev.disk) : \A n \in 1..Len(x.s) : x.s[n][2] = "ok")
         /\ ds' = [ds EXCEPT !.on = AdoptZone("on", IsSimple(conf)), !.arc = AdoptZone("arc", TRUE),
                             !.dont = FALSE, !.man = IsSimple(conf)]
         /\ Chk("repacked", AllIds(conf, items, ds'), SameItems(Ev.q, AllIds(conf, items, ds')))
         /\ UNCHANGED <<saved, broken>>

\* Import in which something failed: ps are the segments where it succeeded.
\* If what failed is the sync of a log of sqlite (.unsure), what was reported as
\* failed can be there or not.
PathsOf(batch) == {PathOf(conf, items, batch[n]) : n \in 1..Len(batch)}
ImportOnly(d, batch, strategy, ps) ==
    LET sel == SelectSeq([n \in 1..Len(batch) |-> n], LAMBDA n : PathOf(conf, items, batch[n]) \in ps)
        r == Import(conf, items, now, d, [m \in 1..Len(sel) |-> batch[sel[m]]], strategy)
        at(n) == CHOOSE m \in 1..Len(sel) : sel[m] = n
    IN [ds |-> r.ds, res |-> [n \in 1..Len(batch) |-> IF n \in Set(sel) THEN r.res[at(n)] ELSE "ERR"]]

Fail == /\ Ev.op = "Fail"
        /\ Chk("the process does not crash", "", ~Ev.died)
        /\ \E ps \in SUBSET PathsOf(Ev.batch) :
              LET r == ImportOnly(OpenWriter(conf, ds), Ev.batch, Ev.strategy, ps)
                  reported(n) == IF Ev.unsure /\ Ev.res[n] = "ERR" THEN "ERR" ELSE r.res[n]
              IN
              /\ Chk("results", <<ps, r.res>>, Ev.res = [n \in 1..Len(r.res) |-> reported(n)])
              /\ ObsOk(r.ds)
              /\ ds' = r.ds
              /\ broken' = [before |-> ds, after |-> r.ds, cmd |-> [op |-> "none"], obs |-> AllIds(conf, items, r.ds)]
        /\ UNCHANGED <<saved>>

\* A known finding was met: the branch ends here
Known == /\ Ev.op = "Known"
         /\ UNCHANGED <<ds, saved, broken>>

FaultOp == /\ Ev.op \in FaultOps
           /\ Save \/ Restore \/ Crash \/ Recover \/ Adopt \/ Fail \/ Known
           /\ UNCHANGED <<conf, items, now>>

FInit == Init /\ saved = <<>> /\ broken = None

FNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ IF Ev.op \in FaultOps THEN FaultOp
            ELSE (Reset \/ Tick \/ Op) /\ UNCHANGED <<saved, broken>>

FSpec == FInit /\ [][FNext]_fvars
=============================================================================
