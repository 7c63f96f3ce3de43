-------------------------------- MODULE Locks --------------------------------
(***************************************************************************)
(* The locks of a dataset, and what they are for: processes that query it, *)
(* import in it, check it, repack it, and move its segments to its archive *)
(* and back.                                                               *)
(*                                                                         *)
(* A lock file has two bytes. Byte 0 is locked by who reads, shared, and   *)
(* by who changes what is there, alone. Byte 1 is locked by who appends    *)
(* and by who checks, alone. An iseg dataset has a lock file for each      *)
(* segment; a simple one has only one, and so does the archive (which is a *)
(* simple dataset).                                                        *)
(*                                                                         *)
(* Each operation is a sequence of steps that depend on Layout only. With  *)
(* KeepArchive, who has moved a segment to the archive keeps its lock      *)
(* until the end, as arkimet did before commit "fix: release the archive   *)
(* lock after archiving each segment": two of them can wait for each other *)
(* forever.                                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Procs, Segs, Layout, KeepArchive

ASSUME Layout \in {"iseg", "simple"}

VARIABLES pc,    \* next step of each process
          todo,  \* steps of each process
          held,  \* locks held: [p, f, b, w]
          zone,  \* where each segment is: "on" or "arc"
          seen,  \* segments seen by each query
          lost   \* segments that each query does not need to see: unarchived or removed
vars == <<pc, todo, held, zone, seen, lost>>

\* Files that are locked
FileOf(s) == IF Layout = "iseg" THEN s ELSE 0
Archive == 100

Lock(f, b, w) == [do |-> "lock", f |-> f, b |-> b, w |-> w, s |-> 0]
Unlock(f, b) == [do |-> "unlock", f |-> f, b |-> b, w |-> FALSE, s |-> 0]
Act(what, s) == [do |-> what, f |-> 0, b |-> 0, w |-> FALSE, s |-> s]

Order == SetToSortSeq(Segs, <)
Flat(f(_), S) == FlattenSeq([n \in 1..Len(Order) |-> IF Order[n] \in S THEN f(Order[n]) ELSE <<>>])

ReadArchive == <<Lock(Archive, 0, FALSE), Act("readarc", 0), Unlock(Archive, 0)>>
Query == IF Layout = "iseg"
         THEN ReadArchive \o Flat(LAMBDA s : <<Lock(s, 0, FALSE), Act("read", s), Unlock(s, 0)>>, Segs)
         ELSE <<Lock(0, 0, FALSE)>> \o ReadArchive \o Flat(LAMBDA s : <<Act("read", s)>>, Segs) \o <<Unlock(0, 0)>>

Import(S) == IF Layout = "iseg"
             THEN Flat(LAMBDA s : <<Lock(s, 1, TRUE), Act("append", s), Unlock(s, 1)>>, S)
             ELSE <<Lock(0, 1, TRUE)>> \o Flat(LAMBDA s : <<Act("append", s)>>, S) \o <<Unlock(0, 1)>>

Repack1(s) == <<Lock(FileOf(s), 0, TRUE), Act("modify", s), Unlock(FileOf(s), 0)>>
Archive1(s) == <<Lock(Archive, 1, TRUE), Lock(FileOf(s), 0, TRUE), Act("archive", s), Unlock(FileOf(s), 0),
                 Lock(Archive, 0, TRUE), Act("modarc", 0), Unlock(Archive, 0)>>
               \o (IF KeepArchive THEN <<>> ELSE <<Unlock(Archive, 1)>>)
\* Repack segments in R, then archive those in A
Checked(s, R, A) == (IF s \in R THEN Repack1(s) ELSE <<>>) \o (IF s \in A THEN Archive1(s) ELSE <<>>)
Maintenance(R, A) ==
    (IF Layout = "iseg" THEN Flat(LAMBDA s : <<Lock(s, 1, TRUE)>> \o Checked(s, R, A) \o <<Unlock(s, 1)>>, Segs)
     ELSE <<Lock(0, 1, TRUE)>> \o Flat(LAMBDA s : Checked(s, R, A), Segs))
    \* Then the archive
    \o <<Lock(Archive, 1, TRUE), Lock(Archive, 0, TRUE), Act("modarc", 0), Unlock(Archive, 0), Unlock(Archive, 1)>>
    \o (IF Layout = "iseg" THEN <<>> ELSE <<Unlock(0, 1)>>)

Unarchive(s) == <<Lock(FileOf(s), 1, TRUE), Lock(Archive, 1, TRUE), Lock(Archive, 0, TRUE), Act("unarchive", s),
                  Unlock(Archive, 0), Unlock(Archive, 1), Unlock(FileOf(s), 1)>>

Ops == {Query} \union {Import(S) : S \in SUBSET Segs \ {{}}}
       \union {Maintenance(R, A) : R \in SUBSET Segs, A \in SUBSET Segs}
       \union {Unarchive(s) : s \in Segs}

Init == /\ todo \in [Procs -> Ops]
        /\ pc = [p \in Procs |-> 1]
        /\ held = {}
        /\ zone \in [Segs -> {"on", "arc"}]
        /\ seen = [p \in Procs |-> {}]
        /\ lost = [p \in Procs |-> {}]

Done(p) == pc[p] > Len(todo[p])
At(p) == todo[p][pc[p]]
Doing(p) == ~Done(p) /\ At(p).do \notin {"lock", "unlock"}

CanLock(p, x) == \A h \in held : h.p /= p /\ h.f = x.f /\ h.b = x.b => ~h.w /\ ~x.w

Do(p, x) ==
    CASE x.do = "lock" -> /\ CanLock(p, x)
                          /\ held' = held \union {[p |-> p, f |-> x.f, b |-> x.b, w |-> x.w]}
                          /\ UNCHANGED <<zone, seen, lost>>
      [] x.do = "unlock" -> /\ held' = {h \in held : ~(h.p = p /\ h.f = x.f /\ h.b = x.b)}
                            /\ UNCHANGED <<zone, seen, lost>>
      [] x.do = "read" -> /\ seen' = [seen EXCEPT ![p] = @ \union (IF zone[x.s] = "on" THEN {x.s} ELSE {})]
                          /\ UNCHANGED <<held, zone, lost>>
      [] x.do = "readarc" -> /\ seen' = [seen EXCEPT ![p] = @ \union {s \in Segs : zone[s] = "arc"}]
                             /\ UNCHANGED <<held, zone, lost>>
      [] x.do = "archive" -> /\ zone' = [zone EXCEPT ![x.s] = "arc"]
                             /\ UNCHANGED <<held, seen, lost>>
      [] x.do = "unarchive" -> /\ zone' = [zone EXCEPT ![x.s] = "on"]
                               /\ UNCHANGED <<held, seen, lost>>
      [] OTHER -> UNCHANGED <<held, zone, seen, lost>>

Step(p) == /\ ~Done(p)
           /\ Do(p, At(p))
           /\ pc' = [pc EXCEPT ![p] = @ + 1]
           /\ UNCHANGED todo

\* Whoever ends does nothing more: a state with no next is a deadlock
Ended == /\ \A p \in Procs : Done(p)
         /\ UNCHANGED vars

Next == Ended \/ \E p \in Procs : Step(p)

Spec == Init /\ [][Next]_vars

Readers == {"read"}
Writers == {"append", "modify", "archive", "unarchive"}

\* Data does not change under who is reading it, unless by adding to it, and
\* two processes do not change the same segment together
Exclusion ==
    \A p, q \in Procs : p /= q /\ Doing(p) /\ Doing(q) =>
        /\ At(p).do = "read" /\ At(q).do \in {"modify", "archive"} => At(p).s /= At(q).s
        /\ At(p).do \in Writers /\ At(q).do \in Writers => At(p).s /= At(q).s
        /\ At(p).do = "readarc" => At(q).do \notin {"modarc", "unarchive"}
        /\ At(p).do = "modarc" => At(q).do \notin {"modarc", "unarchive"}

\* A query sees all the segments, wherever they are. This is not so with iseg
\* if one is moved in the meantime: see known-findings.txt
AllSeen ==
    \A p \in Procs : Done(p) /\ todo[p] = Query => seen[p] = Segs

\* Nobody holds anything at the end
Released == (\A p \in Procs : Done(p)) => held = {} \/ KeepArchive
=============================================================================
