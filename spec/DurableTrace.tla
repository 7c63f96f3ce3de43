---------------------------- MODULE DurableTrace ----------------------------
(***************************************************************************)
(* Checks the rules of Durable.tla on the system calls of real operations. *)
(*                                                                         *)
(* Files that hold data, an index, a manifest or the metadata of a segment *)
(* are named by who records the trace, in t; s is the segment they belong  *)
(* to. All the operations since a dataset was created are in the trace, so *)
(* that what has not been flushed in it is not known to be on disk.        *)
(*                                                                         *)
(*   Reset   a new dataset, that does or does not want its data flushed    *)
(*   Sys     a system call on a file (p), that may get a new name (q)      *)
(*   Ack     an import has returned, items in segments segs are in         *)
(*   Done    another operation has returned                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,
          lazy,   \* the dataset is configured not to flush data
          files   \* what is known of each file: type, segment, if it is flushed
vars == <<l, lazy, files>>

Ev == Trace[l]

Chk(name, detail, cond) == IF cond THEN TRUE ELSE PrintT(<<"VERIF-WHY", name, detail>>) /\ FALSE

None == [x \in {} |-> {}]

\* Files called p, or inside a directory called p
Under(p) == {x \in DOMAIN files : Len(x) >= Len(p) /\ SubSeq(x, 1, Len(p)) = p}

Dirty(t, s) == {x \in DOMAIN files : files[x].t = t /\ files[x].s = s /\ ~files[x].ok}
DirtyAll(t) == {x \in DOMAIN files : files[x].t = t /\ ~files[x].ok}

\* The rules. DurableTrace knows about any number of files and segments
MayIndex(s) == Chk("data is flushed before the index that refers to it", Dirty("data", s), Dirty("data", s) = {})
MayAck(s) == /\ Chk("data is flushed before its import is acknowledged", Dirty("data", s), Dirty("data", s) = {})
             /\ Chk("the index is flushed before an import is acknowledged", Dirty("index", s), Dirty("index", s) = {})
             /\ Chk("the manifest is flushed before an import is acknowledged", DirtyAll("manifest"), DirtyAll("manifest") = {})
MayReplace(p, s) ==
    LET moved == Under(p)
        dirty == {x \in moved : ~files[x].ok}
    IN /\ Chk("a file takes the place of another when it is flushed", dirty, dirty = {})
       /\ Chk("the index is flushed before the data it does not refer to is dropped", Dirty("index", s), Dirty("index", s) = {})

Set(p, t, s, ok) == [x \in DOMAIN files \union {p} |-> IF x = p THEN [t |-> t, s |-> s, ok |-> ok] ELSE files[x]]

Written == /\ Ev.k \in {"write", "create", "link"}
           /\ IF Ev.t = "index" /\ Ev.k = "write" /\ ~lazy THEN MayIndex(Ev.s) ELSE TRUE
           \* Empty files have nothing to flush, and links are made to files that are there
           /\ files' = Set(Ev.p, Ev.t, Ev.s, Ev.k /= "write")

Flushed == /\ Ev.k = "fsync"
           /\ files' = Set(Ev.p, Ev.t, Ev.s, TRUE)

Renamed ==
    /\ Ev.k = "rename"
    /\ IF lazy THEN TRUE
       ELSE CASE Ev.qt = "data" /\ Ev.t /= "data" -> MayReplace(Ev.p, Ev.qs)
              [] Ev.qt = "manifest" -> /\ MayReplace(Ev.p, Ev.qs)
                                       /\ Chk("data is flushed before the manifest", DirtyAll("data"), DirtyAll("data") = {})
              [] Ev.qt = "meta" -> MayIndex(Ev.qs)
              [] OTHER -> TRUE
    /\ LET moved == Under(Ev.p)
           gone == Under(Ev.q)
           old(x) == Ev.p \o SubSeq(x, Len(Ev.q) + 1, Len(x))
           new == {Ev.q \o SubSeq(x, Len(Ev.p) + 1, Len(x)) : x \in moved}
       IN files' = [x \in ((DOMAIN files \ moved) \ gone) \union new |->
                      IF x \in new THEN [t |-> Ev.qt, s |-> Ev.qs, ok |-> files[old(x)].ok] ELSE files[x]]

Deleted == /\ Ev.k \in {"unlink", "rmdir"}
           /\ files' = [x \in DOMAIN files \ Under(Ev.p) |-> files[x]]

Sys == /\ Ev.op = "Sys"
       /\ Written \/ Flushed \/ Renamed \/ Deleted
       /\ UNCHANGED lazy

Reset == /\ Ev.op = "Reset"
         /\ lazy' = Ev.lazy
         /\ files' = None

Ack == /\ Ev.op = "Ack"
       /\ Chk("nothing hangs", Ev.why, ~Ev.err)
       /\ IF lazy THEN TRUE ELSE \A n \in 1..Len(Ev.segs) : MayAck(Ev.segs[n])
       /\ UNCHANGED <<lazy, files>>

\* Data moves with no index when it is archived or converted
Done == /\ Ev.op = "Done"
        /\ Chk("nothing hangs", Ev.why, ~Ev.err)
        /\ UNCHANGED <<lazy, files>>

Init == l = 1 /\ lazy = TRUE /\ files = None

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Reset \/ Sys \/ Ack \/ Done

Spec == Init /\ [][Next]_vars

Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN TRUE ELSE PrintT("VERIF-REJECT " \o ToString(d))
=============================================================================
