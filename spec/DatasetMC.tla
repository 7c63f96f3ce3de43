----------------------------- MODULE DatasetMC -----------------------------
(***************************************************************************)
(* All the histories of operations on a dataset, up to a length.           *)
(*                                                                         *)
(* A scene (a file in JSON) says the configuration of the dataset, a few   *)
(* items of data, and the operations that can be done. The states reachable*)
(* with them are all the ones of the specification in Dataset.             *)
(*                                                                         *)
(* What the dataset is for is checked on each transition: these are the    *)
(* guarantees as a user sees them, stated on the data that can be queried, *)
(* without the segments and indices of which Dataset is made.              *)
(*                                                                         *)
(* The transitions can be printed, with the operation and the fingerprints *)
(* of the states: histories that cover them are run on the real datasets,  *)
(* and DatasetTrace checks what they do.                                   *)
(***************************************************************************)
EXTENDS DatasetTrace

TE == INSTANCE TLCExt

Scene == JsonDeserialize(IOEnv.SCENE)
Emits == "PRINT" \in DOMAIN IOEnv /\ IOEnv.PRINT = "1"

VARIABLE last   \* the operation that was done
mcvars == <<l, conf, items, now, ds, last>>
View == <<now, ds>>

Segs(d) == {ZSeg(d, z) : z \in Zones(d)}
Sound(s) == s.kind /= "none" /\ (s.idx /= <<>> => s.opt /\ ~s.old) /\ s.has /\ ~s.stale /\ \A n \in 1..Len(s.slots) : s.slots[n].c = "ok"
AllSound(d) == \A s \in Segs(d) : Sound(s)
Healthy(d) == /\ AllSound(d)
              /\ IsSimple(conf) => \A p \in DOMAIN d.on : d.on[p].listed \/ d.on[p].idx = <<>>
              /\ \A p \in DOMAIN d.arc : d.arc[p].listed
Touched(d) == \E s \in Segs(d) : \E n \in 1..Len(s.slots) : s.slots[n].c /= "ok"

\* When operations can be done
Enabled(e, d) ==
    CASE e.op = "Import" -> AllSound(d)
      [] e.op = "Archive" -> /\ e.path \in DOMAIN d.on
                             /\ d.on[e.path].kind /= "none" /\ ~Touched(d)
      [] e.op = "Unarchive" -> /\ e.path \in DOMAIN d.arc
                               /\ d.arc[e.path].kind /= "none" /\ ~Touched(d)
      \* Segments that are not in the MANIFEST cannot be converted, and neither
      \* can the ones that lost their data. If the ones of simple datasets need
      \* to be scanned to convert them, and removed data is found again, MANIFEST
      \* and summaries do not follow until the next check.
      [] e.op = "Convert" -> /\ \A s \in Segs(d) : s.kind /= "none"
                             /\ \A z \in Zones(d) : (z[1] = "arc" \/ IsSimple(conf)) =>
                                   ZSeg(d, z).has /\ (ZSeg(d, z).stale => Len(ZSeg(d, z).idx) = Len(ZSeg(d, z).slots))
                             /\ IsSimple(conf) => \A p \in DOMAIN d.on : d.on[p].listed
                             /\ ~Touched(d)
      [] e.op = "Damage" ->
           /\ ~Touched(d)
           /\ <<e.zone, e.path>> \in Zones(d)
           /\ LET s == ZSeg(d, <<e.zone, e.path>>) IN
              /\ s.kind \in {"concat", "lines", "dir"} /\ s.has /\ Len(s.slots) >= e.n
              /\ IF e.how \in {"corrupt", "cutlast", "rmslot", "rmdata"} THEN Healthy(d) ELSE TRUE
              \* Or there would be no trace left of the segment
              /\ e.how = "rmdata" => (Healthy(d) /\ (IsSimple(conf) => s.listed))
              /\ e.how = "rmsummary" => s.opt /\ s.idx /= <<>>
              /\ e.how = "cutlast" => e.n = Len(s.slots)
              /\ e.how = "rmslot" => Len(s.idx) = Len(s.slots)
      [] e.op = "RmManifest" -> d.man /\ AllSound(d) /\ \A p \in DOMAIN d.on : d.on[p].kind /= "tar"
      [] e.op = "Tick" -> e.now > now
      \* Segments that would replace other ones interrupt it
      [] e.op = "Repack" -> \A p \in DOMAIN d.on \cap DOMAIN d.arc : "ARCHIVE_AGE" \notin Fsck(conf, items, now, d.on[p], FALSE)
      [] OTHER -> TRUE

MCInit == /\ l = 0
          /\ conf = [Scene.conf EXCEPT !.unique = Set(@)]
          /\ items = FixItems(Scene.items)
          /\ now = Scene.now
          /\ ds = NewDs(conf)
          /\ last = [op |-> "Start"]

Opened(e) == OpenedFor(e, ds)
After(e) == IF e.op = "Tick" THEN ds ELSE Outcome(e, Opened(e)).ds

Emit(n) == IF Emits
           THEN PrintT("VERIF-EDGE " \o ToString(TE!TLCFP(<<now, ds>>)) \o " " \o ToString(n) \o " " \o ToString(TE!TLCFP(<<now', ds'>>)))
           ELSE TRUE

MCNext == /\ l < Scene.depth
          /\ l' = l + 1
          /\ \E n \in 1..Len(Scene.ops) :
               LET e == Scene.ops[n] IN
               /\ Enabled(e, ds)
               /\ ds' = After(e)
               /\ now' = IF e.op = "Tick" THEN e.now ELSE now
               /\ last' = e
               /\ UNCHANGED <<conf, items>>
               /\ Emit(n)

MCSpec == MCInit /\ [][MCNext]_mcvars

(***************************************************************************)
(* Guarantees                                                              *)
(***************************************************************************)

Visible(d) == TLCEval(BagOf(AllIds(conf, items, d)))
Online(d) == TLCEval(BagOf(OnlineIds(conf, items, d)))
Count(b, i) == IF i \in DOMAIN b THEN b[i] ELSE 0
Covers(b, a) == \A i \in DOMAIN a : a[i] <= Count(b, i)

\* With the segments that are not in the MANIFEST: an import can find them again
Stored(d) == TLCEval(Visible([d EXCEPT !.on = [p \in DOMAIN @ |-> [@[p] EXCEPT !.listed = TRUE]]]))

\* Items in a sequence of positions of a batch, as a bag
BatchBag(batch, ns) == BagOf([k \in 1..Cardinality(ns) |-> batch[SetToSortSeq(ns, <)[k]]])

\* Import: what is reported as imported is there, what is not there any more
\* has been replaced by something imported with the same key, nothing else changes
ImportKeeps(e, d, d2, r) ==
    LET N == 1..Len(e.batch)
        ok == {n \in N : r.res[n] = "OK" /\ ~Older(now, conf.delete_age, items[e.batch[n]].e)}
        added == BatchBag(e.batch, ok)
        v == Visible(d)
        v2 == Visible(d2)
        both(i) == Count(v, i) + Count(added, i)
        strategy == Strategy(conf, e.strategy)
        all == DOMAIN v \cup DOMAIN added \cup DOMAIN v2
    IN \* nothing comes from elsewhere
       /\ \A i \in all : Count(v2, i) <= Count(Stored(d), i) + Count(added, i)
       \* what is missing has been replaced
       /\ \A i \in all : Count(v2, i) < both(i) =>
             /\ ~IsSimple(conf)
             /\ strategy \in {"always", "usn"}
             /\ \E n \in ok : /\ Key(conf, items, e.batch[n]) = Key(conf, items, i)
                              /\ PathOf(conf, items, e.batch[n]) = PathOf(conf, items, i)
                              /\ strategy = "usn" => items[e.batch[n]].usn >= items[i].usn
       \* what was imported is there, or something that replaces it
       /\ \A n \in ok : \E i \in DOMAIN v2 : Key(conf, items, i) = Key(conf, items, e.batch[n])
       \* what is refused as a duplicate is a duplicate
       /\ \A n \in N : r.res[n] = "DUP" =>
             /\ ~IsSimple(conf)
             /\ \E i \in DOMAIN v2 : Key(conf, items, i) = Key(conf, items, e.batch[n])

\* There are no two items with the same key in a segment
NoDuplicates ==
    ~IsSimple(conf) => \A p \in DOMAIN ds.on :
        LET s == ds.on[p]
            keys == [n \in 1..Len(s.idx) |-> Key(conf, items, s.slots[s.idx[n]].i)]
        IN Cardinality(ToSet(keys)) = Len(keys)

RemoveKeeps(e, d, d2) ==
    LET v == Online(d)
        v2 == Online(d2)
    IN /\ DOMAIN v2 = {i \in DOMAIN v : ~Matches(items, Q(e.query), i)}
       /\ \A i \in DOMAIN v2 : v2[i] = v[i]
       /\ ArchivedIds(conf, items, d) = ArchivedIds(conf, items, d2)

\* Items whose data is good
Good(d) ==
    LET good(simple, zone) == ZoneIds(simple, items, [p \in DOMAIN zone |->
                [zone[p] EXCEPT !.idx = SelectSeq(@, LAMBDA n : zone[p].slots[n].c = "ok")]])
    IN BagOf(good(TRUE, d.arc) \o good(IsSimple(conf), d.on))

\* A check never makes good data disappear, leaves nothing to fix, and tells
\* it all: doing it again changes nothing and reports only what needs to be
\* fixed by hand
CheckKeeps(e, d, d2) ==
    LET again == Check(conf, items, now, d2, e.fix, e.accurate, e.online, e.offline)
        z(x) == [on |-> x.on, arc |-> x.arc]
    IN IF ~e.fix THEN z(d2) = z(d)
       ELSE /\ Covers(Visible(d2), Good(d))
            /\ Healthy(d) => Visible(d2) = Visible(d)
            /\ again.ds = d2
            /\ \A x \in again.rep \cup again.arep : x[1] = "manual"
            /\ ~Touched(d2) /\ e.online /\ e.offline => Healthy(d2)

\* A repack keeps all the data that is not past the age at which it is deleted,
\* and leaves nothing to repack
RepackKeeps(e, d, d2) ==
    LET again == Repack(conf, items, now, d2, TRUE, e.online, e.offline)
        v == Visible(d)
        v2 == Visible(d2)
        v3 == Visible(again.ds)
        left(zone, c) == UNION {x[2] : x \in StateOf(c, items, now, zone, FALSE)}
    IN IF ~e.fix \/ Opened(e).dont THEN v2 = v /\ d2.on = d.on /\ d2.arc = d.arc
       ELSE /\ Covers(v, v2)
            /\ \A i \in DOMAIN v : Count(v2, i) < v[i] => Older(now, conf.delete_age, items[i].e)
            /\ v3 = v2
            /\ e.online => left(again.ds.on, conf) \cap {"DIRTY", "DELETED", "MISSING", "ARCHIVE_AGE", "DELETE_AGE"} = {}
            /\ e.offline /\ e.online => left(d2.arc, ArcConf(conf)) \cap {"DIRTY", "DELETED", "MISSING"} = {}
            \* only data that is old enough is archived
            /\ \A i \in DOMAIN Online(d) : Count(Online(d2), i) < Online(d)[i] =>
                   Older(now, conf.delete_age, items[i].e) \/ Older(now, conf.archive_age, items[i].e)

RemoveOldKeeps(e, d, d2) ==
    LET v == Visible(d)
        v2 == Visible(d2)
    IN /\ Covers(v, v2)
       /\ \A i \in DOMAIN v : Count(v2, i) < v[i] => e.fix /\ e.online /\ Older(now, conf.delete_age, items[i].e)

\* Summaries count what can be queried
SummaryCounts(d) ==
    FoldSet(LAMBDA x, acc : x.count + acc, 0, SummaryOf(conf, items, d, AnyQuery)) = Len(AllIds(conf, items, d))
SummaryIsComplete == SummaryCounts(ds)

\* Operations that move or convert segments change nothing
StepOk ==
    LET e == last'
        d == IF e.op = "Tick" THEN ds ELSE Opened(e)
        d2 == ds'
    IN CASE e.op = "Import" -> ImportKeeps(e, d, d2, Outcome(e, d))
         [] e.op = "Remove" -> RemoveKeeps(e, d, d2)
         [] e.op = "Check" -> CheckKeeps(e, d, d2)
         [] e.op = "Repack" -> RepackKeeps(e, d, d2)
         [] e.op = "RemoveOld" -> RemoveOldKeeps(e, d, d2)
         [] e.op \in {"Archive", "Unarchive", "Convert", "Dont", "Tick"} ->
               IF Healthy(d) THEN Visible(d) = Visible(d2) ELSE Covers(Visible(d2), Good(d))
         [] OTHER -> TRUE
Guarantees == [][StepOk]_mcvars
=============================================================================
