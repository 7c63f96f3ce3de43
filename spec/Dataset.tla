------------------------------ MODULE Dataset ------------------------------
(***************************************************************************)
(* What a local dataset (types iseg and simple, with their archive) does,  *)
(* as operators from a dataset state to a dataset state and a result.      *)
(*                                                                         *)
(* The state of a dataset is a record                                      *)
(*    on   : function from relative path to segment, for the dataset proper*)
(*    arc  : function from relative path to segment, for archive "last"    *)
(*    dont : repack is inhibited until the dataset is checked              *)
(*    man  : (simple only) there is a MANIFEST                              *)
(*                                                                         *)
(* A segment is a record                                                   *)
(*    kind    : how its data is stored, "none" if there is no data on disk *)
(*    slots   : sequence of [i, c]: an item, and its condition on disk:    *)
(*              "ok", "bad" (present but fails validation), "cut"          *)
(*              (truncated), "gone" (nothing there)                        *)
(*    idx     : sequence of slot numbers that are indexed, in index order  *)
(*    has     : index (or metadata) file is present                        *)
(*    stale   : data is newer than the index                               *)
(*    listed  : (simple only) the segment is in the MANIFEST               *)
(*    opt     : (simple only) MANIFEST information and summary are current *)
(*    old     : (simple only) the data is older than the MANIFEST says          *)
(*                                                                         *)
(* Items are ids, with attributes in the function items: epoch e, broken   *)
(* down time t, o, p, a, k (task), usn (-1 if none), size, fmt, valid.     *)
(***************************************************************************)
EXTENDS Reftime, SequencesExt, FiniteSetsExt, Functions

NoSeg == [kind |-> "none", slots |-> <<>>, idx |-> <<>>, has |-> FALSE,
          stale |-> FALSE, listed |-> FALSE, opt |-> TRUE, old |-> FALSE, cut |-> FALSE]

EmptyFun == [x \in {} |-> NoSeg]
NewDs(c) == [on |-> EmptyFun, arc |-> EmptyFun, dont |-> FALSE, man |-> FALSE]

Seg(zone, p) == IF p \in DOMAIN zone THEN zone[p] ELSE NoSeg
Put(zone, p, s) == [q \in DOMAIN zone \cup {p} |-> IF q = p THEN s ELSE zone[q]]
Drop(zone, p) == [q \in DOMAIN zone \ {p} |-> zone[q]]
\* Store s as p, or drop p if there is nothing left of it
Keep(zone, p, s) == IF s.kind = "none" /\ ~s.has /\ ~s.listed THEN Drop(zone, p) ELSE Put(zone, p, s)

SingleFile(fmt) == fmt \in {"grib", "bufr", "vm2"}
KindFor(fmt) == CASE fmt = "vm2" -> "lines"
                  [] fmt \in {"grib", "bufr"} -> "concat"
                  [] OTHER -> "dir"
IsPlain(s) == s.kind \in {"none", "concat", "lines", "dir"}

\* Relative path of the segment for an item
PathOf(c, items, i) == StepPath(c.step, items[i].t) \o "." \o items[i].fmt

\* Ages: -1 if not configured
Older(now, age, e) == age >= 0 /\ e < AgeThreshold(now, age)

\* Key for the detection of duplicates
Key(c, items, i) == LET x == items[i] IN
    <<x.e, IF "origin" \in c.unique THEN x.o ELSE "", IF "product" \in c.unique THEN x.p ELSE "",
      IF "area" \in c.unique THEN x.a ELSE "", IF "task" \in c.unique THEN x.k ELSE "">>

Slot(i) == [i |-> i, c |-> "ok"]

\* Stable sort of a sequence of numbers by val
StableSort(s, val(_)) ==
    LET pos == [k \in 1..Len(s) |-> <<val(s[k]), k>>]
        ord == TLCEval(SortSeq(TLCEval(pos), LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])))
    IN TLCEval([r \in 1..Len(s) |-> s[ord[r][2]]])

\* Order in which a segment is kept after a repack or a conversion: by
\* reference time, then by position
SegOrder(items, s) == StableSort(SetToSortSeq(ToSet(s.idx), <), LAMBDA n : items[s.slots[n].i].e)

(***************************************************************************)
(* What can be queried                                                     *)
(***************************************************************************)

Readable(isSimple, s) ==
    s.kind /= "none" /\ s.has /\ (isSimple => (s.listed /\ ~s.stale))

SegIds(items, s) == LET o == SegOrder(items, s) IN TLCEval([n \in 1..Len(o) |-> s.slots[o[n]].i])

\* All items visible in a zone, as one sequence in time order (segments never
\* overlap in time, so they can be sorted by the time of their first element)
ZoneIds(isSimple, items, zone) ==
    LET ps == {p \in DOMAIN zone : Readable(isSimple, zone[p]) /\ zone[p].idx /= <<>>}
        seqs == TLCEval([p \in ps |-> SegIds(items, zone[p])])
        ord == SetToSortSeq(ps, LAMBDA p, q : items[Head(seqs[p])].e < items[Head(seqs[q])].e)
    IN FlattenSeq([n \in 1..Len(ord) |-> seqs[ord[n]]])

IsSimple(c) == c.type = "simple"

\* A simple dataset that is found with no MANIFEST needs to be checked before
\* it can be repacked
OpenWriter(c, ds) == IF IsSimple(c) /\ ~ds.man THEN [ds EXCEPT !.dont = TRUE] ELSE ds
OpenChecker(c, ds) == IF IsSimple(c) /\ ~ds.man THEN [ds EXCEPT !.dont = TRUE, !.man = TRUE] ELSE ds

OnlineIds(c, items, ds) == ZoneIds(IsSimple(c), items, ds.on)
ArchivedIds(c, items, ds) == ZoneIds(TRUE, items, ds.arc)
AllIds(c, items, ds) == ArchivedIds(c, items, ds) \o OnlineIds(c, items, ds)

\* Number of times each item appears
BagOf(s) == [i \in ToSet(s) |-> Cardinality({n \in 1..Len(s) : s[n] = i})]

\* A query: bounds on the epoch (from inclusive, to exclusive), and allowed
\* values for the other attributes (empty set: any), and an expression on the
\* reference time
AnyQuery == [lo |-> Forever.lo, hi |-> Forever.hi, o |-> {}, p |-> {}, a |-> {}, k |-> {}, rt |-> <<>>]
In1(v, vs) == vs = {} \/ v \in vs
Matches(items, q, i) == LET x == items[i] IN
    q.lo <= x.e /\ x.e < q.hi /\ In1(x.o, q.o) /\ In1(x.p, q.p) /\ In1(x.a, q.a) /\ In1(x.k, q.k) /\ RtMatch(q.rt, x.e)

Query(c, items, ds, q) == SelectSeq(AllIds(c, items, ds), LAMBDA i : Matches(items, q, i))

\* Sort orders: [period, keys], where keys is a sequence of <<attribute,
\* reversed>>. Missing values come first.
AttrRank(v) == CASE v \in {"-"} -> 0 [] v \in {"1", "t1"} -> 1 [] v \in {"2", "t2"} -> 2 [] v \in {"3", "t3"} -> 3
SortVal(x, k) ==
    LET v == CASE k[1] = "reftime" -> x.e
               [] k[1] = "origin" -> AttrRank(x.o)
               [] k[1] = "product" -> AttrRank(x.p)
               [] k[1] = "area" -> AttrRank(x.a)
               [] k[1] = "task" -> AttrRank(x.k)
    IN IF k[2] THEN -v ELSE v
SortKey(items, sort, i) ==
    SubSeq(items[i].t, 1, PeriodLen(sort.period)) \o [n \in 1..Len(sort.keys) |-> SortVal(items[i], sort.keys[n])]

\* Sorted results: segments come in time order, and each is sorted. This puts
\* everything in order, if segments do not span more than the period.
ZoneSorted(isSimple, items, zone, q, sort) ==
    LET ps == {p \in DOMAIN zone : Readable(isSimple, zone[p]) /\ zone[p].idx /= <<>>}
        seqs == TLCEval([p \in ps |-> SegIds(items, zone[p])])
        ord == SetToSortSeq(ps, LAMBDA p, r : items[Head(seqs[p])].e < items[Head(seqs[r])].e)
        sorted(p) == SortBy(SelectSeq(seqs[p], LAMBDA i : Matches(items, q, i)), LAMBDA i : SortKey(items, sort, i))
    IN FlattenSeq([n \in 1..Len(ord) |-> sorted(ord[n])])
SortedQuery(c, items, ds, q, sort) ==
    ZoneSorted(TRUE, items, ds.arc, q, sort) \o ZoneSorted(IsSimple(c), items, ds.on, q, sort)
\* Summary of a sequence of items
SumKey(x) == <<x.o, x.p, x.a, x.k>>
Summarise(items, s) ==
    LET keys == {SumKey(items[i]) : i \in ToSet(s)}
        sel == TLCEval([k \in keys |-> SelectSeq(s, LAMBDA i : SumKey(items[i]) = k)])
        es == TLCEval([k \in keys |-> {items[i].e : i \in ToSet(sel[k])}])
    IN {[o |-> k[1], p |-> k[2], a |-> k[3], k |-> k[4],
         count |-> Len(sel[k]),
         size |-> FoldSeq(LAMBDA i, acc : items[i].size + acc, 0, sel[k]),
         begin |-> Min(es[k]), end |-> Max(es[k])] : k \in keys}

\* Items of a segment counted by the summary for a query. Segments of simple
\* datasets have a ready made summary: its elements cannot be split, and are
\* taken if the period they span overlaps the query.
SegCounted(isSimple, items, s, q) ==
    LET ids == SegIds(items, s)
        es == TLCEval([k \in {SumKey(items[j]) : j \in ToSet(ids)} |-> {items[i].e : i \in {j \in ToSet(ids) : SumKey(items[j]) = k}}])
        span(k) == Min(es[k]) < q.hi /\ Max(es[k]) >= q.lo /\ MayMatch(q.rt, Min(es[k]), Max(es[k]))
    IN IF isSimple /\ s.opt
       THEN SelectSeq(ids, LAMBDA i : Matches(items, [q EXCEPT !.lo = Forever.lo, !.hi = Forever.hi, !.rt = <<>>], i) /\ span(SumKey(items[i])))
       ELSE SelectSeq(ids, LAMBDA i : Matches(items, q, i))

\* Elements of ready made or cached summaries can be counted even if no item of
\* theirs has a time that matches an expression: say if this cannot happen, at
\* whatever level summaries are taken
ZoneExact(isSimple, items, zone, q) ==
    LET ids == ToSet(ZoneIds(isSimple, items, zone))
        es(k) == {items[i].e : i \in {j \in ids : SumKey(items[j]) = k}}
    IN \A k \in {SumKey(items[i]) : i \in ids} :
           \/ \A e \in es(k) : RtMatch(q.rt, e)
           \/ ~MayMatch(q.rt, Min(es(k)), Max(es(k)))
SummaryExact(c, items, ds, q) ==
    q.rt = <<>> \/ (ZoneExact(TRUE, items, ds.arc, q) /\ ZoneExact(IsSimple(c), items, ds.on, q))

SummaryOf(c, items, ds, q) ==
    LET Counted(isSimple, zone) ==
            LET ps == SetToSeq({p \in DOMAIN zone : Readable(isSimple, zone[p])})
            IN FlattenSeq([n \in 1..Len(ps) |-> SegCounted(isSimple, items, zone[ps[n]], q)])
    IN Summarise(items, Counted(TRUE, ds.arc) \o Counted(IsSimple(c), ds.on))

(***************************************************************************)
(* Import                                                                  *)
(***************************************************************************)

\* Add position-indexed results
SetRes(res, n, r) == [res EXCEPT ![n] = r]

\* Import one item, in a segment accumulator [seg, res]
ImportOne(c, items, strategy, batch, acc, n) ==
    LET i == batch[n]
        s == acc.seg
        k == Key(c, items, i)
        dups == IF IsSimple(c) THEN <<>> ELSE SelectSeq(s.idx, LAMBDA m : Key(c, items, s.slots[m].i) = k)
        dup == dups /= <<>>
        app == [s EXCEPT !.slots = Append(@, Slot(i)), !.idx = Append(@, Len(s.slots) + 1)]
        rep == [s EXCEPT !.slots = Append(@, Slot(i)),
                         !.idx = Append(SelectSeq(@, LAMBDA m : m /= dups[1]), Len(s.slots) + 1)]
        oslot == s.slots[dups[1]]
        old == IF oslot.c = "ok" THEN items[oslot.i].usn ELSE -1
        new == items[i].usn
    IN CASE ~dup -> [seg |-> app, res |-> SetRes(acc.res, n, "OK")]
         [] dup /\ strategy = "never" -> [acc EXCEPT !.res = SetRes(@, n, "DUP")]
         [] dup /\ strategy = "always" -> [seg |-> rep, res |-> SetRes(acc.res, n, "OK")]
         [] dup /\ strategy = "usn" ->
              IF new = -1 THEN [acc EXCEPT !.res = SetRes(@, n, "DUP")]
              ELSE IF old = -1 THEN [acc EXCEPT !.res = SetRes(@, n, "ERR")]
              ELSE IF old > new THEN [acc EXCEPT !.res = SetRes(@, n, "DUP")]
              ELSE [seg |-> rep, res |-> SetRes(acc.res, n, "OK")]

\* Import the elements of batch at positions ns in the same segment p.
\* Segments that are tarred, zipped or compressed cannot be appended to, and
\* trying to do it interrupts the import.
ImportSeg(c, items, strategy, batch, acc, p, ns) ==
    LET s0 == Seg(acc.on, p)
        ord == StableSort(ns, LAMBDA n : items[batch[n]].e)
        fresh == [s0 EXCEPT !.kind = IF @ = "none" THEN KindFor(items[batch[ns[1]]].fmt) ELSE @,
                            !.slots = IF s0.kind = "none" THEN <<>> ELSE @,
                            !.idx = IF s0.kind = "none" THEN <<>> ELSE @]
        r == FoldLeft(LAMBDA a, n : ImportOne(c, items, strategy, batch, a, n),
                      [seg |-> fresh, res |-> acc.res], ord)
    IN IF acc.err THEN acc
       ELSE IF ~IsPlain(s0) THEN [acc EXCEPT !.err = TRUE]
       ELSE [acc EXCEPT !.res = r.res,
                        !.on = Put(@, p, [r.seg EXCEPT !.has = TRUE, !.listed = IsSimple(c), !.stale = FALSE, !.opt = TRUE, !.old = FALSE])]

Strategy(c, strategy) == IF strategy = "default" THEN c.replace ELSE strategy

\* Result: [ds, res, err], where res is a sequence of "OK", "DUP", "ERR"
Import(c, items, now, ds, batch, strategy) ==
    LET N == 1..Len(batch)
        tooOld(n) == Older(now, c.delete_age, items[batch[n]].e)
        refused(n) == ~tooOld(n) /\ Older(now, c.archive_age, items[batch[n]].e)
        misfit(n) == items[batch[n]].fmt /= items[batch[1]].fmt
        res0 == [n \in N |-> IF misfit(n) THEN "ERR" ELSE IF tooOld(n) THEN "OK" ELSE IF refused(n) THEN "ERR" ELSE "-"]
        todo == SelectSeq([n \in N |-> n], LAMBDA n : res0[n] = "-")
        path == [n \in ToSet(todo) |-> PathOf(c, items, batch[n])]
        first(p) == Min({items[batch[n]].e : n \in {m \in ToSet(todo) : path[m] = p}})
        paths == SetToSortSeq({path[n] : n \in ToSet(todo)}, LAMBDA p, q : first(p) < first(q))
        r == FoldLeft(LAMBDA a, p : ImportSeg(c, items, Strategy(c, strategy), batch, a, p,
                                               SelectSeq(todo, LAMBDA n : path[n] = p)),
                      [on |-> ds.on, res |-> res0, err |-> FALSE], paths)
        res == [n \in N |-> IF r.res[n] = "-" THEN "ERR" ELSE r.res[n]]
    IN IF Len(batch) = 0 THEN [ds |-> ds, res |-> <<>>, err |-> FALSE]
       ELSE IF ~IsSimple(c) /\ items[batch[1]].fmt /= c.fmt
       THEN [ds |-> ds, res |-> [n \in N |-> "ERR"], err |-> FALSE]
       ELSE [ds |-> [ds EXCEPT !.on = r.on, !.man = @ \/ "OK" \in {r.res[n] : n \in ToSet(todo)}],
             res |-> res, err |-> r.err]

(***************************************************************************)
(* Removal of data                                                         *)
(***************************************************************************)

\* Remove all items in a set of <<path, slot>>
RemoveSlots(ds, targets) ==
    [ds EXCEPT !.on = [p \in DOMAIN @ |->
        LET gone == {n \in 1..Len(@[p].slots) : <<p, n>> \in targets} IN
        IF gone = {} THEN @[p]
        ELSE [@[p] EXCEPT !.idx = SelectSeq(@, LAMBDA n : n \notin gone), !.stale = FALSE, !.opt = TRUE, !.old = FALSE]]]

\* Remove all visible items that match a query
RemoveMatching(c, items, ds, q) ==
    RemoveSlots(ds, UNION {{<<p, n>> : n \in {m \in ToSet(ds.on[p].idx) : Matches(items, q, ds.on[p].slots[m].i)}}
                           : p \in {pp \in DOMAIN ds.on : Readable(IsSimple(c), ds.on[pp])}})

(***************************************************************************)
(* Segment state                                                           *)
(***************************************************************************)

\* Epoch interval of the segment, as its name says: from any of the items that
\* were put in it
SegInterval(c, items, s) == StepInterval(c.step, items[s.slots[1].i].t)

Damaged(s, what) == \E n \in ToSet(s.idx) : s.slots[n].c \in what

\* The last slot that is on disk
LastThere(s) == Max({0} \cup {n \in 1..Len(s.slots) : s.slots[n].c /= "gone"})

\* State of the data of a segment with a usable, not empty index
DataState(items, s, accurate) ==
    LET o == SegOrder(items, s) IN
    IF Damaged(s, {"cut", "gone"}) THEN {"CORRUPTED"}
    ELSE IF accurate /\ Damaged(s, {"bad"}) THEN {"CORRUPTED"}
    ELSE IF o /= [n \in 1..LastThere(s) |-> n] THEN {"DIRTY"} ELSE {}

AgeState(c, now, iv) ==
    IF c.delete_age >= 0 /\ AgeThreshold(now, c.delete_age) >= iv.hi THEN {"DELETE_AGE"}
    ELSE IF c.archive_age >= 0 /\ AgeThreshold(now, c.archive_age) >= iv.hi THEN {"ARCHIVE_AGE"}
    ELSE {}

\* iv: time interval for the segment name
FsckWith(c, items, now, s, accurate, iv) ==
    IF s.kind = "none" THEN {"MISSING"}
    ELSE IF ~s.has THEN (IF s.slots = <<>> THEN {"DELETED"} ELSE {"UNALIGNED"})
    ELSE IF s.stale THEN {"UNALIGNED"}
    ELSE IF s.idx = <<>> THEN {"DELETED"}
    ELSE DataState(items, s, accurate)
         \cup (IF IsSimple(c) /\ (~s.listed \/ ~s.opt \/ s.old) THEN {"UNALIGNED"} ELSE {})
         \cup (IF IsSimple(c) /\ ~s.opt THEN {}
               ELSE IF \E n \in ToSet(s.idx) : ~InInterval(items[s.slots[n].i].e, iv) THEN {"CORRUPTED"}
               ELSE AgeState(c, now, iv))

Fsck(c, items, now, s, accurate) ==
    FsckWith(c, items, now, s, accurate,
             IF s.slots = <<>> THEN Forever ELSE SegInterval(c, items, s))

\* Configuration of an archive of a dataset
ArcConf(c) == [c EXCEPT !.type = "simple", !.gz = 512, !.archive_age = -1, !.delete_age = -1]

\* Segments that a check looks at: the ones with data, and the ones that are
\* indexed
Checked(c, zone, p) == LET s == zone[p] IN
    IF IsSimple(c) THEN s.listed \/ s.kind /= "none" ELSE s.has \/ s.kind /= "none"

(***************************************************************************)
(* Fix, repack, age, archive                                               *)
(***************************************************************************)

\* Slots found by scanning the data
Scannable(s) == SelectSeq([n \in 1..Len(s.slots) |-> n], LAMBDA n : s.slots[n].c = "ok")

\* Slots reindexed by a rescan: all for simple, only the last of duplicates for iseg
RescanIdx(c, items, s) ==
    LET all == Scannable(s) IN
    IF IsSimple(c) THEN all
    ELSE SelectSeq(all, LAMBDA n : ~\E m \in ToSet(all) : m > n /\ Key(c, items, s.slots[m].i) = Key(c, items, s.slots[n].i))

Rescan(c, items, s) == [s EXCEPT !.idx = RescanIdx(c, items, s), !.has = TRUE, !.stale = FALSE,
                                 !.listed = IsSimple(c), !.opt = TRUE, !.old = FALSE]

\* A compressed segment has an index if it has more than one group
GzKind(gs, count) == IF gs = 0 \/ count <= gs THEN "gz" ELSE "gzidx"
RepackKind(c, s) == IF s.kind \in {"gz", "gzidx"} THEN GzKind(c.gz, Len(s.idx)) ELSE s.kind

\* Rewrite the data with only indexed items, in order
Rewrite(items, s, kind) ==
    LET o == SegOrder(items, s) IN
    [s EXCEPT !.slots = [n \in 1..Len(o) |-> s.slots[o[n]]], !.idx = [n \in 1..Len(o) |-> n], !.kind = kind,
              !.has = TRUE, !.stale = FALSE, !.old = FALSE]

\* Remove the segment from the index
Deindex(s) == [s EXCEPT !.idx = <<>>, !.has = FALSE, !.stale = FALSE, !.listed = FALSE, !.old = FALSE]

\* Outcome of check --fix on a zone, and its reports
FixSeg(c, items, now, s, accurate) ==
    LET st == Fsck(c, items, now, s, accurate) IN
    IF "UNALIGNED" \in st THEN Rescan(c, items, s)
    ELSE IF "MISSING" \in st THEN Deindex(s)
    ELSE s

FixReport(c, items, now, zone, accurate, p, fix) ==
    LET st == Fsck(c, items, now, zone[p], accurate) IN
    (IF "CORRUPTED" \in st THEN {<<"manual", p>>} ELSE {})
    \cup (IF "UNALIGNED" \in st THEN {<<"rescan", p>>} ELSE {})
    \cup (IF "MISSING" \in st THEN {<<"deindex", p>>} ELSE {})
    \cup (IF "DIRTY" \in st /\ ~fix THEN {<<"repack", p>>} ELSE {})

Apply(zone, ps, f(_)) ==
    LET z1 == [p \in DOMAIN zone |-> IF p \in ps THEN f(zone[p]) ELSE zone[p]]
        keep == {p \in DOMAIN zone : ~(z1[p].kind = "none" /\ ~z1[p].has /\ ~z1[p].listed)}
    IN [p \in keep |-> z1[p]]

CheckedIn(c, zone) == {p \in DOMAIN zone : Checked(c, zone, p)}

CheckZone(c, items, now, zone, fix, accurate) ==
    [zone |-> IF fix THEN Apply(zone, CheckedIn(c, zone), LAMBDA s : FixSeg(c, items, now, s, accurate)) ELSE zone,
     rep |-> UNION {FixReport(c, items, now, zone, accurate, p, fix) : p \in CheckedIn(c, zone)}]

\* Result: [ds, rep, arep]: new state, reports for the dataset and for its archive
Check(c, items, now, ds, fix, accurate, online, offline) ==
    LET o == CheckZone(c, items, now, ds.on, fix, accurate)
        a == CheckZone(ArcConf(c), items, now, ds.arc, fix, accurate)
    IN [ds |-> [ds EXCEPT !.on = IF online THEN o.zone ELSE @,
                          !.arc = IF offline THEN a.zone ELSE @,
                          !.dont = IF fix THEN FALSE ELSE @],
        rep |-> IF online THEN o.rep ELSE {},
        arep |-> IF offline THEN a.rep ELSE {}]

\* State command: set of <<path, state>>
StateOf(c, items, now, zone, accurate) ==
    {<<p, Fsck(c, items, now, zone[p], accurate)>> : p \in CheckedIn(c, zone)}

\* Move to archive
\* Metadata of segments is rebuilt if it is not there, or is out of date in
\* simple datasets
OutOfDate(c, s) == s.kind /= "none" /\ (~s.has \/ (IsSimple(c) /\ s.stale))
ArchiveSeg(c, items, s0) ==
    LET s == IF OutOfDate(c, s0) THEN Rescan(c, items, s0) ELSE s0
    IN [s EXCEPT !.has = TRUE, !.stale = FALSE, !.listed = TRUE, !.opt = TRUE, !.old = FALSE]

\* Effect of repack on a segment: [seg, arc (moved to the archive), rep]
RepackSeg(c, items, now, p, s) ==
    LET st == Fsck(c, items, now, s, FALSE)
        dirty == "DIRTY" \in st /\ "DELETE_AGE" \notin st
        s1 == IF dirty THEN Rewrite(items, s, RepackKind(c, s)) ELSE s
        gone == st \cap {"DELETE_AGE", "DELETED"} /= {}
        rep == (IF dirty THEN {<<"repack", p>>} ELSE {})
               \cup (IF "ARCHIVE_AGE" \in st THEN {<<"archive", p>>} ELSE {})
               \cup (IF gone THEN {<<"remove", p>>} ELSE {})
               \cup (IF "MISSING" \in st THEN {<<"deindex", p>>} ELSE {})
    IN [seg |-> IF gone THEN NoSeg
                ELSE IF "ARCHIVE_AGE" \in st THEN NoSeg
                ELSE IF "MISSING" \in st THEN Deindex(s1)
                ELSE s1,
        arc |-> IF ~gone /\ "ARCHIVE_AGE" \in st THEN ArchiveSeg(c, items, s1) ELSE NoSeg,
        rep |-> rep,
        mock |-> rep \cup (IF "UNALIGNED" \in st THEN {<<"rescan", p>>} ELSE {})]

RepackZone(c, items, now, zone) ==
    LET ps == CheckedIn(c, zone)
        r == [p \in ps |-> RepackSeg(c, items, now, p, zone[p])]
        z1 == [p \in DOMAIN zone |-> IF p \in ps THEN r[p].seg ELSE zone[p]]
        keep == {p \in DOMAIN zone : ~(z1[p].kind = "none" /\ ~z1[p].has /\ ~z1[p].listed)}
        moved == {p \in ps : r[p].arc.kind /= "none"}
    IN [zone |-> [p \in keep |-> z1[p]],
        moved |-> [p \in moved |-> r[p].arc],
        rep |-> UNION {r[p].rep : p \in ps},
        mock |-> UNION {r[p].mock : p \in ps}]

Merge(a, b) == [p \in DOMAIN a \cup DOMAIN b |-> IF p \in DOMAIN b THEN b[p] ELSE a[p]]

Repack(c, items, now, ds, fix, online, offline) ==
    IF ds.dont THEN [ds |-> ds, rep |-> {<<"aborted", "">>}, arep |-> {}]
    ELSE
    LET o == RepackZone(c, items, now, ds.on)
        arc1 == IF online /\ fix THEN Merge(ds.arc, o.moved) ELSE ds.arc
        a == RepackZone(ArcConf(c), items, now, arc1)
    IN IF fix THEN
        [ds |-> [ds EXCEPT !.on = IF online THEN o.zone ELSE @, !.arc = IF offline THEN a.zone ELSE arc1],
         rep |-> IF online THEN o.rep ELSE {},
         arep |-> IF offline THEN a.rep ELSE {}]
       ELSE
        [ds |-> ds, rep |-> IF online THEN o.mock ELSE {}, arep |-> IF offline THEN a.mock ELSE {}]

\* remove_old: delete the segments that are old enough
RemoveOld(c, items, now, ds, fix, accurate, online, offline) ==
    LET old == {p \in CheckedIn(c, ds.on) : "DELETE_AGE" \in Fsck(c, items, now, ds.on[p], accurate)}
    IN [ds |-> IF fix /\ online THEN [ds EXCEPT !.on = [p \in DOMAIN @ \ old |-> @[p]]] ELSE ds,
        rep |-> IF online THEN {<<"remove", p>> : p \in old} ELSE {}, arep |-> {}]

RemoveAll(c, ds, fix, online, offline) ==
    [ds |-> IF ~fix THEN ds
            ELSE [ds EXCEPT !.on = IF online THEN [p \in DOMAIN @ \ CheckedIn(c, ds.on) |-> @[p]] ELSE @,
                            !.arc = IF offline THEN [p \in DOMAIN @ \ CheckedIn(ArcConf(c), ds.arc) |-> @[p]] ELSE @],
     rep |-> IF online THEN {<<"remove", p>> : p \in CheckedIn(c, ds.on)} ELSE {},
     arep |-> IF offline THEN {<<"remove", p>> : p \in CheckedIn(ArcConf(c), ds.arc)} ELSE {}]

\* Conversions, by name of the operation
Converts(op, fmt) == IF op = "compress" THEN SingleFile(fmt) ELSE ~SingleFile(fmt)
ConvertedKind(op, gs, count) == CASE op = "tar" -> "tar" [] op = "zip" -> "zip" [] op = "compress" -> GzKind(gs, count)
CanConvert(op, s) == CASE op = "compress" -> s.kind \in {"concat", "lines"}
                       [] OTHER -> s.kind = "dir"
\* Segments whose metadata is missing or out of date are scanned again to
\* convert them, but their summary is not written again
ConvertSeg(c, items, s0, op, gs) ==
    LET s == IF OutOfDate(c, s0) THEN Rescan(c, items, s0) ELSE s0
    IN IF CanConvert(op, s)
       THEN [Rewrite(items, s, ConvertedKind(op, gs, Len(s.idx))) EXCEPT !.listed = s0.listed, !.opt = s0.opt /\ (s0.has \/ ~IsSimple(c))] ELSE s0

\* Explicit archival and its reverse
ArchiveOne(c, items, ds, p) ==
    [ds EXCEPT !.on = Drop(@, p), !.arc = Put(@, p, ArchiveSeg(c, items, ds.on[p]))]
UnarchiveOne(c, ds, p) ==
    [ds EXCEPT !.arc = Drop(@, p), !.on = Put(@, p, [ds.arc[p] EXCEPT !.has = TRUE, !.listed = IsSimple(c), !.stale = FALSE, !.opt = TRUE, !.old = FALSE])]
=============================================================================
