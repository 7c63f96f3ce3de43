---------------------------- MODULE DatasetTrace ----------------------------
(***************************************************************************)
(* Accepts the sequences of operations and observations recorded from a    *)
(* real dataset that are behaviours of Dataset.                            *)
(*                                                                         *)
(* Each line of the trace is an operation with its arguments, what it      *)
(* returned, and optionally what was observed after it: query results,     *)
(* summaries, segment states, and contents of the data files.  Many        *)
(* episodes, each starting with Reset, are validated in one run.           *)
(***************************************************************************)
EXTENDS Dataset, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, conf, items, now, ds
vars == <<l, conf, items, now, ds>>

Ev == Trace[l]
Has(f) == f \in DOMAIN Ev
Set(s) == ToSet(s)

Q(q) == [lo |-> q.lo, hi |-> q.hi, o |-> Set(q.o), p |-> Set(q.p), a |-> Set(q.a), k |-> Set(q.k), rt |-> q.rt]

\* cond, and say what was expected if it does not hold
Chk(what, exp, cond) == IF cond THEN TRUE ELSE PrintT("VERIF-WHY " \o ToString(<<l, what, exp>>)) /\ FALSE

(* Observations ************************************************************)

SameItems(obs, exp) ==
    /\ Len(obs) = Len(exp)
    /\ \A n \in 1..Len(obs) : obs[n] \in DOMAIN items
    /\ BagOf(obs) = BagOf(exp)

\* Query results: the expected items, older first in the archive and then in
\* the dataset. Data in different formats is in different segments, that can
\* come in any order.
QueryOk(obs, exp) ==
    LET fmt(s, f) == SelectSeq(s, LAMBDA i : items[i].fmt = f)
        times(s) == [n \in 1..Len(s) |-> items[s[n]].e]
    IN SameItems(obs, exp) /\ \A f \in {items[i].fmt : i \in Set(exp)} : times(fmt(obs, f)) = times(fmt(exp, f))

\* Sorted query results: the expected items, with keys in the expected order
SortedOk(obs, exp, sort) ==
    LET fmt(s, f) == SelectSeq(s, LAMBDA i : items[i].fmt = f)
        keys(s) == [n \in 1..Len(s) |-> SortKey(items, sort, s[n])]
    IN SameItems(obs, exp) /\ \A f \in {items[i].fmt : i \in Set(exp)} : keys(fmt(obs, f)) = keys(fmt(exp, f))

\* Results of a query stopped by its consumer after a number of items: these are
\* the first ones, and no more come
StoppedOk(x, exp) ==
    LET n == Min({x.limit, Len(exp)})
        keys(s) == [m \in 1..Len(s) |-> IF x.sort.keys = <<>> THEN <<items[s[m]].e>> ELSE SortKey(items, x.sort, s[m])]
        obs == BagOf(x.ids)
        all == BagOf(exp)
    IN /\ x.complete = (x.limit > Len(exp))
       /\ Len(x.ids) = n
       /\ \A i \in DOMAIN obs : i \in DOMAIN all /\ obs[i] <= all[i]
       /\ Cardinality({items[i].fmt : i \in Set(exp)}) <= 1 => keys(x.ids) = SubSeq(keys(exp), 1, n)

\* Query results passed through a program
PostOk(x, exp) ==
    LET all == IF x.sort.keys = <<>> THEN QueryOk(x.ids, exp) ELSE SortedOk(x.ids, exp, x.sort) IN
    CASE x.how \in {"copy", "copy2", "args", "slow"} -> ~x.failed /\ all
      [] x.how \in {"fail", "killed"} -> x.failed /\ all /\ (x.how = "fail" => x.told)
      [] x.how = "deaf" -> ~x.failed /\ x.ids = <<>>
      [] x.how = "refuse" -> x.failed /\ x.ids = <<>>
      [] OTHER -> StoppedOk([ids |-> x.ids, limit |-> Len(x.ids), complete |-> FALSE, sort |-> x.sort], exp)

\* Query results without data
RecsOk(obs, exp) ==
    LET rec(i) == LET x == items[i] IN [o |-> x.o, p |-> x.p, a |-> x.a, k |-> x.k, e |-> x.e, size |-> x.size]
        recs == [n \in 1..Len(exp) |-> rec(exp[n])]
    IN BagOf(obs) = BagOf(recs)

Zones(d) == {<<"on", p>> : p \in DOMAIN d.on} \cup {<<"arc", p>> : p \in DOMAIN d.arc}
ZSeg(d, z) == IF z[1] = "on" THEN d.on[z[2]] ELSE d.arc[z[2]]

DiskSlots(s) == LET there == SelectSeq(s.slots, LAMBDA x : x.c /= "gone")
                IN [n \in 1..Len(there) |-> <<there[n].i, there[n].c>>]

DiskOk(d) ==
    Has("disk") =>
        LET obs == {<<x.z, x.p, x.k, x.s>> : x \in Set(Ev.disk)}
            exp == {<<z[1], z[2], ZSeg(d, z).kind, DiskSlots(ZSeg(d, z))>> :
                    z \in {zz \in Zones(d) : ZSeg(d, zz).kind /= "none"}}
        IN Chk("disk", exp, obs = exp)

\* The segments for data in an interval
PathsIn(only) == {PathOf(conf, items, i) : i \in {j \in DOMAIN items : Overlaps(StepInterval(conf.step, items[j].t), [lo |-> only[1], hi |-> only[2]])}}
\* Simple datasets know the interval of the data in their segments: segments
\* with no data left in them are looked at in any case
Selected(c, zone, paths) == {p \in DOMAIN zone : p \in paths \/ (IsSimple(c) /\ zone[p].listed /\ zone[p].idx = <<>>)}
In(c, zone, paths) == [p \in Selected(c, zone, paths) |-> zone[p]]
Out(c, zone, paths) == [p \in DOMAIN zone \ Selected(c, zone, paths) |-> zone[p]]

StateOk(d) ==
    Has("state") =>
        LET Ob(obs) == {<<x[1], Set(x[2])>> : x \in Set(obs)}
            Part(c, zone) == IF "only" \in DOMAIN Ev.state THEN In(c, zone, PathsIn(Ev.state.only)) ELSE zone
            on == StateOf(conf, items, now, Part(conf, d.on), Ev.state.accurate)
            arc == StateOf(ArcConf(conf), items, now, Part(ArcConf(conf), d.arc), Ev.state.accurate)
        IN Chk("state", on, Ob(Ev.state.on) = on) /\ Chk("archive state", arc, Ob(Ev.state.arc) = arc)

ObsOk(d) ==
    /\ Has("q") => LET x == AllIds(conf, items, d) IN Chk("query", x, QueryOk(Ev.q, x))
    /\ Has("qs") => \A x \in Set(Ev.qs) :
           IF "sort" \in DOMAIN x
           THEN LET y == SortedQuery(conf, items, d, Q(x.q), x.sort) IN Chk("sorted query", <<x, y>>, SortedOk(x.ids, y, x.sort))
           ELSE LET y == Query(conf, items, d, Q(x.q)) IN Chk("query", <<x, y>>, QueryOk(x.ids, y))
    /\ Has("qlim") => \A x \in Set(Ev.qlim) :
           LET y == IF x.sort.keys = <<>> THEN Query(conf, items, d, Q(x.q)) ELSE SortedQuery(conf, items, d, Q(x.q), x.sort)
           IN Chk("stopped query", <<x, y>>, StoppedOk(x, y))
    /\ Has("qpost") => \A x \in Set(Ev.qpost) :
           LET y == IF x.sort.keys = <<>> THEN Query(conf, items, d, Q(x.q)) ELSE SortedQuery(conf, items, d, Q(x.q), x.sort)
           IN Chk("postprocessed query", <<x, y>>, PostOk(x, y))
    /\ Has("qns") => \A x \in Set(Ev.qns) : LET y == Query(conf, items, d, Q(x.q)) IN Chk("querynodata", <<x, y>>, RecsOk(x.recs, y))
    /\ Has("sum") => LET x == SummaryOf(conf, items, d, AnyQuery) IN Chk("summary", x, Set(Ev.sum) = x)
    /\ Has("sums") => \A x \in Set(Ev.sums) : LET y == SummaryOf(conf, items, d, Q(x.q)) IN
           SummaryExact(conf, items, d, Q(x.q)) => Chk("summary", <<x.q, y>>, Set(x.items) = y)
    /\ DiskOk(d)
    /\ StateOk(d)

(* Operations **************************************************************)

Pairs(s) == {<<x[1], x[2]>> : x \in Set(s)}

RepOk(r) == /\ Chk("report", r.rep, Pairs(Ev.rep) = r.rep)
            /\ Chk("archive report", r.arep, Pairs(Ev.arep) = r.arep)

FixItems(t) == [i \in DOMAIN t |-> [e |-> Epoch(t[i].t)] @@ t[i]]

\* Damage done to a segment from outside
DamageSeg(s, how, nth) ==
    LET there == SelectSeq([m \in 1..Len(s.slots) |-> m], LAMBDA m : s.slots[m].c /= "gone")
        n == there[nth]
    IN
    CASE how = "rmindex"  -> [s EXCEPT !.has = FALSE, !.idx = <<>>]
      [] how = "rmdata"   -> [s EXCEPT !.kind = "none", !.slots = <<>>, !.idx = <<>>]
      [] how = "stale"    -> [s EXCEPT !.stale = TRUE]
      [] how = "corrupt"  -> [s EXCEPT !.slots[n].c = "bad"]
      [] how = "cutlast"  -> [s EXCEPT !.slots[Len(s.slots)].c = "cut"]
      [] how = "rmslot"   -> [s EXCEPT !.slots[n].c = "gone"]
      [] how = "older"    -> [s EXCEPT !.old = TRUE]
      [] how = "rmsummary" -> [s EXCEPT !.opt = FALSE]

Checking == {"Remove", "Check", "Repack", "RemoveOld", "RemoveAll", "Convert", "Archive", "Unarchive"}

\* The dataset, after it is opened to run the operation
OpenedFor(e, d) == CASE e.op = "Import" -> OpenWriter(conf, d)
                     [] e.op \in Checking -> OpenChecker(conf, d)
                     [] OTHER -> d

\* What an operation does to dataset d: the new dataset, and what is reported
NoRep == [rep |-> {}, arep |-> {}, res |-> <<>>, err |-> FALSE]
WholeOutcome(e, d) ==
    CASE e.op = "Import" -> Import(conf, items, now, d, e.batch, e.strategy) @@ NoRep
      [] e.op = "Remove" -> [ds |-> RemoveMatching(conf, items, d, Q(e.query))] @@ NoRep
      [] e.op = "Check" -> Check(conf, items, now, d, e.fix, e.accurate, e.online, e.offline) @@ NoRep
      [] e.op = "Repack" -> Repack(conf, items, now, d, e.fix, e.online, e.offline) @@ NoRep
      [] e.op = "RemoveOld" -> RemoveOld(conf, items, now, d, e.fix, e.accurate, e.online, e.offline) @@ NoRep
      [] e.op = "RemoveAll" -> RemoveAll(conf, d, e.fix, e.online, e.offline) @@ NoRep
      [] e.op = "Convert" ->
           [ds |-> [d EXCEPT !.on = [p \in DOMAIN @ |-> IF e.fix /\ e.online THEN ConvertSeg(conf, items, @[p], e.how, e.gs) ELSE @[p]],
                             !.arc = [p \in DOMAIN @ |-> IF e.fix /\ e.offline THEN ConvertSeg(ArcConf(conf), items, @[p], e.how, e.gs) ELSE @[p]]]] @@ NoRep
      \* Segments do not replace each other
      [] e.op = "Archive" -> IF e.path \in DOMAIN d.arc THEN [ds |-> d, err |-> TRUE] @@ NoRep
                             ELSE [ds |-> ArchiveOne(conf, items, d, e.path)] @@ NoRep
      [] e.op = "Unarchive" -> IF e.path \in DOMAIN d.on THEN [ds |-> d, err |-> TRUE] @@ NoRep
                               ELSE [ds |-> UnarchiveOne(conf, d, e.path)] @@ NoRep
      [] e.op = "Damage" ->
           [ds |-> IF e.zone = "on" THEN [d EXCEPT !.on = [@ EXCEPT ![e.path] = DamageSeg(@, e.how, e.n)]]
                   ELSE [d EXCEPT !.arc = [@ EXCEPT ![e.path] = DamageSeg(@, e.how, e.n)]]] @@ NoRep
      [] e.op = "RmManifest" ->
           [ds |-> [d EXCEPT !.on = [p \in DOMAIN @ |-> [@[p] EXCEPT !.listed = FALSE]], !.man = FALSE]] @@ NoRep
      [] e.op = "Dont" -> [ds |-> [d EXCEPT !.dont = TRUE]] @@ NoRep
      [] e.op = "Observe" -> [ds |-> d] @@ NoRep
      \* The archive is renamed, with all that it has
      [] e.op = "Rename" -> [ds |-> d] @@ NoRep

\* Maintenance may work only on these
Outcome(e, d) ==
    IF "only" \notin DOMAIN e THEN WholeOutcome(e, d)
    ELSE LET ps == PathsIn(e.only)
             r == WholeOutcome(e, [d EXCEPT !.on = In(conf, @, ps), !.arc = In(ArcConf(conf), @, ps)])
         IN [r EXCEPT !.ds.on = @ @@ Out(conf, d.on, ps), !.ds.arc = @ @@ Out(ArcConf(conf), d.arc, ps)]

OutcomeOk(r) ==
    CASE Ev.op = "Import" -> Chk("results", r.res, Ev.res = r.res) /\ Chk("exception", r.err, Ev.err = r.err)
      [] Ev.op \in {"Check", "Repack", "RemoveOld", "RemoveAll"} -> RepOk(r)
      [] Ev.op \in {"Archive", "Unarchive"} -> Chk("exception", r.err, Ev.err = r.err)
      [] OTHER -> TRUE

\* Operations on a dataset do not raise exceptions, except for imports and
\* moves to and from the archive that cannot be done
Op == /\ Ev.op \notin {"Reset", "Tick"}
      \* The process running the operation crashed or hung
      /\ Chk("no crash", "", Ev.op /= "Died")
      /\ Chk("no exception", "", Ev.err => Ev.op \in {"Import", "Archive", "Unarchive"})
      /\ LET r == Outcome(Ev, OpenedFor(Ev, ds)) IN
         /\ OutcomeOk(r)
         /\ ObsOk(r.ds)
         /\ ds' = IF Has("state") THEN OpenChecker(conf, r.ds) ELSE r.ds
      /\ UNCHANGED <<conf, items, now>>

Reset == /\ Ev.op = "Reset"
         /\ conf' = [Ev.conf EXCEPT !.unique = Set(@)]
         /\ items' = FixItems(Ev.items)
         /\ now' = Ev.now
         /\ ds' = NewDs(conf')

Tick == /\ Ev.op = "Tick"
        /\ now' = Ev.now
        /\ UNCHANGED <<conf, items, ds>>

Init == /\ l = 1
        /\ conf = <<>>
        /\ items = <<>>
        /\ now = 0
        /\ ds = <<>>

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Reset \/ Tick \/ Op

Spec == Init /\ [][Next]_vars

Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN TRUE ELSE PrintT("VERIF-REJECT " \o ToString(d))
=============================================================================
