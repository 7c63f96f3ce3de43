------------------------------ MODULE PoolTrace ------------------------------
(***************************************************************************)
(* Several datasets together: dispatching data to the datasets that want   *)
(* it, simulating it, and reading all of them as one.                      *)
(*                                                                         *)
(* The state has one dataset, as in Dataset, for each name. Accepts the    *)
(* sequences of operations and observations recorded from real pools of    *)
(* datasets that are behaviours of this specification.                     *)
(***************************************************************************)
EXTENDS Dataset, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* confs: configuration of each dataset, with also its role (name of the type
\*        in the configuration) and filter
\* names: names of the datasets, in alphabetical order
\* broken: datasets that cannot be read
VARIABLES l, confs, names, items, now, dss, broken
vars == <<l, confs, names, items, now, dss, broken>>

Ev == Trace[l]
Has(f) == f \in DOMAIN Ev
Set(s) == ToSet(s)
Q(q) == [lo |-> q.lo, hi |-> q.hi, o |-> Set(q.o), p |-> Set(q.p), a |-> Set(q.a), k |-> Set(q.k), rt |-> q.rt]
Chk(what, exp, cond) == IF cond THEN TRUE ELSE PrintT("VERIF-WHY " \o ToString(<<l, what, exp>>)) /\ FALSE

(* Dispatch ****************************************************************)

Special == {"error", "duplicates"}
IsOutbound(n) == confs[n].role = "outbound"
Outbounds == SelectSeq(names, LAMBDA n : IsOutbound(n) /\ n \notin Special)
Regular == SelectSeq(names, LAMBDA n : ~IsOutbound(n) /\ n \notin Special)
Wants(n, i) == Matches(items, confs[n].filter, i)

\* Ways to import a batch in a dataset: result is [ds, res, err]
RealImport(n, d, batch) == Import(confs[n], items, now, IF batch = <<>> \/ IsOutbound(n) THEN d ELSE OpenWriter(confs[n], d), batch, "default")
\* A simulation which only looks at the age of data
AgeImport(n, d, batch) ==
    [ds |-> d, err |-> FALSE,
     res |-> [m \in 1..Len(batch) |->
        IF Older(now, confs[n].delete_age, items[batch[m]].e) THEN "OK"
        ELSE IF Older(now, confs[n].archive_age, items[batch[m]].e) THEN "ERR" ELSE "OK"]]

\* Send the elements at positions ns of the batch to dataset n, in an
\* accumulator [dss, out, outfail], where out has for each element the last
\* result and the dataset it is in
Send(imp(_, _, _), batch, acc, n, ns) ==
    IF ns = <<>> THEN acc
    ELSE LET r == imp(n, acc.dss[n], [m \in 1..Len(ns) |-> batch[ns[m]]])
             at(k) == CHOOSE m \in 1..Len(ns) : ns[m] = k
         IN [acc EXCEPT !.dss[n] = r.ds,
                        !.err = @ \/ r.err,
                        !.out = [k \in 1..Len(batch) |->
                            IF k \in Set(ns) THEN <<r.res[at(k)], IF r.res[at(k)] = "OK" THEN n ELSE "">> ELSE @[k]]]

\* Dispatch a batch. rejected: names of the tasks that do not validate, one for each validator
Dispatch(imp(_, _, _), batch, rejected) ==
    LET N == [k \in 1..Len(batch) |-> k]
        refused(k) == ~items[batch[k]].dated \/ items[batch[k]].k \in Set(rejected)
        found(k) == SelectSeq(Regular, LAMBDA n : Wants(n, batch[k]))
        lost == SelectSeq(N, LAMBDA k : refused(k) \/ Len(found(k)) /= 1)
        mine(n) == SelectSeq(N, LAMBDA k : ~refused(k) /\ found(k) = <<n>>)
        copies(n) == SelectSeq(N, LAMBDA k : ~refused(k) /\ Wants(n, batch[k]))
        acc0 == [dss |-> dss, err |-> FALSE, outfail |-> 0, out |-> [k \in 1..Len(batch) |-> <<"ERR", "">>]]
        \* Outbound datasets
        acc1 == FoldLeft(LAMBDA a, n : LET b == Send(imp, batch, a, n, copies(n)) IN
                             [b EXCEPT !.outfail = @ + Len(SelectSeq(copies(n), LAMBDA k : b.out[k][1] /= "OK"))],
                         acc0, Outbounds)
        \* Regular datasets. What is not accepted is collected in order.
        acc2 == FoldLeft(LAMBDA a, n : LET b == Send(imp, batch, a.acc, n, mine(n)) IN
                             [acc |-> b,
                              dup |-> a.dup \o SelectSeq(mine(n), LAMBDA k : b.out[k][1] = "DUP"),
                              bad |-> a.bad \o SelectSeq(mine(n), LAMBDA k : b.out[k][1] = "ERR")],
                         [acc |-> acc1, dup |-> <<>>, bad |-> lost], Regular)
        acc3 == Send(imp, batch, acc2.acc, "duplicates", acc2.dup)
        bad == acc2.bad \o SelectSeq(acc2.dup, LAMBDA k : acc3.out[k][1] /= "OK")
    IN Send(imp, batch, acc3, "error", bad)

DispatchOp ==
    LET r == Dispatch(RealImport, Ev.batch, Ev.rejected)
    IN /\ Chk("exception", r.err, ~Ev.err /\ ~r.err)
       /\ Chk("results", r.out, Ev.out = r.out)
       /\ Chk("outbound failures", r.outfail, Ev.outfail = r.outfail)
       /\ dss' = r.dss

\* A simulation says what dispatch would do, without doing it. Findings:
\* datasets are asked only about the age of the data, so it is not known what
\* would be a duplicate, or refused because of its format.
SimulateOp ==
    LET r == Dispatch(RealImport, Ev.batch, Ev.rejected)
        s == Dispatch(AgeImport, Ev.batch, Ev.rejected)
    IN /\ Chk("exception", FALSE, ~Ev.err)
       /\ Chk("results", <<<<r.out, r.outfail>>, <<s.out, s.outfail>>>>, <<Ev.out, Ev.outfail>> \in {<<r.out, r.outfail>>, <<s.out, s.outfail>>})
       /\ UNCHANGED dss

(* All datasets as one *****************************************************)

Readers == SelectSeq(names, LAMBDA n : ~IsOutbound(n))
Single(ids) == Cardinality({items[i].fmt : i \in Set(ids)}) <= 1
NoSort == [period |-> "", keys |-> <<<<"reftime", FALSE>>>>]

Part(n, q, sort) == IF sort = NoSort THEN Query(confs[n], items, dss[n], q) ELSE SortedQuery(confs[n], items, dss[n], q, sort)
Keys(s, sort) == TLCEval([m \in 1..Len(s) |-> SortKey(items, sort, s[m])])
InOrder(ks) == \A m \in 1..(Len(ks) - 1) : ~LexLess(ks[m + 1], ks[m])

Within(a, b) == \A i \in DOMAIN a : i \in DOMAIN b /\ a[i] <= b[i]

QueryOk(e) ==
    LET q == Q(e.q)
        each == TLCEval([k \in 1..Len(Readers) |-> TLCEval(Part(Readers[k], q, e.sort))])
        all == FlattenSeq(each)
        \* Each is in order as it should be: data in several formats can come
        \* with each format in order
        ordered == \A k \in 1..Len(each) : Single(each[k]) /\ InOrder(Keys(each[k], e.sort))
        keys == IF ordered THEN SortSeq(Keys(all, e.sort), LexLess) ELSE <<>>
        stopped == e.limit >= 0 /\ e.limit <= Len(all)
        n == IF stopped THEN Max({e.limit, 1}) ELSE Len(all)
    IN /\ Chk("items", all, Len(e.ids) = n /\ Set(e.ids) \subseteq DOMAIN items /\ Within(BagOf(e.ids), BagOf(all)))
       /\ Chk("order", keys, ordered => Keys(e.ids, e.sort) = SubSeq(keys, 1, n))
       /\ Chk("completed", ~stopped, e.complete = (~stopped \/ Len(all) = 0))

\* If one of the datasets cannot be read, neither can all of them together. Its
\* summary can still be available.
Failing == broken /= {}

MQueryOp == /\ Chk("exception", Failing, IF Failing THEN Ev.err \/ (Ev.limit >= 0 /\ Len(Ev.ids) = Ev.limit) ELSE ~Ev.err)
            /\ ~Failing => QueryOk(Ev)
            /\ UNCHANGED dss

BreakOp == /\ broken' = broken \cup {Ev.ds}
           /\ UNCHANGED dss

\* Sum of summaries
AddSums(ss) ==
    LET all == UNION {{<<k, x>> : x \in ss[k]} : k \in 1..Len(ss)}
        key(x) == <<x.o, x.p, x.a, x.k>>
        of(k) == {y \in all : key(y[2]) = k}
        total(k, f(_)) == FoldFunction(+, 0, [y \in of(k) |-> f(y[2])])
    IN {[o |-> k[1], p |-> k[2], a |-> k[3], k |-> k[4],
         count |-> total(k, LAMBDA x : x.count), size |-> total(k, LAMBDA x : x.size),
         begin |-> Min({y[2].begin : y \in of(k)}), end |-> Max({y[2].end : y \in of(k)})] : k \in {key(y[2]) : y \in all}}

MSummaryOp ==
    LET q == Q(Ev.q)
        sum == AddSums(TLCEval([k \in 1..Len(Readers) |-> SummaryOf(confs[Readers[k]], items, dss[Readers[k]], q)]))
    IN /\ IF Ev.err THEN Chk("exception", FALSE, Failing) ELSE Chk("summary", sum, Set(Ev.sum) = sum)
       /\ UNCHANGED dss

(* Single datasets *********************************************************)

DiskSlots(s) == [n \in 1..Len(s.slots) |-> <<s.slots[n].i, s.slots[n].c>>]
DiskOf(n) == {<<"on", p, dss[n].on[p].kind, DiskSlots(dss[n].on[p])>> : p \in {x \in DOMAIN dss[n].on : dss[n].on[x].kind /= "none"}}
             \cup {<<"arc", p, dss[n].arc[p].kind, DiskSlots(dss[n].arc[p])>> : p \in {x \in DOMAIN dss[n].arc : dss[n].arc[x].kind /= "none"}}

SameItems(obs, exp) == Len(obs) = Len(exp) /\ Set(obs) \subseteq DOMAIN items /\ BagOf(obs) = BagOf(exp)

\* What is in each of the datasets
ObserveOp ==
    /\ Chk("no exception", "", ~Ev.err)
    /\ \A n \in Set(names) :
        /\ LET x == IF IsOutbound(n) THEN <<>> ELSE AllIds(confs[n], items, dss[n])
           IN Chk("contents", <<n, x>>, SameItems(Ev.ds[n].q, x))
        /\ Chk("disk", <<n, DiskOf(n)>>, {<<x.z, x.p, x.k, x.s>> : x \in Set(Ev.ds[n].disk)} = DiskOf(n))
    /\ UNCHANGED dss

ImportOp == LET r == RealImport(Ev.ds, dss[Ev.ds], Ev.batch)
            IN Chk("no exception", "", ~Ev.err /\ ~r.err) /\ Chk("results", r.res, Ev.res = r.res) /\ dss' = [dss EXCEPT ![Ev.ds] = r.ds]

RemoveOp == /\ Chk("no exception", "", ~Ev.err)
            /\ dss' = [dss EXCEPT ![Ev.ds] = RemoveMatching(confs[Ev.ds], items, OpenChecker(confs[Ev.ds], @), Q(Ev.query))]

ArchiveOp == /\ Chk("no exception", "", ~Ev.err)
             /\ dss' = [dss EXCEPT ![Ev.ds] = ArchiveOne(confs[Ev.ds], items, OpenChecker(confs[Ev.ds], @), Ev.path)]

Op == /\ Ev.op /= "Reset"
      /\ Chk("no crash", "", Ev.op /= "Died")
      /\ CASE Ev.op = "Dispatch" -> DispatchOp
           [] Ev.op = "Simulate" -> SimulateOp
           [] Ev.op = "MQuery" -> MQueryOp
           [] Ev.op = "MSummary" -> MSummaryOp
           [] Ev.op = "Observe" -> ObserveOp
           [] Ev.op = "Import" -> ImportOp
           [] Ev.op = "Remove" -> RemoveOp
           [] Ev.op = "Archive" -> ArchiveOp
           [] Ev.op = "Break" -> BreakOp
      /\ Ev.op /= "Break" => UNCHANGED broken
      /\ UNCHANGED <<confs, names, items, now>>

\* Items with no reference time get the current time
FixItems(t, n, nt) == [i \in DOMAIN t |->
    LET d == t[i].t /= <<>>
        bt == IF d THEN t[i].t ELSE nt
    IN [e |-> IF d THEN Epoch(bt) ELSE n, t |-> bt, dated |-> d] @@ t[i]]

Reset == /\ Ev.op = "Reset"
         /\ confs' = [n \in DOMAIN Ev.confs |-> [Ev.confs[n] EXCEPT !.unique = Set(@), !.filter = Q(@)]]
         /\ names' = Ev.names
         /\ items' = FixItems(Ev.items, Ev.now, Ev.nowt)
         /\ now' = Ev.now
         /\ broken' = {}
         /\ dss' = [n \in DOMAIN Ev.confs |-> NewDs(Ev.confs[n])]

Init == /\ l = 1
        /\ confs = <<>>
        /\ names = <<>>
        /\ items = <<>>
        /\ now = 0
        /\ dss = <<>>
        /\ broken = {}

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Reset \/ Op

Spec == Init /\ [][Next]_vars

Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN TRUE ELSE PrintT("VERIF-REJECT " \o ToString(d))
=============================================================================
