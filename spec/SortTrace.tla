----------------------------- MODULE SortTrace -----------------------------
(* Sorting and batches of items: what the real code does must be what the   *)
(* definitions here give                                                    *)
(*                                                                          *)
(* An item has t, its reference time (or <<>>), and k, that has for each    *)
(* of its other types a sequence of integers that gives its order           *)
EXTENDS Reftime, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]

Chk(what, expected, cond) == IF cond THEN TRUE ELSE PrintT(<<"VERIF-WHY", <<l, what, expected>>>>) /\ FALSE

(***************************************************************************)
(* Sorting                                                                 *)
(***************************************************************************)
\* What is not there is before what is there
SortKey(it, type) ==
    IF type = "reftime" THEN (IF it.t = <<>> THEN <<0>> ELSE <<1>> \o it.t)
    ELSE IF type \in DOMAIN it.k THEN <<1>> \o it.k[type] ELSE <<0>>
Period(it, p) == IF it.t = <<>> THEN <<0>> ELSE <<1>> \o SubSeq(it.t, 1, PeriodLen(p))

RECURSIVE ItemLess(_, _, _)
ItemLess(a, b, by) ==
    IF by = <<>> THEN FALSE
    ELSE LET x == SortKey(a, by[1].t)  y == SortKey(b, by[1].t) IN
         IF x = y THEN ItemLess(a, b, Tail(by))
         ELSE IF by[1].rev THEN LexLess(y, x) ELSE LexLess(x, y)

Sorted(items, period, by) ==
    LET order == IF by = <<>> THEN <<[t |-> "reftime", rev |-> FALSE]>> ELSE by
        less(a, b) ==
            LET x == Period(items[a], period)  y == Period(items[b], period) IN
            IF period /= "" /\ x /= y THEN LexLess(x, y)
            ELSE IF ItemLess(items[a], items[b], order) THEN TRUE
            ELSE IF ItemLess(items[b], items[a], order) THEN FALSE
            ELSE a < b
    IN SortSeq([n \in 1..Len(items) |-> n], less)

\* Periods come in the order of time. In a stream, each item without a
\* reference time is a period by itself
InPeriods(items, period) ==
    /\ Cardinality({n \in 1..Len(items) : items[n].t = <<>>}) <= 1
    /\ \A n \in 1..(Len(items) - 1) : ~LexLess(Period(items[n + 1], period), Period(items[n], period))

Prefix(s, n) == IF n > 0 /\ n < Len(s) THEN SubSeq(s, 1, n) ELSE s
Sort ==
    /\ Ev.op = "Sort"
    /\ Chk("no error", "", ~Ev.err)
    /\ Chk("told to stop", "", Ev.completed = ~(Ev.stop > 0 /\ Ev.stop <= Len(Ev.items)))
    /\ IF Ev.mode = "stream" /\ Ev.period /= "" /\ ~InPeriods(Ev.items, Ev.period)
       THEN Chk("each item once", "", /\ Cardinality(ToSet(Ev.out)) = Len(Ev.out)
                                      /\ ToSet(Ev.out) \subseteq 1..Len(Ev.items)
                                      /\ Len(Ev.out) = Len(Prefix(Ev.items, Ev.stop)))
       ELSE LET want == Prefix(Sorted(Ev.items, Ev.period, Ev.by), Ev.stop) IN Chk("order", want, Ev.out = want)

(***************************************************************************)
(* Batches                                                                 *)
(***************************************************************************)
\* Elements of the time that are the same in a batch: 0 for no limit
SamePeriod(a, b, n) == n = 0 \/ SubSeq(a.t, 1, n) = SubSeq(b.t, 1, n)
TimeRangeOf(it) == IF "timerange" \in DOMAIN it.k THEN it.k["timerange"] ELSE <<>>
RECURSIVE Sum(_, _)
Sum(items, b) == IF b = <<>> THEN 0 ELSE items[b[1]].size + Sum(items, Tail(b))

\* If a batch, that is a sequence of positions, is within the limits
Allowed(items, b, c) ==
    \/ Len(b) = 1
    \/ /\ c.count = 0 \/ Len(b) <= c.count
       /\ c.bytes = 0 \/ Sum(items, b) <= c.bytes
       /\ \A n \in 2..Len(b) : LET x == items[b[1]]  y == items[b[n]] IN
             /\ x.fmt = y.fmt
             /\ SamePeriod(x, y, c.interval)
             /\ c.timerange => TimeRangeOf(x) = TimeRangeOf(y)

\* Everything in order, within limits, and closed only when the next item
\* would break a limit
BatchesOk(items, bs, c) ==
    /\ Chk("all items in order", "", FlattenSeq(bs) = [n \in 1..Len(items) |-> n])
    /\ \A n \in 1..Len(bs) :
         /\ Chk("limits", n, bs[n] /= <<>> /\ Allowed(items, bs[n], c))
         /\ n < Len(bs) => Chk("needed", n, ~Allowed(items, bs[n] \o <<bs[n + 1][1]>>, c))

Batches ==
    /\ Ev.op = "Batches"
    /\ Chk("no error", "", ~Ev.err)
    /\ BatchesOk(Ev.items, Ev.batches, Ev)
    \* Closed when the next item is seen
    /\ \A n \in 1..Len(Ev.batches) : Chk("closed", n, Ev.closed[n] = Ev.batches[n][Len(Ev.batches[n])] + 1)

\* The same with programs that are run on each batch: what they are given
Set(items, b) == {n \in ToSet(b) : items[n].t /= <<>>}
Programs ==
    /\ Ev.op = "Programs"
    /\ Chk("no error", "", ~Ev.err)
    /\ BatchesOk(Ev.items, [n \in 1..Len(Ev.runs) |-> Ev.runs[n].items], Ev)
    /\ Chk("no files are left", "", Ev.left = 0)
    /\ \A n \in 1..Len(Ev.runs) :
          LET r == Ev.runs[n]  with == Set(Ev.items, r.items)
              before(a, b) == Ev.items[a].t = Ev.items[b].t \/ LexLess(Ev.items[a].t, Ev.items[b].t)
          IN
          /\ Chk("count and format", n, r.count = Len(r.items) /\ r.fmt = Ev.items[r.items[1]].fmt /\ r.same)
          /\ IF with = {} THEN Chk("no times", n, r.lo = <<>> /\ r.hi = <<>>)
             ELSE Chk("times", n, /\ \E m \in with : Ev.items[m].t = r.lo /\ \A o \in with : before(m, o)
                                  /\ \E m \in with : Ev.items[m].t = r.hi /\ \A o \in with : before(o, m))

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Sort \/ Batches \/ Programs
Spec == Init /\ [][Next]_l
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN TRUE ELSE PrintT("VERIF-REJECT " \o ToString(d))
=============================================================================
