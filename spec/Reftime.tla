------------------------------ MODULE Reftime ------------------------------
(***************************************************************************)
(* What expressions on reference times match, and sort orders.             *)
(*                                                                         *)
(* An expression is a sequence of alternatives ("or"), and an alternative  *)
(* is a sequence of clauses (comma), that must all hold. A clause is a     *)
(* record                                                                  *)
(*    op   : ge gt le lt eq, on a date; tge tgt tle tlt teq, on a time of  *)
(*           the day; none                                                 *)
(*    v    : the date, with 1 to 6 elements, or time, with 1 to 3 elements *)
(*    step : seconds of the time step, or 0                                *)
(*    base : seconds since midnight from which steps are counted, if       *)
(*           given, else -1                                                *)
(* The empty expression matches everything.                                *)
(***************************************************************************)
EXTENDS ArkiTime, SequencesExt, FiniteSetsExt

\* Times stand for intervals: first second, and second after the last
DateLo(v) == Epoch(<<v[1], IF Len(v) > 1 THEN v[2] ELSE 1, IF Len(v) > 2 THEN v[3] ELSE 1,
                     IF Len(v) > 3 THEN v[4] ELSE 0, IF Len(v) > 4 THEN v[5] ELSE 0, IF Len(v) > 5 THEN v[6] ELSE 0>>)
DateHi(v) == CASE Len(v) = 1 -> DayStart(v[1] + 1, 1, 1)
               [] Len(v) = 2 -> MonthEnd(v[1], v[2])
               [] Len(v) = 3 -> DateLo(v) + 86400
               [] Len(v) = 4 -> DateLo(v) + 3600
               [] Len(v) = 5 -> DateLo(v) + 60
               [] Len(v) = 6 -> DateLo(v) + 1
TimeLo(v) == v[1] * 3600 + (IF Len(v) > 1 THEN v[2] * 60 ELSE 0) + (IF Len(v) > 2 THEN v[3] ELSE 0)
TimeHi(v) == TimeLo(v) + (CASE Len(v) = 1 -> 3600 [] Len(v) = 2 -> 60 [] Len(v) = 3 -> 1)

Tod(e) == e % 86400

DateOps == {"ge", "gt", "le", "lt", "eq"}
TimeOps == {"tge", "tgt", "tle", "tlt", "teq"}

\* Steps are counted from the base if given, else from the time of the clause
StepBase(cl) ==
    CASE cl.base >= 0 -> cl.base
      [] cl.op \in DateOps -> Tod(DateLo(cl.v))
      [] cl.op \in TimeOps -> TimeLo(cl.v)
      [] OTHER -> 0

DateClause(cl, e) ==
    CASE cl.op = "ge" -> e >= DateLo(cl.v)
      [] cl.op = "gt" -> e >= DateHi(cl.v)
      [] cl.op = "le" -> e < DateHi(cl.v)
      [] cl.op = "lt" -> e < DateLo(cl.v)
      [] cl.op = "eq" -> DateLo(cl.v) <= e /\ e < DateHi(cl.v)
      [] OTHER -> TRUE
TimeClause(cl, e) ==
    CASE cl.op = "tge" -> Tod(e) >= TimeLo(cl.v)
      [] cl.op = "tgt" -> Tod(e) >= TimeHi(cl.v)
      [] cl.op = "tle" -> Tod(e) < TimeHi(cl.v)
      [] cl.op = "tlt" -> Tod(e) < TimeLo(cl.v)
      [] cl.op = "teq" -> TimeLo(cl.v) <= Tod(e) /\ Tod(e) < TimeHi(cl.v)
      [] OTHER -> TRUE
StepClause(cl, e) == cl.step = 0 \/ Tod(e) % cl.step = StepBase(cl) % cl.step

ClauseMatch(cl, e) == DateClause(cl, e) /\ TimeClause(cl, e) /\ StepClause(cl, e)
AltMatch(alt, e) == \A n \in 1..Len(alt) : ClauseMatch(alt[n], e)
RtMatch(rt, e) == rt = <<>> \/ \E n \in 1..Len(rt) : AltMatch(rt[n], e)

\* Times allowed by the dates of an alternative: lo included, hi excluded
ClauseDates(cl) ==
    CASE cl.op = "ge" -> [lo |-> DateLo(cl.v), hi |-> Forever.hi]
      [] cl.op = "gt" -> [lo |-> DateHi(cl.v), hi |-> Forever.hi]
      [] cl.op = "le" -> [lo |-> Forever.lo, hi |-> DateHi(cl.v)]
      [] cl.op = "lt" -> [lo |-> Forever.lo, hi |-> DateLo(cl.v)]
      [] cl.op = "eq" -> [lo |-> DateLo(cl.v), hi |-> DateHi(cl.v)]
      [] OTHER -> Forever

\* If something that spans all times from b to e might match, judging from the
\* dates
MayMatch(rt, b, e) ==
    IF rt = <<>> THEN TRUE
    ELSE IF b = e THEN RtMatch(rt, b)
    ELSE \E n \in 1..Len(rt) : \A m \in 1..Len(rt[n]) :
        LET d == ClauseDates(rt[n][m]) IN b < d.hi /\ e >= d.lo

(***************************************************************************)
(* Sort orders                                                             *)
(***************************************************************************)

\* Compare sequences of integers
RECURSIVE LexLess(_, _)
LexLess(a, b) ==
    CASE Len(b) = 0 -> FALSE
      [] Len(a) = 0 -> TRUE
      [] OTHER -> a[1] < b[1] \/ (a[1] = b[1] /\ LexLess(Tail(a), Tail(b)))

PeriodLen(p) == CASE p = "year" -> 1 [] p = "month" -> 2 [] p = "day" -> 3 [] p = "hour" -> 4 [] p = "minute" -> 5 [] OTHER -> 0

\* Stable sort of a sequence with keys that are sequences of integers
SortBy(s, key(_)) ==
    LET pos == [n \in 1..Len(s) |-> key(s[n]) \o <<n>>]
        ord == SortSeq([n \in 1..Len(s) |-> n], LAMBDA a, b : LexLess(pos[a], pos[b]))
    IN [n \in 1..Len(s) |-> s[ord[n]]]
=============================================================================
