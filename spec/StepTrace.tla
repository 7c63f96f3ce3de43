----------------------------- MODULE StepTrace -----------------------------
(* Names of segments, their intervals, and searches for segments, and the   *)
(* operations on times and intervals that all of them use: results of the   *)
(* real ones, that must be what ArkiTime and Reftime say                    *)
EXTENDS Reftime, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]

Chk(what, expected, cond) == IF cond THEN TRUE ELSE PrintT(<<"VERIF-WHY", <<l, what, expected>>>>) /\ FALSE

\* Times are compared by day and second, that do not overflow
Days(t) == DaysFromCivil(t[1], t[2], t[3])
Secs(t) == t[4] * 3600 + t[5] * 60 + t[6]
Before(a, b) == Days(a) < Days(b) \/ (Days(a) = Days(b) /\ Secs(a) < Secs(b))
Valid(t) == /\ t[2] \in 1..12 /\ t[3] \in 1..DaysInMonth(t[1], t[2])
            /\ t[4] \in 0..23 /\ t[5] \in 0..59 /\ t[6] \in 0..59
DayOf(t, d) == Days(t) = d /\ Secs(t) = 0 /\ Valid(t)

(***************************************************************************)
(* Names                                                                   *)
(***************************************************************************)
Names == /\ Ev.op = "Names"
         /\ Chk("no error", "", ~Ev.err)
         /\ \A n \in 1..Len(Ev.ts) :
               LET t == Ev.ts[n]  r == Ev.res[n] IN
               /\ Chk("path", <<t, StepPath(Ev.step, t)>>, r.path = StepPath(Ev.step, t))
               /\ Chk("interval from the path", t, r.ok /\ r["in"])
               /\ IF Ev.step = "single" THEN TRUE
                  ELSE LET d == StepDays(Ev.step, t) IN
                       Chk("interval", <<t, d>>, DayOf(r.lo, d.lo) /\ DayOf(r.hi, d.hi))
         \* In the order of their names
         /\ IF Ev.step = "single" THEN TRUE
            ELSE \A n \in 1..(Len(Ev.order) - 1) :
                LET a == StepDays(Ev.step, Ev.ts[Ev.order[n]])  b == StepDays(Ev.step, Ev.ts[Ev.order[n + 1]]) IN
                Chk("names are in order of time", n, a = b \/ a.hi <= b.lo)

(***************************************************************************)
(* Searches: files are the segments on disk, each with the times of some   *)
(* items that would be in it                                               *)
(***************************************************************************)
FileName(f) == StepPath(Ev.step, f.t) \o "." \o f.fmt
CanMatch(f) == \E m \in 1..Len(f.es) : RtMatch(Ev.rt, f.es[m])
Search == /\ Ev.op = "Search"
          /\ Chk("no error", "", ~Ev.err)
          /\ LET mine == {n \in 1..Len(Ev.files) : Ev.files[n].fmt = Ev.fmt}
                 all == {FileName(Ev.files[n]) : n \in mine}
                 need == {FileName(Ev.files[n]) : n \in {m \in mine : CanMatch(Ev.files[m])}}
                 found == ToSet(Ev.found)
             IN
             /\ Chk("found are segments on disk", all, found \subseteq all)
             /\ Chk("segments that match are found", need, need \subseteq found)
             /\ Chk("found once", "", Cardinality(found) = Len(Ev.found))
             /\ Chk("names match", "", \A n \in 1..Len(Ev.files) : CanMatch(Ev.files[n]) => Ev.pm[n] = 1)
             /\ IF Ev.step = "single" THEN Chk("extremes", "", (Ev.lo /= <<>>) = (mine /= {}))
                ELSE IF mine = {} THEN Chk("no extremes", "", Ev.lo = <<>> /\ Ev.hi = <<>>)
                ELSE LET lo == Min({StepDays(Ev.step, Ev.files[n].t).lo : n \in mine})
                         hi == Max({StepDays(Ev.step, Ev.files[n].t).hi : n \in mine})
                     IN Chk("extremes", <<lo, hi>>, Ev.lo /= <<>> /\ Ev.hi /= <<>> /\ DayOf(Ev.lo, lo) /\ DayOf(Ev.hi, hi))

(***************************************************************************)
(* Times                                                                   *)
(***************************************************************************)
\* Day and second that is t with something added to each of its elements
Added(t, d) ==
    LET mo == t[2] - 1 + d[2]
        secs == (t[4] + d[4]) * 3600 + (t[5] + d[5]) * 60 + t[6] + d[6]
        first == DaysFromCivil(t[1] + d[1] + mo \div 12, (mo % 12) + 1, 1)
    IN <<first + t[3] - 1 + d[3] + secs \div 86400, secs % 86400>>

Months(t) == MonthStart(t[1], t[2])
First(v, n, rest) == SubSeq(v, 1, n) \o SubSeq(rest, n + 1, 6)
Time == /\ Ev.op = "Time"
        /\ Chk("no error", "", ~Ev.err)
        /\ LET t == Ev.t  want == Added(t, Ev.d)
               y == t[1]  m == t[2]
               n == NextMonth(y, m)
               p == IF m = 1 THEN <<y - 1, 12>> ELSE <<y, m - 1>>
               dur == LET s == want[2] - Secs(t) IN <<want[1] - Days(t) + s \div 86400, s % 86400>>
               same == want = <<Days(t), Secs(t)>>
           IN
           /\ Chk("sum", want, Valid(Ev.norm) /\ <<Days(Ev.norm), Secs(Ev.norm)>> = want)
           /\ Chk("start of month", "", Ev.som = <<y, m, 1, 0, 0, 0>>)
           /\ Chk("start of next month", "", Ev.sonm = <<n[1], n[2], 1, 0, 0, 0>>)
           /\ Chk("start of previous month", "", Ev.sopm = <<p[1], p[2], 1, 0, 0, 0>>)
           /\ Chk("end of month", "", Ev.eom = <<y, m, DaysInMonth(y, m), 23, 59, 59>>)
           /\ Chk("previous", "", Valid(Ev.prev) /\ <<Days(Ev.prev), Secs(Ev.prev)>> = Added(t, <<0, 0, 0, 0, 0, -1>>))
           /\ Chk("next", "", Valid(Ev.next) /\ <<Days(Ev.next), Secs(Ev.next)>> = Added(t, <<0, 0, 0, 0, 0, 1>>))
           /\ Chk("is start of month", "", Ev.is_som = (t[3] = 1 /\ Secs(t) = 0))
           /\ Chk("forms", "", Ev.iso = t /\ Ev.iso_ = t /\ Ev.sql = t /\ Ev.bin = t)
           /\ Chk("days", "", Ev.dim = DaysInMonth(y, m) /\ Ev.diy = (IF IsLeap(y) THEN 366 ELSE 365))
           /\ Chk("duration", dur, Ev.dur = dur)
           /\ Chk("comparison", "", /\ Ev.eq = same
                                    /\ Ev.cmp = IF same THEN 0 ELSE IF dur[1] < 0 THEN 1 ELSE -1)
           /\ Chk("lower bounds", "", \A k \in 1..6 : Ev.lb[k] = First(t, k, <<0, 1, 1, 0, 0, 0>>))
           /\ Chk("upper bounds", "", \A k \in 1..6 :
                  Ev.ub[k] = First(t, k, <<0, 12, DaysInMonth(y, IF k = 1 THEN 12 ELSE m), 23, 59, 59>>))

(***************************************************************************)
(* Intervals, with the end not included; <<>> is for open ends             *)
(***************************************************************************)
BeforeB(a, b) == IF a = <<>> THEN b /= <<>> ELSE IF b = <<>> THEN FALSE ELSE Before(a, b)   \* Beginnings
BeforeE(a, b) == IF b = <<>> THEN a /= <<>> ELSE IF a = <<>> THEN FALSE ELSE Before(a, b)   \* Ends
\* The end is after the beginning
Nonempty(b, e) == b = <<>> \/ e = <<>> \/ Before(b, e)
MaxB(a, b) == IF BeforeB(a, b) THEN b ELSE a
MinB(a, b) == IF BeforeB(a, b) THEN a ELSE b
MaxE(a, b) == IF BeforeE(a, b) THEN b ELSE a
MinE(a, b) == IF BeforeE(a, b) THEN a ELSE b
Intervals ==
    /\ Ev.op = "Intervals"
    /\ Chk("no error", "", ~Ev.err)
    /\ LET b1 == Ev.i1[1]  e1 == Ev.i1[2]  b2 == Ev.i2[1]  e2 == Ev.i2[2]
           b == MaxB(b1, b2)  e == MinE(e1, e2)
           meet == Nonempty(b, e)
       IN
       /\ \A n \in 1..Len(Ev.ts) : LET t == Ev.ts[n]  in == (b1 = <<>> \/ ~Before(t, b1)) /\ (e1 = <<>> \/ Before(t, e1)) IN
             Chk("contains time", <<t, in>>, Ev.in_[n] = IF in THEN 1 ELSE 0)
       /\ Chk("contains", "", Ev.contains = (~BeforeB(b2, b1) /\ ~BeforeE(e1, e2)))
       /\ Chk("intersects", meet, Ev.intersects = meet)
       /\ Chk("intersection", <<b, e>>, Ev.isect = meet /\ Ev.isect_iv = (IF meet THEN <<b, e>> ELSE Ev.i1))
       /\ Chk("extended", "", Ev.extend = <<MinB(b1, b2), MaxE(e1, e2)>>)
       /\ IF b1 = <<>> \/ e1 = <<>> THEN TRUE
          ELSE LET is_som == b1[3] = 1 /\ Secs(b1) = 0
                   n == NextMonth(b1[1], b1[2])
                   m == IF is_som THEN n ELSE NextMonth(n[1], n[2])
               IN
               /\ Chk("a whole month", m, Ev.spans = ~Before(e1, <<m[1], m[2], 1, 0, 0, 0>>))
               /\ Chk("months", "", /\ Ev.months /= <<>>
                                    /\ Ev.months[1][1] = b1 /\ Ev.months[Len(Ev.months)][2] = e1
                                    /\ \A k \in 1..Len(Ev.months) : LET x == Ev.months[k] IN
                                          /\ Before(x[1], x[2])
                                          /\ LET q == NextMonth(x[1][1], x[1][2]) IN
                                             IF k < Len(Ev.months) THEN /\ x[2] = <<q[1], q[2], 1, 0, 0, 0>>
                                                                        /\ Ev.months[k + 1][1] = x[2]
                                             ELSE ~Before(<<q[1], q[2], 1, 0, 0, 0>>, x[2]))

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Names \/ Search \/ Time \/ Intervals
Spec == Init /\ [][Next]_l
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN TRUE ELSE PrintT("VERIF-REJECT " \o ToString(d))
=============================================================================
