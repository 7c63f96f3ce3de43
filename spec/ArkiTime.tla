------------------------------ MODULE ArkiTime ------------------------------
(***************************************************************************)
(* Times, intervals, and the mapping between the reference time of a data *)
(* item, the relative path of the segment it is stored in, and the time   *)
(* interval that a segment covers, for each dataset step.                 *)
(*                                                                         *)
(* A time is a sequence <<year, month, day, hour, minute, second>>; its    *)
(* Epoch is in seconds since 1970, and it fits TLC's integers from 1902 to *)
(* 2038.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Steps == {"daily", "weekly", "biweekly", "monthly", "yearly", "single"}

IsLeap(y) == (y % 4 = 0 /\ y % 100 /= 0) \/ y % 400 = 0

DaysInMonth(y, m) ==
    CASE m \in {4, 6, 9, 11} -> 30
      [] m = 2 -> IF IsLeap(y) THEN 29 ELSE 28
      [] OTHER -> 31

DaysBeforeMonth == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>

\* Days from 1970-01-01 to the given date, which can be out of the month
DaysFromCivil(y, m, d) ==
    LET p == y - 1 IN
    (y * 365 + p \div 4 - p \div 100 + p \div 400) - (1970 * 365 + 1969 \div 4 - 1969 \div 100 + 1969 \div 400)
      + DaysBeforeMonth[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0) + d - 1

Epoch(t) == DaysFromCivil(t[1], t[2], t[3]) * 86400 + t[4] * 3600 + t[5] * 60 + t[6]

DayStart(y, m, d) == DaysFromCivil(y, m, d) * 86400

NextMonth(y, m) == IF m = 12 THEN <<y + 1, 1>> ELSE <<y, m + 1>>
MonthStart(y, m) == DayStart(y, m, 1)
MonthEnd(y, m) == LET n == NextMonth(y, m) IN DayStart(n[1], n[2], 1)

Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Pad4(n) == CASE n < 10 -> "000" \o ToString(n)
             [] n < 100 -> "00" \o ToString(n)
             [] n < 1000 -> "0" \o ToString(n)
             [] OTHER -> ToString(n)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* Number of the period of the month containing the given day
Week(d) == ((d - 1) \div 7) + 1
Biweek(d) == IF d > 15 THEN 2 ELSE 1

\* Relative path, with no extension, of the segment for an item with time t
StepPath(step, t) ==
    CASE step = "daily"    -> Pad4(t[1]) \o "/" \o Pad2(t[2]) \o "-" \o Pad2(t[3])
      [] step = "weekly"   -> Pad4(t[1]) \o "/" \o Pad2(t[2]) \o "-" \o ToString(Week(t[3]))
      [] step = "biweekly" -> Pad4(t[1]) \o "/" \o Pad2(t[2]) \o "-" \o ToString(Biweek(t[3]))
      [] step = "monthly"  -> Pad4(t[1]) \o "/" \o Pad2(t[2])
      [] step = "yearly"   -> Pad2(t[1] \div 100) \o "/" \o Pad4(t[1])
      [] step = "single"   -> "all"

\* Far enough for the "single" step
Forever == [lo |-> -2000000000, hi |-> 2000000000]

\* Days (lower bound included, upper bound excluded) covered by the segment
\* where an item with time t goes
StepDays(step, t) ==
    LET first == DaysFromCivil(t[1], t[2], 1)
        n == NextMonth(t[1], t[2])
        next == DaysFromCivil(n[1], n[2], 1)
        day == first + t[3] - 1
        week == first + (Week(t[3]) - 1) * 7
    IN
    CASE step = "daily"    -> [lo |-> day, hi |-> day + 1]
      [] step = "weekly"   -> [lo |-> week, hi |-> Min2(week + 7, next)]
      [] step = "biweekly" -> IF Biweek(t[3]) = 1 THEN [lo |-> first, hi |-> first + 15]
                              ELSE [lo |-> first + 15, hi |-> next]
      [] step = "monthly"  -> [lo |-> first, hi |-> next]
      [] step = "yearly"   -> [lo |-> DaysFromCivil(t[1], 1, 1), hi |-> DaysFromCivil(t[1] + 1, 1, 1)]

\* The same, in seconds
StepInterval(step, t) ==
    IF step = "single" THEN Forever
    ELSE LET d == StepDays(step, t) IN [lo |-> d.lo * 86400, hi |-> d.hi * 86400]

InInterval(e, i) == i.lo <= e /\ e < i.hi
Overlaps(a, b) == a.lo < b.hi /\ b.lo < a.hi

\* Beginning of the UTC day that is age days before the day of time e
AgeThreshold(e, age) == (e \div 86400 - age) * 86400
=============================================================================
