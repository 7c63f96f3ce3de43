------------------------------ MODULE TimeCheck ------------------------------
(* Exhaustive check that the step mapping is a partition of time, for all    *)
(* days of a range of years including leap years and century boundaries.     *)
EXTENDS ArkiTime
CONSTANTS Years
VARIABLES t, step
vars == <<t, step>>

Init == /\ step \in Steps
        /\ t \in {<<y, m, d, h[1], h[2], h[3]>> : y \in Years, m \in 1..12, d \in {1},
                   h \in {<<0, 0, 0>>, <<23, 59, 59>>}}
Next == /\ t[3] < DaysInMonth(t[1], t[2])
        /\ t' = [t EXCEPT ![3] = @ + 1]
        /\ UNCHANGED step
Spec == Init /\ [][Next]_vars

\* Each time is inside the interval of its own segment
Contained == InInterval(Epoch(t), StepInterval(step, t))

\* Times in the same segment have the same interval, times in different
\* segments have disjoint intervals
Neighbours == {<<t[1], t[2], d, h, 0, 0>> : d \in 1..DaysInMonth(t[1], t[2]), h \in {0, 23}}
Partition == \A u \in Neighbours :
    LET a == StepInterval(step, t)  b == StepInterval(step, u) IN
    IF StepPath(step, t) = StepPath(step, u) THEN a = b ELSE ~Overlaps(a, b)

\* The intervals leave no gaps: the second after the end of an interval is in
\* another segment that starts there
NoGaps == step /= "single" =>
    LET n == NextMonth(t[1], t[2])
        i == StepInterval(step, t)
        cands == {<<t[1], t[2], d, 0, 0, 0>> : d \in 1..DaysInMonth(t[1], t[2])}
                 \cup {<<n[1], n[2], 1, 0, 0, 0>>} \cup {<<t[1] + 1, 1, 1, 0, 0, 0>>} IN
    \E u \in cands : Epoch(u) = i.hi /\ StepInterval(step, u).lo = i.hi

DaysOk == Epoch(t) % 86400 = t[4] * 3600 + t[5] * 60 + t[6]
=============================================================================
