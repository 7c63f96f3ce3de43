---------------------------- MODULE SummaryTrace ----------------------------
(* Summaries made by the real code, that must be sums over the items        *)
(*                                                                          *)
(* An item has key, a function from each of the types that count in a       *)
(* summary to the text of its value, e, its reference time, size, and md,   *)
(* the values for the matcher.                                              *)
(* A row of a summary is [k: key, n: number of items, size: their size,     *)
(* lo, hi: the first and last of their times].                              *)
EXTENDS Matcher, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]

Chk(what, expected, cond) == IF cond THEN TRUE ELSE PrintT(<<"VERIF-WHY", <<l, what, expected>>>>) /\ FALSE

Least(s) == CHOOSE x \in s : \A y \in s : x <= y
Most(s) == CHOOSE x \in s : \A y \in s : x >= y
RECURSIVE SizeOf(_, _)
SizeOf(items, s) == IF s = {} THEN 0 ELSE LET n == CHOOSE n \in s : TRUE IN items[n].size + SizeOf(items, s \ {n})

Row(items, k, s) == [k |-> k, n |-> Cardinality(s), size |-> SizeOf(items, s),
                     lo |-> Least({items[n].e : n \in s}), hi |-> Most({items[n].e : n \in s})]
\* The rows for some items, with keys made by a function
Rows(items, s, key(_)) ==
    {Row(items, k, {n \in s : key(items[n]) = k}) : k \in {key(items[n]) : n \in s}}

WholeKey(it) == it.key
OnlyKey(it, types) == [t \in DOMAIN it.key \cap types |-> it.key[t]]

\* No row is there twice
IsRows(obs, rows) == Len(obs) = Cardinality(rows) /\ SetOf(obs) = rows

Summary ==
    /\ Ev.op = "Summary"
    /\ Chk("no error", "", ~Ev.err)
    /\ LET all == 1..Len(Ev.items)
           rows == Rows(Ev.items, all, WholeKey)
           typed == {n \in all : Matches(<<>>, Only(Ev.expr, Types(Ev.expr) \ {"reftime"}), Ev.items[n].md)}
           exact == {n \in all : Matches(<<>>, Ev.expr, Ev.items[n].md)}
       IN /\ Chk("rows", rows, IsRows(Ev.rows, rows))
          /\ Chk("count", "", Ev.count = Len(Ev.items))
          /\ Chk("size", "", Ev.size = SizeOf(Ev.items, all))
          /\ Chk("interval", "", IF all = {} THEN ~Ev.bounded
                                 ELSE /\ Ev.bounded
                                      /\ Ev.lo = Least({Ev.items[n].e : n \in all})
                                      /\ Ev.hi = Most({Ev.items[n].e : n \in all}) + 1)
          \* However they are added
          /\ Chk("added in another way", rows, IsRows(Ev.other, rows) /\ Ev.equal)
          /\ Chk("each encoded form", "", \A n \in 1..Len(Ev.forms) : Ev.forms[n] = 1)
          \* Filtered
          /\ LET t == Rows(Ev.items, typed, WholeKey)
                 sure == {r \in t : \E n \in exact : Ev.items[n].key = r.k}
             IN /\ IF "reftime" \in Types(Ev.expr)
                   \* Rows are all there or not at all
                   THEN Chk("filtered", <<sure, t>>, SetOf(Ev.filtered) \subseteq t /\ sure \subseteq SetOf(Ev.filtered)
                                                     /\ Cardinality(SetOf(Ev.filtered)) = Len(Ev.filtered))
                   ELSE Chk("filtered", t, IsRows(Ev.filtered, t))
                /\ Chk("match", "", Ev.match = (Ev.filtered /= <<>>))
          \* Of only some types
          /\ LET o == Rows(Ev.items, all, LAMBDA it : OnlyKey(it, SetOf(Ev.codes)))
             IN Chk("only some types", o, IsRows(Ev.only, o))
          /\ Chk("differs with an item less", "", Ev.items /= <<>> => ~Ev.equal_less)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Summary
Spec == Init /\ [][Next]_l
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN TRUE ELSE PrintT("VERIF-REJECT " \o ToString(d))
=============================================================================
