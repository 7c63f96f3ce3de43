------------------------------ MODULE Matcher ------------------------------
(***************************************************************************)
(* What matcher expressions match (doc/matcher).                           *)
(*                                                                         *)
(* An item is a function from the types of metadata it has to values:      *)
(*   [st: style, v: sequence of strings, kv: set of "key=value"...]        *)
(* and reftime to seconds since the epoch (ArkiTime).                      *)
(*                                                                         *)
(* An expression is a sequence of clauses [t: type, alts: alternatives],   *)
(* all of which have to match.  An alternative is [alias: name] for the    *)
(* alternatives in an alias, or a pattern for a value:                     *)
(*   [alias: "", st: style, a: positional arguments, "" if omitted,        *)
(*    kv: set of "key=value"...]                                           *)
(***************************************************************************)
EXTENDS Reftime

SetOf(s) == {s[n] : n \in 1..Len(s)}

Positional(a, v) == \A n \in 1..Len(a) : a[n] = "" \/ (n <= Len(v) /\ a[n] = v[n])

(***************************************************************************)
(* Time ranges. Lengths are [n: number, u: unit]                           *)
(***************************************************************************)
Months(u) == u \in {"mo", "y"}
Norm(x) == CASE x.u = "s" -> x.n
             [] x.u = "m" -> x.n * 60
             [] x.u = "h" -> x.n * 3600
             [] x.u = "d" -> x.n * 86400
             [] x.u = "mo" -> x.n
             [] x.u = "y" -> x.n * 12
SameLen(a, b) == Norm(a) = Norm(b) /\ (Months(a.u) = Months(b.u))

\* Zeros match whatever the unit
LenMatch(want, have) == ~want.set \/ SameLen(want, have) \/ (want.n = 0 /\ have.n = 0)

\* Lengths that have a meaning for each GRIB1 type of time range
P1Types == {0, 2, 3, 4, 5, 6, 7, 10}
P2Types == {2, 3, 4, 5, 6, 7}

GRIB1Range(cl, it) ==
    /\ cl.ty = -1 \/ cl.ty = it.ty
    /\ it.ty \in P1Types => LenMatch(cl.p1, it.p1)
    /\ it.ty \in P2Types => LenMatch(cl.p2, it.p2)
BUFRRange(cl, it) == LenMatch(cl.p1, it.p1)

\* A missing value only matches "-"
TimedefLen(want, have) ==
    \/ ~want.set
    \/ want.miss /\ ~have.set
    \/ ~want.miss /\ have.set /\ SameLen(want, have)
TimedefMatch(cl, it) ==
    /\ TimedefLen(cl.p1, it.p1)
    /\ cl.ty = -2 \/ cl.ty = it.ty
    /\ TimedefLen(cl.p2, it.p2)

\* Every other range, as forecast step, type and length of the processing
NoLen == [set |-> FALSE, miss |-> FALSE, n |-> 0, u |-> "s"]
AsTimedef(it) ==
    CASE it.st = "Timedef" -> it
      [] it.st = "BUFR" -> [p1 |-> it.p1, ty |-> -1, p2 |-> NoLen]
      [] it.st = "GRIB2" -> [p1 |-> NoLen, ty |-> -1, p2 |-> NoLen]
      [] it.st = "GRIB1" /\ it.ty \in {0, 10} -> [p1 |-> it.p1, ty |-> 254, p2 |-> [it.p1 EXCEPT !.n = 0]]
      [] it.st = "GRIB1" /\ it.ty = 1 -> [p1 |-> [NoLen EXCEPT !.set = TRUE], ty |-> 254, p2 |-> [NoLen EXCEPT !.set = TRUE]]
      [] OTHER -> [p1 |-> it.p2,
                   ty |-> CASE it.ty = 2 -> 205 [] it.ty = 3 -> 0 [] it.ty = 4 -> 1 [] it.ty = 5 -> 4,
                   p2 |-> [it.p2 EXCEPT !.n = @ - it.p1.n]]
TimedefRange(cl, it) == TimedefMatch(cl, AsTimedef(it))

(***************************************************************************)
(* Levels of radars: intervals of angles                                   *)
(***************************************************************************)
Overlap(a, b, c, d) == a <= d /\ b >= c
ODIMLevel(cl, it) ==
    IF cl.range THEN Overlap(it.min, it.max, cl.min, cl.max)
    ELSE \E n \in 1..Len(cl.vals) : Overlap(it.min, it.max, cl.vals[n] - cl.offset, cl.vals[n] + cl.offset)

(***************************************************************************)
(* Tasks: a part of the text, in any case                                  *)
(***************************************************************************)
Upper(s) == [n \in 1..Len(s) |-> IF s[n] >= 97 /\ s[n] <= 122 THEN s[n] - 32 ELSE s[n]]
HasText(s, p) == \E n \in 0..(Len(s) - Len(p)) : SubSeq(s, n + 1, n + Len(p)) = p

ValueMatch(t, cl, it) ==
    CASE t = "reftime" -> AltMatch(cl.rt, it.e)
      [] t = "task" -> HasText(Upper(it.text), Upper(cl.text))
      [] t = "quantity" -> SetOf(cl.kv) \subseteq SetOf(it.kv)
      [] t = "timerange" /\ cl.st = "Timedef" -> TimedefRange(cl, it)
      [] OTHER ->
         /\ cl.st = it.st
         /\ CASE t = "timerange" /\ cl.st = "GRIB1" -> GRIB1Range(cl, it)
              [] t = "timerange" /\ cl.st = "BUFR" -> BUFRRange(cl, it)
              [] t = "level" /\ cl.st = "ODIMH5" -> ODIMLevel(cl, it)
              [] OTHER -> Positional(cl.a, it.v) /\ SetOf(cl.kv) \subseteq SetOf(it.kv)

RECURSIVE Alternatives(_, _, _, _)
\* One of the alternatives matches. Aliases stand for their alternatives
Alternatives(aliases, t, alts, it) ==
    \E n \in 1..Len(alts) :
        IF alts[n].alias /= "" THEN Alternatives(aliases, t, aliases[t][alts[n].alias], it)
        ELSE ValueMatch(t, alts[n], it)

ClauseMatches(aliases, c, item) == c.t \in DOMAIN item /\ Alternatives(aliases, c.t, c.alts, item[c.t])
Matches(aliases, expr, item) == \A n \in 1..Len(expr) : ClauseMatches(aliases, expr[n], item)

Types(expr) == {expr[n].t : n \in 1..Len(expr)}
\* What is left of an expression with only the clauses for some types
Only(expr, types) == SelectSeq(expr, LAMBDA c : c.t \in types)
\* All that matches either is matched. Types that are not in both match anything
Merged(aliases, e1, e2, item) ==
    \A t \in Types(e1) \cap Types(e2) :
        Matches(aliases, Only(e1, {t}), item) \/ Matches(aliases, Only(e2, {t}), item)
Updated(aliases, e1, e2, item) ==
    Matches(aliases, e2, item) /\ Matches(aliases, Only(e1, Types(e1) \ Types(e2)), item)
=============================================================================
