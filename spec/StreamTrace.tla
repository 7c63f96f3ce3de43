----------------------------- MODULE StreamTrace -----------------------------
(* Encoding and decoding of metadata                                         *)
(*                                                                           *)
(* A stream is a sequence of items, and item n is in it up to byte ends[n].  *)
(* It can be cut, and it can have a wrong byte. The decoder is fed its bytes *)
(* in pieces, and gives an item as soon as it has seen its last byte.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]

Chk(what, expected, cond) == IF cond THEN TRUE ELSE PrintT(<<"VERIF-WHY", <<l, what, expected>>>>) /\ FALSE

Min(a, b) == IF a < b THEN a ELSE b
Least(s) == CHOOSE x \in s : \A y \in s : x <= y

(***************************************************************************)
(* The incremental decoder                                                 *)
(***************************************************************************)
RECURSIVE Prefixes(_)
\* Sums of the prefixes of a sequence
Prefixes(s) == IF s = <<>> THEN <<0>>
               ELSE LET p == Prefixes(SubSeq(s, 1, Len(s) - 1)) IN Append(p, p[Len(p)] + s[Len(s)])

\* How much has been fed when byte n is fed, with pieces of these sizes, again
\* and again, of a stream of size bytes
Fed(chunks, size, n) ==
    LET p == Prefixes(chunks)
        all == p[Len(p)]
        before == ((n - 1) \div all) * all
    IN Min(size, before + Least({p[k] : k \in {k \in 1..Len(p) : p[k] >= n - before}}))

\* Items that are whole in the first size bytes
Whole(ends, size) == Cardinality({n \in 1..Len(ends) : ends[n] <= size})

Decoded(ends, chunks, size) == [n \in 1..Whole(ends, size) |-> <<1, Fed(chunks, size, ends[n])>>]

Limit == IF Ev.cut < 0 THEN Ev.total ELSE Min(Ev.cut, Ev.total)
LastEnd(ends, size) == LET n == Whole(ends, size) IN IF n = 0 THEN 0 ELSE ends[n]

Incremental ==
    /\ Ev.op = "Incremental"
    /\ LET want == Decoded(Ev.ends, Ev.chunks, Limit) IN Chk("items", want, Ev.out = want)
    /\ Chk("no error", "", ~Ev.error)
    \* What is left has not been given, and can miss what has been decoded
    \* of an item that waits for its data
    /\ Chk("left", "", Ev.left <= Limit - LastEnd(Ev.ends, Limit) /\ (LastEnd(Ev.ends, Limit) = Limit => Ev.left = 0))

\* A reader of files gives the items that are whole. At a cut, it can give an
\* error or see the end of the file. Groups are given at their end.
Read ==
    /\ Ev.op = "Read"
    /\ Chk("items", "", \A n \in 1..Len(Ev.out) : Ev.out[n][1] = 1)
    /\ IF Ev.group
       THEN /\ Chk("number of items", "", Len(Ev.out) <= Ev.items)
            /\ Limit = Ev.total => Chk("all items", "", Len(Ev.out) = Ev.items /\ ~Ev.error)
       ELSE /\ Chk("number of items", Whole(Ev.ends, Limit), Len(Ev.out) = Whole(Ev.ends, Limit))
            /\ LastEnd(Ev.ends, Limit) = Limit => Chk("no error", "", ~Ev.error)

\* A wrong byte in the signature of item bad: the ones before it, and an error.
\* If it is somewhere else, the ones before it are given
Garbled ==
    /\ Ev.op = "Garbled"
    /\ LET n == Ev.bad - 1 IN
       /\ Chk("items before it", n, Len(Ev.out) >= n /\ \A k \in 1..n : Ev.out[k][1] = 1)
       /\ Ev.signature => Chk("error", "", Ev.error /\ Len(Ev.out) = n)

(***************************************************************************)
(* All forms of items and values                                           *)
(***************************************************************************)
Forms ==
    /\ Ev.op = "Forms"
    /\ Chk("no error", "", ~Ev.err)
    /\ \A n \in 1..Len(Ev.res) : LET r == Ev.res[n] IN
          Chk("form", <<n, {f \in DOMAIN r : ~r[f]}>>, \A f \in DOMAIN r : r[f])

\* Values of one type: in all forms they are the same, and they are in a total order
Order ==
    /\ Ev.op = "Order"
    /\ Chk("no error", "", ~Ev.err)
    /\ LET vals == 1..Len(Ev.cmp)  c(a, b) == Ev.cmp[a][b] IN
       /\ \A a, b \in vals :
             /\ Chk("equality", <<a, b>>, (c(a, b) = 0) = (Ev.eq[a][b] = 1))
             /\ Chk("antisymmetry", <<a, b>>, c(a, b) = -c(b, a))
       /\ \A a \in vals : Chk("reflexivity", a, c(a, a) = 0)
       /\ \A a, b, d \in vals :
             Chk("transitivity", <<a, b, d>>, c(a, b) <= 0 /\ c(b, d) <= 0 => c(a, d) <= 0 /\ (c(a, b) < 0 \/ c(b, d) < 0 => c(a, d) < 0))

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Incremental \/ Read \/ Garbled \/ Forms \/ Order
Spec == Init /\ [][Next]_l
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN TRUE ELSE PrintT("VERIF-REJECT " \o ToString(d))
=============================================================================
