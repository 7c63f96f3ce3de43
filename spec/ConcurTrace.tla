---------------------------- MODULE ConcurTrace -----------------------------
(***************************************************************************)
(* Processes that work together on the same real dataset.                  *)
(*                                                                         *)
(* One process at a time runs, between one system call that changes files  *)
(* or takes locks and the next, as decided by a scheduler: the trace is    *)
(* the order in which things happened. It has:                             *)
(*                                                                         *)
(*   Setup    what is in the dataset, when nothing runs                    *)
(*   Start    a process starts an operation (cmd)                          *)
(*   Lock     it got a lock on bytes b of a file, for reading or writing   *)
(*   Unlock   it released it                                               *)
(*   Sys      it changes a file of a segment                               *)
(*   End      the operation has ended, with this result                    *)
(*   Quiet    what is in the dataset, when nothing runs anymore            *)
(*   Hang     all processes wait                                           *)
(*                                                                         *)
(* What is in the dataset is not a value but an interval: what must be     *)
(* there, because its import has ended and no removal has begun, and what  *)
(* may be there, because its import has begun and no removal has ended. A  *)
(* query gives at least what must be there during all of it, at most what  *)
(* may be there during some of it, each element once and intact; so does a *)
(* query of a process that was already there, however it was kept open.    *)
(*                                                                         *)
(* Locks are those of arkimet: byte 0 of the lock file of a segment (or    *)
(* dataset) is locked by who reads it, byte 1 by who appends to it or      *)
(* checks it, and both by who changes what is there. Files change only     *)
(* under the locks that keep them from who is using them.                  *)
(***************************************************************************)
EXTENDS Dataset, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, conf, items,
          must, may, \* elements that must be, or may be, in the dataset
          keys,      \* keys of which there must be an element
          busy,      \* operations in progress, by process
          locks      \* locks held: [p, f, b, w]
vars == <<l, conf, items, must, may, keys, busy, locks>>

Ev == Trace[l]
Set(s) == ToSet(s)
Chk(what, exp, cond) == IF cond THEN TRUE ELSE PrintT("VERIF-WHY " \o ToString(<<l, what, exp>>)) /\ FALSE

Q(q) == [lo |-> q.lo, hi |-> q.hi, o |-> Set(q.o), p |-> Set(q.p), a |-> Set(q.a), k |-> Set(q.k), rt |-> q.rt]
Matching(q) == {i \in DOMAIN items : Matches(items, Q(q), i)}
K(i) == Key(conf, items, i)

Batch(cmd) == IF cmd.op = "Import" THEN Set(cmd.batch) ELSE {}
Replacing(cmd) == cmd.op = "Import" /\ ~IsSimple(conf) /\ Strategy(conf, cmd.strategy) /= "never"
\* Elements that may not be there anymore because of an operation
Losing(cmd) == CASE cmd.op = "Remove" -> Matching(cmd.query)
                 [] Replacing(cmd) -> {i \in DOMAIN items : \E j \in Batch(cmd) : j /= i /\ K(i) = K(j)}
                 [] OTHER -> {}
\* Keys that may not be there anymore
Forgetting(cmd) == IF cmd.op = "Remove" THEN {K(i) : i \in Matching(cmd.query)} ELSE {}

Others(p) == DOMAIN busy \ {p}
UnionOf(f(_), S) == UNION {f(x) : x \in S}

Reset == /\ Ev.op = "Reset"
         /\ conf' = [Ev.conf EXCEPT !.unique = Set(@)]
         /\ items' = [i \in DOMAIN Ev.items |-> [e |-> Epoch(Ev.items[i].t)] @@ Ev.items[i]]
         /\ must' = {} /\ may' = {} /\ keys' = {}
         /\ busy' = [x \in {} |-> {}] /\ locks' = {}

Setup == /\ Ev.op = "Setup"
         /\ must' = Set(Ev.q) /\ may' = Set(Ev.q)
         /\ keys' = {K(i) : i \in Set(Ev.q)}
         /\ UNCHANGED <<conf, items, busy, locks>>

Start ==
    /\ Ev.op = "Start"
    /\ LET p == Ev.p  c == Ev.cmd
           losing == TLCEval(Losing(c))
           me == [cmd |-> c,
                  must |-> must \ UnionOf(LAMBDA q : Losing(busy[q].cmd), Others(p)),
                  keys |-> keys \ UnionOf(LAMBDA q : Forgetting(busy[q].cmd), Others(p)),
                  may |-> may \union UnionOf(LAMBDA q : Batch(busy[q].cmd), Others(p)),
                  lost |-> UnionOf(LAMBDA q : Losing(busy[q].cmd), Others(p)),
                  forgot |-> UnionOf(LAMBDA q : Forgetting(busy[q].cmd), Others(p)),
                  over |-> UnionOf(LAMBDA q : Batch(busy[q].cmd), Others(p))]
           see(b) == [b EXCEPT !.must = @ \ losing, !.keys = @ \ Forgetting(c),
                               !.lost = @ \union losing, !.forgot = @ \union Forgetting(c), !.may = @ \union Batch(c), !.over = @ \union Batch(c)]
       IN /\ busy' = [q \in DOMAIN busy \union {p} |-> IF q = p THEN me ELSE see(busy[q])]
          /\ must' = must \ losing
          /\ keys' = keys \ Forgetting(c)
          /\ may' = may \union Batch(c)
    /\ UNCHANGED <<conf, items, locks>>

ArchiveLock == ".archive/last/lock"

Lock ==
    /\ Ev.op = "Lock"
    /\ Chk("locks that conflict", locks,
           \A x \in locks : x.p /= Ev.p /\ x.f = Ev.f /\ x.b \in Set(Ev.b) => ~x.w /\ ~Ev.w)
    \* Who has the archive could be waiting for who waits for the archive: see Locks
    /\ Chk("waits for more segments while holding the archive", <<Ev.f, locks>>,
           Ev.f /= ArchiveLock /\ 1 \in Set(Ev.b) /\ (\E x \in locks : x.p = Ev.p /\ x.f = ArchiveLock)
           => \E x \in locks : x.p = Ev.p /\ x.f = Ev.f /\ x.b = 1)
    /\ locks' = {x \in locks : ~(x.p = Ev.p /\ x.f = Ev.f /\ x.b \in Set(Ev.b))}
                \union {[p |-> Ev.p, f |-> Ev.f, b |-> n, w |-> Ev.w] : n \in Set(Ev.b)}
    /\ UNCHANGED <<conf, items, must, may, keys, busy>>

Unlock ==
    /\ Ev.op = "Unlock"
    /\ locks' = {x \in locks : ~(x.p = Ev.p /\ x.f = Ev.f /\ x.b \in Set(Ev.b))}
    /\ UNCHANGED <<conf, items, must, may, keys, busy>>

\* Changes to the data of a segment: lk is its lock file
Sys ==
    /\ Ev.op = "Sys"
    /\ LET c == busy[Ev.p].cmd IN
       /\ Chk("data changes with no append or check lock", Ev.lk, \E x \in locks : x.p = Ev.p /\ x.f \in Set(Ev.lk) /\ x.b = 1 /\ x.w)
       /\ c.op = "Maint" /\ Ev.k \in {"rename", "unlink", "truncate"} =>
              Chk("maintenance changes what is being read or imported into", locks,
                  \A x \in locks : x.f \in Set(Ev.lk) => x.p = Ev.p)
    /\ UNCHANGED <<conf, items, must, may, keys, busy, locks>>

Finish(p) == /\ busy' = [q \in Others(p) |-> busy[q]]
             /\ UNCHANGED <<conf, items, locks>>

EndImport(p, c) ==
    LET n == Len(c.batch)
        res == Ev.res
        ok == {c.batch[m] : m \in {m \in 1..n : res[m] = "OK"}}
        dup == {c.batch[m] : m \in {m \in 1..n : res[m] /= "OK"}}
        lost == busy[p].lost
        \* Elements of the batch that may have been replaced by others of it
        inner == IF Replacing(c) THEN {i \in ok : \E j \in ok : j /= i /\ K(i) = K(j)} ELSE {}
        replaced == IF Replacing(c) THEN {i \in may : \E j \in ok : j /= i /\ K(i) = K(j)} \ ok ELSE {}
        there == TLCEval(may \union busy[p].may)
        misfit(m) == items[c.batch[m]].fmt /= items[c.batch[1]].fmt \/ (~IsSimple(conf) /\ items[c.batch[m]].fmt /= conf.fmt)
        \* It has an update sequence number, and what is there does not
        unknown(m) == /\ ~IsSimple(conf) /\ Strategy(conf, c.strategy) = "usn" /\ items[c.batch[m]].usn /= -1
                      /\ \E i \in there : items[i].usn = -1 /\ K(i) = K(c.batch[m])
    IN /\ Chk("results", res, /\ Len(res) = n
                             /\ \A m \in 1..n : CASE res[m] = "OK" -> ~misfit(m)
                                                  [] res[m] = "DUP" -> ~misfit(m) /\ ~IsSimple(conf)
                                                  [] OTHER -> misfit(m) \/ unknown(m))
       /\ Chk("a duplicate of something", dup, \A m \in 1..n : res[m] = "DUP" => \E j \in there : j /= c.batch[m] /\ K(j) = K(c.batch[m]))
       /\ must' = (must \ replaced) \union (ok \ (lost \union inner))
       /\ keys' = keys \union ({K(i) : i \in ok} \ busy[p].forgot)
       /\ may' = may \ ((replaced \union dup) \ busy[p].over)

\* Elements that may be missing from a query because of known findings: see
\* known-findings.txt
Hidden(p) == Set(Ev.gone) \union
             IF Ev.appending THEN {i \in may : \E j \in busy[p].over : items[i].fmt = items[j].fmt /\ PathOf(conf, items, i) = PathOf(conf, items, j)}
             ELSE {}

EndQuery(p, c) ==
    LET m == Matching(c.query)
        res == Set(Ev.q)
        b == busy[p]
    IN /\ Chk("items with their data", Ev.q, res \subseteq DOMAIN items)
       /\ Chk("each once", Ev.q, Cardinality(res) = Len(Ev.q))
       /\ ~IsSimple(conf) => Chk("no duplicates", res, \A i, j \in res : i /= j => K(i) /= K(j))
       /\ Chk("all that is there", b.must \intersect m, b.must \intersect m \subseteq res \union Hidden(p))
       /\ c.all /\ ~IsSimple(conf) => Chk("something for each key", b.keys, b.keys \subseteq {K(i) : i \in res \union Set(Ev.gone)})
       /\ Chk("nothing that is not there", b.may \intersect m, res \subseteq b.may \intersect m)
       /\ UNCHANGED <<must, may, keys>>

\* As many elements as there can be
EndSummary(p, c) ==
    /\ Chk("at most what is there", Cardinality(busy[p].may), Ev.n <= Cardinality(busy[p].may))
    /\ UNCHANGED <<must, may, keys>>

EndRemove(p, c) ==
    \* What to remove is found with a query
    /\ may' = may \ (Matching(c.query) \ (busy[p].over \union Hidden(p)))
    /\ UNCHANGED <<must, keys>>

End == /\ Ev.op = "End"
       /\ LET p == Ev.p  c == busy[p].cmd IN
          /\ Chk("no error", Ev.why, ~Ev.err)
          /\ CASE c.op = "Import" -> EndImport(p, c)
               [] c.op = "Query" -> EndQuery(p, c)
               [] c.op = "Remove" -> EndRemove(p, c)
               [] c.op = "Summary" -> EndSummary(p, c)
               [] OTHER -> UNCHANGED <<must, may, keys>>
          /\ Finish(p)

Quiet ==
    /\ Ev.op = "Quiet"
    /\ LET res == Set(Ev.q) IN
       /\ Chk("no error", Ev.why, ~Ev.err)
       /\ Chk("each once", Ev.q, Cardinality(res) = Len(Ev.q))
       /\ ~IsSimple(conf) => Chk("no duplicates", res, \A i, j \in res : i /= j => K(i) /= K(j))
       /\ Chk("all that must be there", must, must \subseteq res)
       /\ Chk("something for each key that must be there", keys, keys \subseteq {K(i) : i \in res})
       /\ Chk("nothing that must not be there", may, res \subseteq may)
       /\ Chk("its summary counts it", Cardinality(res), Ev.n = Cardinality(res))
       /\ Chk("its summary has its size", Ev.size, Ev.size = FoldSet(LAMBDA i, n : n + items[i].size, 0, res))
       /\ must' = res /\ may' = res /\ keys' = {K(i) : i \in res}
    /\ UNCHANGED <<conf, items, busy, locks>>

\* A check finds nothing wrong
Fine == /\ Ev.op = "Fine"
        /\ Chk("no error", Ev.why, ~Ev.err)
        /\ Chk("segments with problems", Ev.bad, Ev.bad = <<>>)
        /\ UNCHANGED <<conf, items, must, may, keys, busy, locks>>

Init == /\ l = 1 /\ conf = 0 /\ items = 0 /\ must = {} /\ may = {} /\ keys = {}
        /\ busy = [x \in {} |-> {}] /\ locks = {}

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Reset \/ Setup \/ Start \/ Lock \/ Unlock \/ Sys \/ End \/ Quiet \/ Fine

Spec == Init /\ [][Next]_vars

Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN TRUE ELSE PrintT("VERIF-REJECT " \o ToString(d))
=============================================================================
