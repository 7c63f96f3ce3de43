------------------------------ MODULE StreamPump ------------------------------
(***************************************************************************)
(* How data is moved: a loop that polls the pipes with the filter and the  *)
(* destination, and moves what it can, together with a filter and a reader *)
(* that do what they want, when they want.                                 *)
(*                                                                         *)
(* TLC checks that this only does what StreamOut allows, whatever the      *)
(* order of events, and that all operations end: nobody waits forever.     *)
(***************************************************************************)
EXTENDS StreamOut, Sequences

CONSTANTS Sends,    \* sizes of what is sent to the filter
          Cap,      \* size of pipes
          Move,     \* how much can be moved at once
          Ratio,    \* how much the filter writes for each unit it reads
          Direct,   \* whether data goes from the filter to the destination without being stored here (as with splice)
          MayClose, \* whether the reader can go away
          Mistake   \* a mistake to make, to see that it would be found

\* p1, p2, p3, p4: how much is in the pipes for the input, output and errors of the filter, and for the destination
\* sin, sout, serr: whether we have our side of those with the filter open
\* fe: whether the filter has its errors open. epend: how much it wants to write there
\* pend: how much output the filter has to write. over: it reads no more
\* sa, da: output from the filter is there to be read, and the destination can take some
\* polled: what the last poll said about each pipe
\* togo: how much is left to send. next: next element of Sends
\* buf: how much output is stored here
\* pc: where we are
VARIABLES p1, p2, p3, p4, sin, sout, serr, fe, epend, pend, sa, da, polled, togo, next, buf, pc, res, errors
hvars == <<p1, p2, p3, p4, sin, sout, serr, fe, epend, pend, sa, da, polled, togo, next, buf, pc, res, errors>>
pipes == <<p1, p2, p3, p4>>
vars == <<ovars, hvars>>

\* Values for Sends
Two == <<3, 1>>
One == <<3>>
Three == <<3, 1, 4>>

Min(a, b) == IF a < b THEN a ELSE b
None == [in |-> {}, out |-> {}, err |-> {}, dest |-> {}]

Init ==
    /\ OInit
    /\ p1 = 0 /\ p2 = 0 /\ p3 = 0 /\ p4 = 0
    /\ sin = FALSE /\ sout = FALSE /\ serr = FALSE /\ fe = FALSE /\ epend = 0 /\ pend = 0
    /\ sa = FALSE /\ da = FALSE /\ polled = None /\ togo = 0 /\ next = 1 /\ buf = 0 /\ pc = "start" /\ res = "ok" /\ errors = 0

(* The filter **************************************************************)

Own == <<sin, sout, serr, sa, da, polled, togo, next, buf, pc, res, errors>>

Filter ==
    /\ Running
    /\ \/ \E n \in 1..p1 : \* read
            /\ fin /\ FRead(n) /\ p1' = p1 - n /\ pend' = pend + n * Ratio
            /\ UNCHANGED <<p2, p3, p4, fe, epend>>
       \/ \* end of input
            /\ fin /\ ~feof /\ p1 = 0 /\ ~sin /\ FEof
            /\ UNCHANGED <<pipes, fe, epend, pend>>
       \/ \E n \in 1..Min(pend, Cap - p2) : \* write
            /\ fout /\ sout /\ FWrite(n) /\ p2' = p2 + n /\ pend' = pend - n
            /\ UNCHANGED <<p1, p3, p4, fe, epend>>
       \/ \* nobody wants its output
            /\ fout /\ pend > 0 /\ ~sout /\ FPipe /\ pend' = 0
            /\ UNCHANGED <<pipes, fe, epend>>
       \/ \E n \in 1..Min(epend, Cap - p4) : \* write errors
            /\ fe /\ serr /\ FErr(n) /\ p4' = p4 + n /\ epend' = epend - n
            /\ UNCHANGED <<p1, p2, p3, fe, pend>>
       \/ \* nobody wants its errors
            /\ fe /\ epend > 0 /\ ~serr /\ epend' = 0
            /\ UNCHANGED <<ovars, pipes, fe, pend>>
       \/ \* it reads no more
            /\ fin /\ FClose("in") /\ UNCHANGED <<pipes, fe, epend, pend>>
       \/ \* it writes no more
            /\ fout /\ pend = 0 /\ FClose("out") /\ UNCHANGED <<pipes, fe, epend, pend>>
       \/ \* it ends, when it has done what it wanted to
            /\ (feof \/ ~fin) /\ (pend = 0 \/ ~fout) /\ epend = 0
            /\ \E st \in {0, 1} : FExit(st)
            /\ fe' = FALSE /\ pend' = 0 /\ UNCHANGED <<pipes, epend>>
    /\ UNCHANGED Own

\* What a filter does sooner or later
FilterWorks ==
    /\ Running
    /\ \/ fin /\ p1 > 0 /\ FRead(1) /\ p1' = p1 - 1 /\ pend' = pend + Ratio /\ UNCHANGED <<p2, p3, p4, fe, epend>>
       \/ fin /\ ~feof /\ p1 = 0 /\ ~sin /\ FEof /\ UNCHANGED <<pipes, fe, epend, pend>>
       \/ fout /\ sout /\ pend > 0 /\ p2 < Cap /\ FWrite(1) /\ p2' = p2 + 1 /\ pend' = pend - 1 /\ UNCHANGED <<p1, p3, p4, fe, epend>>
       \/ fout /\ pend > 0 /\ ~sout /\ FPipe /\ pend' = 0 /\ UNCHANGED <<pipes, fe, epend>>
       \/ fe /\ serr /\ epend > 0 /\ p4 < Cap /\ FErr(1) /\ p4' = p4 + 1 /\ epend' = epend - 1 /\ UNCHANGED <<p1, p2, p3, fe, pend>>
       \/ fe /\ epend > 0 /\ ~serr /\ epend' = 0 /\ UNCHANGED <<ovars, pipes, fe, pend>>
       \/ (feof \/ ~fin) /\ (pend = 0 \/ ~fout) /\ epend = 0 /\ (\E st \in {0, 1} : FExit(st)) /\ fe' = FALSE /\ pend' = 0 /\ UNCHANGED <<pipes, epend>>
    /\ UNCHANGED Own

(* The destination *********************************************************)

Reader ==
    /\ \/ \E n \in 1..p3 : DRead(n) /\ p3' = p3 - n
       \/ MayClose /\ DClose /\ p3' = 0
    /\ UNCHANGED <<p1, p2, p4, sin, sout, serr, fe, epend, pend, sa, da, polled, togo, next, buf, pc, res, errors>>
ReaderWorks ==
    /\ dopen /\ p3 > 0 /\ DRead(p3) /\ p3' = 0
    /\ UNCHANGED <<p1, p2, p4, sin, sout, serr, fe, epend, pend, sa, da, polled, togo, next, buf, pc, res, errors>>

(* Us **********************************************************************)

Env == <<fe, epend, pend>>

Begin ==
    /\ pc = "start" /\ Start
    /\ sin' = TRUE /\ sout' = TRUE /\ serr' = TRUE /\ fe' = TRUE
    /\ epend' \in {0, Cap + 1}
    /\ pc' = "idle"
    /\ UNCHANGED <<pipes, pend, sa, da, polled, togo, next, buf, res, errors>>

Op ==
    /\ pc = "idle"
    /\ IF res = "ok" /\ next <= Len(Sends)
       THEN SendBegin(Sends[next], 0) /\ togo' = Sends[next] /\ next' = next + 1 /\ UNCHANGED <<sin>>
       ELSE IF res = "err"
       THEN AbortBegin /\ sin' = (sin /\ Mistake = "abort-waits") /\ UNCHANGED <<togo, next>>
       ELSE StopBegin /\ sin' = FALSE /\ UNCHANGED <<togo, next>>
    /\ pc' = IF res = "err" THEN "wait" ELSE "poll"
    /\ IF res = "err" /\ Mistake # "abort-waits" THEN sout' = FALSE /\ serr' = FALSE ELSE UNCHANGED <<sout, serr>>
    /\ UNCHANGED <<pipes, Env, sa, da, polled, buf, res, errors>>

\* What poll says of the pipes we are interested in
SaysIn == IF ~sin \/ phase # "send" THEN {} ELSE (IF p1 < Cap THEN {"ready"} ELSE {}) \cup (IF ~fin THEN {"closed"} ELSE {})
SaysOut == IF ~sout \/ sa THEN {} ELSE (IF p2 > 0 THEN {"ready"} ELSE {}) \cup (IF ~fout THEN {"closed"} ELSE {})
SaysErr == IF ~serr THEN {} ELSE (IF p4 > 0 THEN {"ready"} ELSE {}) \cup (IF ~fe THEN {"closed"} ELSE {})
SaysDest == (IF ~da /\ p3 < Cap THEN {"ready"} ELSE {}) \cup (IF ~dopen THEN {"closed"} ELSE {})
Says == [in |-> SaysIn, out |-> IF Mistake = "close-early" /\ sout /\ sa /\ ~fout THEN {"closed"} ELSE SaysOut, err |-> SaysErr, dest |-> SaysDest]

NeedsPoll == serr \/ sout \/ buf > 0 \/ (phase = "send" /\ sin)

OpEnd(r) == pc' = "end" /\ res' = r

Poll ==
    /\ pc = "poll"
    /\ IF ~NeedsPoll
       THEN OpEnd(res) /\ UNCHANGED <<polled>>
       ELSE /\ \E k \in DOMAIN Says : Says[k] # {} \* or it waits
            /\ polled' = Says
            /\ pc' = "errors" /\ UNCHANGED res
    /\ UNCHANGED <<ovars, pipes, Env, sin, sout, serr, sa, da, togo, next, buf, errors>>

\* Collect errors
Errors ==
    /\ pc = "errors"
    /\ IF "ready" \in polled.err /\ p4 > 0
       THEN \E n \in 1..Min(Move, p4) : p4' = p4 - n /\ errors' = errors + n /\ UNCHANGED serr
       ELSE IF polled.err = {"closed"}
       THEN serr' = FALSE /\ UNCHANGED <<p4, errors>>
       ELSE UNCHANGED <<p4, errors, serr>>
    /\ pc' = "output"
    /\ UNCHANGED <<ovars, p1, p2, p3, Env, sin, sout, sa, da, polled, togo, next, buf, res>>

\* Move output
Output ==
    LET sa1 == sa \/ "ready" \in polled.out
        da1 == da \/ "ready" \in polled.dest
        gone == "ready" \notin polled.dest /\ "closed" \in polled.dest
        closed == "closed" \in polled.out /\ (~sa1 \/ Mistake = "close-early")
    IN /\ pc = "output"
       /\ IF gone
          THEN \* The destination is closed: other things are done, but then we are over
               /\ res' = "eofdst" /\ sa' = sa1 /\ da' = da1 /\ UNCHANGED <<p2, p3, sout, buf>>
          ELSE IF Direct
          THEN IF sa1 /\ da1
               THEN /\ sa' = FALSE /\ da' = FALSE /\ UNCHANGED buf
                    /\ IF ~dopen
                       THEN res' = "eofdst" /\ UNCHANGED <<p2, p3, sout>>
                       ELSE IF p2 > 0
                       THEN \E n \in 0..Min(Move, Min(p2, Cap - p3)) : (n > 0 \/ p3 = Cap) /\ p2' = p2 - n /\ p3' = p3 + n /\ UNCHANGED <<sout, res>>
                       ELSE sout' = fout /\ UNCHANGED <<p2, p3, res>>
               ELSE /\ sa' = sa1 /\ da' = da1 /\ sout' = (sout /\ ~closed) /\ UNCHANGED <<p2, p3, buf, res>>
          ELSE \E n \in 0..Min(Move, p2) : LET reads == buf = 0 /\ sa1
                       buf1 == IF reads THEN n ELSE buf
                   IN /\ IF reads THEN (n > 0 \/ p2 = 0) ELSE n = 0
                      /\ p2' = p2 - n
                      /\ LET writes == buf1 > 0 /\ da1
                         IN /\ IF writes /\ dopen
                               THEN \E m \in 0..Min(buf1, Cap - p3) : (m > 0 \/ p3 = Cap) /\ buf' = buf1 - m /\ p3' = p3 + m
                               ELSE buf' = buf1 /\ UNCHANGED p3
                            /\ res' = IF writes /\ ~dopen THEN "eofdst" ELSE res
                            /\ sa' = (sa1 /\ ~reads)
                            /\ da' = (da1 /\ ~writes)
                            /\ sout' = (sout /\ ~(reads /\ n = 0 /\ ~fout) /\ ~(~reads /\ ~writes /\ closed))
       /\ pc' = "input"
       /\ UNCHANGED <<ovars, p1, p4, Env, sin, serr, polled, togo, next, errors>>

\* Give data to the filter
Input ==
    /\ pc = "input"
    /\ IF "ready" \in polled.in
       THEN IF ~fin
            THEN pc' = "end" /\ res' = (IF res = "ok" THEN "err" ELSE res) /\ UNCHANGED <<p1, togo, sin>>
            ELSE \E n \in 1..Min(Move, Min(togo, Cap - p1)) :
                    /\ p1' = p1 + n /\ togo' = togo - n /\ UNCHANGED sin
                    /\ IF togo = n \/ res = "eofdst" THEN OpEnd(res) ELSE pc' = "poll" /\ UNCHANGED res
       ELSE IF "closed" \in polled.in
       THEN /\ sin' = FALSE /\ UNCHANGED <<p1, togo>>
            /\ IF res = "eofdst" THEN OpEnd(res) ELSE pc' = "poll" /\ UNCHANGED res
       ELSE /\ UNCHANGED <<p1, togo, sin>>
            /\ IF res = "eofdst" THEN OpEnd(res) ELSE pc' = "poll" /\ UNCHANGED res
    /\ UNCHANGED <<ovars, p2, p3, p4, Env, sout, serr, sa, da, polled, next, buf, errors>>

End ==
    /\ pc = "end"
    /\ IF phase = "send"
       THEN /\ SendEnd(res, p3, IF sin THEN p1 ELSE -1, -1)
            /\ pc' = "idle" /\ UNCHANGED <<sin, sout, serr>>
       ELSE /\ pc' = "wait" /\ UNCHANGED ovars
            /\ IF Mistake = "stop-waits" THEN UNCHANGED <<sin, sout, serr>> ELSE sin' = FALSE /\ sout' = FALSE /\ serr' = FALSE
    /\ UNCHANGED <<pipes, Env, sa, da, polled, togo, next, buf, res, errors>>

Wait ==
    /\ pc = "wait" /\ fexit >= 0
    /\ IF phase = "abort" THEN AbortEnd
       ELSE StopEnd(IF fexit = 0 THEN "ok" ELSE "filter", p3, -1, fexit, IF feof THEN offered ELSE 0, fwritten, errors)
    /\ pc' = "done"
    /\ UNCHANGED <<pipes, Env, sin, sout, serr, sa, da, polled, togo, next, buf, res, errors>>

Pump == Begin \/ Op \/ Poll \/ Errors \/ Output \/ Input \/ End \/ Wait

Next == Pump \/ Filter \/ Reader
Spec == Init /\ [][Next]_vars /\ WF_vars(Pump) /\ SF_vars(FilterWorks) /\ WF_vars(ReaderWorks)

(***************************************************************************)
(* Nothing is lost on the way                                              *)
(***************************************************************************)
TypeOK == /\ p1 \in 0..Cap /\ p2 \in 0..Cap /\ p3 \in 0..Cap /\ p4 \in 0..Cap /\ togo >= 0 /\ buf >= 0
Conserved ==
    /\ Running /\ fin => offered = fread + p1 + togo \/ phase \in {"abort"} \/ bad
    /\ Running /\ dopen /\ sout => dexp = dread + p3 + buf + p2

\* When an operation ends, its result is among those it can have. When these
\* do not hold, the actions that are for them cannot be taken, and nothing
\* else can be done
ResultsAreRight ==
    /\ pc = "end" /\ phase = "send" => CanSendEnd(res, p3, IF sin THEN p1 ELSE -1, -1)
    /\ pc = "wait" /\ fexit >= 0 /\ phase = "stop" =>
         CanStopEnd(IF fexit = 0 THEN "ok" ELSE "filter", p3, -1, fexit, IF feof THEN offered ELSE 0, fwritten, errors)
\* Ends of files and closed pipes are only seen when they should
EndsAreRight ==
    /\ Running /\ fin /\ ~feof /\ p1 = 0 /\ ~sin => CanFEof
    /\ Running /\ fout /\ pend > 0 /\ ~sout => CanFPipe

\* All operations end
Ends == <>(pc = "done")
=============================================================================
