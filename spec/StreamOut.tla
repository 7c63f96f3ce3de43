------------------------------ MODULE StreamOut ------------------------------
(***************************************************************************)
(* Sending data to an output: what its user, the process that filters the  *)
(* data, and the reader of the destination can see.                        *)
(*                                                                         *)
(* Data is counted: the bytes that the filter gets and those that the      *)
(* destination gets have a position in the sequence of what was sent, and  *)
(* always come in order. The conditions of the actions are the promises of *)
(* output streams.                                                         *)
(***************************************************************************)
EXTENDS Integers

\* offered:  how much was given for the filter so far
\* fread:    how much of it the filter has read, and feof if it was told that it is over
\* fin, fout: whether the filter has its input and output open
\* fexit:    exit status, or -1 if the filter is running, or -2 if there is none
\* fwritten, ferr: how much the filter has written
\* dexp:     how much the destination should get, of what was sent so far
\* dread:    how much its reader has read
\* dopen:    whether its reader is there. early: it was not when this operation began
\* phase:    what is going on. size, missing: of what is being sent
\* bad:      something went wrong, and this was reported
\* late:     the time allowed for something has passed
VARIABLES offered, fread, feof, fin, fout, fexit, fwritten, ferr, dexp, dread, dopen, early, phase, size, missing, bad, late
fvars == <<fread, feof, fin, fout, fexit, fwritten, ferr>>
ovars == <<offered, fread, feof, fin, fout, fexit, fwritten, ferr, dexp, dread, dopen, early, phase, size, missing, bad, late>>

Filtered == fexit # -2
Running == fexit = -1

OInit ==
    /\ offered = 0 /\ fread = 0 /\ feof = FALSE /\ fin = FALSE /\ fout = FALSE /\ fexit = -2 /\ fwritten = 0 /\ ferr = 0
    /\ dexp = 0 /\ dread = 0 /\ dopen = TRUE /\ early = FALSE
    /\ phase = "idle" /\ size = 0 /\ missing = 0 /\ bad = FALSE /\ late = FALSE

(* The filter **************************************************************)

CanStart == phase = "idle" /\ ~Filtered /\ ~bad
Start ==
    /\ CanStart
    /\ offered' = 0 /\ fread' = 0 /\ feof' = FALSE /\ fin' = TRUE /\ fout' = TRUE /\ fexit' = -1 /\ fwritten' = 0 /\ ferr' = 0
    /\ UNCHANGED <<dexp, dread, dopen, early, phase, size, missing, bad, late>>

\* It reads the n bytes that follow what it has read
CanFRead(n) == Running /\ fin /\ fread + n <= offered
FRead(n) ==
    /\ CanFRead(n)
    /\ fread' = fread + n
    /\ UNCHANGED <<offered, feof, fin, fout, fexit, fwritten, ferr, dexp, dread, dopen, early, phase, size, missing, bad, late>>

\* It is told that there is no more, and there is no more
CanFEof == Running /\ fin /\ \/ phase = "abort"
                             \/ phase = "stop" /\ (fread = offered \/ bad \/ ~dopen)
FEof ==
    /\ CanFEof
    /\ feof' = TRUE
    /\ UNCHANGED <<offered, fread, fin, fout, fexit, fwritten, ferr, dexp, dread, dopen, early, phase, size, missing, bad, late>>

FWrite(n) ==
    /\ Running /\ fout
    /\ fwritten' = fwritten + n /\ dexp' = dexp + n
    /\ UNCHANGED <<offered, fread, feof, fin, fout, fexit, ferr, dread, dopen, early, phase, size, missing, bad, late>>

FErr(n) ==
    /\ Running
    /\ ferr' = ferr + n
    /\ UNCHANGED <<offered, fread, feof, fin, fout, fexit, fwritten, dexp, dread, dopen, early, phase, size, missing, bad, late>>

\* It cannot write what it wants to, because nobody is going to take it
CanFPipe == Running /\ fout /\ (phase = "abort" \/ bad \/ ~dopen)
FPipe == CanFPipe /\ UNCHANGED ovars

FClose(fd) ==
    /\ Running
    /\ fin' = (fin /\ fd # "in") /\ fout' = (fout /\ fd # "out")
    /\ UNCHANGED <<offered, fread, feof, fexit, fwritten, ferr, dexp, dread, dopen, early, phase, size, missing, bad, late>>

FExit(st) ==
    /\ Running
    /\ fexit' = st /\ fin' = FALSE /\ fout' = FALSE
    /\ UNCHANGED <<offered, fread, feof, fwritten, ferr, dexp, dread, dopen, early, phase, size, missing, bad, late>>

(* The destination *********************************************************)

CanDRead(n) == dopen /\ dread + n <= dexp
DRead(n) ==
    /\ CanDRead(n)
    /\ dread' = dread + n
    /\ UNCHANGED <<offered, dexp, dopen, early, phase, size, missing, bad, late>> /\ UNCHANGED fvars

DClose ==
    /\ dopen
    /\ dopen' = FALSE
    /\ UNCHANGED <<offered, dexp, dread, early, phase, size, missing, bad, late>> /\ UNCHANGED fvars

(* The user ****************************************************************)

\* Time passes without anything that can be done
Late ==
    /\ late' = TRUE
    /\ UNCHANGED <<offered, dexp, dread, dopen, early, phase, size, missing, bad>> /\ UNCHANGED fvars

SendBegin(n, m) ==
    /\ phase = "idle" /\ ~bad
    /\ phase' = "send" /\ size' = n /\ missing' = m /\ early' = ~dopen
    /\ IF Filtered THEN offered' = offered + n /\ dexp' = dexp ELSE dexp' = dexp + n /\ offered' = offered
    /\ UNCHANGED <<dread, dopen, bad, late>> /\ UNCHANGED fvars

\* Sending ends, with a result, while queued is in the destination and not
\* read, and fqueued is in the input of the filter and not read (or it is
\* negative if that is closed)
\* limit: how much the destination can store, negative if there is no limit
\* All that was sent got to where it goes
Delivered(queued) == dread + queued = dexp
Taken(fqueued) == fqueued >= 0 /\ fread + fqueued = offered
Full(limit) == limit >= 0 /\ dexp > limit
CanSendEnd(res, queued, fqueued, limit) ==
    CASE res = "ok" ->
            /\ missing = 0 \/ (Filtered /\ ~fin)
            /\ \/ size = 0
               \/ Filtered /\ (Taken(fqueued) \/ ~fin)
               \/ ~Filtered /\ dopen /\ Delivered(queued)
               \/ ~Filtered /\ ~dopen /\ ~early
      [] res = "eofdst" -> ~dopen
      [] res = "eofsrc" -> missing > 0
      [] res = "timeout" -> late
      [] res = "err" -> missing > 0 \/ Full(limit) \/ (Filtered /\ ~fin)
SendEnd(res, queued, fqueued, limit) ==
    /\ phase = "send" /\ CanSendEnd(res, queued, fqueued, limit)
    /\ phase' = "idle" /\ bad' = (bad \/ res # "ok") /\ late' = FALSE
    /\ UNCHANGED <<offered, dexp, dread, dopen, early, size, missing>> /\ UNCHANGED fvars

StopBegin ==
    /\ phase = "idle" /\ Filtered
    /\ phase' = "stop" /\ early' = ~dopen
    /\ UNCHANGED <<offered, dexp, dread, dopen, size, missing, bad, late>> /\ UNCHANGED fvars

\* The filter is stopped, with a result that says how it ended, and with the
\* sizes of what it has got, and of what it wrote on its output and errors
CanStopEnd(res, queued, limit, status, insize, outsize, errors) ==
    CASE res \in {"ok", "filter"} ->
            /\ fexit >= 0 /\ status = fexit
            /\ (res = "ok") = (fexit = 0)
            /\ dopen /\ ~bad => /\ Delivered(queued)
                                /\ insize <= offered /\ (feof => insize = offered)
                                /\ outsize = fwritten
                                /\ errors = ferr
      [] res = "timeout" -> late
      [] res = "err" -> Full(limit)
StopEnd(res, queued, limit, status, insize, outsize, errors) ==
    /\ phase = "stop" /\ CanStopEnd(res, queued, limit, status, insize, outsize, errors)
    /\ phase' = "idle" /\ fexit' = -2 /\ bad' = (bad \/ res \notin {"ok", "filter"}) /\ late' = FALSE
    /\ UNCHANGED <<offered, fread, feof, fin, fout, fwritten, ferr, dexp, dread, dopen, early, size, missing>>

AbortBegin ==
    /\ phase = "idle" /\ Filtered /\ bad
    /\ phase' = "abort"
    /\ UNCHANGED <<offered, dexp, dread, dopen, early, size, missing, bad, late>> /\ UNCHANGED fvars

\* There is no filter after one has given up
CanAbortEnd == fexit >= 0
AbortEnd ==
    /\ phase = "abort" /\ CanAbortEnd
    /\ phase' = "idle" /\ fexit' = -2
    /\ UNCHANGED <<offered, fread, feof, fin, fout, fwritten, ferr, dexp, dread, dopen, early, size, missing, bad, late>>
=============================================================================
