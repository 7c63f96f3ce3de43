------------------------------ MODULE OutTrace ------------------------------
(***************************************************************************)
(* Accepts the sequences of what was recorded while data was sent to real  *)
(* outputs, with real pipes and filters, that are behaviours of StreamOut. *)
(***************************************************************************)
EXTENDS StreamOut, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, conf
vars == <<l, conf, ovars>>

Ev == Trace[l]
Chk(what, exp, cond) == IF cond THEN TRUE ELSE PrintT("VERIF-WHY " \o ToString(<<l, what, exp>>)) /\ FALSE

\* Data is a sequence of intervals of what was expected: it is in order if it
\* starts from a position and continues from there. Returns how much it is
RECURSIVE Joined(_, _)
Joined(iv, from) == IF iv = <<>> THEN TRUE ELSE iv[1][1] = from /\ iv[1][2] > from /\ Joined(Tail(iv), iv[1][2])
Len0(iv, from) == IF iv = <<>> THEN 0 ELSE iv[Len(iv)][2] - from

Limit == IF "fsize" \in DOMAIN conf THEN conf.fsize ELSE -1

Reset ==
    /\ conf' = Ev.conf
    /\ offered' = 0 /\ fread' = 0 /\ feof' = FALSE /\ fin' = FALSE /\ fout' = FALSE /\ fexit' = -2 /\ fwritten' = 0 /\ ferr' = 0
    /\ dexp' = 0 /\ dread' = 0 /\ dopen' = TRUE /\ early' = FALSE
    /\ phase' = "idle" /\ size' = 0 /\ missing' = 0 /\ bad' = FALSE /\ late' = FALSE

\* What can be seen of the state, when explaining what is wrong
See == [offered |-> offered, fread |-> fread, dexp |-> dexp, dread |-> dread, dopen |-> dopen, fin |-> fin, fexit |-> fexit,
        fwritten |-> fwritten, ferr |-> ferr, phase |-> phase, bad |-> bad, missing |-> missing]

\* Signals are reported as statuses over 1000
Status == IF Ev.rc >= 256 THEN Ev.rc \div 256 ELSE IF Ev.rc > 0 THEN 1000 + Ev.rc ELSE 0

Step ==
    CASE Ev.op = "Reset" -> Reset
      [] Ev.op = "Start" -> Chk("start", See, CanStart) /\ Start /\ UNCHANGED conf
      [] Ev.op = "FRead" /\ ~Ev.eof ->
            /\ Chk("what the filter gets is what follows", fread, Joined(Ev.iv, fread))
            /\ Chk("the filter gets what was sent", See, CanFRead(Len0(Ev.iv, fread)))
            /\ FRead(Len0(Ev.iv, fread)) /\ UNCHANGED conf
      [] Ev.op = "FRead" /\ Ev.eof -> Chk("the input of the filter ends when it is over", See, CanFEof) /\ FEof /\ UNCHANGED conf
      [] Ev.op = "FWrite" -> FWrite(Ev.n) /\ UNCHANGED conf
      [] Ev.op = "FErr" -> FErr(Ev.n) /\ UNCHANGED conf
      [] Ev.op = "FPipe" -> Chk("there is somebody reading what the filter writes", See, CanFPipe) /\ FPipe /\ UNCHANGED conf
      [] Ev.op = "FClose" -> FClose(Ev.fd) /\ UNCHANGED conf
      [] Ev.op = "FExit" -> FExit(Ev.st) /\ UNCHANGED conf
      [] Ev.op = "DRead" ->
            /\ Chk("what arrives is what follows", dread, Joined(Ev.iv, dread))
            /\ Chk("what arrives was sent", See, CanDRead(Len0(Ev.iv, dread)))
            /\ DRead(Len0(Ev.iv, dread)) /\ UNCHANGED conf
      [] Ev.op = "DClose" -> DClose /\ UNCHANGED conf
      [] Ev.op = "Timeout" -> Chk("no time limit", conf, "timeout" \in DOMAIN conf) /\ Late /\ UNCHANGED conf
      [] Ev.op = "SendBegin" -> SendBegin(Ev.size, Ev.missing) /\ UNCHANGED conf
      [] Ev.op = "SendEnd" ->
            /\ Chk("result of sending", <<Ev.res, Ev.queued, Ev.fqueued, See>>, CanSendEnd(Ev.res, Ev.queued, Ev.fqueued, Limit))
            /\ SendEnd(Ev.res, Ev.queued, Ev.fqueued, Limit) /\ UNCHANGED conf
      [] Ev.op = "StopBegin" -> StopBegin /\ UNCHANGED conf
      [] Ev.op = "StopEnd" ->
            LET st == IF Ev.res \in {"ok", "filter"} THEN Status ELSE 0
                n(f) == IF f \in DOMAIN Ev THEN Ev[f] ELSE 0
            IN /\ Chk("result of stopping the filter", <<Ev.res, Ev.queued, n("rc"), n("insize"), n("outsize"), n("errors"), See>>,
                      CanStopEnd(Ev.res, Ev.queued, Limit, st, n("insize"), n("outsize"), n("errors")))
               /\ StopEnd(Ev.res, Ev.queued, Limit, st, n("insize"), n("outsize"), n("errors")) /\ UNCHANGED conf
      [] Ev.op = "AbortBegin" -> AbortBegin /\ UNCHANGED conf
      [] Ev.op = "AbortEnd" -> Chk("the filter ended", See, CanAbortEnd /\ Ev.gone) /\ AbortEnd /\ UNCHANGED conf
      [] Ev.op = "End" -> Chk("all has arrived", See, dopen /\ ~bad => dread = dexp) /\ UNCHANGED <<conf, ovars>>
      [] Ev.op = "Hang" -> Chk("nobody can do anything", <<Ev.where, See>>, FALSE) /\ UNCHANGED <<conf, ovars>>
      [] OTHER -> Chk("unexpected event", Ev.op, FALSE) /\ UNCHANGED <<conf, ovars>>

Init == l = 1 /\ conf = [dest |-> ""] /\ OInit
Next == l <= Len(Trace) /\ Step /\ l' = l + 1
Spec == Init /\ [][Next]_vars

Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN TRUE ELSE PrintT("VERIF-REJECT " \o ToString(d))
=============================================================================
