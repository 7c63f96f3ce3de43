---------------------------- MODULE MatcherTrace ----------------------------
(* Results of the real matchers, that must be the ones of Matcher          *)
EXTENDS Matcher, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, aliases
Ev == Trace[l]

Chk(what, expected, cond) == IF cond THEN TRUE ELSE PrintT(<<"VERIF-WHY", <<l, what, expected>>>>) /\ FALSE

Bit(b) == IF b THEN 1 ELSE 0

Aliases == /\ Ev.op = "Aliases"
           /\ aliases' = Ev.aliases

\* The matcher, its printed form, its expanded form, that one again, the
\* matcher on an item set and on encoded values
Match == /\ Ev.op = "Match"
         /\ Chk("no error", "", ~Ev.err)
         /\ Chk("expanded form is stable", "", Ev.stable)
         /\ \A n \in 1..Len(Ev.items) :
                LET want == Bit(Matches(aliases, Ev.expr, Ev.items[n])) IN
                Chk("matches", <<n, want>>, \A m \in 1..Len(Ev.res[n]) : Ev.res[n][m] = want)
         /\ UNCHANGED aliases

Combine == /\ Ev.op = "Combine"
           /\ Chk("no error", "", ~Ev.err)
           /\ \A n \in 1..Len(Ev.items) :
                LET it == Ev.items[n]
                    want == <<Bit(Matches(aliases, Ev.e1, it)), Bit(Matches(aliases, Ev.e2, it)),
                              Bit(Merged(aliases, Ev.e1, Ev.e2, it)), Bit(Updated(aliases, Ev.e1, Ev.e2, it)),
                              Bit(Matches(aliases, Only(Ev.e1, Types(Ev.e2)), it)),
                              Bit(Matches(aliases, Only(Ev.e1, Types(Ev.e1) \ Types(Ev.e2)), it))>>
                IN Chk("combined", <<n, want>>, Ev.res[n] = want)
           /\ UNCHANGED aliases

\* Reference time expressions: ts are increasing, and i[n] is for the interval
\* between ts[n] and ts[n + 1]
Times == /\ Ev.op = "Reftime"
         /\ Chk("no error", "", ~Ev.err)
         /\ LET want == [n \in 1..Len(Ev.ts) |-> Bit(RtMatch(Ev.rt, Ev.ts[n]))] IN
            /\ Chk("matches", want, Ev.m = want)
            /\ Chk("printed form matches", want, Ev.again = want)
            /\ Chk("expanded form matches", want, Ev.exp = want)
            /\ Chk("encoded times match", want, Ev.buf = want)
            /\ Chk("SQL form matches", want, Ev.sql = want)
            /\ \A n \in 1..Len(want) : want[n] = 1 =>
                  Chk("interval of matching times", <<Ev.ts[n]>>,
                      Ev.some /\ (Ev.haslo => Ev.lo <= Ev.ts[n]) /\ (Ev.hashi => Ev.ts[n] < Ev.hi))
            /\ \A n \in 1..Len(Ev.int) : Ev.int[n] = 0 =>
                  Chk("interval with matching times", <<n, Ev.ts[n]>>, \A m \in 1..Len(want) :
                        Ev.ts[m] >= Ev.ts[n] /\ Ev.ts[m] < Ev.ts[n + 1] => want[m] = 0)
         /\ UNCHANGED aliases

Init == l = 1 /\ aliases = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Aliases \/ Match \/ Combine \/ Times
Spec == Init /\ [][Next]_<<l, aliases>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN TRUE ELSE PrintT("VERIF-REJECT " \o ToString(d))
=============================================================================
