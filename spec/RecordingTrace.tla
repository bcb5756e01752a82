--------------------------- MODULE RecordingTrace ---------------------------
EXTENDS Recording, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
Ev == Traces[t].ops[i]
Adv == i' = i + 1 /\ t' = t /\ (IOEnv.DIAG = "1" => PrintT(<<"AT", t, i>>))
TInit == t \in 1..Len(Traces) /\ i = 1 /\ RInit
TStart == Ev.op = "start" /\ Start(Ev.g, Ev.form, Ev.kind, Ev.label, Ev.tid, Ev.th, Ev.lo, Ev.hi) /\ Adv
TFinish == /\ Ev.op = "finish" /\ Adv
           /\ IF Ev.r = "ok" THEN Finish(Ev.g, Ev.label, Ev.th, Ev.lo, Ev.hi)
              ELSE Ev.r = "fail" /\ FinishTooLate(Ev.g, Ev.th, Ev.lo, Ev.hi)
TAbandon == Ev.op = "abandon" /\ Abandon(Ev.g) /\ Adv
TInstant == /\ Ev.op = "instant" /\ Adv
            /\ IF Ev.r = "ok" THEN Instant(Ev.kind, Ev.label, Ev.tid, Ev.th, Ev.lo, Ev.hi)
               ELSE Ev.r = "fail" /\ InstantTooLate(Ev.th, Ev.lo, Ev.hi)
TInteger == Ev.op = "integer" /\ Integer(Ev.kind, Ev.label, Ev.tid, Ev.th, Ev.v) /\ Adv
TBurst == Ev.op = "burst" /\ Burst(Ev.kind, Ev.label, Ev.tid, Ev.th, Ev.v, Ev.n) /\ Adv
TEvents == Ev.op = "events" /\ Faithful(Ev.events) = TRUE /\ Adv /\ UNCHANGED rvars
TDone == i = Len(Traces[t].ops) + 1 /\ PrintT(<<"DONE", t>>) /\ i' = i + 1 /\ UNCHANGED <<rvars, t>>
TNext == (i <= Len(Traces[t].ops) /\ (TStart \/ TFinish \/ TAbandon \/ TInstant \/ TInteger \/ TBurst \/ TEvents)) \/ TDone
TSpec == TInit /\ [][TNext]_<<rvars, t, i>>
=============================================================================
