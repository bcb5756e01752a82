---------------------------- MODULE HardwareTrace ----------------------------
EXTENDS Hardware, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
Ev == Traces[t].ops[i]
Adv == i' = i + 1 /\ t' = t /\ (IOEnv.DIAG = "1" => PrintT(<<"AT", t, i>>))
TInit == t \in 1..Len(Traces) /\ i = 1 /\ HInit
ToSet(s) == {s[k] : k \in 1..Len(s)}
TMachine == Ev.op = "machine" /\ Machine(Ev.cpu, ToSet(Ev.bad), ToSet(Ev.maybe)) /\ Adv
TNew == /\ Ev.op = "new" /\ Adv
        /\ IF Ev.r = "ok" THEN Make(Ev.name, Ev) ELSE Ev.r = "fail" /\ Refuse(Ev.name)
TMeta == Ev.op = "meta" /\ IsMeta(Ev.name, Ev.units) /\ Adv /\ UNCHANGED hvars
TInstant == Ev.op = "instant" /\ Instant([lo |-> Ev.lo, hi |-> Ev.hi]) /\ Adv
TStart == Ev.op = "start" /\ Start(Ev.g, [lo |-> Ev.lo, hi |-> Ev.hi]) /\ Adv
TFinish == Ev.op = "finish" /\ Finish(Ev.g, [lo |-> Ev.lo, hi |-> Ev.hi]) /\ Adv
TEvents == Ev.op = "events" /\ Faithful(Ev.events) /\ Adv /\ UNCHANGED hvars
TDone == i = Len(Traces[t].ops) + 1 /\ PrintT(<<"DONE", t>>) /\ i' = i + 1 /\ UNCHANGED <<hvars, t>>
TNext == (i <= Len(Traces[t].ops) /\ (TMachine \/ TNew \/ TMeta \/ TInstant \/ TStart \/ TFinish \/ TEvents)) \/ TDone
TSpec == TInit /\ [][TNext]_<<hvars, t, i>>
=============================================================================
