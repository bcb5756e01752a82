---------------------------- MODULE BuilderTrace ----------------------------
(* Profiles put together by hand, and what is read from them. *)
EXTENDS Builder, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
Ev == Traces[t].ops[i]
Adv == i' = i + 1 /\ t' = t /\ (IOEnv.DIAG = "1" => PrintT(<<"AT", t, i>>))
TInit == t \in 1..Len(Traces) /\ i = 1 /\ BInit
TBegin == Ev.op = "begin" /\ Begin(Ev.x) /\ Adv
TEnd == /\ Ev.op = "end" /\ Adv
        /\ CASE Ev.r = "ok" -> EndOk
             [] Ev.r = "refused" -> EndRefused
             [] Ev.r = "left" -> Leave
             [] OTHER -> FALSE
TSingle == /\ Ev.op = "single" /\ Adv
           /\ CASE Ev.r = "ok" -> Single(Ev.ty, Ev.x)
                [] Ev.r = "refused" -> SingleRefused(Ev.ty, Ev.x)
                [] OTHER -> FALSE
\* Very many of the same, with the values 0, 1, ..
TMany == /\ Ev.op = "many" /\ Adv /\ UNCHANGED <<meta, open>>
         /\ \E e \in {Made("integer", Ev.x)} :
              events' = events \o [k \in 1..Ev.n |-> [e EXCEPT !.v1 = <<(k - 1) % 65536, (k - 1) \div 65536, 0, 0>>]]
Light(k) == [ty |-> events[k].ty, v1 |-> events[k].v1, v2 |-> events[k].v2, tid |-> events[k].tid]
TestCmd == <<<<116, 1>>, <<101, 1>>, <<115, 1>>, <<116, 1>>, <<32, 1>>, <<99, 1>>, <<109, 1>>, <<100, 1>>>>
TRead == /\ Ev.op = "read" /\ Adv /\ UNCHANGED bvars /\ open = <<>>
         /\ Ev.r = "ok" /\ Ev.num = Len(events) /\ Len(Ev.events) = Len(events) /\ Len(Ev.light) = Len(events)
         /\ \A k \in 1..Len(events) : Ev.events[k] = events[k] /\ Ev.light[k] = Light(k)
         /\ Ev.meta = [pid |-> <<0, 0>>, cmd |-> TestCmd, start |-> Zero]
TDone == i = Len(Traces[t].ops) + 1 /\ PrintT(<<"DONE", t>>) /\ i' = i + 1 /\ UNCHANGED <<bvars, t>>
TNext == (i <= Len(Traces[t].ops) /\ (TBegin \/ TEnd \/ TSingle \/ TMany \/ TRead)) \/ TDone
TSpec == TInit /\ [][TNext]_<<bvars, t, i>>
=============================================================================
