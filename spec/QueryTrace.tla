---------------------------- MODULE QueryTrace ------------------------------
(* Recorded events, and what the code answers when asked about them. *)
EXTENDS Query, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
Ev == Traces[t].ops[i]
Adv == i' = i + 1 /\ t' = t /\ (IOEnv.DIAG = "1" => PrintT(<<"AT", t, i>>))
TInit == t \in 1..Len(Traces) /\ i = 1 /\ PInit
TMeta == Ev.op = "meta" /\ Describe([pid |-> Ev.pid, cmd |-> Ev.cmd, start |-> Ev.start]) /\ Adv
TRec == Ev.op = "rec" /\ Ev.r = "ok" /\ Record(Ev.ev) /\ Adv
\* each form of an event answers each question it can be asked
TAsk == /\ Ev.op = "ask" /\ Adv /\ UNCHANGED pvars
        /\ \A f \in DOMAIN Ev.got : \A q \in DOMAIN Ev.got[f] : Answer(events[Ev.k], q, Ev.got[f][q])
TPair == /\ Ev.op = "pair" /\ Adv /\ UNCHANGED pvars
         /\ \E x \in {events[Ev.k]}, y \in {events[Ev.j]} :
              /\ \A f \in DOMAIN Ev.contains : Ev.contains[f] = Contains(x, y)
              /\ Ev.same.payload = (<<x.ty, x.v1, x.v2>> = <<y.ty, y.v1, y.v2>>)
              /\ Ev.same.full = (x = y)
              /\ Ev.same.light = (Ev.k = Ev.j)
              /\ Ev.same.hash => Ev.same.full
              /\ Ev.same.full => Ev.same.hash
TPoint == /\ Ev.op = "point" /\ Adv /\ UNCHANGED pvars
          /\ Ev.got = (~Ev.early /\ Holds(events[Ev.k], Ev.at))
TDone == i = Len(Traces[t].ops) + 1 /\ PrintT(<<"DONE", t>>) /\ i' = i + 1 /\ UNCHANGED <<pvars, t>>
TNext == (i <= Len(Traces[t].ops) /\ (TMeta \/ TRec \/ TAsk \/ TPair \/ TPoint)) \/ TDone
TSpec == TInit /\ [][TNext]_<<pvars, t, i>>
=============================================================================
