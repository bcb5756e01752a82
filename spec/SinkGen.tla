------------------------------- MODULE SinkGen -------------------------------
(* Behaviours of SinkImpl, written out as programs and schedules to replay in the real code. *)
EXTENDS SinkImpl, TLC, Json
VARIABLES prog, sch, out
gvars == <<ivars, prog, sch, out>>
GInit == IInit /\ prog = [t \in Threads |-> <<>>] /\ sch = <<>> /\ out = FALSE
GStep(t) == /\ Step(t)
            /\ sch' = Append(sch, t)
            /\ prog' = IF th[t].pc = "idle" /\ th'[t].f # "drop"
                       THEN [prog EXCEPT ![t] = Append(@, [f |-> th'[t].api, s |-> th'[t].s, n |-> th'[t].n])]
                       ELSE prog
            /\ UNCHANGED out
GEmit == /\ AllDone /\ ~out /\ out' = TRUE
         /\ PrintT(<<"CASE", ToJson([threads |-> prog, sched |-> sch])>>)
         /\ UNCHANGED <<ivars, prog, sch>>
GNext == (\E t \in Threads : GStep(t)) \/ GEmit
GSpec == GInit /\ [][GNext]_gvars
SeqOps == [f : {"cb", "bytes"}, s : {1}, n : {0, 1, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40}] \union [f : {"flush"}, s : {1}, n : {0}]
ConcOps == [f : {"cb", "bytes"}, s : {1, 2}, n : {1, 7, 8, 16, 17, 25, 33}] \union [f : {"flush"}, s : {1, 2}, n : {0}]
EvGenOps == [f : {"cb"}, s : {1}, n : {1}] \union [f : {"cb", "bytes"}, s : {2}, n : {1, 9, 17, 33}] \union [f : {"flush"}, s : {1, 2}, n : {0}]
=============================================================================
