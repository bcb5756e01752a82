---------------------------- MODULE ToolRunTrace ----------------------------
(***************************************************************************)
(* Runs of the tools: command, inputs, room for the result, the bytes of   *)
(* the whole result (need; of a run with all the room) and of this one     *)
(* (got), the exit, whether there was something on the standard output     *)
(* (said) and on the standard error (told).                                *)
(***************************************************************************)
EXTENDS ToolRun, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
Ev == Traces[t].ops[i]
Adv == i' = i + 1 /\ t' = t /\ (IOEnv.DIAG = "1" => PrintT(<<"AT", t, i>>))
TInit == t \in 1..Len(Traces) /\ i = 1
TRun == /\ Ev.op = "run" /\ Ev.r \in {"ok", "fail"} /\ Adv
        /\ \E v \in {Required(Ev.cmd, Ev.ins, Ev.room, Ev.need, Ev.blocked)} :
             /\ v = "any" \/ Ev.r = v
             /\ Ev.r = "fail" => Ev.told
             \* Nothing that looks like a result.
             /\ (\E k \in 1..Len(Ev.ins) : InputVerdict(Ev.cmd, Ev.ins[k]) = "err") => ~Ev.said
             /\ v = "ok" => Ev.got = Ev.need
TDone == i = Len(Traces[t].ops) + 1 /\ PrintT(<<"DONE", t>>) /\ i' = i + 1 /\ UNCHANGED t
TNext == (i <= Len(Traces[t].ops) /\ TRun) \/ TDone
TSpec == TInit /\ [][TNext]_<<t, i>>
=============================================================================
