----------------------------- MODULE SharedTrace -----------------------------
(* Histories of several threads calling one profiler, and the profile read back. *)
EXTENDS Shared, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
Ev == Traces[t].ops[i]
Adv == i' = i + 1 /\ t' = t /\ (IOEnv.DIAG = "1" => PrintT(<<"AT", t, i>>))
TInit == t \in 1..Len(Traces) /\ i = 1 /\ ShInit
TInv == /\ Ev.op = "inv" /\ Adv
        /\ CASE Ev.f = "alloc" -> InvAlloc(Ev.k, Ev.th, Ev.comps)
             [] Ev.f = "map" -> InvMap(Ev.k, Ev.th, Ev.vs, Ev.e)
             [] Ev.f = "ev" -> InvEv(Ev.k, Ev.th, Ev.ev)
TRet == /\ Ev.op = "ret" /\ Ev.r = "ok" /\ Adv
        /\ \E c \in pend : c.k = Ev.k /\ (RetAlloc(c) \/ RetMap(c) \/ RetEv(c))
TRead == /\ Ev.op = "read" /\ Adv /\ UNCHANGED shvars
         /\ (Found([n \in 1..Len(Ev.events) |-> Ev.events[n].k], [n \in 1..Len(Ev.events) |-> Ev.events[n].ev])) = TRUE
TDone == i = Len(Traces[t].ops) + 1 /\ PrintT(<<"DONE", t>>) /\ i' = i + 1 /\ UNCHANGED <<shvars, t>>
TNext == (i <= Len(Traces[t].ops) /\ (TInv \/ TRet \/ TRead)) \/ TDone
TSpec == TInit /\ [][TNext]_<<shvars, t, i>>
=============================================================================
