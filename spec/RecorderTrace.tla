---------------------------- MODULE RecorderTrace ----------------------------
(* Histories of profiler calls, some refused, and the profile read back. *)
EXTENDS Recorder, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
Ev == Traces[t].ops[i]
Adv == i' = i + 1 /\ t' = t /\ (IOEnv.DIAG = "1" => PrintT(<<"AT", t, i>>))
TInit == t \in 1..Len(Traces) /\ i = 1 /\ RecInit

IsVirtual(l) == l[4] = 0 /\ l[3] = 0 /\ l[2] <= 1600 /\ CanMap(l[2] * 65536 + l[1])
\* Ids of strings start at 100 000 003 = 1525 * 65536 + 57603.
IsString(l) == l[4] > 0 \/ l[3] > 0 \/ l[2] > 1525 \/ (l[2] = 1525 /\ l[1] >= 57603)
\* Why a call must fail: its arguments, or the caller's own code.
Bad(f) == CASE f.f = "map" -> (\E k \in 1..Len(f.ids) : ~IsVirtual(f.ids[k])) \/ ~IsString(f.to)
            [] f.f = "integer" -> ~IntFits(f.v)
            [] f.f = "instant" -> clock = 2
            [] f.f \in {"serializer", "size", "iterator"} -> TRUE
            [] OTHER -> FALSE
TAlloc == Ev.op = "alloc" /\ RecAlloc(Ev.comps) /\ Adv
TMap == Ev.op = "map" /\ Ev.r = "ok" /\ RecMap(Ev.vs, Ev.e) /\ Adv
TInteger == Ev.op = "integer" /\ RecInteger(Ev.v, Ev.tid, Ev.kind, Ev.eid) /\ Adv
TInstant == Ev.op = "instant" /\ RecInstant(Ev.tid, Ev.kind, Ev.eid) /\ Adv
TStart == Ev.op = "start" /\ RecStart(Ev.g, Ev.tid, Ev.kind, Ev.eid) /\ Adv
TEnd == Ev.op = "end" /\ Adv /\ IF Ev.r = "ok" THEN RecEnd(Ev.g) ELSE RecEndRefused(Ev.g)
TClock == Ev.op = "clock" /\ RecClock(Ev.to) /\ Adv
TRefuse == Ev.op = "refused" /\ RecRefuse(Bad(Ev.call)) /\ Adv
TAround == Ev.op = "refused_around" /\ RecRefuseAround(Bad(Ev.call), Ev.tid, Ev.kind, Ev.eid) /\ Adv
TRead == /\ Ev.op = "read" /\ Adv /\ UNCHANGED recvars
         /\ Len(Ev.events) = Len(evs)
         /\ \A k \in 1..Len(evs) : Ev.events[k] = Shown(evs[k])
TDone == i = Len(Traces[t].ops) + 1 /\ PrintT(<<"DONE", t>>) /\ i' = i + 1 /\ UNCHANGED <<recvars, t>>
TNext == (i <= Len(Traces[t].ops) /\ (TAlloc \/ TMap \/ TInteger \/ TInstant \/ TStart \/ TEnd \/ TClock \/ TRefuse \/ TAround \/ TRead)) \/ TDone
TSpec == TInit /\ [][TNext]_<<recvars, t, i>>
=============================================================================
