----------------------------- MODULE CrashTrace -----------------------------
(***************************************************************************)
(* Histories of a profile being recorded, with what was read from the file *)
(* as it was at some moment, possibly with the last write to it cut short. *)
(* An event stands for n events in a row with the values v1, v1 + 1, ..    *)
(***************************************************************************)
EXTENDS Crash, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, events, meta
Ev == Traces[t].ops[i]
Adv == i' = i + 1 /\ t' = t /\ (IOEnv.DIAG = "1" => PrintT(<<"AT", t, i>>))
TInit == t \in 1..Len(Traces) /\ i = 1 /\ SInit /\ events = <<>> /\ meta = <<>>
TMeta == Ev.op = "meta" /\ meta' = Ev.meta /\ Adv /\ UNCHANGED <<svars, events>>
TAlloc == Ev.op = "alloc" /\ Alloc(Ev.comps) /\ Adv /\ UNCHANGED <<events, meta>>
TMap == Ev.op = "map" /\ Ev.r = "ok" /\ Map(Ev.vs, Ev.e) /\ Adv /\ UNCHANGED <<events, meta>>
TEvent == Ev.op = "event" /\ events' = Append(events, Ev) /\ Adv /\ UNCHANGED <<svars, meta>>
TFlush == Ev.op = "flush" /\ Adv /\ UNCHANGED <<svars, events, meta>>

Light(e) == [ty |-> e.ty, v1 |-> e.v1, v2 |-> e.v2, tid |-> e.tid]
Full(e, g, c) == /\ g.ev = Light(e)
                 /\ LET k == Seen(e.kind, c[1], c[2], c[3])
                        x == Seen(e.eid, c[1], c[2], c[3])
                    IN /\ k.ok /\ g.kind = k.text
                       /\ x.ok /\ LET p == ParseEventId(x.text) IN g.label = p.label /\ g.args = p.args
IsStart(es) == /\ Len(es) <= Len(events)
                /\ \A k \in 1..Len(es) : /\ IF k < Len(es) THEN es[k].n = events[k].n ELSE es[k].n <= events[k].n
                                         /\ es[k].light = Light(events[k])
TSnap == /\ Ev.op = "snap" /\ Adv /\ UNCHANGED <<svars, events, meta>>
         /\ \/ Ev.r = "fail"
            \/ /\ Ev.r = "ok" /\ Ev.meta = meta
               /\ Ev.num = FoldLeft(LAMBDA a, e : a + e.n, 0, Ev.shown)
               /\ IsStart(Ev.shown) = TRUE
               /\ (\E c \in Cuts : \A k \in 1..Len(Ev.shown) :
                      Ev.shown[k].full = <<>> \/ Full(events[k], Ev.shown[k].full[1], c)) = TRUE
\* The file once everything was written.
TFinal == /\ Ev.op = "final" /\ Adv /\ UNCHANGED <<svars, events, meta>>
          /\ Ev.r = "ok" /\ Ev.meta = meta /\ Len(Ev.shown) = Len(events) /\ IsStart(Ev.shown) = TRUE
          /\ events # <<>> => Ev.shown[Len(events)].n = events[Len(events)].n
          /\ (\A k \in 1..Len(events) : /\ Ev.shown[k].full # <<>>
                                        /\ Full(events[k], Ev.shown[k].full[1], <<Len(maps), Len(entries), 0>>)) = TRUE
TDone == i = Len(Traces[t].ops) + 1 /\ PrintT(<<"DONE", t>>) /\ i' = i + 1 /\ UNCHANGED <<svars, events, meta, t>>
TNext == (i <= Len(Traces[t].ops) /\ (TMeta \/ TAlloc \/ TMap \/ TEvent \/ TFlush \/ TSnap \/ TFinal)) \/ TDone
TSpec == TInit /\ [][TNext]_<<svars, events, meta, t, i>>
=============================================================================
