---------------------------- MODULE StringsTrace ----------------------------
(* Histories of string table calls and of what was read back, and the parsing of event ids. *)
EXTENDS Strings, EventId, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
Ev == Traces[t].ops[i]
Adv == i' = i + 1 /\ t' = t /\ (IOEnv.DIAG = "1" => PrintT(<<"AT", t, i>>))
TInit == t \in 1..Len(Traces) /\ i = 1 /\ SInit

TAlloc == Ev.op = "alloc" /\ Alloc(Ev.comps) /\ Adv
TMap == Ev.op = "map" /\ Ev.r = "ok" /\ Map(Ev.vs, Ev.e) /\ Adv
\* Mapping is refused exactly if some id is not a virtual id; then nothing is mapped.
IsVirtual(l) == l[4] = 0 /\ l[3] = 0 /\ l[2] <= 1600 /\ CanMap(l[2] * 65536 + l[1])
TRefuse == /\ Ev.op = "badmap" /\ Ev.r = "fail" /\ Adv /\ UNCHANGED svars
           /\ \E k \in 1..Len(Ev.ids) : ~IsVirtual(Ev.ids[k])
\* Every way of reading gives the id's text.
TRead == /\ Ev.op = "read" /\ Adv /\ UNCHANGED svars
         /\ Ev.text = Text(Ev.id)
TEvent == /\ Ev.op = "event" /\ Adv /\ UNCHANGED svars
          /\ LET p == ParseEventId(Text(Ev.id)) IN Ev.label = p.label /\ Ev.args = p.args
TDone == i = Len(Traces[t].ops) + 1 /\ PrintT(<<"DONE", t>>) /\ i' = i + 1 /\ UNCHANGED <<svars, t>>
TNext == (i <= Len(Traces[t].ops) /\ (TAlloc \/ TMap \/ TRefuse \/ TRead \/ TEvent)) \/ TDone
TSpec == TInit /\ [][TNext]_<<svars, t, i>>
=============================================================================
