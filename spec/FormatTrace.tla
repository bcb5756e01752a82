----------------------------- MODULE FormatTrace -----------------------------
(***************************************************************************)
(* Bytes of profile files, what was recorded in them, and what a reader    *)
(* makes of them: all three agree through the documented format.           *)
(***************************************************************************)
EXTENDS Format, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, dec
Ev == Traces[t].ops[i]
Adv == i' = i + 1 /\ t' = t /\ (IOEnv.DIAG = "1" => PrintT(<<"AT", t, i>>))
TInit == t \in 1..Len(Traces) /\ i = 1 /\ dec = <<>>
-----------------------------------------------------------------------------
(* The metadata: an object of numbers and strings. *)
Quote == 34
Backslash == 92
IsDigit(c) == c \in 48..57
Unescaped(c) == CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 114 -> 13 [] OTHER -> c
Step(a, c) ==
  LET v == IF a.m = "num" /\ ~IsDigit(c)      \* a number ends at what is not a digit
           THEN [m |-> "out", cur |-> <<>>, key |-> a.key, iskey |-> a.iskey, got |-> Append(a.got, <<a.key, "n", a.cur>>)]
           ELSE a
  IN CASE v.m = "out" /\ c = Quote -> [v EXCEPT !.m = "str", !.cur = <<>>]
       [] v.m = "out" /\ IsDigit(c) -> [v EXCEPT !.m = "num", !.cur = <<c>>]
       [] v.m = "out" /\ c = 58 -> [v EXCEPT !.iskey = FALSE]
       [] v.m = "out" /\ c = 44 -> [v EXCEPT !.iskey = TRUE]
       [] v.m = "num" -> [v EXCEPT !.cur = Append(@, c)]
       [] v.m = "str" /\ c = Backslash -> [v EXCEPT !.m = "esc"]
       [] v.m = "esc" -> [v EXCEPT !.m = "str", !.cur = Append(@, Unescaped(c))]
       [] v.m = "str" /\ c = Quote /\ v.iskey -> [v EXCEPT !.m = "out", !.key = v.cur]
       [] v.m = "str" /\ c = Quote -> [v EXCEPT !.m = "out", !.got = Append(@, <<v.key, "s", v.cur>>)]
       [] v.m = "str" -> [v EXCEPT !.cur = Append(@, c)]
       [] OTHER -> v
Fields(b) == LET f == FoldLeft(Step, [m |-> "out", cur |-> <<>>, key |-> <<>>, iskey |-> TRUE, got |-> <<>>], b).got
             IN {f[k] : k \in 1..Len(f)}
Key(n) == CASE n = "start" -> <<115, 116, 97, 114, 116, 95, 116, 105, 109, 101>>          \* start_time
            [] n = "pid" -> <<112, 114, 111, 99, 101, 115, 115, 95, 105, 100>>            \* process_id
            [] n = "cmd" -> <<99, 109, 100>>                                              \* cmd
-----------------------------------------------------------------------------
\* The name of the file is the one asked for with the documented ending.
Ending == <<46, 109, 109, 95, 112, 114, 111, 102, 100, 97, 116, 97>>     \* .mm_profdata
TFile == /\ Ev.op = "file" /\ Adv
         /\ "stem" \in DOMAIN Ev => Ev.names = <<Ev.stem \o Ending>>
         /\ WellFormed(Ev.bytes, Ev.w) = TRUE
         /\ \E d \in {Decoded(Ev.bytes, Ev.w)} :
              dec' = [fields |-> Fields(d.meta), events |-> d.events]
\* What is said about it: by who recorded it, or by a reader. Times and command may be unknown to who recorded it.
NoTimes(e) == [ty |-> e.ty, tid |-> e.tid, kind |-> e.kind, text |-> e.text]
TSays == /\ Ev.op \in {"says", "read"} /\ Adv /\ UNCHANGED dec
         /\ Ev.op = "read" => Ev.r = "ok"
         /\ (IF "start" \in DOMAIN Ev.meta THEN <<Key("start"), "n", Ev.meta.start>> \in dec.fields
             ELSE \E f \in dec.fields : f[1] = Key("start") /\ f[2] = "n")
         /\ <<Key("pid"), "n", Ev.meta.pid>> \in dec.fields
         /\ (IF "cmd" \in DOMAIN Ev.meta THEN <<Key("cmd"), "s", Ev.meta.cmd>> \in dec.fields
             ELSE \E f \in dec.fields : f[1] = Key("cmd") /\ f[2] = "s")
         /\ Len(Ev.events) = Len(dec.events)
         /\ \A k \in 1..Len(Ev.events) :
              IF "v1" \in DOMAIN Ev.events[k] THEN Ev.events[k] = dec.events[k] ELSE Ev.events[k] = NoTimes(dec.events[k])
TDone == i = Len(Traces[t].ops) + 1 /\ PrintT(<<"DONE", t>>) /\ i' = i + 1 /\ UNCHANGED <<t, dec>>
TNext == (i <= Len(Traces[t].ops) /\ (TFile \/ TSays)) \/ TDone
TSpec == TInit /\ [][TNext]_<<t, i, dec>>
=============================================================================
