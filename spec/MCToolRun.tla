----------------------------- MODULE MCToolRun -----------------------------
(***************************************************************************)
(* A tool at work, with a buffer of Buffer units in front of its output.   *)
(* It may write what it has from the inputs it read so far before it reads *)
(* the next. Ending writes what is left in the buffer; EndsQuietly says    *)
(* that it does not look whether that worked, as a dropped writer does:    *)
(* with it, Told does not hold.                                            *)
(***************************************************************************)
EXTENDS ToolRun, SequencesExt, TLC, Json
CONSTANTS Buffer, Each, Inputs, Rooms, EndsQuietly, Classes
VARIABLES ins, room, read, given, buf, disk, res
vars == <<ins, room, read, given, buf, disk, res>>
AnyRoom == -1..(Inputs * Each + 1)
Min2(a, b) == IF a < b THEN a ELSE b
\* In the model, each good input gives Each units of output.
Good(c) == c = "profile"
Need == Len(ins) * Each
Init == /\ ins \in UNION {[1..n -> {"profile", "bad"}] : n \in 1..Inputs} /\ room \in Rooms
        /\ read = 0 /\ given = 0 /\ buf = 0 /\ disk = 0 /\ res = "running"
Place == IF room < 0 THEN 1000 ELSE room
\* The buffer goes out as far as there is room.
Out(k) == Min2(k, Place - disk)
Read == /\ res = "running" /\ read < Len(ins)
        /\ IF Good(ins[read + 1]) THEN read' = read + 1 /\ res' = res ELSE res' = "fail" /\ UNCHANGED read
        /\ UNCHANGED <<ins, room, given, buf, disk>>
Put == /\ res = "running" /\ given < read * Each
       /\ IF buf < Buffer THEN buf' = buf + 1 /\ given' = given + 1 /\ UNCHANGED <<disk, res>>
          ELSE /\ disk' = disk + Out(buf)
               /\ IF Out(buf) < buf THEN res' = "fail" /\ UNCHANGED <<buf, given>>
                  ELSE buf' = 0 /\ UNCHANGED <<given, res>>
       /\ UNCHANGED <<ins, room, read>>
End == /\ res = "running" /\ read = Len(ins) /\ given = Need
       /\ disk' = disk + Out(buf) /\ buf' = 0
       /\ res' = IF Out(buf) < buf /\ ~EndsQuietly THEN "fail" ELSE "ok"
       /\ UNCHANGED <<ins, room, read, given>>
Next == Read \/ Put \/ End
Input(c) == IF c = "profile" THEN [kind |-> "profile"] ELSE [kind |-> "nothing"]
Told == res \in {"ok", "fail"} =>
  /\ res = Required("crox", [k \in 1..Len(ins) |-> Input(ins[k])], room, Need, FALSE)
  /\ res = "ok" => disk = Need
Ends == <>(res # "running")
-----------------------------------------------------------------------------
(* Cases for the tools: a command, a class for each input, a kind of place for the result. *)
VARIABLES case
Places == {"free", "none", "short", "last", "exact", "blocked"}
For(cmd) == Classes \union (IF cmd \in Pairs THEN {"saved", "saved cut", "saved other", "saved none"} ELSE {})
Many(cmd) == IF cmd \in Single THEN {1} ELSE IF cmd \in Pairs THEN {2} ELSE 1..3
Fine == {"profile", "saved"}
OfCommand(cmd) ==
  UNION {{[cmd |-> cmd, ins |-> q, room |-> p] : p \in IF Range(q) \subseteq Fine THEN Places ELSE {"free"}} :
         q \in UNION {IF n < 3 THEN [1..n -> For(cmd)]
                      ELSE {<<"profile", "profile", "profile">>} \union {[[k \in 1..3 |-> "profile"] EXCEPT ![j] = c] : j \in 1..3, c \in For(cmd)}
                      : n \in Many(cmd)}}
GInit == /\ Init /\ ins = <<"profile">> /\ room = -1 /\ \E cmd \in Commands : case \in OfCommand(cmd)
GNext == res = "running" /\ res' = "ok" /\ UNCHANGED <<ins, room, read, given, buf, disk, case>> /\ PrintT(<<"CASE", ToJson(case)>>)
GSpec == GInit /\ [][GNext]_<<vars, case>>
MInit == Init /\ case = <<>>
MSpec == MInit /\ [][Next /\ UNCHANGED case]_<<vars, case>> /\ WF_<<vars, case>>(Next /\ UNCHANGED case)
=============================================================================
