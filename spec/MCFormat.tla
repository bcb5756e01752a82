------------------------------ MODULE MCFormat ------------------------------
(***************************************************************************)
(* Small files made from what they are to say: that the documented reading *)
(* of the documented bytes gives it back, and cases for the readers.       *)
(* A string is made of pieces: text, the string before it, a virtual id    *)
(* mapped to an earlier string (before or after its use), an unmapped id.  *)
(***************************************************************************)
EXTENDS Format, TLC, Json
CONSTANTS MaxStrings, MaxParts, MaxEvents
\* Texts by name: cfg constants cannot be tuples.
Text(n) == CASE n = "ab" -> <<97, 98>> [] n = "e" -> <<195, 169>> [] n = "sep" -> <<97, 30, 98>> [] n = "c" -> <<99>>
Pieces == {"ab", "e", "sep", "before", "first", "mapped", "unmapped", "none"}
MetaText == <<123, 34, 115, 116, 97, 114, 116, 95, 116, 105, 109, 101, 34, 58, 32, 55, 44, 34, 112, 114, 111, 99, 101, 115, 115, 95, 105, 100, 34, 58, 52, 44,
              34, 99, 109, 100, 34, 58, 34, 120, 34, 125>>     \* {"start_time": 7,"process_id":4,"cmd":"x"}
Virtual == 70000
Unmapped == 100000000
VARIABLES ss, evs, w, order, st
vars == <<ss, evs, w, order, st>>
\* What a piece says in string number k of ss (string 1 is the metadata; "before" and "mapped" give the last, "first" the second).
RECURSIVE Says(_)
PieceSays(k, c) ==
  CASE c \in {"ab", "e", "sep"} -> Text(c)
    [] c = "before" -> IF k > 2 THEN Says(k - 1) ELSE Text("c")
    [] c = "first" -> IF k > 2 THEN Says(2) ELSE Text("c")
    [] c = "mapped" -> IF k > 2 THEN Says(2) ELSE Text("c")
    [] c \in {"unmapped", "none"} -> Unknown
Says(k) == IF k = 1 THEN MetaText ELSE Concat([j \in 1..Len(ss[k - 1]) |-> PieceSays(k, ss[k - 1][j])])
RECURSIVE Place(_)
Part(k, c) ==
  CASE c \in {"ab", "e", "sep"} -> [k |-> "text", b |-> Text(c)]
    [] c = "before" -> IF k > 2 THEN [k |-> "ref", id |-> First + Place(k - 1)] ELSE [k |-> "text", b |-> Text("c")]
    [] c = "first" -> IF k > 2 THEN [k |-> "ref", id |-> First + Place(2)] ELSE [k |-> "text", b |-> Text("c")]
    [] c = "mapped" -> IF k > 2 THEN [k |-> "ref", id |-> Virtual] ELSE [k |-> "text", b |-> Text("c")]
    [] c = "unmapped" -> [k |-> "ref", id |-> Unmapped]
    [] c = "none" -> [k |-> "ref", id |-> NoId]
\* What comes before the metadata, in some files.
Before == IF order[1] = "index" THEN <<122, End>> ELSE <<>>
Bytes(k) == IF k = 1 THEN MetaText \o <<End>> ELSE StringBytes([j \in 1..Len(ss[k - 1]) |-> Part(k, ss[k - 1][j])], w)
Place(k) == IF k = 1 THEN HeadSize + Len(Before) ELSE Place(k - 1) + Len(Bytes(k - 1))
\* Events: kind, first value and second value by class; the event id is a string of the table, or the mapped id.
Values == {"zero", "top", "mid"}
Limbs(v) == CASE v = "zero" -> Zero [] v = "top" -> <<65533, 65535, 65535, 0>> [] v = "mid" -> <<1, 258, 32769, 0>>
Below(a, b) == a = "zero" \/ b = "top" \/ a = b
Tid == [low |-> <<7, 0>>, high |-> <<65535, 4096>>]
EvClass == {[ty |-> ty, a |-> a, b |-> b, tid |-> "low"] : ty \in {"interval"}, a \in Values, b \in Values} \union
           {[ty |-> ty, a |-> a, b |-> "zero", tid |-> "high"] : ty \in {"instant", "integer"}, a \in Values}
Orders == {<<"events", "data", "index">>, <<"index", "events", "data">>, <<"data", "index", "events">>}
IsRef(c, k) == c \in {"unmapped", "none"} \/ (k > 2 /\ c \in {"before", "first", "mapped"})
\* Version 8 has no strings that start with a reference and go on.
Old == \A k \in 1..Len(ss) : Len(ss[k]) > 1 => ~IsRef(ss[k][1], k + 1)
Init == w \in Widths /\ st = "strings" /\ ss = <<>> /\ evs = <<>> /\ order \in Orders
AddString == /\ st = "strings" /\ Len(ss) < MaxStrings
             /\ \E m \in 0..MaxParts : \E s \in [1..m -> Pieces] : ss' = Append(ss, s)
             /\ UNCHANGED <<evs, w, order, st>>
\* Two events with one string only: more says nothing new.
AddEvent == /\ st \in {"strings", "events"} /\ Len(evs) < MaxEvents /\ Len(ss) > 0 /\ (Len(evs) > 0 => Len(ss) = 1)
            /\ (w = 4 => Old)
            /\ \E e \in EvClass : (e.ty = "interval" => Below(e.a, e.b)) /\ evs' = Append(evs, e)
            /\ st' = "events" /\ UNCHANGED <<ss, w, order>>
\* The ids an event uses: the last string for its text, the second for its kind; event 2 uses the mapped id.
EvOf(k) == LET e == evs[k] IN
  [ty |-> e.ty, v1 |-> Limbs(e.a), v2 |-> Limbs(e.b), tid |-> Tid[e.tid],
   kind |-> First + Place(2), id |-> IF k = 2 THEN Virtual ELSE First + Place(Len(ss) + 1)]
Streams == [data |-> Header("data", VersionOf(w)) \o Before \o Concat([k \in 1..(Len(ss) + 1) |-> Bytes(k)]),
            index |-> Header("index", VersionOf(w)) \o Id(Virtual, w) \o Id(HeadSize, w) \o Id(MetaId, w) \o Id(Place(1), w)
                      \o Id(Virtual, w) \o Id(Place(2), w),
            events |-> Header("events", VersionOf(w)) \o Concat([k \in 1..Len(evs) |-> EventBytes(EvOf(k), w)])]
File == FileBytes([k \in 1..3 |-> [s |-> order[k], b |-> Streams[order[k]]]], VersionOf(w))
Meant == [meta |-> MetaText,
          events |-> [k \in 1..Len(evs) |->
            [ty |-> evs[k].ty, v1 |-> Limbs(evs[k].a), v2 |-> IF evs[k].ty = "interval" THEN Limbs(evs[k].b) ELSE Zero, tid |-> Tid[evs[k].tid],
             kind |-> Says(2), text |-> IF k = 2 THEN Says(2) ELSE Says(Len(ss) + 1)]]]
GivesBack == Len(ss) > 0 => (WellFormed(File, w) /\ Decoded(File, w) = Meant)
Emit == Says(Len(ss) + 1) # <<>> /\ st \in {"strings", "events"} /\ Len(ss) > 0 /\ (w = 4 => Old) /\ st' = "out" /\ UNCHANGED <<ss, evs, w, order>>
        /\ PrintT(<<"CASE", ToJson([w |-> w, bytes |-> File])>>)
Next == AddString \/ AddEvent
GNext == Next \/ Emit
Spec == Init /\ [][Next]_vars
GSpec == Init /\ [][GNext]_vars
=============================================================================
