------------------------------ MODULE RawEvent ------------------------------
(***************************************************************************)
(* How an event's values are packed: two values of LowBits + UpBits bits,  *)
(* the low parts in a word each, the upper parts sharing a third word; the *)
(* two largest end values mark instants and integers. With LowBits = 32    *)
(* and UpBits = 16 these are the real events; the properties are checked   *)
(* for small widths, for all values.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS LowBits, UpBits, Beyond
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
Low == Pow(LowBits)
Up == Pow(UpBits)
MaxSingle == Low * Up - 1
InstantMark == MaxSingle
IntegerMark == InstantMark - 1
MaxInterval == IntegerMark - 1

Accepts(ty, a, b) == IF ty = "interval" THEN a <= b /\ b <= MaxInterval ELSE a <= MaxSingle
Pack(a, b) == [w1 |-> a % Low, w2 |-> b % Low, w3 |-> (a \div Low) * Up + b \div Low]
Encode(ty, a, b) == Pack(a, IF ty = "interval" THEN b ELSE IF ty = "instant" THEN InstantMark ELSE IntegerMark)
First(w) == w.w1 + (w.w3 \div Up) * Low
Second(w) == w.w2 + (w.w3 % Up) * Low
Decode(w) == IF Second(w) = InstantMark THEN <<"instant", First(w), 0>>
             ELSE IF Second(w) = IntegerMark THEN <<"integer", First(w), 0>>
             ELSE <<"interval", First(w), Second(w)>>

VARIABLES ev, st
Init == ev = <<>> /\ st = "new"
Types == {"interval", "instant", "integer"}
Record == /\ st = "new"
          /\ \E ty \in Types, a \in 0..(MaxSingle + Beyond) :
               \E b \in IF ty = "interval" THEN 0..(MaxSingle + Beyond) ELSE {0} :
                 /\ ev' = <<ty, a, b>>
                 /\ st' = IF Accepts(ty, a, b) THEN "stored" ELSE "refused"
Emit == st \in {"stored", "refused"} /\ PrintT(<<"CASE", ToJson([ev |-> ev])>>) /\ st' = "out" /\ UNCHANGED ev
Spec == Init /\ [][Record]_<<ev, st>>
GSpec == Init /\ [][Record \/ Emit]_<<ev, st>>
\* Words are as wide as they may be, and what was stored is what is read.
Exact == st = "stored" =>
           LET w == Encode(ev[1], ev[2], ev[3])
           IN /\ w.w1 < Low /\ w.w2 < Low /\ w.w3 < Up * Up
              /\ Decode(w) = ev
=============================================================================
