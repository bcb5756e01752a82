----------------------------- MODULE RawEventAll -----------------------------
(***************************************************************************)
(* RawEvent with the real widths, 32 and 16 bits, for Apalache: the        *)
(* encoding is exact for every one of the 2^48 values, not only for the    *)
(* small widths that TLC can enumerate.                                    *)
(***************************************************************************)
EXTENDS Integers
\* @type: Int;
Low == 2^32
\* @type: Int;
Up == 2^16
MaxSingle == Low * Up - 1
InstantMark == MaxSingle
IntegerMark == InstantMark - 1
MaxInterval == IntegerMark - 1
VARIABLES
  \* @type: Str;
  ty,
  \* @type: Int;
  a,
  \* @type: Int;
  b,
  \* @type: Int;
  w1,
  \* @type: Int;
  w2,
  \* @type: Int;
  w3,
  \* @type: Bool;
  stored
Accepts == IF ty = "interval" THEN a <= b /\ b <= MaxInterval ELSE a <= MaxSingle
Init ==
  /\ ty \in {"interval", "instant", "integer"}
  /\ a \in Nat /\ b \in Nat /\ (ty # "interval" => b = 0)
  /\ a < 2^64 /\ b < 2^64
  /\ w1 = 0 /\ w2 = 0 /\ w3 = 0 /\ stored = FALSE
Next ==
  /\ ~stored /\ Accepts /\ stored' = TRUE
  /\ LET e == IF ty = "interval" THEN b ELSE IF ty = "instant" THEN InstantMark ELSE IntegerMark
     IN /\ w1' = a % Low /\ w2' = e % Low
        /\ w3' = (a \div Low) * Up + e \div Low
  /\ UNCHANGED <<ty, a, b>>
First == w1 + (w3 \div Up) * Low
Second == w2 + (w3 % Up) * Low
Exact == stored =>
  /\ w1 < Low /\ w2 < Low /\ w3 < Low
  /\ First = a
  /\ IF ty = "interval" THEN Second = b /\ Second # InstantMark /\ Second # IntegerMark
     ELSE Second = (IF ty = "instant" THEN InstantMark ELSE IntegerMark)
=============================================================================
