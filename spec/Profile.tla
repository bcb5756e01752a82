------------------------------- MODULE Profile -------------------------------
(***************************************************************************)
(* A profile: metadata and a sequence of events. 64-bit values are written *)
(* as four 16-bit limbs, least significant first; texts as in Strings.     *)
(* An event is [ty, v1, v2, tid, kind, label, args]; an instant's or an    *)
(* integer's v2 is zero. Values of times count from the profile's start.   *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES events, meta
pvars == <<events, meta>>

Leq(a, b) == \/ a = b
             \/ \E k \in 1..4 : a[k] < b[k] /\ \A j \in (k + 1)..4 : a[j] = b[j]
MaxSingle == <<65535, 65535, 65535, 0>>
MaxInterval == <<65533, 65535, 65535, 0>>
Zero == <<0, 0, 0, 0>>

InRange(ty, a, b) == IF ty = "interval" THEN Leq(a, b) /\ Leq(b, MaxInterval) ELSE Leq(a, MaxSingle)
Stored(ty, a, b) == IF ty = "interval" THEN <<ty, a, b>> ELSE <<ty, a, Zero>>

PInit == events = <<>> /\ meta = <<>>
Describe(m) == meta' = m /\ UNCHANGED events
Record(e) == InRange(e.ty, e.v1, e.v2) /\ events' = Append(events, e) /\ UNCHANGED meta
\* Values out of range are refused and nothing is stored.
Refuse(e) == ~InRange(e.ty, e.v1, e.v2) /\ UNCHANGED pvars
=============================================================================
