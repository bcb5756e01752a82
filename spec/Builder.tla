------------------------------ MODULE Builder -------------------------------
(***************************************************************************)
(* A profile put together by hand. An interval is begun, what is inside it *)
(* is described, and only then it is recorded. What is out of range is     *)
(* refused at that point, and an interval whose inside fails is left out;  *)
(* what is there already stays. An event id is one text, which the reader  *)
(* splits.                                                                 *)
(***************************************************************************)
EXTENDS Profile, EventId
VARIABLES open   \* intervals begun, outermost first
bvars == <<events, meta, open>>
Made(ty, x) == LET p == ParseEventId(x.text)
               IN [ty |-> ty, v1 |-> x.v1, v2 |-> IF ty = "interval" THEN x.v2 ELSE Zero, tid |-> x.tid,
                   kind |-> x.kind, label |-> p.label, args |-> p.args]
BInit == PInit /\ open = <<>>
Begin(x) == open' = Append(open, x) /\ UNCHANGED pvars
Innermost == open[Len(open)]
Close == open # <<>> /\ open' = SubSeq(open, 1, Len(open) - 1)
EndOk == Close /\ Record(Made("interval", Innermost))
EndRefused == Close /\ Refuse(Made("interval", Innermost))
Leave == Close /\ UNCHANGED pvars
Single(ty, x) == ty \in {"instant", "integer"} /\ Record(Made(ty, x)) /\ UNCHANGED open
SingleRefused(ty, x) == ty \in {"instant", "integer"} /\ Refuse(Made(ty, x)) /\ UNCHANGED open
=============================================================================
