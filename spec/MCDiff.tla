------------------------------- MODULE MCDiff -------------------------------
(***************************************************************************)
(* The tool's three cases (in both, in the base only, in the change only)  *)
(* are the difference, and swapping the inputs negates it.                 *)
(***************************************************************************)
EXTENDS Diff
CONSTANTS Lbls, Vals
VARIABLES B, C, out, todo
Item(t, s, h) == [NoneItem EXCEPT !.time = <<0, t>>, !.self = <<0, s>>, !.hits = h]
ItemSets == UNION {[S -> {Item(t, s, h) : t \in Vals, s \in Vals, h \in {0, 1}}] : S \in SUBSET Lbls}
Init == B \in ItemSets /\ C \in ItemSets /\ out = [l \in {} |-> 0] /\ todo = DOMAIN B \union DOMAIN C
Pos(v) == [n |-> FALSE, v |-> v]
Invert(v) == [n |-> TRUE, v |-> v]
\* a signed value as the tool keeps it, by the difference in nanoseconds
FromNanos(n) == [n |-> n < 0, v |-> <<0, IF n < 0 THEN 0 - n ELSE n>>]
Minus2(c, b) == FromNanos(c[2] - b[2])
CaseOf(l) == IF l \in DOMAIN B /\ l \in DOMAIN C
             THEN [self |-> Minus2(C[l].self, B[l].self), time |-> Minus2(C[l].time, B[l].time), hits |-> C[l].hits - B[l].hits]
             ELSE IF l \in DOMAIN B THEN [self |-> Invert(B[l].self), time |-> Invert(B[l].time), hits |-> 0 - B[l].hits]
             ELSE [self |-> Pos(C[l].self), time |-> Pos(C[l].time), hits |-> C[l].hits]
Next == \E l \in todo : out' = [x \in DOMAIN out \union {l} |-> IF x = l THEN CaseOf(l) ELSE out[x]] /\ todo' = todo \ {l} /\ UNCHANGED <<B, C>>
Spec == Init /\ [][Next]_<<B, C, out, todo>>
Right == todo = {} =>
  LET D == DiffOf(B, C)
      R == DiffOf(C, B)
  IN /\ DOMAIN out = DOMAIN D
     /\ \A l \in DOMAIN out : SameSigned(out[l].self, D[l].self) /\ SameSigned(out[l].time, D[l].time) /\ out[l].hits = D[l].hits
     /\ \A l \in DOMAIN D : SameSigned(D[l].self, Negated(R[l].self)) /\ D[l].hits = 0 - R[l].hits
=============================================================================
