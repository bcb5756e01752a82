------------------------------- MODULE MCFar -------------------------------
(***************************************************************************)
(* Small streams: numbers in two parts count right, and no two strings     *)
(* overlap or leave a gap.                                                 *)
(***************************************************************************)
EXTENDS Far, TLC
CONSTANTS MaxSteps
Value(a) == a[1] * Base + a[2]
Sizes == {0, 1, 2, 3, 7}
Parts == {<<>>, <<[k |-> "text", b |-> <<97>>]>>, <<[k |-> "fill", n |-> Num(5)], [k |-> "text", b |-> <<97, 98>>]>>} \union
         (IF Len(strings) = 0 THEN {} ELSE {<<[k |-> "text", b |-> <<97>>], [k |-> "ref", to |-> k]>> : k \in 1..Len(strings)})
VARIABLE raws      \* sizes and addresses
vars == <<pos, strings, raws>>
Init == FInit /\ raws = <<>>
Next == \/ Len(raws) < MaxSteps /\ \E n \in Sizes : Write(Num(n), pos.raw) /\ raws' = Append(raws, <<n, Value(pos.raw)>>)
        \/ Len(strings) < MaxSteps /\ \E p \in Parts : Alloc(p, Plus(First, pos.data)) /\ UNCHANGED raws
Spec == Init /\ [][Next]_vars
Bytes(p) == IF p.k = "fill" THEN Value(p.n) ELSE IF p.k = "ref" THEN RefSize ELSE Len(p.b)
Exact ==
  /\ \A a \in {pos.raw, pos.data} : a[2] \in 0..(Base - 1)
  /\ \A k \in 1..Len(raws) : raws[k][2] = FoldLeft(LAMBDA s, x : s + x[1], 0, SubSeq(raws, 1, k - 1))
  /\ \A k \in 1..Len(strings) :
       Value(strings[k].id) - Value(First)
         = Header + FoldLeft(LAMBDA s, e : s + 1 + FoldLeft(LAMBDA x, p : x + Bytes(p), 0, e.parts), 0, SubSeq(strings, 1, k - 1))
=============================================================================
