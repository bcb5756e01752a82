------------------------------- MODULE MCBig -------------------------------
(* Arithmetic on digits agrees with arithmetic on small numbers. *)
EXTENDS Big, TLC
Some == (0..12) \union (9990..10010) \union {12345, 19999, 30000, 46340, 40000}
Large == Some \union {99999999, 100000000, 100010001, 999999999, 1000000000}
ASSUME \A x \in Large, y \in Large :
  /\ Leq(Big(x), Big(y)) <=> x <= y
  /\ Diff1(Big(x), Big(y)) = Big(IF x > y THEN x - y ELSE y - x)
  /\ Add(Big(x), Big(y)) = Big(x + y)
ASSUME \A x \in Some, y \in Some : Mul(Big(x), Big(y)) = Big(x * y)
ASSUME \A x \in 0..2, y \in Some : OfPair(<<x, y>>) = Big(x * 1000000000 + y)
VARIABLE b
Spec == b = 0 /\ [][FALSE]_b
=============================================================================
