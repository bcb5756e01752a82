------------------------------ MODULE MCQuery -------------------------------
(***************************************************************************)
(* The questions are consistent with each other, for all triples of events *)
(* over few points of time; the pairs are also asked of the code.          *)
(***************************************************************************)
EXTENDS Query, TLC, Json
CONSTANTS MaxT, Emitting
VARIABLES a, b, c, out
qvars == <<a, b, c, out>>
\* points of time that differ in either of two limbs
T(n) == <<n % 2, n \div 2, 0, 0>>
Points == {T(n) : n \in 0..MaxT}
Evs == {[ty |-> "interval", v1 |-> x, v2 |-> y] : <<x, y>> \in {p \in Points \X Points : Leq(p[1], p[2])}}
       \union {[ty |-> y, v1 |-> x, v2 |-> Zero] : x \in Points, y \in {"instant", "integer"}}
QInit == a \in Evs /\ b \in Evs /\ c \in (IF Emitting THEN {a} ELSE Evs) /\ out = FALSE /\ PInit
Num(v) == v[1] + 2 * v[2]
Enc(e) == <<e.ty, Num(e.v1), Num(e.v2)>>
Emit == ~out /\ out' = TRUE /\ PrintT(<<"CASE", ToJson([evs |-> <<Enc(a), Enc(b)>>])>>) /\ UNCHANGED <<a, b, c, pvars>>
QSpec == QInit /\ [][Emitting /\ Emit]_<<qvars, pvars>>
Interval(e) == e.ty = "interval"
Order ==
  /\ Interval(a) => Contains(a, a)
  /\ Contains(a, b) /\ Contains(b, c) => Contains(a, c)
  /\ Contains(a, b) /\ Contains(b, a) => a = b
\* an interval with some extent is contained if every point of it is held
PointWise == Interval(a) /\ Interval(b) /\ b.v1 # b.v2 =>
  (Contains(a, b) <=> \A p \in Points : Holds(b, p) => Holds(a, p))
Apart == Interval(a) /\ Interval(b) /\ a.v2 = b.v1 => \A p \in Points : ~(Holds(a, p) /\ Holds(b, p))
OneKind == \A d \in {a} : \E x \in {"interval", "instant", "integer"} :
             /\ Answer(d, x, TRUE) /\ \A y \in {"interval", "instant", "integer"} \ {x} : Answer(d, y, FALSE)
Longer == Contains(a, b) /\ Interval(b) => Num(a.v2) - Num(a.v1) >= Num(b.v2) - Num(b.v1)
=============================================================================
