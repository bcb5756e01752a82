-------------------------------- MODULE Big --------------------------------
(* Naturals of any size, as digits of base 10^4, least significant first, without leading zeros. *)
EXTENDS Integers, Sequences
BB == 10000
RECURSIVE Big(_)
Big(n) == IF n = 0 THEN <<>> ELSE <<n % BB>> \o Big(n \div BB)
Hd(a) == IF a = <<>> THEN 0 ELSE a[1]
Tl(a) == IF a = <<>> THEN <<>> ELSE Tail(a)
RECURSIVE AddC(_, _, _)
AddC(a, b, c) == IF a = <<>> /\ b = <<>> THEN Big(c)
                 ELSE LET x == Hd(a) + Hd(b) + c IN <<x % BB>> \o AddC(Tl(a), Tl(b), x \div BB)
Add(a, b) == AddC(a, b, 0)
RECURSIVE Trim(_)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))
RECURSIVE SubC(_, _, _)
SubC(a, b, c) == IF a = <<>> THEN <<>>
                 ELSE LET x == a[1] - Hd(b) - c IN IF x < 0 THEN <<x + BB>> \o SubC(Tl(a), Tl(b), 1) ELSE <<x>> \o SubC(Tl(a), Tl(b), 0)
\* for b <= a
Sub(a, b) == Trim(SubC(a, b, 0))
RECURSIVE MulD(_, _, _)
MulD(a, d, c) == IF a = <<>> THEN Big(c) ELSE LET x == a[1] * d + c IN <<x % BB>> \o MulD(Tail(a), d, x \div BB)
RECURSIVE Mul(_, _)
Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Trim(AddC(MulD(a, b[1], 0), <<0>> \o Mul(a, Tail(b)), 0))
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, k) == k = 0 \/ a[k] < b[k] \/ (a[k] = b[k] /\ LeqFrom(a, b, k - 1))
Leq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LeqFrom(a, b, Len(a)))
\* |a - b|
Diff1(a, b) == IF Leq(b, a) THEN Sub(a, b) ELSE Sub(b, a)
\* A pair <<s, n>> standing for s * 10^9 + n.
OfPair(p) == Add(Mul(Big(p[1]), <<0, 0, 10>>), Big(p[2]))
\* a without its last five decimal digits, about.
Hundredthousandth(a) == IF Len(a) <= 2 THEN <<>> ELSE SubSeq(a, 3, Len(a))
=============================================================================
