-------------------------------- MODULE Diff --------------------------------
(***************************************************************************)
(* The difference between two summaries: for every label of either, every  *)
(* field of the change minus that of the base, where what is absent counts *)
(* as zero. Signed times are [n |-> negative, v |-> pair].                 *)
(***************************************************************************)
EXTENDS Analysis, Big
NoneItem == [self |-> Zero, time |-> Zero, misses |-> 0, hits |-> 0, inv |-> 0, blocked |-> Zero, load |-> Zero, hash |-> Zero]
Of(f, l, d) == IF l \in DOMAIN f THEN f[l] ELSE d
\* change - base
Signed(b, c) == IF Le(b, c) THEN [n |-> FALSE, v |-> Minus(c, b)] ELSE [n |-> TRUE, v |-> Minus(b, c)]
SameSigned(x, y) == x.v = y.v /\ (x.v = Zero \/ x.n = y.n)
Negated(x) == [x EXCEPT !.n = ~@]
ItemDiff(b, c) == [self |-> Signed(b.self, c.self), time |-> Signed(b.time, c.time), misses |-> c.misses - b.misses,
                   hits |-> c.hits - b.hits, inv |-> c.inv - b.inv, blocked |-> Signed(b.blocked, c.blocked),
                   load |-> Signed(b.load, c.load), hash |-> Signed(b.hash, c.hash)]
SameDiff(x, y) == /\ SameSigned(x.self, y.self) /\ SameSigned(x.time, y.time) /\ x.misses = y.misses /\ x.hits = y.hits
                  /\ x.inv = y.inv /\ SameSigned(x.blocked, y.blocked) /\ SameSigned(x.load, y.load) /\ SameSigned(x.hash, y.hash)
DiffOf(B, C) == [l \in DOMAIN B \union DOMAIN C |-> ItemDiff(Of(B, l, NoneItem), Of(C, l, NoneItem))]
SizeDiff(B, C) == [l \in DOMAIN B \union DOMAIN C |-> Signed(Of(B, l, Zero), Of(C, l, Zero))]
(* A percentage is "none" (there is no finite one) or a number in hundredths, rounded. *)
PercentRight(p, b, c) ==
  IF b = Zero THEN c = Zero \/ p.k = "none"
  ELSE /\ p.k = "num"
       /\ LET d == Signed(b, c)
              want == Mul(OfPair(d.v), Big(10000))
              got == Mul(p.v, OfPair(b))
          IN /\ p.v = <<>> \/ d.n = p.n
             /\ Leq(Mul(Diff1(want, got), <<2>>), Add(OfPair(b), Hundredthousandth(OfPair(d.v))))
\* A shown time s = [v, o] was rounded to the digits shown, where o is the weight of its last digit.
Shown(x, s) == Leq(Mul(Diff1(OfPair(x), OfPair(s.v)), <<2>>), OfPair(s.o))
ShownSigned(x, s) == Shown(x.v, s) /\ (x.v = Zero \/ s.v = Zero \/ x.n = s.n)
Contains(l, e) == \E k \in 0..(Len(l) - Len(e)) : SubSeq(l, k + 1, k + Len(e)) = e
=============================================================================
