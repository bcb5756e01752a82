------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* The summary as it is shown: which items are listed, in which order, and *)
(* with which columns. A threshold is in thousandths of a percent.         *)
(***************************************************************************)
EXTENDS Diff
Reaches(self, total, p) == p = 0 \/ Leq(Mul(Big(p), OfPair(total)), Mul(OfPair(self), Big(100000)))
Listed(I, total, p) == {l \in DOMAIN I : Reaches(I[l].self, total, p)}
Columns(I) == {c \in {"hits", "blocked", "load", "hash"} :
                 \E l \in DOMAIN I : CASE c = "hits" -> I[l].hits > 0 [] c = "blocked" -> I[l].blocked # Zero
                                        [] c = "load" -> I[l].load # Zero [] c = "hash" -> I[l].hash # Zero}
\* x (in thousandths of a percent, rounded) is the share that self has of total.
ShareRight(x, self, total) ==
  LET want == Mul(OfPair(self), Big(100000)) IN
  Leq(Mul(Diff1(want, Mul(x, OfPair(total))), <<2>>), Add(OfPair(total), Hundredthousandth(OfPair(self))))
=============================================================================
