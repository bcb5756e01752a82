-------------------------------- MODULE Large --------------------------------
(***************************************************************************)
(* Families of profiles of any size whose summary and collapsed stacks are *)
(* known in closed form: towers of n intervals around each other, rows of  *)
(* n intervals side by side within one, n threads with two intervals each  *)
(* (the inner one of length w), combs of n intervals around each other     *)
(* with one more beside each inner;                                        *)
(* then h cache hits of one label and z artifacts of size v.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Mark(r) == "ab" \o ToString(r)
P == "p"
Z == "z"
\* How many of 1..n are r modulo m.
Cnt(n, m, r) == IF r = 0 THEN n \div m ELSE (n - r + m) \div m
\* Their sum.
SumOf(n, m, r) == LET c == Cnt(n, m, r) IN IF r = 0 THEN m * ((c * (c + 1)) \div 2) ELSE r * c + m * ((c * (c - 1)) \div 2)
Used(q) == {r \in 0..(q.m - 1) : Cnt(q.n, q.m, r) > 0 \/ (r = 0 /\ q.h > 0)}
Deep(q) == q.shape \in {"tower", "comb"}
Whole(q) == CASE Deep(q) -> 4 * q.n [] q.shape = "row" -> 2 * q.n + 3 [] q.shape = "lanes" -> (q.w + 2) * q.n
OfMark(q, r) ==
  LET c == Cnt(q.n, q.m, r) h == IF r = 0 THEN q.h ELSE 0 IN
  [self |-> CASE q.shape = "tower" -> 4 * c [] q.shape = "comb" -> 3 * c [] OTHER -> q.w * c,
   time |-> IF Deep(q) THEN 4 * SumOf(q.n, q.m, r) ELSE q.w * c,
   misses |-> c, hits |-> h, inv |-> c + h, blocked |-> 0, load |-> 0, hash |-> 0]
OfP(q) ==
  LET c == IF q.shape = "row" THEN 1 ELSE q.n IN
  [self |-> CASE q.shape = "row" -> q.n + 3 [] q.shape = "comb" -> q.n [] OTHER -> 2 * q.n,
   time |-> IF q.shape = "comb" THEN q.n ELSE Whole(q),
   misses |-> c, hits |-> 0, inv |-> c, blocked |-> 0, load |-> 0, hash |-> 0]
HasP(q) == q.shape = "row" \/ (q.shape \in {"lanes", "comb"} /\ q.n > 0)
LargeItems(q) ==
  LET marks == [r \in Used(q) |-> OfMark(q, r)]
      name == [l \in {Mark(r) : r \in Used(q)} |-> CHOOSE r \in Used(q) : Mark(r) = l]
  IN [l \in DOMAIN name \union (IF HasP(q) THEN {P} ELSE {}) |-> IF l = P THEN OfP(q) ELSE marks[name[l]]]
LargeSizes(q) == IF q.z = 0 THEN <<>> ELSE (Z :> q.z * q.v)
\* The collapsed stacks that take time, as a function.
LargeStacks(q) ==
  IF Deep(q) THEN
    LET RECURSIVE All(_, _)
        All(k, pre) == IF k = 0 THEN <<>> ELSE
           LET p == pre \o ";" \o Mark(k % q.m) IN
           All(k - 1, p) @@ (IF q.shape = "tower" THEN (p :> 4) ELSE (p :> 3) @@ ((p \o ";p") :> 1))
    IN All(q.n, "rustc")
  ELSE LET under == {r \in 0..(q.m - 1) : Cnt(q.n, q.m, r) > 0}
           path == [r \in under |-> "rustc;p;" \o Mark(r)]
       IN [p \in {path[r] : r \in under} |-> q.w * Cnt(q.n, q.m, CHOOSE r \in under : path[r] = p)]
          @@ (IF HasP(q) THEN ("rustc;p" :> OfP(q).self) ELSE <<>>)
\* The events: how many there are, and each of them.
Ivl(l, th, s, e) == [ty |-> "interval", k |-> "Query", l |-> l, th |-> th, s |-> s, e |-> e]
Ivls(q) == CASE q.shape = "tower" -> q.n [] q.shape = "row" -> q.n + 1 [] OTHER -> 2 * q.n
Size(q) == Ivls(q) + q.h + q.z
EventAt(q, x) ==
  LET n == q.n b == Ivls(q) IN
  CASE x > b + q.h -> [ty |-> "integer", k |-> "ArtifactSize", l |-> Z, th |-> 1, s |-> q.v, e |-> 0]
    [] x > b /\ x <= b + q.h -> [ty |-> "instant", k |-> "QueryCacheHit", l |-> Mark(0), th |-> 1, s |-> 0, e |-> 0]
    [] x <= b /\ q.shape = "tower" -> Ivl(Mark(x % q.m), 1, 3 * n - 2 * x, 3 * n + 2 * x)
    [] x <= b /\ q.shape = "comb" -> IF x <= n THEN Ivl(P, 1, 3 * (x - 1) + 1, 3 * (x - 1) + 2)
                                     ELSE Ivl(Mark((x - n) % q.m), 1, 3 * (n - (x - n)), 3 * n + (x - n))
    [] x <= b /\ q.shape = "row" -> IF x <= n THEN Ivl(Mark(x % q.m), 1, 2 * x, 2 * x + 1) ELSE Ivl(P, 1, 0, 2 * n + 3)
    [] x <= b /\ q.shape = "lanes" -> LET k == (x + 1) \div 2 IN
                                      IF x % 2 = 1 THEN Ivl(Mark(k % q.m), 3 * k, k + 1, k + 1 + q.w) ELSE Ivl(P, 3 * k, k, k + 2 + q.w)
LargeEvents(q) == [x \in 1..Size(q) |-> [EventAt(q, x) EXCEPT !.s = <<0, @>>, !.e = <<0, @>>]]
\* The earliest time.
Earliest(q) == CASE q.h > 0 -> 0 [] q.shape = "tower" -> q.n [] q.shape = "lanes" -> 1 [] OTHER -> 0
(* What lies between the points of a profile of one thread without hits, *)
(* n >= 2: lengths, how many there are, and what a single one is called. *)
Call(l) == "`" \o l \o "()`"
LargeGaps(q) ==
  CASE q.shape = "tower" -> {[v |-> 2, c |-> 2 * q.n - 2, what |-> ""], [v |-> 4, c |-> 1, what |-> Call(Mark(1 % q.m))]}
    [] q.shape = "comb" -> {[v |-> 1, c |-> 4 * q.n - 2, what |-> ""],
                            [v |-> 2, c |-> 1, what |-> "in " \o Call(Mark(1 % q.m)) \o ", after " \o Call(P)]}
    [] q.shape = "row" -> {[v |-> 1, c |-> 2 * q.n - 1, what |-> ""], [v |-> 2, c |-> 2, what |-> ""]}
Many(G) == LET RECURSIVE Sum(_) Sum(S) == IF S = {} THEN 0 ELSE LET g == CHOOSE x \in S : TRUE IN g.c + Sum(S \ {g}) IN Sum(G)
\* The same a times as long.
Scaled(G, a) == IF a = 0 THEN {[v |-> 0, c |-> Many(G), what |-> ""]} ELSE {[g EXCEPT !.v = a * @] : g \in G}
(* Threads of lanes: those at most w + 2 apart overlap. *)
Busy(q) == IF q.n < q.w + 3 THEN q.n ELSE q.w + 3
=============================================================================
