------------------------------- MODULE MCLarge -------------------------------
(* The closed forms are what the definitions give, on all small profiles of the families. *)
EXTENDS Chrome, Large
CONSTANT Bound
VARIABLE q, done
vars == <<q, done>>
Ns(x) == <<0, x>>
Init == q \in [shape : {"tower", "comb", "row", "lanes"}, n : 0..Bound, m : 1..3, h : 0..2, z : 0..2, v : {5}, w : 1..3] /\ (q.shape # "lanes" => q.w = 1) /\ done = FALSE
Same == LET evs == [x \in 1..Size(q) |-> LargeEvents(q)[x] @@ [a |-> <<>>]] IN
  /\ WellNested(evs)
  /\ LET T == {evs[x].s[2] : x \in {y \in 1..Size(q) : evs[y].ty # "integer"}} IN T # {} => Earliest(q) = MinN(T)
  /\ LET I == Items(evs) L == LargeItems(q) IN
     /\ DOMAIN I = DOMAIN L
     /\ \A l \in DOMAIN I : I[l] = [L[l] EXCEPT !.self = Ns(@), !.time = Ns(@), !.blocked = Ns(@), !.load = Ns(@), !.hash = Ns(@)]
  /\ LET S == Sizes(evs) L == LargeSizes(q) IN DOMAIN S = DOMAIN L /\ \A l \in DOMAIN S : S[l] = Ns(L[l])
  /\ TotalTime(evs) = Ns(Whole(q)) \/ (q.n = 0 /\ q.shape = "lanes")
  /\ LET S == Timed(Stacks(evs)) L == LargeStacks(q) IN DOMAIN S = DOMAIN L /\ \A l \in DOMAIN S : S[l] = Ns(L[l])
  /\ q.shape # "lanes" /\ q.h = 0 /\ q.n >= 2 =>
       LET g == Gaps1(Timed1(evs)) d == PointDescs(Timed1(evs)) Gs == LargeGaps(q) IN
       /\ Len(g) = Many(Gs)
       /\ \A r \in Gs : LET S == {k \in 1..Len(g) : g[k] = Ns(r.v)} IN Cardinality(S) = r.c /\ (r.c = 1 => Describe(d[MinN(S)], d[MinN(S) + 1]) = r.what)
  /\ q.shape = "lanes" /\ q.h = 0 =>
       LET sp == Spans(evs) IN
       /\ DOMAIN sp = {3 * k : k \in 1..q.n} /\ Busiest(sp) = Busy(q)
       /\ \A j, k \in 1..q.n : j < k => (Overlap(sp[3 * j], sp[3 * k]) <=> k - j <= q.w + 2)
Next == ~done /\ done' = TRUE /\ Same /\ q' = q
Spec == Init /\ [][Next]_vars
\* Every profile gets through.
Through == ~done => ENABLED Next
=============================================================================
