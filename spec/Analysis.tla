------------------------------ MODULE Analysis ------------------------------
(***************************************************************************)
(* What the summary and the collapsed stacks of a profile are, as functions *)
(* of its events in recorded order. Times are pairs <<s, n>> standing for  *)
(* s * 10^9 + n nanoseconds (TLC's integers have 32 bits).                 *)
(* An event is [ty, k(ind), l(abel), th(read), s(tart), e(nd)]; an integer *)
(* event has its value in s.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
G == 1000000000
Zero == <<0, 0>>
Plus(a, b) == IF a[2] + b[2] >= G THEN <<a[1] + b[1] + 1, a[2] + b[2] - G>> ELSE <<a[1] + b[1], a[2] + b[2]>>
Minus(a, b) == IF a[2] < b[2] THEN <<a[1] - b[1] - 1, a[2] - b[2] + G>> ELSE <<a[1] - b[1], a[2] - b[2]>>
Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Lt(a, b) == Le(a, b) /\ a # b
MinT(S) == CHOOSE x \in S : \A y \in S : Le(x, y)
MaxT(S) == CHOOSE x \in S : \A y \in S : Le(y, x)
MinN(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxN(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN Zero ELSE LET x == CHOOSE x \in S : TRUE IN Plus(f[x], SumSet(f, S \ {x}))
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN Zero ELSE Plus(q[1], SumSeq(Tail(q)))

Query == "Query"
Generic == "GenericActivity"
Blocked == "QueryBlocked"
Load == "IncrementalLoadResult"
Hash == "IncrementalResultHashing"
Hit == "QueryCacheHit"
Artifact == "ArtifactSize"

IsIv(e) == e.ty = "interval"
Ivs(evs) == {i \in 1..Len(evs) : IsIv(evs[i])}
Threads(evs) == {evs[i].th : i \in Ivs(evs)}
OnThread(evs, th) == {i \in Ivs(evs) : evs[i].th = th}
Dur(e) == Minus(e.e, e.s)
Within(a, b) == Le(b.s, a.s) /\ Le(a.e, b.e)
\* The domain: each interval was recorded at its end, and two intervals of a thread nest or do not overlap.
WellNested(evs) == \A i, j \in Ivs(evs) : i < j /\ evs[i].th = evs[j].th =>
                      Le(evs[i].e, evs[j].e) /\ (Le(evs[j].s, evs[i].s) \/ Le(evs[i].e, evs[j].s))
\* The interval directly around an interval ends no earlier, so it is the first later one that contains it.
ParentOf(evs) == [i \in Ivs(evs) |->
   LET c == {j \in Ivs(evs) : j > i /\ evs[j].th = evs[i].th /\ Within(evs[i], evs[j])} IN IF c = {} THEN 0 ELSE MinN(c)]
SelfOf(evs, par) == [i \in Ivs(evs) |-> Minus(Dur(evs[i]), SumSet([j \in Ivs(evs) |-> Dur(evs[j])], {j \in Ivs(evs) : par[j] = i}))]
Span(evs, th) == Minus(MaxT({evs[i].e : i \in OnThread(evs, th)}), MinT({evs[i].s : i \in OnThread(evs, th)}))
TotalTime(evs) == SumSet([th \in Threads(evs) |-> Span(evs, th)], Threads(evs))

IsHit(e) == e.ty = "instant" /\ e.k = Hit
Labels(evs) == {evs[i].l : i \in Ivs(evs)} \union {evs[i].l : i \in {j \in 1..Len(evs) : IsHit(evs[j])}}
Items(evs) ==
  LET par == ParentOf(evs)
      slf == SelfOf(evs, par)
      dur == [i \in Ivs(evs) |-> Dur(evs[i])]
      Of(l, K(_)) == {i \in Ivs(evs) : evs[i].l = l /\ K(evs[i].k)}
  IN [l \in Labels(evs) |->
       LET hits == Cardinality({i \in 1..Len(evs) : IsHit(evs[i]) /\ evs[i].l = l})
       IN [self |-> SumSet(slf, Of(l, LAMBDA k : TRUE)),
           time |-> SumSet(dur, Of(l, LAMBDA k : k # Hash)),
           misses |-> Cardinality(Of(l, LAMBDA k : k \in {Query, Generic})),
           hits |-> hits,
           inv |-> hits + Cardinality(Of(l, LAMBDA k : k \notin {Load, Hash})),
           blocked |-> SumSet(dur, Of(l, LAMBDA k : k = Blocked)),
           load |-> SumSet(slf, Of(l, LAMBDA k : k = Load)),
           hash |-> SumSet(slf, Of(l, LAMBDA k : k = Hash))]]
IsSize(e) == e.ty = "integer" /\ e.k = Artifact
Sizes(evs) ==
  LET S == {i \in 1..Len(evs) : IsSize(evs[i])}
  IN [l \in {evs[i].l : i \in S} |-> SumSet([i \in S |-> evs[i].s], {i \in S : evs[i].l = l})]

\* Call paths as texts.
Root == "rustc"
PathOf(evs, par) ==
  LET RECURSIVE P(_)
      P(i) == IF i = 0 THEN Root ELSE P(par[i]) \o ";" \o evs[i].l
  IN [i \in Ivs(evs) |-> P(i)]
Gaps(evs, par) == Minus(TotalTime(evs), SumSet([i \in Ivs(evs) |-> Dur(evs[i])], {i \in Ivs(evs) : par[i] = 0}))
Stacks(evs) ==
  LET par == ParentOf(evs)
      slf == SelfOf(evs, par)
      path == PathOf(evs, par)
      all == {path[i] : i \in Ivs(evs)}
  IN [p \in all \union {Root} |-> IF p = Root THEN Gaps(evs, par) ELSE SumSet(slf, {i \in Ivs(evs) : path[i] = p})]
\* Only what takes time: a path with no time at all may or may not be listed.
Timed(f) == [p \in {q \in DOMAIN f : f[q] # Zero} |-> f[p]]
=============================================================================
