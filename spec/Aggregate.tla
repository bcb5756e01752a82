----------------------------- MODULE Aggregate -----------------------------
(***************************************************************************)
(* Several runs with the same timed events, compared interval by interval. *)
(* The points of a profile are the start and the end of its intervals and  *)
(* its instants, in the order of the nesting; an interval between points   *)
(* lies between consecutive ones.                                          *)
(***************************************************************************)
EXTENDS Report
Timed1(evs) == SelectSeq(evs, LAMBDA e : e.ty # "integer")
EndOf(e) == IF e.ty = "instant" THEN e.s ELSE e.e
\* The timed event directly around each: the first later interval that contains it.
Around(evs) == [i \in 1..Len(evs) |->
   LET c == {j \in i+1..Len(evs) : IsIv(evs[j]) /\ Le(evs[j].s, evs[i].s) /\ Le(EndOf(evs[i]), evs[j].e)} IN IF c = {} THEN 0 ELSE MinN(c)]
RECURSIVE WalkKids(_, _, _, _)
\* the points of the events from i up to n that are directly within p
WalkKids(evs, par, p, i) ==
  IF i > Len(evs) THEN <<>>
  ELSE IF par[i] # p THEN WalkKids(evs, par, p, i + 1)
  ELSE (IF IsIv(evs[i]) THEN <<<<"start", i>>>> \o WalkKids(evs, par, i, 1) \o <<<<"end", i>>>> ELSE <<<<"inst", i>>>>)
       \o WalkKids(evs, par, p, i + 1)
\* evs has timed events only
PointsOf(evs) == LET par == Around(evs) IN WalkKids(evs, par, 0, 1)
TimeOf(evs, q) == IF q[1] = "end" THEN evs[q[2]].e ELSE evs[q[2]].s
DescOf(e) == [k |-> e.k, l |-> e.l, a |-> e.a]
PointDescs(evs) == LET par == Around(evs)
                       pts == PointsOf(evs)
                   IN [k \in 1..Len(pts) |-> LET i == pts[k][2] IN
                        [y |-> pts[k][1], d |-> DescOf(evs[i]), p |-> IF par[i] = 0 THEN <<>> ELSE <<DescOf(evs[par[i]])>>]]
OneThread(evs) == \A i, j \in 1..Len(evs) : evs[i].th = evs[j].th
Comparable(ps) == /\ \A x \in 1..Len(ps) : OneThread(ps[x])
                  /\ Len(ps) > 0 => LET d == PointDescs(ps[1]) IN \A x \in 2..Len(ps) : PointDescs(ps[x]) = d
\* Durations between points, per profile; then what is listed of a list of values (one per interval).
Gaps1(evs) == LET pts == PointsOf(evs) IN [k \in 1..Len(pts) - 1 |-> Minus(TimeOf(evs, pts[k + 1]), TimeOf(evs, pts[k]))]
Extremes(gs) ==  \* gs: one sequence of durations per profile
  LET n == Len(gs[1])
      At(k) == {gs[x][k] : x \in 1..Len(gs)}
      lo == [k \in 1..n |-> MinT(At(k))]
      hi == [k \in 1..n |-> MaxT(At(k))]
  IN [lo |-> lo, hi |-> hi, spread |-> [k \in 1..n |-> Minus(hi[k], lo[k])]]
\* The limit smallest (or largest) of the values that occur.
Among(S, limit, B(_, _)) == {v \in S : Cardinality({u \in S : B(u, v) /\ u # v}) < limit}
Smallest(vals, limit) == Among({vals[k] : k \in 1..Len(vals)}, limit, Le)
Largest(vals, limit) == Among({vals[k] : k \in 1..Len(vals)}, limit, LAMBDA u, v : Le(v, u))
Sources(vals, v) == {k \in 1..Len(vals) : vals[k] = v}

\* The text of an interval between points.
RECURSIVE Commas(_)
Commas(a) == IF a = <<>> THEN "" ELSE IF Len(a) = 1 THEN a[1] ELSE a[1] \o ", " \o Commas(Tail(a))
TextOf(d) == (IF d.k \in {Query, Generic} THEN "" ELSE d.k \o " ") \o "`" \o d.l \o "(" \o Commas(d.a) \o ")`"
Describe(x, y) ==
  LET X == TextOf(x.d)
      Y == TextOf(y.d)
  IN CASE x.y = "start" /\ y.y = "end" -> X
       [] x.y = "start" /\ y.y # "end" -> "in " \o X \o ", before " \o Y
       [] x.y # "start" /\ y.y = "end" -> "in " \o Y \o ", after " \o X
       [] OTHER -> IF x.p = <<>> THEN "between " \o X \o " and " \o Y
                   ELSE "in " \o TextOf(x.p[1]) \o ", between " \o X \o " and " \o Y
=============================================================================
