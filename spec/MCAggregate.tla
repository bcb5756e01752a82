---------------------------- MODULE MCAggregate ----------------------------
(***************************************************************************)
(* The tool finds the points by one walk over the events from the last to  *)
(* the first, leaving the intervals on its stack that do not contain the   *)
(* next event; and keeps a bounded table of extremes while it does.        *)
(***************************************************************************)
EXTENDS Aggregate, Json
CONSTANTS Lbls, Steps, MaxEv, MaxNow, Limit
VARIABLES evs, open, now, phase, w, stack, rpoints, small, large, gone
vars == <<evs, open, now, phase, w, stack, rpoints, small, large, gone>>
Init == /\ evs = <<>> /\ open = <<>> /\ now = 0 /\ phase = "build" /\ w = 0 /\ stack = <<>> /\ rpoints = <<>>
        /\ small = <<>> /\ large = <<>> /\ gone = 0
Tick(d) == now + d <= MaxNow /\ now' = now + d
Begin(l, d) == /\ phase = "build" /\ Len(evs) + Len(open) < MaxEv /\ Tick(d) /\ open' = Append(open, [l |-> l, s |-> now'])
               /\ UNCHANGED <<evs, phase, w, stack, rpoints, small, large, gone>>
Ev1(ty, l, s, e) == [ty |-> ty, k |-> "Query", l |-> l, a |-> <<>>, th |-> 0, s |-> <<0, s>>, e |-> <<0, e>>]
End(d) == /\ phase = "build" /\ open # <<>> /\ Tick(d)
          /\ evs' = Append(evs, Ev1("interval", open[Len(open)].l, open[Len(open)].s, now')) /\ open' = SubSeq(open, 1, Len(open) - 1)
          /\ UNCHANGED <<phase, w, stack, rpoints, small, large, gone>>
Instant(l, d) == /\ phase = "build" /\ Len(evs) + Len(open) < MaxEv /\ Tick(d) /\ evs' = Append(evs, Ev1("instant", l, now', 0))
                 /\ UNCHANGED <<open, phase, w, stack, rpoints, small, large, gone>>
Build == (\E d \in Steps : End(d)) \/ \E l \in Lbls, d \in Steps : Begin(l, d) \/ Instant(l, d)
Complete == phase = "build" /\ open = <<>>
StartWalk == Complete /\ phase' = "walk" /\ w' = Len(evs) /\ UNCHANGED <<evs, open, now, stack, rpoints, small, large, gone>>
Holds(i, j) == Le(evs[i].s, evs[j].s) /\ Le(EndOf(evs[j]), evs[i].e)
Top == stack[Len(stack)]
Walk == /\ phase = "walk" /\ (w > 0 \/ stack # <<>>)
        /\ IF stack # <<>> /\ (w = 0 \/ ~Holds(Top, w))
           THEN rpoints' = Append(rpoints, <<"start", Top>>) /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED w
           ELSE /\ w' = w - 1
                /\ IF IsIv(evs[w]) THEN stack' = Append(stack, w) /\ rpoints' = Append(rpoints, <<"end", w>>)
                   ELSE rpoints' = Append(rpoints, <<"inst", w>>) /\ UNCHANGED stack
        /\ UNCHANGED <<evs, open, now, phase, small, large, gone>>
Walked == phase = "walk" /\ w = 0 /\ stack = <<>>
\* Extremes of the durations, from the last interval to the first: tables of [value -> occurrences].
Dur1(k) == TimeOf(evs, rpoints[k])[2] - TimeOf(evs, rpoints[k + 1])[2]
AddTo(m, v) == [x \in DOMAIN m \union {v} |-> (IF x \in DOMAIN m THEN m[x] ELSE 0) + (IF x = v THEN 1 ELSE 0)]
Drop(m, v) == [x \in DOMAIN m \ {v} |-> m[x]]
Keep(m, v, least, less) == IF Cardinality(DOMAIN m) < Limit THEN AddTo(m, v)
                           ELSE IF less THEN m
                           ELSE LET n == AddTo(m, v) IN IF Cardinality(DOMAIN n) > Limit THEN Drop(n, least) ELSE n
Collect == /\ Walked /\ gone < Len(rpoints) - 1
           /\ gone' = gone + 1
           /\ LET v == Dur1(gone')
                  a == IF DOMAIN small = {} THEN 0 ELSE MaxN(DOMAIN small)
                  b == IF DOMAIN large = {} THEN 0 ELSE MinN(DOMAIN large)
              IN small' = Keep(small, v, a, v > a) /\ large' = Keep(large, v, b, v < b)
           /\ UNCHANGED <<evs, open, now, phase, w, stack, rpoints>>
Spec == Init /\ [][Build \/ StartWalk \/ Walk \/ Collect]_vars
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
PointsRight == Walked => Rev(rpoints) = PointsOf(evs)
InOrder == Walked => \A k \in 1..Len(rpoints) - 1 : Dur1(k) >= 0
Table(m) == {<<<<0, v>>, m[v]>> : v \in DOMAIN m}
ExtremesRight == Walked /\ gone = Len(rpoints) - 1 /\ gone > 0 =>
  LET g == Gaps1(evs)
      W(S) == {<<v, Cardinality(Sources(g, v))>> : v \in S}
  IN Table(small) = W(Smallest(g, Limit)) /\ Table(large) = W(Largest(g, Limit))
\* The text of every interval can be given.
Describable == Walked => LET d == PointDescs(evs) IN \A k \in 1..Len(d) - 1 :
     /\ Describe(d[k], d[k + 1]) # ""
     /\ d[k].y = "start" /\ d[k + 1].y = "end" => PointsOf(evs)[k][2] = PointsOf(evs)[k + 1][2]
     /\ d[k].y # "start" /\ d[k + 1].y # "end" => d[k].p = d[k + 1].p
     /\ d[k].y # "start" /\ d[k + 1].y = "end" => d[k].p = <<d[k + 1].d>>
     /\ d[k].y = "start" /\ d[k + 1].y # "end" => d[k + 1].p = <<d[k].d>>
Emit == Complete /\ Len(evs) > 0 /\ PrintT(<<"CASE", ToJson([evs |-> evs])>>) /\ phase' = "out" /\ UNCHANGED <<evs, open, now, w, stack, rpoints, small, large, gone>>
GSpec == Init /\ [][Build \/ Emit]_vars
=============================================================================
