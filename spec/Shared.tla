------------------------------- MODULE Shared -------------------------------
(***************************************************************************)
(* A profiler shared by threads. Each call takes effect as one, at some    *)
(* moment between its being called and its returning. Here the moment of   *)
(* an allocation is its return (nobody knows the new id before); that of a *)
(* mapping is chosen when a mapping returns; that of an event is where it  *)
(* is found in the end.                                                    *)
(***************************************************************************)
EXTENDS Recorder
VARIABLES
  pend,     \* calls that have not returned: [k, th, f, at, ...]
  effect,   \* of these, the mappings that have taken effect
  stored,   \* events recorded by calls that returned: [k, th, inv, ret, ev]
  now       \* counts calls and returns
shvars == <<recvars, pend, effect, stored, now>>

ShInit == RecInit /\ pend = {} /\ effect = {} /\ stored = {} /\ now = 1
Tick == now' = now + 1
Fresh(k, th) == \A c \in pend : c.k # k /\ c.th # th
Call(c) == Fresh(c.k, c.th) /\ pend' = pend \union {c} /\ Tick /\ UNCHANGED <<effect, stored, recvars>>
InvAlloc(k, th, comps) == (\A c \in 1..Len(comps) : CompOk(comps[c]))
                          /\ Call([k |-> k, th |-> th, f |-> "alloc", at |-> now, comps |-> comps])
InvMap(k, th, vs, e) == e \in 1..Len(entries) /\ Call([k |-> k, th |-> th, f |-> "map", at |-> now, vs |-> vs, e |-> e])
InvEv(k, th, ev) == IdOk(ev.kind) /\ IdOk(ev.eid) /\ Call([k |-> k, th |-> th, f |-> "ev", at |-> now, ev |-> ev])

RetAlloc(c) == /\ c \in pend /\ c.f = "alloc" /\ RecAlloc(c.comps)
               /\ pend' = pend \ {c} /\ Tick /\ UNCHANGED <<effect, stored>>
\* The mappings of ms, in that order.
Entered(ms) == FoldLeft(LAMBDA acc, c : acc \o [j \in 1..Len(c.vs) |-> [lo |-> c.vs[j][1], hi |-> c.vs[j][2], e |-> c.e]], maps, ms)
\* The order matters only among mappings that have an id in common, so only of these is it chosen.
Meet(c, d) == \E a \in 1..Len(c.vs) : \E b \in 1..Len(d.vs) : c.vs[a][1] <= d.vs[b][2] /\ d.vs[b][1] <= c.vs[a][2]
RECURSIVE Near(_, _)
Near(S, P) == LET T == {d \in P \ S : \E c \in S : Meet(c, d)} IN IF T = {} THEN S ELSE Near(S \union T, P)
RetMap(c) ==
  /\ c \in pend /\ c.f = "map" /\ pend' = pend \ {c} /\ Tick /\ UNCHANGED <<stored, entries, evs, held, clock>>
  /\ IF c.k \in effect THEN effect' = effect \ {c.k} /\ UNCHANGED maps
     ELSE \E S \in SUBSET (Near({c}, {d \in pend : d.f = "map" /\ d.k \notin effect}) \ {c}) :
            \E p \in SetToSeqs(S) : /\ maps' = Entered(Append(p, c))
                                    /\ effect' = effect \union {d.k : d \in S}
RetEv(c) == /\ c \in pend /\ c.f = "ev" /\ pend' = pend \ {c} /\ Tick /\ UNCHANGED <<effect, recvars>>
            /\ stored' = stored \union {[k |-> c.k, th |-> c.th, inv |-> c.at, ret |-> now, ev |-> c.ev]}

\* Read back in the end: every event once, in an order in which the calls can have taken effect.
\* ks: the calls, by what is found in the profile; shown: what is found.
Found(ks, shown) ==
  /\ pend = {}
  /\ Len(ks) = Cardinality(stored)
  /\ {ks[n] : n \in 1..Len(ks)} = {s.k : s \in stored}
  /\ \A n \in 1..Len(ks) : \E s \in stored : s.k = ks[n] /\ Shown(s.ev) = shown[n]
  /\ LET at == [n \in 1..Len(ks) |-> CHOOSE s \in stored : s.k = ks[n]]
     IN \A n \in 1..Len(ks) : \A m \in 1..(n - 1) : ~(at[n].ret < at[m].inv)
=============================================================================
