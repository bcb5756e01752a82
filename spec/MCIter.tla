------------------------------- MODULE MCIter -------------------------------
(***************************************************************************)
(* An iterator over N events as an implementation with two indices, and    *)
(* what was visited from either end. Every sequence of calls is explored;  *)
(* the sequences are also replayed against the code.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS MaxN, MaxOps, MaxSkip
VARIABLES n, fwd, bwd, front, back, skipped, prog, out
ivars == <<n, fwd, bwd, front, back, skipped, prog, out>>
IInit == n \in 0..MaxN /\ fwd = 0 /\ bwd = n /\ front = <<>> /\ back = <<>> /\ skipped = {} /\ prog = <<>> /\ out = FALSE
Do(o) == Len(prog) < MaxOps /\ ~out /\ prog' = Append(prog, o) /\ UNCHANGED <<n, out>>
\* nth(k) takes k events and throws them away, as next() would give them.
Next(k) == /\ Do(<<"next", k>>)
           /\ IF k >= bwd - fwd THEN fwd' = bwd /\ skipped' = skipped \union (fwd..(bwd - 1)) /\ UNCHANGED front
              ELSE fwd' = fwd + k + 1 /\ front' = Append(front, fwd + k) /\ skipped' = skipped \union (fwd..(fwd + k - 1))
           /\ UNCHANGED <<bwd, back>>
Back(k) == /\ Do(<<"next_back", k>>)
           /\ IF k >= bwd - fwd THEN bwd' = fwd /\ skipped' = skipped \union (fwd..(bwd - 1)) /\ UNCHANGED back
              ELSE bwd' = bwd - k - 1 /\ back' = Append(back, bwd - k - 1) /\ skipped' = skipped \union ((bwd - k)..(bwd - 1))
           /\ UNCHANGED <<fwd, front>>
INext == \E k \in 0..MaxSkip : Next(k) \/ Back(k)
Emit == Len(prog) = MaxOps /\ ~out /\ PrintT(<<"CASE", ToJson([n |-> n, prog |-> prog])>>) /\ out' = TRUE
        /\ UNCHANGED <<n, fwd, bwd, front, back, skipped, prog>>
ISpec == IInit /\ [][INext]_ivars
GSpec == IInit /\ [][INext \/ Emit]_ivars
\* Every event is in exactly one of: visited from the front, from the back, skipped, or left.
OnceEach ==
  /\ \A k \in 1..Len(front) : \A j \in 1..Len(front) : front[k] = front[j] => k = j
  /\ ToSet(front) \intersect ToSet(back) = {}
  /\ (ToSet(front) \union ToSet(back)) \intersect skipped = {}
  /\ ToSet(front) \union ToSet(back) \union skipped \union (fwd..(bwd - 1)) = 0..(n - 1)
InOrder == /\ \A k \in 1..(Len(front) - 1) : front[k] < front[k + 1]
           /\ \A k \in 1..(Len(back) - 1) : back[k] > back[k + 1]
           /\ \A x \in ToSet(front), y \in ToSet(back) : x < y
Exact == bwd - fwd = n - Len(front) - Len(back) - Len(SetToSeq(skipped))
=============================================================================
