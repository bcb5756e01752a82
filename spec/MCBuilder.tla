----------------------------- MODULE MCBuilder ------------------------------
(***************************************************************************)
(* All ways of nesting few calls. The thread of an event is its number, in *)
(* the order in which they were begun. Checked: each is there once, after  *)
(* what is inside it, and around it. The programs are run in the code.     *)
(***************************************************************************)
EXTENDS Builder, FiniteSets, TLC, Json
CONSTANTS MaxCalls, Emitting
VARIABLES prog, n, inside, out
mvars == <<bvars, prog, n, inside, out>>
\* inside: pairs of an interval and an event begun while it was open
V(k) == <<k, 0, 0, 0>>
X(k, good) == [text |-> <<<<97, 1>>>>, kind |-> <<>>, tid |-> <<k, 0>>, v1 |-> IF good THEN V(0) ELSE V(2), v2 |-> V(1)]
MInit == BInit /\ prog = <<>> /\ n = 0 /\ inside = {} /\ out = FALSE
Does(c) == Len(prog) < MaxCalls /\ prog' = Append(prog, c) /\ UNCHANGED out
Born == n' = n + 1 /\ inside' = inside \union {<<open[k].tid[1], n + 1>> : k \in 1..Len(open)}
MNext ==
  \/ Does("begin") /\ Begin(X(n + 1, TRUE)) /\ Born
  \/ Does("begin bad") /\ Begin(X(n + 1, FALSE)) /\ Born
  \/ Does("end") /\ (EndOk \/ EndRefused) /\ UNCHANGED <<n, inside>>
  \/ Does("leave") /\ Leave /\ UNCHANGED <<n, inside>>
  \/ \E ty \in {"instant", "integer"} : Does(ty) /\ Single(ty, X(n + 1, TRUE)) /\ Born
  \/ Emitting /\ ~out /\ open = <<>> /\ prog # <<>> /\ out' = TRUE /\ PrintT(<<"CASE", ToJson([prog |-> prog])>>)
     /\ UNCHANGED <<bvars, prog, n, inside>>
MSpec == MInit /\ [][MNext]_mvars
At(k) == {m \in 1..Len(events) : events[m].tid[1] = k}
OnceEach == \A k \in 1..n : Cardinality(At(k)) <= 1
Around == \A p \in inside : \A a \in At(p[1]), b \in At(p[2]) : b < a
\* unrelated events are in the order in which they were begun
InOrder == \A a, b \in 1..Len(events) : a < b => events[a].tid[1] < events[b].tid[1] \/ <<events[b].tid[1], events[a].tid[1]>> \in inside
=============================================================================
