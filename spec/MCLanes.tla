------------------------------ MODULE MCLanes ------------------------------
(***************************************************************************)
(* The tool visits the threads by start time and reuses the lane of the    *)
(* thread that ended first, if that is over. Ties are visited in any order.*)
(***************************************************************************)
EXTENDS Chrome, Json
CONSTANTS Ths, Last
VARIABLES sp, todo, ended, lane, next
vars == <<sp, todo, ended, lane, next>>
T(n) == <<0, n>>
Init == /\ sp \in [Ths -> {q \in {<<T(x), T(y)>> : x \in 0..Last, y \in 0..Last} : Le(q[1], q[2])}]
        /\ todo = Ths /\ ended = {} /\ lane = [t \in {} |-> 0] /\ next = 0
Give(t, l) == lane' = [u \in DOMAIN lane \union {t} |-> IF u = t THEN l ELSE lane[u]]
Firsts(S, k) == {t \in S : \A u \in S : Le(sp[t][k], sp[u][k])}
Step == \E t \in Firsts(todo, 1) : \E e \in Firsts(Ths \ ended, 2) :
   /\ todo' = todo \ {t} /\ UNCHANGED sp
   /\ IF Lt(sp[e][2], sp[t][1]) THEN Give(t, lane[e]) /\ ended' = ended \union {e} /\ UNCHANGED next
      ELSE Give(t, next) /\ next' = next + 1 /\ UNCHANGED ended
Spec == Init /\ [][Step]_vars
Right == todo = {} => LanesRight(sp, lane)
Mapped == \A t \in ended : t \in DOMAIN lane
Emit == todo = Ths /\ PrintT(<<"CASE", ToJson([sp |-> sp])>>) /\ todo' = {} /\ UNCHANGED <<sp, ended, lane, next>>
GSpec == Init /\ [][Emit]_vars
=============================================================================
