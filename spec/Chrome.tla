------------------------------- MODULE Chrome -------------------------------
(***************************************************************************)
(* The Chrome trace of profiles. Whole microseconds are pairs <<s, u>>:    *)
(* s * 10^6 + u.                                                           *)
(***************************************************************************)
EXTENDS Aggregate
Micro(p) == <<p[1], p[2] \div 1000>>
\* What is exported of a profile that started at the given time since the epoch.
Exported(evs, start, pid, min) ==
  LET long == SelectSeq(evs, LAMBDA e : IsIv(e) /\ Le(min, Micro(Dur(e))))
  IN [k \in 1..Len(long) |-> LET e == long[k] IN
        [name |-> e.l, cat |-> e.k, a |-> e.a, pid |-> pid, th |-> e.th, ts |-> Micro(Plus(start, e.s)), dur |-> Micro(Dur(e))]]
\* The same records, each as often, in any order.
SameBag(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) :
                    Cardinality({j \in 1..Len(a) : a[j] = a[k]}) = Cardinality({j \in 1..Len(b) : b[j] = a[k]})
\* The crate name in a command line: what follows the first --crate-name that is not the command itself.
CrateNames(args) == LET S == {k \in 2..Len(args) : args[k] = "--crate-name"} IN
                    IF S = {} \/ MinN(S) = Len(args) THEN <<>> ELSE <<args[MinN(S) + 1]>>

(* Collapsed threads: the span of a thread covers all its timed events. *)
Spans(evs) == LET T == {evs[i].th : i \in {j \in 1..Len(evs) : evs[j].ty # "integer"}} IN
  [th \in T |-> LET S == {j \in 1..Len(evs) : evs[j].th = th /\ evs[j].ty # "integer"}
                IN <<MinT({evs[j].s : j \in S}), MaxT({EndOf(evs[j]) : j \in S})>>]
Overlap(a, b) == Le(a[1], b[2]) /\ Le(b[1], a[2])
\* The largest number of threads active at one time: some thread starts at such a time.
Busiest(sp) == IF DOMAIN sp = {} THEN 0
               ELSE MaxN({Cardinality({u \in DOMAIN sp : Le(sp[u][1], sp[t][1]) /\ Le(sp[t][1], sp[u][2])}) : t \in DOMAIN sp})
LanesRight(sp, lane) ==  \* for every thread
  /\ DOMAIN lane = DOMAIN sp
  /\ \A t, u \in DOMAIN sp : t # u /\ lane[t] = lane[u] => ~Overlap(sp[t], sp[u])
  /\ {lane[t] : t \in DOMAIN sp} = 0..(Cardinality({lane[t] : t \in DOMAIN sp}) - 1)
  /\ Cardinality({lane[t] : t \in DOMAIN sp}) <= Busiest(sp)
=============================================================================
