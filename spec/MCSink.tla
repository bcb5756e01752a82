------------------------------- MODULE MCSink -------------------------------
(* Exhaustive check of Sink's own properties on small instances. *)
EXTENDS Sink
CONSTANTS MaxCalls, Sizes
MCInit == Init(2)
Active == {k \in 1..Len(calls) : calls[k].st \in {"inv", "lin", "spoilt"}}
\* A call needs a handle of its own.
Free(s) == handles - Cardinality({k \in 1..Len(calls) : calls[k].f = "drop" /\ calls[k].s = s})
                   - Cardinality({k \in Active : calls[k].f # "drop" /\ calls[k].s = s})
MCNext ==
  \/ /\ Len(calls) < MaxCalls /\ Cardinality(Active) < 2
     /\ \E s \in Streams :
          /\ Free(s) > 0
          /\ \/ \E n \in Sizes, f \in {"write", "bad"} : Invoke(f, s, n)
             \/ Invoke("flush", s, 0)
             \/ Invoke("drop", s, 0)
  \/ \E k \in Active : Spoil(k) \/ ReturnOk(k) \/ ReturnFail(k) \/ \E g \in 0..2 : Linearize(k, g)
  \/ \E k \in Active : ~broken /\ IOError(k)
  \/ \E s \in Streams, d \in 0..8 : d # disk[s] /\ Persist(s, d)
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
