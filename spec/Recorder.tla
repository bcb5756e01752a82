------------------------------ MODULE Recorder ------------------------------
(***************************************************************************)
(* The whole profiler as its callers see it: strings, virtual ids and      *)
(* events in one history, in which some calls are refused or fail half     *)
(* way. A refused call stores nothing, whatever it did before it failed,   *)
(* and takes nothing away from the calls before and after it.              *)
(*                                                                         *)
(* Times are not looked at here (Recording does that), except that the     *)
(* clock has three positions: 0 as usual, 1 ahead, 2 so far ahead that the *)
(* time fits no event. It can go back.                                     *)
(***************************************************************************)
EXTENDS Strings, EventId
VARIABLES
  evs,     \* the events stored: [ty, v, tid, kind, eid], with ids as in Strings
  held,    \* intervals begun and not ended: [g, kind, eid, tid, at]
  clock
recvars == <<entries, maps, evs, held, clock>>

RecInit == SInit /\ evs = <<>> /\ held = {} /\ clock = 0
IdOk(id) == id[1] \in {"m", "x"} \/ (id[1] = "e" /\ id[2] \in 1..Len(entries))
Store(es) == evs' = evs \o es

RecAlloc(comps) == Alloc(comps) /\ UNCHANGED <<evs, held, clock>>
RecMap(rs, e) == Map(rs, e) /\ UNCHANGED <<evs, held, clock>>
\* Of a 64-bit value, whether an integer event can hold it: its limbs, least significant first.
IntFits(v) == v[4] = 0
RecInteger(v, tid, kind, eid) ==
  /\ IdOk(kind) /\ IdOk(eid) /\ IntFits(v)
  /\ Store(<<[ty |-> "integer", v |-> v, tid |-> tid, kind |-> kind, eid |-> eid]>>) /\ UNCHANGED <<entries, maps, held, clock>>
None == <<0, 0, 0, 0>>
RecInstant(tid, kind, eid) ==
  /\ IdOk(kind) /\ IdOk(eid) /\ clock < 2
  /\ Store(<<[ty |-> "instant", v |-> None, tid |-> tid, kind |-> kind, eid |-> eid]>>) /\ UNCHANGED <<entries, maps, held, clock>>
RecStart(g, tid, kind, eid) ==
  /\ IdOk(kind) /\ IdOk(eid) /\ \A h \in held : h.g # g
  /\ held' = held \union {[g |-> g, tid |-> tid, kind |-> kind, eid |-> eid, at |-> clock]}
  /\ UNCHANGED <<entries, maps, evs, clock>>
IntervalOf(h) == [ty |-> "interval", v |-> None, tid |-> h.tid, kind |-> h.kind, eid |-> h.eid]
CanEnd(h) == clock < 2 /\ h.at <= clock
RecEnd(g) == \E h \in held : h.g = g /\ CanEnd(h) /\ Store(<<IntervalOf(h)>>) /\ held' = held \ {h}
                             /\ UNCHANGED <<entries, maps, clock>>
\* An interval that ends too late, or before it began: it is gone, and not stored.
RecEndRefused(g) == \E h \in held : h.g = g /\ ~CanEnd(h) /\ held' = held \ {h} /\ UNCHANGED <<entries, maps, evs, clock>>
RecClock(c) == clock' = c /\ UNCHANGED <<entries, maps, evs, held>>
\* A call that is refused, or fails in the caller's own code.
RecRefuse(bad) == bad /\ UNCHANGED recvars
\* The same while an interval is held on the stack, which ends as the failure passes by.
RecRefuseAround(bad, tid, kind, eid) ==
  /\ bad /\ IdOk(kind) /\ IdOk(eid) /\ clock < 2
  /\ Store(<<[ty |-> "interval", v |-> None, tid |-> tid, kind |-> kind, eid |-> eid]>>)
  /\ UNCHANGED <<entries, maps, held, clock>>

\* What is read back in the end.
Shown(e) == LET p == ParseEventId(Text(e.eid))
            IN [ty |-> e.ty, v |-> e.v, tid |-> e.tid, kind |-> Text(e.kind), label |-> p.label, args |-> p.args]
=============================================================================
