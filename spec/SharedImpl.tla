----------------------------- MODULE SharedImpl -----------------------------
(***************************************************************************)
(* Threads sharing a profiler, with its three streams: every call appends  *)
(* to one stream, in a step of its own between the call and its return. An *)
(* id is the position its string got. Checked: what Shared promises of the *)
(* profile read in the end. The behaviours are also replayed in the code.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Threads, Calls, Whole   \* calls per thread; whether a bulk mapping is appended as one
VARIABLES
  data,    \* strings: sequences of references <<"e", i>> or <<"m", v>>, with a leading mark of their own
  index,   \* mappings <<v, e, k>>
  events,  \* calls whose event is stored
  th,      \* per thread: [pc, c]
  log,     \* calls: [th, f, inv, ret, ..]
  now, prog, sched, out
vars == <<data, index, events, th, log, now, prog, sched, out>>
Ids == {1, 2}
Sets == {{1}, {2}, {1, 2}}
Init == /\ data = <<>> /\ index = <<>> /\ events = <<>> /\ log = <<>> /\ now = 1
        /\ th = [t \in Threads |-> [pc |-> "idle", k |-> 0, left |-> {}]]
        /\ prog = [t \in Threads |-> <<>>] /\ sched = <<>> /\ out = FALSE
Known == {i \in 1..Len(data) : log[data[i].k].ret > 0}   \* ids that were given to somebody
Ops == [f : {"alloc"}, ref : {"none", "m1", "new"}, vs : {{}}]
       \union [f : {"map"}, ref : {"new"}, vs : Sets]
       \union [f : {"ev"}, ref : {"m1", "m2", "new"}, vs : {{}}]
FewOps == {[f |-> "alloc", ref |-> "none", vs |-> {}], [f |-> "map", ref |-> "new", vs |-> {1}],
           [f |-> "map", ref |-> "new", vs |-> {1, 2}], [f |-> "ev", ref |-> "m1", vs |-> {}]}
Newest == IF Known = {} THEN 0 ELSE CHOOSE i \in Known : \A j \in Known : j <= i
Enabled(o) == o.ref = "new" => Known # {}
Target(o) == CASE o.ref = "new" -> <<"e", Newest>> [] o.ref = "m1" -> <<"m", 1>> [] o.ref = "m2" -> <<"m", 2>> [] OTHER -> <<"x", 0>>
\* a string that refers to an id may not be what the id is mapped to
Plain(i) == data[i].to[1] # "m" /\ (data[i].to[1] = "e" => data[data[i].to[2]].to[1] = "x")
Invoke(t) == /\ th[t].pc = "idle" /\ Len(prog[t]) < Calls
             /\ \E o \in Ops :
                  /\ Enabled(o) /\ (o.f = "map" => Plain(Newest))
                  /\ log' = Append(log, [th |-> t, f |-> o.f, to |-> Target(o), vs |-> o.vs, inv |-> now, ret |-> 0])
                  /\ prog' = [prog EXCEPT ![t] = Append(@, [f |-> o.f, ref |-> o.ref, vs |-> SetToSeq(o.vs)])]
                  /\ th' = [th EXCEPT ![t] = [pc |-> "called", k |-> Len(log) + 1, left |-> o.vs]]
             /\ now' = now + 1 /\ UNCHANGED <<data, index, events>>
Effect(t) ==
  /\ th[t].pc = "called" /\ UNCHANGED <<log, now, prog>>
  /\ LET c == log[th[t].k] IN
     CASE c.f = "alloc" -> data' = Append(data, [k |-> th[t].k, to |-> c.to]) /\ th' = [th EXCEPT ![t].pc = "done"] /\ UNCHANGED <<index, events>>
       [] c.f = "ev" -> events' = Append(events, th[t].k) /\ th' = [th EXCEPT ![t].pc = "done"] /\ UNCHANGED <<data, index>>
       [] c.f = "map" ->
            /\ UNCHANGED <<data, events>>
            /\ IF Whole
               THEN /\ index' = index \o [j \in 1..Cardinality(c.vs) |-> <<SetToSeq(c.vs)[j], c.to[2], th[t].k>>]
                    /\ th' = [th EXCEPT ![t].pc = "done"]
               ELSE \E v \in th[t].left :
                      /\ index' = Append(index, <<v, c.to[2], th[t].k>>)
                      /\ th' = [th EXCEPT ![t].left = @ \ {v}, ![t].pc = IF th[t].left = {v} THEN "done" ELSE "called"]
Return(t) == /\ th[t].pc = "done" /\ log' = [log EXCEPT ![th[t].k].ret = now] /\ now' = now + 1
             /\ th' = [th EXCEPT ![t].pc = "idle"] /\ UNCHANGED <<data, index, events, prog>>
Step(t) == (Invoke(t) \/ Effect(t) \/ Return(t)) /\ sched' = sched /\ UNCHANGED out
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars
GStep(t) == (Invoke(t) \/ Effect(t) \/ Return(t)) /\ sched' = Append(sched, t) /\ UNCHANGED out
AllDone == \A t \in Threads : th[t].pc = "idle" /\ Len(prog[t]) = Calls
GEmit == AllDone /\ ~out /\ out' = TRUE /\ PrintT(<<"CASE", ToJson([threads |-> prog, sched |-> sched])>>)
         /\ UNCHANGED <<data, index, events, th, log, now, prog, sched>>
GSpec == Init /\ [][(\E t \in Threads : GStep(t)) \/ GEmit]_vars
----------------------------------------------------------------------------
Before(a, b) == log[a].ret > 0 /\ log[a].ret < log[b].inv
Winner(v) == LET J == {j \in 1..Len(index) : index[j][1] = v} IN IF J = {} THEN 0 ELSE index[CHOOSE j \in J : \A x \in J : x <= j][3]
OnceEach == \A k \in 1..Len(log) : log[k].f = "ev" /\ log[k].ret > 0 => Cardinality({n \in 1..Len(events) : events[n] = k}) = 1
InOrder == \A n \in 1..Len(events) : \A m \in 1..(n - 1) : ~Before(events[n], events[m])
\* the mapping that counts was not followed by another of the same id
Latest == \A v \in Ids : Winner(v) > 0 =>
            \A k \in 1..Len(log) : log[k].f = "map" /\ v \in log[k].vs /\ log[k].ret > 0 => ~Before(Winner(v), k)
\* of two mappings of the same two ids, neither half counts, once all is done
AsOne == (\A t \in Threads : th[t].pc = "idle") /\ Winner(1) > 0 /\ Winner(2) > 0
         /\ log[Winner(1)].vs = Ids /\ log[Winner(2)].vs = Ids => Winner(1) = Winner(2)
\* an id given to somebody stands for the string it was given for
OwnString == \A i \in Known : log[data[i].k].f = "alloc" /\ data[i].to = log[data[i].k].to
=============================================================================
