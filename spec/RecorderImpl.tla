---------------------------- MODULE RecorderImpl ----------------------------
(***************************************************************************)
(* What the profiler does inside a call, in the steps between which a call *)
(* can fail: the space of a string is reserved before its serializer runs; *)
(* the ids of a bulk mapping are taken from the caller's iterator one by   *)
(* one, and written only when all are known to be good; a value is checked *)
(* before its event is written. Checked to refine Recorder: whenever no    *)
(* call is under way, what the three streams hold is what Recorder says.   *)
(***************************************************************************)
EXTENDS Recorder, TLC, Json
CONSTANTS MaxCalls, VIds, Sizes, MaxBulk, Around

VARIABLES
  data,    \* records [a, n, c]: address, length, and components or "junk"
  dlen,    \* the data stream's length
  addrs,   \* of each string handed to the caller, its address
  index,   \* pairs <<virtual id, address>>
  evstream,
  call,    \* the call under way
  hist, out
ivars == <<recvars, data, dlen, addrs, index, evstream, call, hist, out>>
Idle == [f |-> "idle"]

IInit == RecInit /\ data = <<>> /\ dlen = 0 /\ addrs = <<>> /\ index = <<>> /\ evstream = <<>>
         /\ call = Idle /\ hist = <<>> /\ out = FALSE
Begin(c) == call.f = "idle" /\ Len(hist) < MaxCalls /\ call' = c /\ UNCHANGED <<recvars, data, dlen, addrs, index, evstream, hist, out>>
End(h) == call' = Idle /\ hist' = Append(hist, h) /\ UNCHANGED out

\* ---- strings
Comp1 == {<<"v", <<<<97, n>>>>>> : n \in Sizes} \union {<<"e", k>> : k \in 1..Len(entries)} \union {<<"m", v>> : v \in VIds}
BeginAlloc == \E c \in Comp1 : Begin([f |-> "alloc", pc |-> "size", comps |-> <<c>>, n |-> IF c[1] = "v" THEN c[2][1][2] + 1 ELSE 10])
SizeFails == call.f = "alloc" /\ call.pc = "size" /\ End([op |-> "size"]) /\ UNCHANGED <<recvars, data, dlen, addrs, index, evstream>>
Reserve == /\ call.f = "alloc" /\ call.pc = "size"
           /\ data' = Append(data, [a |-> dlen, n |-> call.n, c |-> <<>>]) /\ dlen' = dlen + call.n
           /\ call' = [call EXCEPT !.pc = "fill"]
           /\ UNCHANGED <<recvars, addrs, index, evstream, hist, out>>
Fill == /\ call.f = "alloc" /\ call.pc = "fill"
        /\ data' = [data EXCEPT ![Len(data)].c = call.comps]
        /\ addrs' = Append(addrs, dlen - call.n)
        /\ RecAlloc(call.comps)
        /\ End([op |-> "alloc", comps |-> call.comps]) /\ UNCHANGED <<dlen, index, evstream>>
FillFails == call.f = "alloc" /\ call.pc = "fill" /\ End([op |-> "serializer", n |-> call.n]) /\ RecRefuse(TRUE)
             /\ UNCHANGED <<data, dlen, addrs, index, evstream>>

\* ---- mappings: a target of 0 is no string, an id of -1 is not virtual
\* No string may come to hold itself.
RECURSIVE Virtuals(_)
Virtuals(e) == UNION {IF entries[e][c][1] = "m" THEN {entries[e][c][2]}
                      ELSE IF entries[e][c][1] = "e" THEN Virtuals(entries[e][c][2]) ELSE {} : c \in 1..Len(entries[e])}
BeginMap == \E e \in 0..Len(entries), n \in 1..MaxBulk : \E ids \in [1..n -> VIds \union {-1}] :
              (e # 0 => \A k \in 1..n : ids[k] # -1 => \A w \in Virtuals(e) : w < ids[k]) /\ Begin([f |-> "map", e |-> e, ids |-> ids, todo |-> 1])
MapFails(why) == End([op |-> "badmap", e |-> call.e, ids |-> call.ids, why |-> why]) /\ RecRefuse(TRUE)
                 /\ UNCHANGED <<data, dlen, addrs, index, evstream>>
BadTarget == call.f = "map" /\ call.todo = 1 /\ call.e = 0 /\ MapFails("target")
NextId == /\ call.f = "map" /\ call.e # 0 /\ call.todo <= Len(call.ids) /\ call.ids[call.todo] # -1
          /\ call' = [call EXCEPT !.todo = @ + 1] /\ UNCHANGED <<recvars, data, dlen, addrs, index, evstream, hist, out>>
BadId == call.f = "map" /\ call.e # 0 /\ call.todo <= Len(call.ids) /\ call.ids[call.todo] = -1 /\ MapFails("id")
IteratorFails == call.f = "map" /\ call.e # 0 /\ call.todo = Len(call.ids) /\ Len(call.ids) > 1 /\ MapFails("iterator")
WriteMap == /\ call.f = "map" /\ call.e # 0 /\ call.todo > Len(call.ids)
            /\ index' = index \o [k \in 1..Len(call.ids) |-> <<call.ids[k], addrs[call.e]>>]
            /\ RecMap([k \in 1..Len(call.ids) |-> <<call.ids[k], call.ids[k]>>], call.e)
            /\ End([op |-> "map", e |-> call.e, ids |-> call.ids]) /\ UNCHANGED <<data, dlen, addrs, evstream>>

\* ---- events, with the last string as kind and id
Newest == IF entries = <<>> THEN <<"x", 0>> ELSE <<"e", Len(entries)>>
Big == <<0, 0, 0, 1>>
Small == <<7, 0, 0, 0>>
G == Cardinality({k \in 1..Len(hist) : hist[k].op = "start"}) + 1
BeginEvent == \/ \E v \in {Big, Small} : Begin([f |-> "integer", v |-> v])
              \/ Begin([f |-> "instant"])
              \/ \E h \in held : Begin([f |-> "end", h |-> h])
Write == evstream' = evs'
Event == /\ UNCHANGED <<data, dlen, addrs, index>>
         /\ \/ /\ call.f = "integer"
               /\ IF IntFits(call.v) THEN RecInteger(call.v, 1, Newest, Newest) /\ Write /\ End([op |-> "integer"])
                  ELSE RecRefuse(TRUE) /\ End([op |-> "badinteger"]) /\ UNCHANGED evstream
            \/ /\ call.f = "instant"
               /\ IF clock < 2 THEN RecInstant(1, Newest, Newest) /\ Write /\ End([op |-> "instant"])
                  ELSE RecRefuse(TRUE) /\ End([op |-> "badinstant"]) /\ UNCHANGED evstream
            \/ /\ call.f = "end"
               /\ IF CanEnd(call.h) THEN RecEnd(call.h.g) /\ Write /\ End([op |-> "end", g |-> call.h.g])
                  ELSE RecEndRefused(call.h.g) /\ End([op |-> "badend", g |-> call.h.g]) /\ UNCHANGED evstream
StartOne == /\ call.f = "idle" /\ Len(hist) < MaxCalls /\ Cardinality(held) < 2
            /\ RecStart(G, 1, Newest, Newest) /\ End([op |-> "start", g |-> G]) /\ UNCHANGED <<data, dlen, addrs, index, evstream>>
SetClock == /\ call.f = "idle" /\ Len(hist) < MaxCalls
            /\ \E c \in 0..2 : c # clock /\ RecClock(c) /\ End([op |-> "clock", to |-> c])
            /\ UNCHANGED <<data, dlen, addrs, index, evstream>>
\* A refused integer while an interval is held on the stack.
RefuseAround == /\ Around /\ call.f = "idle" /\ Len(hist) < MaxCalls /\ clock < 2
                /\ RecRefuseAround(TRUE, 1, Newest, Newest) /\ Write /\ End([op |-> "around"])
                /\ UNCHANGED <<data, dlen, addrs, index>>

INext == BeginAlloc \/ SizeFails \/ Reserve \/ Fill \/ FillFails \/ BeginMap \/ BadTarget \/ NextId \/ BadId \/ IteratorFails
         \/ WriteMap \/ BeginEvent \/ Event \/ StartOne \/ SetClock \/ RefuseAround
ISpec == IInit /\ [][INext]_ivars
Emit == /\ Len(hist) = MaxCalls /\ ~out /\ out' = TRUE /\ PrintT(<<"CASE", ToJson([hist |-> hist])>>)
        /\ UNCHANGED <<recvars, data, dlen, addrs, index, evstream, call, hist>>
GSpec == IInit /\ [][INext \/ Emit]_ivars

\* What the streams hold is what Recorder says, whenever no call is under way.
RecAt(a) == data[CHOOSE k \in 1..Len(data) : data[k].a = a]
Decoded == call.f = "idle" =>
  /\ \A k \in 1..Len(entries) : RecAt(addrs[k]).c = entries[k]
  /\ Len(index) = Len(maps)
  /\ \A k \in 1..Len(maps) : maps[k].lo = maps[k].hi /\ index[k] = <<maps[k].lo, addrs[maps[k].e]>>
  /\ evstream = evs
\* Records lie one after the other; where one is depends on the lengths alone, not on which serializers failed.
Packed == /\ \A k \in 1..Len(data) : data[k].a = (IF k = 1 THEN 0 ELSE data[k - 1].a + data[k - 1].n)
          /\ dlen = (IF data = <<>> THEN 0 ELSE data[Len(data)].a + data[Len(data)].n)
\* A call that failed left everything readable as it was (but for the interval it took with it).
Failed(h) == h.op \in {"size", "serializer", "badmap", "badinteger", "badinstant", "badend"}
FailedKeeps == [][(Len(hist') = Len(hist) + 1 /\ Failed(hist'[Len(hist')])) => UNCHANGED <<entries, maps, evs, clock, index, evstream, addrs>>]_ivars
=============================================================================
