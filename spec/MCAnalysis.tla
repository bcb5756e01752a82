----------------------------- MODULE MCAnalysis -----------------------------
(***************************************************************************)
(* Profiles are recorded by threads that begin and end nested activities;  *)
(* then one walk over the events from the last to the first, with a stack  *)
(* per thread, accumulates the summary and the collapsed stacks, as the    *)
(* tools do. At the end the accumulators equal the definitions.            *)
(***************************************************************************)
EXTENDS Analysis, Json
CONSTANTS Ths, Kinds, Lbls, Marks, Steps, MaxEv, MaxNow
VARIABLES evs, open, now, phase, w, stack, acc, par, first, last, stk, top, sizes
bvars == <<evs, open, now, phase>>
wvars == <<w, stack, acc, par, first, last, stk, top, sizes>>
T(n) == <<0, n>>
MarkOf(m) == CASE m = "hit" -> <<"instant", Hit>> [] m = "size" -> <<"integer", Artifact>> [] m = "noise" -> <<"instant", Artifact>>
               [] OTHER -> <<"integer", Hit>>
NOpen == LET RECURSIVE C(_)
             C(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Len(open[x]) + C(S \ {x})
         IN C(Ths)
NoItem == [self |-> Zero, time |-> Zero, misses |-> 0, hits |-> 0, inv |-> 0, blocked |-> Zero, load |-> Zero, hash |-> Zero]
Init == /\ evs = <<>> /\ open = [th \in Ths |-> <<>>] /\ now = 0 /\ phase = "build"
        /\ w = 0 /\ stack = [th \in Ths |-> <<>>] /\ acc = <<>> /\ par = <<>> /\ first = <<>> /\ last = <<>> /\ stk = <<>>
        /\ top = Zero /\ sizes = <<>>
Tick(d) == now + d <= MaxNow /\ now' = now + d
Begin(th, k, l, d) == /\ phase = "build" /\ Len(evs) + NOpen < MaxEv /\ Tick(d)
                      /\ open' = [open EXCEPT ![th] = Append(@, [k |-> k, l |-> l, s |-> now'])]
                      /\ UNCHANGED <<evs, phase, wvars>>
End(th, d) == /\ phase = "build" /\ open[th] # <<>> /\ Tick(d)
              /\ LET o == open[th][Len(open[th])]
                 IN evs' = Append(evs, [ty |-> "interval", k |-> o.k, l |-> o.l, th |-> th, s |-> T(o.s), e |-> T(now')])
              /\ open' = [open EXCEPT ![th] = SubSeq(@, 1, Len(@) - 1)]
              /\ UNCHANGED <<phase, wvars>>
Mark(th, m, l) == /\ phase = "build" /\ Len(evs) + NOpen < MaxEv
                  /\ evs' = Append(evs, [ty |-> MarkOf(m)[1], k |-> MarkOf(m)[2], l |-> l, th |-> th, s |-> T(now), e |-> Zero])
                  /\ UNCHANGED <<open, now, phase, wvars>>
Complete == phase = "build" /\ \A th \in Ths : open[th] = <<>>
StartWalk == Complete /\ phase' = "walk" /\ w' = Len(evs) /\ UNCHANGED <<evs, open, now, stack, acc, par, first, last, stk, top, sizes>>
Build == \/ \E th \in Ths, k \in Kinds, l \in Lbls, d \in Steps : Begin(th, k, l, d)
         \/ \E th \in Ths : \E d \in Steps : End(th, d)
         \/ \E th \in Ths, m \in Marks, l \in Lbls : Mark(th, m, l)

Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == [y \in DOMAIN f \union {x} |-> IF y = x THEN v ELSE f[y]]
\* A stack without the entries that do not contain the event.
RECURSIVE Popped(_, _)
Popped(s, e) == IF s = <<>> \/ Within(e, evs[s[Len(s)]]) THEN s ELSE Popped(SubSeq(s, 1, Len(s) - 1), e)
PathText(s) == LET RECURSIVE P(_)
                   P(k) == IF k = 0 THEN Root ELSE P(k - 1) \o ";" \o evs[s[k]].l
               IN P(Len(s))
TakeFrom(a, e, d) ==  \* the time of a child goes from the interval e around it
  LET x == Get(a, e.l, NoItem)
  IN Put(a, e.l, [x EXCEPT !.self = Minus(@, d),
                           !.hash = IF e.k = Hash THEN Minus(@, d) ELSE @,
                           !.load = IF e.k = Load THEN Minus(@, d) ELSE @])
GiveTo(a, e, d) ==
  LET x == Get(a, e.l, NoItem)
  IN Put(a, e.l, [x EXCEPT !.self = Plus(@, d),
                           !.time = IF e.k # Hash THEN Plus(@, d) ELSE @,
                           !.misses = IF e.k \in {Query, Generic} THEN @ + 1 ELSE @,
                           !.inv = IF e.k \in {Load, Hash} THEN @ ELSE @ + 1,
                           !.blocked = IF e.k = Blocked THEN Plus(@, d) ELSE @,
                           !.load = IF e.k = Load THEN Plus(@, d) ELSE @,
                           !.hash = IF e.k = Hash THEN Plus(@, d) ELSE @])
WalkInterval(e) ==
  LET s == Popped(stack[e.th], e)
      d == Dur(e)
      p == IF s = <<>> THEN 0 ELSE s[Len(s)]
      path == PathText(Append(s, w))
      stk1 == IF p = 0 THEN stk ELSE Put(stk, PathText(s), Minus(stk[PathText(s)], d))
  IN /\ stack' = [stack EXCEPT ![e.th] = Append(s, w)]
     /\ par' = Put(par, w, p)
     /\ acc' = GiveTo(IF p = 0 THEN acc ELSE TakeFrom(acc, evs[p], d), e, d)
     /\ stk' = Put(stk1, path, Plus(Get(stk1, path, Zero), d))
     /\ top' = IF p = 0 THEN Plus(top, d) ELSE top
     /\ first' = Put(first, e.th, LET f == Get(first, e.th, e.s) IN IF Le(e.s, f) THEN e.s ELSE f)
     /\ last' = Put(last, e.th, Get(last, e.th, e.e))
     /\ UNCHANGED sizes
WalkMark(e) ==
  /\ acc' = IF IsHit(e) THEN LET x == Get(acc, e.l, NoItem) IN Put(acc, e.l, [x EXCEPT !.hits = @ + 1, !.inv = @ + 1]) ELSE acc
  /\ sizes' = IF IsSize(e) THEN Put(sizes, e.l, Plus(Get(sizes, e.l, Zero), e.s)) ELSE sizes
  /\ UNCHANGED <<stack, par, first, last, stk, top>>
Walk == /\ phase = "walk" /\ w > 0 /\ w' = w - 1
        /\ IF IsIv(evs[w]) THEN WalkInterval(evs[w]) ELSE WalkMark(evs[w])
        /\ UNCHANGED bvars
Spec == Init /\ [][Build \/ StartWalk \/ Walk]_<<bvars, wvars>>
Finished == phase = "walk" /\ w = 0
WalkTotal == SumSet([th \in DOMAIN first |-> Minus(last[th], first[th])], DOMAIN first)

Nested == WellNested(evs)
\* The stack of a thread is always the chain of intervals around the last one visited.
StackIsChain == phase = "walk" => \A th \in Ths : LET s == stack[th] IN
                  s # <<>> => /\ ParentOf(evs)[s[1]] = 0
                              /\ \A k \in 2..Len(s) : ParentOf(evs)[s[k]] = s[k - 1]
SummaryRight == Finished => acc = Items(evs) /\ sizes = Sizes(evs) /\ WalkTotal = TotalTime(evs)
StacksRight == Finished => Put(stk, Root, Minus(WalkTotal, top)) = Stacks(evs)
\* The self times add up to the outermost intervals, the stacks to the spans of the threads.
Conserved == Complete =>
  LET p == ParentOf(evs)
      I == Items(evs)
      S == Stacks(evs)
  IN /\ SumSet([l \in DOMAIN I |-> I[l].self], DOMAIN I) = SumSet([i \in Ivs(evs) |-> Dur(evs[i])], {i \in Ivs(evs) : p[i] = 0})
     /\ SumSet(S, DOMAIN S) = TotalTime(evs)
     /\ \A l \in DOMAIN I : Le(Zero, I[l].self) /\ Le(I[l].load, I[l].self) /\ Le(I[l].hash, I[l].self) /\ Le(I[l].blocked, I[l].time)
     /\ \A q \in DOMAIN S : Le(Zero, S[q])
\* Only the order of the events of one thread matters.
ThreadOnly == Complete =>
  LET Sub(th) == SelectSeq(evs, LAMBDA e : e.th = th)
      RECURSIVE Cat(_)
      Cat(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN Sub(x) \o Cat(S \ {x})
  IN Items(Cat(Ths)) = Items(evs) /\ Stacks(Cat(Ths)) = Stacks(evs) /\ Sizes(Cat(Ths)) = Sizes(evs)

Emit == Complete /\ Len(evs) = MaxEv /\ PrintT(<<"CASE", ToJson([evs |-> evs])>>) /\ phase' = "out" /\ UNCHANGED <<evs, open, now, wvars>>
EmitAll == Complete /\ PrintT(<<"CASE", ToJson([evs |-> evs])>>) /\ phase' = "out" /\ UNCHANGED <<evs, open, now, wvars>>
GSpec == Init /\ [][Build \/ Emit]_<<bvars, wvars>>
GSpecAll == Init /\ [][Build \/ EmitAll]_<<bvars, wvars>>
=============================================================================
