------------------------------ MODULE LargeTrace ------------------------------
(***************************************************************************)
(* Summaries and collapsed stacks of profiles of the families, in units.   *)
(***************************************************************************)
EXTENDS Large, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, q, old  \* the profile and the one before
Ev == Traces[t].ops[i]
Adv == i' = i + 1 /\ t' = t /\ (IOEnv.DIAG = "1" => PrintT(<<"AT", t, i>>))
TInit == t \in 1..Len(Traces) /\ i = 1 /\ q = <<>> /\ old = <<>>
TProfile == Ev.op = "profile" /\ q' = Ev.q /\ old' = q /\ Adv
Names(l) == {l[a].l : a \in 1..Len(l)}
TSelf == /\ Ev.op = "self" /\ Ev.r = "ok" /\ Adv /\ UNCHANGED <<q, old>>
         /\ (\E I \in {LargeItems(q)} : /\ Len(Ev.items) = Cardinality(DOMAIN I) /\ Names(Ev.items) = DOMAIN I
                                       /\ \A a \in 1..Len(Ev.items) : Ev.items[a].self = I[Ev.items[a].l].self) = TRUE
TItems == /\ Ev.op = "items" /\ Ev.r = "ok" /\ Adv /\ UNCHANGED <<q, old>>
          /\ (\E I \in {LargeItems(q)} : /\ Len(Ev.items) = Cardinality(DOMAIN I) /\ Names(Ev.items) = DOMAIN I
                                        /\ \A a \in 1..Len(Ev.items) : Ev.items[a].d = [I[Ev.items[a].l] EXCEPT !.self = 0]) = TRUE
          /\ (\E S \in {LargeSizes(q)} : /\ Len(Ev.sizes) = Cardinality(DOMAIN S) /\ Names(Ev.sizes) = DOMAIN S
                                        /\ \A a \in 1..Len(Ev.sizes) : Ev.sizes[a].v = S[Ev.sizes[a].l]) = TRUE
          /\ Ev.total = Whole(q)
\* Paths that take no time may or may not be listed.
TStacks == /\ Ev.op = "stacks" /\ Ev.r = "ok" /\ Adv /\ UNCHANGED <<q, old>>
           /\ (\E S \in {LargeStacks(q)} :
                 LET some == SelectSeq(Ev.stacks, LAMBDA x : x.v # 0) IN
                 /\ Len(some) = Cardinality(DOMAIN S) /\ Names(some) = DOMAIN S
                 /\ \A a \in 1..Len(some) : some[a].v = S[some[a].l]) = TRUE
\* What a tool lists: [type, label, thread, start, end] in units. Intervals and instants as since `from`;
\* crox lists intervals only.
Listed(x, from) == LET e == EventAt(q, x) IN
  CASE e.ty = "interval" -> <<e.ty, e.k, e.l, e.th, e.s - from, e.e - from>>
    [] e.ty = "instant" -> <<e.ty, e.k, e.l, e.th, e.s - from, 0>>
    [] OTHER -> <<e.ty, e.k, e.l, e.th, e.s, 0>>
TView == /\ Ev.op = "view" /\ Ev.r = "ok" /\ Adv /\ UNCHANGED <<q, old>>
         /\ (Len(Ev.events) = Size(q) /\ \A x \in 1..Size(q) : Ev.events[x] = Listed(x, Earliest(q))) = TRUE
TChrome == /\ Ev.op = "chrome" /\ Ev.r = "ok" /\ Adv /\ UNCHANGED <<q, old>>
           /\ (Len(Ev.events) = Ivls(q) /\ \A x \in 1..Ivls(q) : Ev.events[x] = Listed(x, 0)) = TRUE
\* The rows of the summary: every item once, by descending self time.
TRows == /\ Ev.op = "rows" /\ Ev.r = "ok" /\ Adv /\ UNCHANGED <<q, old>>
         /\ (\E I \in {LargeItems(q)} :
               /\ Len(Ev.rows) = Cardinality(DOMAIN I) /\ Names(Ev.rows) = DOMAIN I
               /\ \A a \in 1..Len(Ev.rows) : Ev.rows[a].inv = I[Ev.rows[a].l].inv
               /\ \A a \in 2..Len(Ev.rows) : I[Ev.rows[a].l].self <= I[Ev.rows[a - 1].l].self) = TRUE
(* The differences, in units. *)
Get(f, l, d) == IF l \in DOMAIN f THEN f[l] ELSE d
Nothing == [self |-> 0, time |-> 0, misses |-> 0, hits |-> 0, inv |-> 0, blocked |-> 0, load |-> 0, hash |-> 0]
Minus1(c, b) == [self |-> c.self - b.self, time |-> c.time - b.time, misses |-> c.misses - b.misses, hits |-> c.hits - b.hits,
                 inv |-> c.inv - b.inv, blocked |-> 0, load |-> 0, hash |-> 0]
DiffItems(sel(_)) == \E B \in {LargeItems(old)} : \E C \in {LargeItems(q)} :
   /\ Len(Ev.items) = Cardinality(DOMAIN B \union DOMAIN C) /\ Names(Ev.items) = DOMAIN B \union DOMAIN C
   /\ \A a \in 1..Len(Ev.items) : LET l == Ev.items[a].l IN Ev.items[a].d = sel(Minus1(Get(C, l, Nothing), Get(B, l, Nothing)))
DiffSizes == \E B \in {LargeSizes(old)} : \E C \in {LargeSizes(q)} :
   /\ Len(Ev.sizes) = Cardinality(DOMAIN B \union DOMAIN C) /\ Names(Ev.sizes) = DOMAIN B \union DOMAIN C
   /\ \A a \in 1..Len(Ev.sizes) : Ev.sizes[a].v = Get(C, Ev.sizes[a].l, 0) - Get(B, Ev.sizes[a].l, 0)
TDiff == /\ Ev.op = "diff" /\ Ev.r = "ok" /\ Adv /\ UNCHANGED <<q, old>>
         /\ DiffItems(LAMBDA x : x) = TRUE /\ DiffSizes = TRUE /\ Ev.total = Whole(q) - Whole(old)
TDiffTable == /\ Ev.op = "difftable" /\ Ev.r = "ok" /\ Adv /\ UNCHANGED <<q, old>>
              /\ DiffItems(LAMBDA x : [inv |-> x.inv, hits |-> x.hits]) = TRUE /\ DiffSizes = TRUE
\* The extremes over runs that are `runs` times as long.
Rows(rows, G, a) ==
  LET W == Scaled(G, a) n == Many(G) IN
  /\ Len(rows) = Cardinality(W)
  /\ \A w \in W : \E k \in 1..Len(rows) :
       /\ rows[k].v = w.v /\ rows[k].what = w.what /\ rows[k].n = w.c
       /\ w.c # 1 => LET e == w.c * 10000 - rows[k].pct * n IN e * 2 <= n + 1 /\ 0 - e * 2 <= n + 1
MinRun == CHOOSE x \in {Ev.runs[k] : k \in 1..Len(Ev.runs)} : \A k \in 1..Len(Ev.runs) : x <= Ev.runs[k]
MaxRun == CHOOSE x \in {Ev.runs[k] : k \in 1..Len(Ev.runs)} : \A k \in 1..Len(Ev.runs) : x >= Ev.runs[k]
TAggregate == /\ Ev.op = "aggregate" /\ Ev.r = "ok" /\ Adv /\ UNCHANGED <<q, old>>
              /\ (\E G \in {LargeGaps(q)} :
                    /\ Rows(Ev.smallest, G, MinRun) /\ Rows(Ev.largest, G, MaxRun)
                    /\ Rows(Ev.narrow, G, MaxRun - MinRun) /\ Rows(Ev.wide, G, MaxRun - MinRun)) = TRUE
\* The lanes of collapsed threads.
TLanes == /\ Ev.op = "lanes" /\ Ev.r = "ok" /\ Adv /\ UNCHANGED <<q, old>>
          /\ Len(Ev.events) = Ivls(q)
          /\ (\A x \in 1..Ivls(q) : \E e \in {Listed(x, 0)} : [Ev.events[x] EXCEPT ![4] = 0] = [e EXCEPT ![4] = 0]) = TRUE
          /\ (\E f \in {[k \in 1..q.n |-> Ev.events[2 * k][4]]} :
                /\ \A k \in 1..q.n : Ev.events[2 * k - 1][4] = f[k] /\ f[k] >= 0 /\ f[k] < Busy(q)
                /\ \A k \in 1..q.n : \A d \in 1..(q.w + 2) : k + d <= q.n => f[k] # f[k + d]) = TRUE
TDone == i = Len(Traces[t].ops) + 1 /\ PrintT(<<"DONE", t>>) /\ i' = i + 1 /\ UNCHANGED <<t, q, old>>
TNext == (i <= Len(Traces[t].ops) /\ (TProfile \/ TSelf \/ TItems \/ TStacks \/ TView \/ TChrome \/ TRows
                                      \/ TDiff \/ TDiffTable \/ TAggregate \/ TLanes)) \/ TDone
TSpec == TInit /\ [][TNext]_<<t, i, q, old>>
=============================================================================
