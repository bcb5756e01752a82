----------------------------- MODULE ToolsTrace -----------------------------
(***************************************************************************)
(* Runs of the command line tools on known profiles, with what they        *)
(* printed or wrote. ps are the profiles of the current history: their     *)
(* events, and where given [start, pid, args].                             *)
(***************************************************************************)
EXTENDS View, Truncate, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, ps
Ev == Traces[t].ops[i]
Adv == i' = i + 1 /\ t' = t /\ (IOEnv.DIAG = "1" => PrintT(<<"AT", t, i>>))
Same == Adv /\ UNCHANGED ps
TInit == t \in 1..Len(Traces) /\ i = 1 /\ ps = <<>>
TProfile == Ev.op = "profile" /\ Adv /\ ps' = Append(ps, Ev) /\ (~Ev.nested \/ WellNested(Ev.evs)) = TRUE
Once(q) == \A a, b \in 1..Len(q) : a # b => q[a].l # q[b].l
LabelsOf(q) == {q[a].l : a \in 1..Len(q)}
Excluded(l, ex) == \E k \in 1..Len(ex) : Contains(l, ex[k])

(* T01: the difference of the profiles b and c of the history. *)
DiffRowRight(x, d, b, c) ==
  /\ SameDiff(x, d) /\ PercentRight(x.selfpct, b.self, c.self) /\ PercentRight(x.timepct, b.time, c.time)
DiffRight == \E B \in {Items(ps[Ev.b].evs)} : \E C \in {Items(ps[Ev.c].evs)} : \E D \in {DiffOf(B, C)} :
  /\ Once(Ev.items) /\ LabelsOf(Ev.items) = DOMAIN D
  /\ \A a \in 1..Len(Ev.items) : LET l == Ev.items[a].l IN DiffRowRight(Ev.items[a], D[l], Of(B, l, NoneItem), Of(C, l, NoneItem))
  /\ \E S \in {SizeDiff(Sizes(ps[Ev.b].evs), Sizes(ps[Ev.c].evs))} :
       /\ Once(Ev.sizes) /\ LabelsOf(Ev.sizes) = DOMAIN S /\ \A a \in 1..Len(Ev.sizes) : SameSigned(Ev.sizes[a].v, S[Ev.sizes[a].l])
  /\ SameSigned(Ev.total, Signed(TotalTime(ps[Ev.b].evs), TotalTime(ps[Ev.c].evs)))
TDiff == Ev.op = "diff" /\ Same /\ Ev.r = "ok" /\ DiffRight = TRUE
TableRowRight(x, d, b, c) ==
  /\ ShownSigned(d.self, x.self) /\ ShownSigned(d.time, x.time) /\ x.inv = d.inv /\ x.hits = d.hits
  /\ ShownSigned(d.blocked, x.blocked) /\ ShownSigned(d.load, x.load) /\ ShownSigned(d.hash, x.hash)
  /\ PercentRight(x.selfpct, b.self, c.self) /\ PercentRight(x.timepct, b.time, c.time)
DiffTableRight == \E B \in {Items(ps[Ev.b].evs)} : \E C \in {Items(ps[Ev.c].evs)} : \E D \in {DiffOf(B, C)} :
  /\ Once(Ev.items) /\ LabelsOf(Ev.items) = {l \in DOMAIN D : ~Excluded(l, Ev.exclude)}
  /\ \A a \in 1..Len(Ev.items) : LET l == Ev.items[a].l IN TableRowRight(Ev.items[a], D[l], Of(B, l, NoneItem), Of(C, l, NoneItem))
  /\ \E S \in {SizeDiff(Sizes(ps[Ev.b].evs), Sizes(ps[Ev.c].evs))} :
       /\ Once(Ev.sizes) /\ LabelsOf(Ev.sizes) = {l \in DOMAIN S : ~Excluded(l, Ev.exclude)}
       /\ \A a \in 1..Len(Ev.sizes) : SameSigned(Ev.sizes[a].v, S[Ev.sizes[a].l])
  /\ ShownSigned(Signed(TotalTime(ps[Ev.b].evs), TotalTime(ps[Ev.c].evs)), Ev.total)
TDiffTable == Ev.op = "difftable" /\ Same /\ Ev.r = "ok" /\ DiffTableRight = TRUE

(* T02: the summary of the only profile. *)
RECURSIVE SumSelf(_, _)
SumSelf(I, q) == IF q = <<>> THEN Zero ELSE Plus(I[q[1].l].self, SumSelf(I, Tail(q)))
SummaryRight == \E I \in {Items(ps[1].evs)} : \E total \in {TotalTime(ps[1].evs)} :
  /\ Once(Ev.items) /\ LabelsOf(Ev.items) = Listed(I, total, Ev.above)
  /\ \A a, b \in 1..Len(Ev.items) : a < b => Le(I[Ev.items[b].l].self, I[Ev.items[a].l].self)
  /\ {Ev.columns[k] : k \in 1..Len(Ev.columns)} = Columns(I)
  /\ \A a \in 1..Len(Ev.items) : LET x == Ev.items[a]
                                     d == I[x.l]
                                     C == Columns(I)
       IN /\ Shown(d.self, x.self) /\ Shown(d.time, x.time) /\ x.inv = d.inv
          /\ total = Zero \/ ShareRight(x.share, d.self, total)
          /\ "hits" \in C => x.hits = d.hits
          /\ "blocked" \in C => Shown(d.blocked, x.blocked)
          /\ "load" \in C => Shown(d.load, x.load)
          /\ "hash" \in C => Shown(d.hash, x.hash)
  /\ Shown(total, Ev.total)
  /\ Ev.above # 0 => Len(Ev.filtered) = 1 /\ (total = Zero \/ ShareRight(Ev.filtered[1], SumSelf(I, Ev.items), total))
  /\ \E S \in {Sizes(ps[1].evs)} : Once(Ev.sizes) /\ LabelsOf(Ev.sizes) = DOMAIN S /\ \A a \in 1..Len(Ev.sizes) : Ev.sizes[a].v = S[Ev.sizes[a].l]
TSummary == Ev.op = "summary" /\ Same /\ Ev.r = "ok" /\ SummaryRight = TRUE
SummaryJsonRight == \E I \in {Items(ps[1].evs)} :
  /\ Once(Ev.items) /\ LabelsOf(Ev.items) = DOMAIN I /\ \A a \in 1..Len(Ev.items) : Ev.items[a].d = I[Ev.items[a].l]
  /\ Ev.total = TotalTime(ps[1].evs)
  /\ \E S \in {Sizes(ps[1].evs)} : Once(Ev.sizes) /\ LabelsOf(Ev.sizes) = DOMAIN S /\ \A a \in 1..Len(Ev.sizes) : Ev.sizes[a].v = S[Ev.sizes[a].l]
TSummaryJson == Ev.op = "summaryjson" /\ Same /\ Ev.r = "ok" /\ SummaryJsonRight = TRUE

(* T03: the comparison of all profiles of the history. *)
Limit == 10
RowsRight(rows, S, vals, d, n, up) ==
  /\ Len(rows) = Cardinality(S)
  /\ \A a \in 1..Len(rows) :
       /\ rows[a].v \in S
       /\ \A b \in (a + 1)..Len(rows) : rows[a].v # rows[b].v
       /\ LET src == Sources(vals, rows[a].v) IN
          IF Cardinality(src) = 1 THEN rows[a].what = Describe(d[MinN(src)], d[MinN(src) + 1])
          ELSE /\ rows[a].what = "" /\ rows[a].n = Cardinality(src)
               /\ LET e == Cardinality(src) * 10000 - rows[a].pct * n IN e * 2 <= n + 1 /\ 0 - e * 2 <= n + 1
AggregateRight == \E tp \in {[k \in 1..Len(ps) |-> Timed1(ps[k].evs)]} :
  IF ~Comparable(tp) THEN Ev.r = "refused"
  ELSE /\ Ev.r = "ok"
       /\ \E g \in {[k \in 1..Len(tp) |-> Gaps1(tp[k])]} : \E d \in {PointDescs(tp[1])} : \E x \in {Extremes(g)} :
          LET n == Len(g[1]) IN
          /\ RowsRight(Ev.smallest, Smallest(x.lo, Limit), x.lo, d, n, TRUE)
          /\ RowsRight(Ev.largest, Largest(x.hi, Limit), x.hi, d, n, TRUE)
          /\ RowsRight(Ev.narrow, Smallest(x.spread, Limit), x.spread, d, n, TRUE)
          /\ RowsRight(Ev.wide, Largest(x.spread, Limit), x.spread, d, n, TRUE)
TAggregate == Ev.op = "aggregate" /\ Same /\ AggregateRight = TRUE

(* T04, T05: the Chrome trace of all profiles of the history. *)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
ChromeRight ==
  /\ SameBag(Ev.events, Cat([k \in 1..Len(ps) |-> Exported(ps[k].evs, ps[k].start, ps[k].pid, Ev.min)]))
  /\ SameBag(Ev.names, Cat([k \in 1..Len(ps) |-> LET c == CrateNames(ps[k].args) IN IF c = <<>> THEN <<>> ELSE <<[pid |-> ps[k].pid, name |-> c[1]]>>]))
  /\ SameBag(Ev.order, [k \in 1..Len(ps) |-> [pid |-> ps[k].pid, at |-> Micro(ps[k].start)]])
  /\ Ev.other = 0
TChrome == Ev.op = "chrome" /\ Same /\ Ev.r = "ok" /\ ChromeRight = TRUE
\* The same with collapsed threads, where th is the lane; each profile has its own pid.
LanesOf(k, q) ==
  LET sp == Spans(ps[k].evs)
      mine == SelectSeq(q, LAMBDA e : e.pid = ps[k].pid)
      want == Exported(ps[k].evs, ps[k].start, ps[k].pid, Ev.min)
      seen == {want[x].th : x \in 1..Len(want)}
      Strip(e) == [e EXCEPT !.th = ""]
      \* the lanes a thread's events may be on, given the events with all these data
      Lanes(th) == {l \in {mine[x].th : x \in 1..Len(mine)} :
                      \A y \in {z \in 1..Len(want) : want[z].th = th} : \E x \in 1..Len(mine) : mine[x].th = l /\ Strip(mine[x]) = Strip(want[y])}
  IN /\ SameBag([x \in 1..Len(mine) |-> Strip(mine[x])], [x \in 1..Len(want) |-> Strip(want[x])])
     /\ \E L \in {[th \in seen |-> Lanes(th)]} :
        \E f \in IF \A th \in seen : Cardinality(L[th]) = 1 THEN {[th \in seen |-> CHOOSE l \in L[th] : TRUE]}
                  ELSE [seen -> {mine[x].th : x \in 1..Len(mine)}] :
          /\ \A th \in seen : f[th] \in L[th]
          /\ SameBag(mine, [x \in 1..Len(want) |-> [want[x] EXCEPT !.th = f[want[x].th]]])
          /\ \A a, b \in seen : a # b /\ f[a] = f[b] => ~Overlap(sp[a], sp[b])
          /\ LET used == {f[a] : a \in seen} IN
             /\ Cardinality(used) <= Busiest(sp)
             /\ used \subseteq {ToString(x) : x \in 0..(Busiest(sp) - 1)}
             /\ seen = DOMAIN sp => used = {ToString(x) : x \in 0..(Cardinality(used) - 1)}
TLanes == Ev.op = "lanes" /\ Same /\ Ev.r = "ok" /\ (\A k \in 1..Len(ps) : LanesOf(k, Ev.events)) = TRUE

(* T06 *)
TView == Ev.op = "view" /\ Same /\ Ev.r = "ok" /\ (Ev.events = Viewed(ps[1].evs, Ev.filter)) = TRUE
(* T07: pages are [tag, data, len]; data may be a digest of the bytes. The stream of events starts with a header. *)
StreamHeader == 8
EventSize(version) == IF version = 8 THEN 24 ELSE 32
FirstLen(q) == LET S == {k \in 1..Len(q) : q[k].tag = "events"} IN IF S = {} THEN StreamHeader ELSE q[MinN(S)].len
TTruncate == /\ Ev.op = "truncate" /\ Same /\ Ev.r = "ok" /\ Ev.unchanged
             /\ IsTruncation(Ev.before, Ev.after) = TRUE
             /\ (Ev.opened.r = "ok" /\ Ev.opened.meta = Ev.meta) = TRUE
             /\ LET n == (FirstLen(Ev.before) - StreamHeader) \div EventSize(Ev.version)
                IN Ev.opened.num = n /\ (Ev.opened.events = SubSeq(Ev.events, 1, n)) = TRUE
(* T08 *)
AsFun(q) == [l \in LabelsOf(q) |-> q[CHOOSE a \in 1..Len(q) : q[a].l = l].v]
TFolded == /\ Ev.op = "folded" /\ Same /\ Ev.r = "ok" /\ Once(Ev.stacks)
           /\ (\E S \in {Stacks(ps[1].evs)} : Timed(AsFun(Ev.stacks)) = Timed(S) /\ (DOMAIN S \ {Root}) \subseteq LabelsOf(Ev.stacks)) = TRUE
\* The time with a call path at the start of the path.
Inclusive(evs, par, path) == [p \in {path[x] : x \in Ivs(evs)} \union {Root} |->
   IF p = Root THEN TotalTime(evs) ELSE SumSet([x \in Ivs(evs) |-> Dur(evs[x])], {x \in Ivs(evs) : path[x] = p})]
FlameRight == \E par \in {ParentOf(ps[1].evs)} : \E inc \in {Inclusive(ps[1].evs, par, PathOf(ps[1].evs, par))} : \E S \in {Stacks(ps[1].evs)} :
  /\ Once(Ev.frames)
  /\ \A a \in 1..Len(Ev.frames) : Ev.frames[a].l \in DOMAIN inc /\ Ev.frames[a].v = inc[Ev.frames[a].l]
  \* frames too narrow to draw are left out
  /\ \A p \in DOMAIN S : S[p] # Zero /\ Leq(OfPair(inc[Root]), Mul(OfPair(inc[p]), Big(2000))) => p \in LabelsOf(Ev.frames)
TFlame == Ev.op = "flame" /\ Same /\ Ev.r = "ok" /\ FlameRight = TRUE

TDone == i = Len(Traces[t].ops) + 1 /\ PrintT(<<"DONE", t>>) /\ i' = i + 1 /\ UNCHANGED <<t, ps>>
TNext == (i <= Len(Traces[t].ops) /\ (TProfile \/ TDiff \/ TDiffTable \/ TSummary \/ TSummaryJson \/ TAggregate \/ TChrome \/ TLanes
                                      \/ TView \/ TTruncate \/ TFolded \/ TFlame)) \/ TDone
TSpec == TInit /\ [][TNext]_<<t, i, ps>>
=============================================================================
