--------------------------- MODULE AnalysisTrace ---------------------------
(***************************************************************************)
(* Profiles and what the code made of them, compared with the definitions. *)
(* evs is the profile of the current history.                              *)
(***************************************************************************)
EXTENDS Analysis, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, evs
Ev == Traces[t].ops[i]
Adv == i' = i + 1 /\ t' = t /\ (IOEnv.DIAG = "1" => PrintT(<<"AT", t, i>>))
TInit == t \in 1..Len(Traces) /\ i = 1 /\ evs = <<>>
\* The harness only makes profiles of the domain.
TProfile == Ev.op = "profile" /\ Adv /\ evs' = Ev.evs /\ WellNested(Ev.evs) = TRUE
\* A list of [l |-> .., ..] as a function; each label once.
Once(q) == \A a, b \in 1..Len(q) : q[a].l = q[b].l => a = b
AsFun(q, F(_)) == [l \in {q[a].l : a \in 1..Len(q)} |-> F(q[CHOOSE a \in 1..Len(q) : q[a].l = l])]
SelfRight(q) == LET I == Items(evs) IN
  /\ Once(q) /\ {q[a].l : a \in 1..Len(q)} = DOMAIN I /\ \A a \in 1..Len(q) : q[a].self = I[q[a].l].self
  /\ LET p == ParentOf(evs) IN
     SumSeq([a \in 1..Len(q) |-> q[a].self]) = SumSet([x \in Ivs(evs) |-> Dur(evs[x])], {x \in Ivs(evs) : p[x] = 0})
RestRight(q) == LET I == Items(evs) IN
  /\ Once(q) /\ {q[a].l : a \in 1..Len(q)} = DOMAIN I
  /\ \A a \in 1..Len(q) : LET x == I[q[a].l] IN
       [q[a].d EXCEPT !.self = Zero] = [x EXCEPT !.self = Zero]
TSelf == Ev.op = "self" /\ Adv /\ UNCHANGED evs /\ Ev.r = "ok" /\ SelfRight(Ev.items) = TRUE
TItems == /\ Ev.op = "items" /\ Adv /\ UNCHANGED evs /\ Ev.r = "ok"
          /\ RestRight(Ev.items) = TRUE
          /\ (Once(Ev.sizes) /\ AsFun(Ev.sizes, LAMBDA x : x.v) = Sizes(evs)) = TRUE
          /\ (Ev.total = TotalTime(evs)) = TRUE
TStacks == /\ Ev.op = "stacks" /\ Adv /\ UNCHANGED evs /\ Ev.r = "ok"
           /\ Once(Ev.stacks)
           /\ (Timed(AsFun(Ev.stacks, LAMBDA x : x.v)) = Timed(Stacks(evs))) = TRUE
           /\ (SumSeq([a \in 1..Len(Ev.stacks) |-> Ev.stacks[a].v]) = TotalTime(evs)) = TRUE
TDone == i = Len(Traces[t].ops) + 1 /\ PrintT(<<"DONE", t>>) /\ i' = i + 1 /\ UNCHANGED <<t, evs>>
TNext == (i <= Len(Traces[t].ops) /\ (TProfile \/ TSelf \/ TItems \/ TStacks)) \/ TDone
TSpec == TInit /\ [][TNext]_<<t, i, evs>>
=============================================================================
