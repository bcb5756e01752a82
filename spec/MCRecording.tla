----------------------------- MODULE MCRecording -----------------------------
(* Recording with an actual clock: guards that nest give intervals that nest, nothing is stored
   twice, and what is stored is what Faithful asks for. *)
EXTENDS Recording, TLC, Json
CONSTANTS MaxOps, MaxGuards, Ths, Ticks,
  Late  \* whether the clock starts just before the largest time
VARIABLES now, val, n, prog, out
mvars == <<rvars, now, val, n, prog, out>>
MInit == RInit /\ now = 0 /\ val = <<>> /\ n = 0 /\ prog = <<>> /\ out = FALSE
Tick == IF Ticks THEN now' \in {now, now + 1} ELSE now' = now
\* The time the clock shows at tick x
T(x) == IF Late THEN <<281474, 976710652 + x>> ELSE <<0, x>>
Read == val' = Append(val, T(now'))
Step(o) == n' = n + 1 /\ prog' = Append(prog, o) /\ n < MaxOps /\ UNCHANGED out
G == Cardinality({k \in 1..Len(prog) : prog[k].op = "start"}) + 1
MNext ==
  \/ \E th \in Ths, form \in {"guard", "detached"} :
       /\ Cardinality(guards) < MaxGuards
       /\ Step([op |-> "start", th |-> th, g |-> G, form |-> form]) /\ Tick /\ Read
       /\ Start(G, form, 1, n, th, th, T(now'), T(now'))
  \/ \E th \in Ths, g \in Open, how \in {"drop", "override", "unwind"} :
       /\ (Guard(g).form = "detached" => how = "drop")
       /\ Step([op |-> "finish", th |-> th, g |-> g, how |-> how]) /\ Tick /\ Read
       /\ IF Leq(T(now'), MaxEnd)
          THEN Finish(g, IF how = "override" THEN <<100 + n>> ELSE <<>>, th, T(now'), T(now'))
          ELSE FinishTooLate(g, th, T(now'), T(now'))
  \/ \E th \in Ths, g \in Open :
       /\ Step([op |-> "abandon", th |-> th, g |-> g]) /\ Abandon(g) /\ UNCHANGED <<now, val>>
  \/ \E th \in Ths : Step([op |-> "instant", th |-> th]) /\ Tick /\ Read
       /\ IF Leq(T(now'), MaxInstant) THEN Instant(2, n, th, th, T(now'), T(now')) ELSE InstantTooLate(th, T(now'), T(now'))
  \/ \E th \in Ths : Step([op |-> "integer", th |-> th]) /\ UNCHANGED <<now, val>> /\ Integer(3, n, th, th, n)
MSpec == MInit /\ [][MNext]_mvars
Emit == /\ n = MaxOps /\ ~out /\ out' = TRUE /\ PrintT(<<"CASE", ToJson([prog |-> prog])>>)
        /\ UNCHANGED <<rvars, now, val, n, prog>>
GSpec == MInit /\ [][MNext \/ Emit]_mvars

File == [k \in 1..Len(done) |-> [ty |-> done[k].ty, kind |-> done[k].kind, label |-> done[k].label, tid |-> done[k].tid,
           v |-> done[k].v, v1 |-> IF done[k].s = 0 THEN <<0, 0>> ELSE val[done[k].s],
           v2 |-> IF done[k].e = 0 THEN <<0, 0>> ELSE val[done[k].e]]]
IsFaithful == Faithful(File)
Ordered == \A k \in 1..Len(File) : File[k].ty = "interval" => Leq(File[k].v1, File[k].v2)
\* Of two intervals one of which was started before and finished after the other, it contains the other.
Nested == \A a, b \in 1..Len(done) :
            (done[a].ty = "interval" /\ done[b].ty = "interval" /\ done[a].s < done[b].s /\ done[b].e < done[a].e)
            => Leq(File[a].v1, File[b].v1) /\ Leq(File[b].v2, File[a].v2)
\* No time is stored that does not fit.
Fit == \A k \in 1..Len(File) : File[k].ty # "integer" => Leq(IF File[k].ty = "interval" THEN File[k].v2 ELSE File[k].v1,
                                                           IF File[k].ty = "interval" THEN MaxEnd ELSE MaxInstant)
Counted == ~Late => Len(done) = Cardinality({k \in 1..Len(prog) : prog[k].op \in {"finish", "instant", "integer"}})
=============================================================================
