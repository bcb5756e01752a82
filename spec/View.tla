-------------------------------- MODULE View --------------------------------
(* What mmview prints: events in recorded order, times since the earliest one of the profile. *)
EXTENDS Chrome
Earliest(evs) == MinT({evs[i].s : i \in {j \in 1..Len(evs) : evs[j].ty # "integer"}})
Viewed(evs, filter) ==
  LET sel == SelectSeq(evs, LAMBDA e : filter = <<>> \/ e.th = filter[1])
      t0 == Earliest(evs)
  IN [k \in 1..Len(sel) |-> LET e == sel[k] IN
        [k |-> e.k, l |-> e.l, a |-> e.a, th |-> e.th,
         v |-> IF e.ty = "integer" THEN <<e.s>>
               ELSE IF e.ty = "instant" THEN <<Micro(Minus(e.s, t0))>>
               ELSE <<Micro(Minus(e.s, t0)), Micro(Minus(e.e, t0))>>, ty |-> e.ty]]
=============================================================================
