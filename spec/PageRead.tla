------------------------------ MODULE PageRead ------------------------------
(***************************************************************************)
(* Reading the page the kernel shares for a counter: its fields are        *)
(* protected by a sequence number. The kernel changes them in one go, as   *)
(* it runs on the processor of the reader, which sees it between any two   *)
(* of its steps. What the reader takes for the fields was on the page at   *)
(* one moment.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Fields, MaxUpdates
VARIABLES page, lock, updates, pc, seen, got, result, past
vars == <<page, lock, updates, pc, seen, got, result, past>>
Init == /\ page = [f \in Fields |-> 0] /\ lock = 0 /\ updates = 0 /\ pc = "lock" /\ seen = -1
        /\ got = <<>> /\ result = <<>> /\ past = {page}
Update == /\ updates < MaxUpdates /\ updates' = updates + 1 /\ lock' = lock + 2
          /\ page' \in [Fields -> 0..1] /\ past' = past \union {page'}
          /\ UNCHANGED <<pc, seen, got, result>>
Take == pc = "lock" /\ seen' = lock /\ got' = <<>> /\ pc' = "fields" /\ UNCHANGED <<page, lock, updates, result, past>>
Field == /\ pc = "fields" /\ DOMAIN got # Fields
         /\ \E f \in Fields \ DOMAIN got : got' = [g \in DOMAIN got \union {f} |-> IF g = f THEN page[f] ELSE got[g]]
         /\ UNCHANGED <<page, lock, updates, pc, seen, result, past>>
Verify == /\ pc = "fields" /\ DOMAIN got = Fields
          /\ IF lock = seen THEN result' = got /\ pc' = "done" ELSE pc' = "lock" /\ UNCHANGED result
          /\ UNCHANGED <<page, lock, updates, seen, got, past>>
Spec == Init /\ [][Update \/ Take \/ Field \/ Verify]_vars
Consistent == pc = "done" => result \in past
=============================================================================
