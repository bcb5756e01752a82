----------------------------- MODULE MCTruncate -----------------------------
(* One pass over the pages; the files it is given are also replayed. *)
EXTENDS Truncate, Json
CONSTANTS MaxPages
VARIABLES file, pos, out, seen
vars == <<file, pos, out, seen>>
Tags == {"data", "index", "events"}
Files == UNION {[1..n -> Tags] : n \in 0..MaxPages}
Page(f, k) == [tag |-> f[k], data |-> <<k>>]
Pages(f) == [k \in 1..Len(f) |-> Page(f, k)]
Init == file \in Files /\ pos = 1 /\ out = <<>> /\ seen = FALSE
Step == /\ pos <= Len(file) /\ pos' = pos + 1 /\ UNCHANGED file
        /\ IF file[pos] = "events" THEN seen' = TRUE /\ out' = (IF seen THEN out ELSE Append(out, Page(file, pos)))
           ELSE out' = Append(out, Page(file, pos)) /\ UNCHANGED seen
Spec == Init /\ [][Step]_vars
Right == pos = Len(file) + 1 => IsTruncation(Pages(file), out)
Emit == pos = 1 /\ ~seen /\ PrintT(<<"CASE", ToJson([tags |-> file])>>) /\ seen' = TRUE /\ UNCHANGED <<file, pos, out>>
GSpec == Init /\ [][Emit]_vars
=============================================================================
