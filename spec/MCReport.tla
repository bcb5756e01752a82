------------------------------ MODULE MCReport ------------------------------
(***************************************************************************)
(* The tool looks for columns to show until all are found, sorts the items *)
(* and lists them until the first below the threshold.                     *)
(***************************************************************************)
EXTENDS Report
CONSTANTS Lbls, Selfs, Totals, Percents
VARIABLES I, total, p, scan, cols, sorted, rows, rest
vars == <<I, total, p, scan, cols, sorted, rows, rest>>
Flags == {"hits", "blocked", "load", "hash"}
\* each item has at most one kind of extra value
Item(s, f) == [NoneItem EXCEPT !.self = <<0, s>>, !.hits = IF f = "hits" THEN 1 ELSE 0, !.blocked = IF f = "blocked" THEN <<0, 1>> ELSE Zero,
                               !.load = IF f = "load" THEN <<0, 1>> ELSE Zero, !.hash = IF f = "hash" THEN <<0, 1>> ELSE Zero]
Init == /\ I \in [Lbls -> {Item(s, f) : s \in Selfs, f \in Flags \union {"no"}}] /\ total \in Totals /\ p \in Percents
        /\ scan = Lbls /\ cols = {} /\ sorted = <<>> /\ rows = <<>> /\ rest = Lbls
Has(x) == {f \in Flags : CASE f = "hits" -> x.hits > 0 [] f = "blocked" -> x.blocked # Zero [] f = "load" -> x.load # Zero [] f = "hash" -> x.hash # Zero}
Scan == /\ scan # {} /\ LET l == CHOOSE l \in scan : TRUE IN
           /\ cols' = cols \union Has(I[l])
           /\ scan' = IF cols' = Flags THEN {} ELSE scan \ {l}
        /\ UNCHANGED <<I, total, p, sorted, rows, rest>>
\* a stable sort may put equal items in any order, as the table of items has none
Sort == /\ scan = {} /\ rest # {}
        /\ \E l \in {x \in rest : \A y \in rest : I[y].self[2] <= I[x].self[2]} : sorted' = Append(sorted, l) /\ rest' = rest \ {l}
        /\ UNCHANGED <<I, total, p, scan, cols, rows>>
ListOne == /\ rest = {} /\ sorted # <<>>
           /\ IF I[sorted[1]].self[2] * 100000 < p * total THEN sorted' = <<>> /\ UNCHANGED rows
              ELSE sorted' = Tail(sorted) /\ rows' = Append(rows, sorted[1])
           /\ UNCHANGED <<I, total, p, scan, cols, rest>>
Spec == Init /\ [][Scan \/ Sort \/ ListOne]_vars
Done == scan = {} /\ rest = {} /\ sorted = <<>>
Right == Done => /\ cols = Columns(I)
                 /\ {rows[k] : k \in 1..Len(rows)} = Listed(I, <<0, total>>, p)
                 /\ \A a, b \in 1..Len(rows) : a < b => rows[a] # rows[b] /\ Le(I[rows[b]].self, I[rows[a]].self)
=============================================================================
