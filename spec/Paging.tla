------------------------------- MODULE Paging -------------------------------
(***************************************************************************)
(* Streams cut into pages anywhere, and the pages of all streams put into  *)
(* a file in any order that keeps those of each stream. Put together, they *)
(* give the streams: neither the cuts nor the order matter.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS Events, Data, Index, Emitting   \* lengths of the streams
VARIABLES done, file, out
vars == <<done, file, out>>
Tags == {"events", "data", "index"}
Size == [s \in Tags |-> CASE s = "events" -> Events [] s = "data" -> Data [] OTHER -> Index]
Stream(s) == [k \in 1..Size[s] |-> <<s, k>>]
Init == done = [s \in Tags |-> 0] /\ file = <<>> /\ out = FALSE
Page(s, n) == /\ done[s] + n <= Size[s]
              /\ file' = Append(file, [tag |-> s, c |-> SubSeq(Stream(s), done[s] + 1, done[s] + n)])
              /\ done' = [done EXCEPT ![s] = @ + n] /\ UNCHANGED out
Whole == done = Size
Next == \/ \E s \in Tags : \E n \in 1..Size[s] : Page(s, n)
        \/ Emitting /\ Whole /\ ~out /\ out' = TRUE /\ UNCHANGED <<done, file>>
           /\ PrintT(<<"CASE", ToJson([pages |-> [k \in 1..Len(file) |-> <<file[k].tag, Len(file[k].c)>>]])>>)
Spec == Init /\ [][Next]_vars
\* Reading: the contents of the pages of a tag, one after the other.
Put(s) == FoldLeft(LAMBDA acc, p : IF p.tag = s THEN acc \o p.c ELSE acc, <<>>, file)
Together == \A s \in Tags : Put(s) = SubSeq(Stream(s), 1, done[s])
Complete == Whole => \A s \in Tags : Put(s) = Stream(s)
=============================================================================
