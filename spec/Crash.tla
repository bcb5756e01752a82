-------------------------------- MODULE Crash --------------------------------
(***************************************************************************)
(* What may be read of a profile after a crash: the three streams are      *)
(* prefixes of what was written to them, cut independently. A profile read *)
(* then has the first events, with their true threads, times and values.   *)
(* Texts are true as far as they got to the disk: looking at the first m   *)
(* mappings and the first d strings; of string d + 1 the first j           *)
(* components may be there, followed by "<invalid>"; an unmapped id shows  *)
(* as "<unknown>". Anything else must fail.                                *)
(***************************************************************************)
EXTENDS Strings, EventId
Fails == [ok |-> FALSE, text |-> <<>>]
Shows(t) == [ok |-> TRUE, text |-> t]
RECURSIVE Seen(_, _, _, _), SeenComps(_, _, _, _, _)
\* The first n components of string i.
SeenComps(i, n, m, d, j) ==
  FoldLeft(LAMBDA a, c : LET x == IF c[1] = "v" THEN Shows(c[2]) ELSE Seen(c, m, d, j)
                         IN IF a.ok /\ x.ok THEN Shows(Cat(a.text, x.text)) ELSE Fails,
           Shows(<<>>), SubSeq(entries[i], 1, n))
SeenEntry(i, m, d, j) ==
  IF i <= d THEN SeenComps(i, Len(entries[i]), m, d, j)
  ELSE IF i = d + 1 THEN LET x == SeenComps(i, j, m, d, j) IN IF x.ok THEN Shows(Cat(x.text, Invalid)) ELSE Fails
  ELSE Fails
Seen(id, m, d, j) ==
  CASE id[1] = "e" -> SeenEntry(id[2], m, d, j)
    [] id[1] = "m" -> (LET e == MappedTo(id[2], m) IN IF e = 0 THEN Shows(Unknown) ELSE SeenEntry(e, m, d, j))
    [] OTHER -> Shows(Unknown)
\* How far the streams may have got: <<m, d, j>>.
Cuts == {<<m, d, j>> \in (0..Len(maps)) \X (0..Len(entries)) \X (0..FoldLeft(LAMBDA a, e : IF Len(e) > a THEN Len(e) ELSE a, 0, entries)) :
           IF d = Len(entries) THEN j = 0 ELSE j <= Len(entries[d + 1])}
=============================================================================
