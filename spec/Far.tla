-------------------------------- MODULE Far --------------------------------
(***************************************************************************)
(* Streams of any length: addresses are how much was written before, and   *)
(* strings keep their texts wherever they are. A number is <<h, l>>, which *)
(* stands for h * Base + l; real streams go beyond what TLC can count.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT Base
Num(n) == <<n \div Base, n % Base>>
Plus(a, b) == <<a[1] + b[1] + (a[2] + b[2]) \div Base, (a[2] + b[2]) % Base>>
Sum(q) == FoldLeft(Plus, <<0, 0>>, q)
Header == 8
First == Num(100000003)
RefSize == 9
VARIABLES pos,     \* what was written to each stream
          strings  \* the strings: their ids and parts
fvars == <<pos, strings>>
FInit == pos = [raw |-> <<0, 0>>, data |-> Num(Header)] /\ strings = <<>>
\* A part: n bytes of filling, some text, or a reference to an earlier string.
PartSize(c) == CASE c.k = "fill" -> c.n [] c.k = "text" -> Num(Len(c.b)) [] c.k = "ref" -> Num(RefSize)
Size(parts) == Plus(Sum([j \in 1..Len(parts) |-> PartSize(parts[j])]), Num(1))
\* n bytes are written and end up at an address.
Write(n, at) == /\ at = pos.raw /\ pos' = [pos EXCEPT !.raw = Plus(@, n)] /\ UNCHANGED strings
\* A string is written and gets an id.
Alloc(parts, id) ==
  /\ id = Plus(First, pos.data)
  /\ strings' = Append(strings, [id |-> id, parts |-> parts])
  /\ pos' = [pos EXCEPT !.data = Plus(@, Size(parts))]
RECURSIVE Text(_)
Text(k) == LET ps == strings[k].parts IN
  FoldLeft(LAMBDA a, c : a \o (CASE c.k = "text" -> c.b [] c.k = "ref" -> Text(c.to) [] OTHER -> <<>>), <<>>, ps)
=============================================================================
