------------------------------- MODULE Strings -------------------------------
(***************************************************************************)
(* The string table as its users see it: strings are built from literal    *)
(* values and references to other strings, virtual ids are mapped to       *)
(* strings, and every id resolves to a text.                               *)
(*                                                                         *)
(* A text is a sequence of runs <<byte, count>> of its UTF-8 bytes, with   *)
(* neighbouring runs of the same byte joined, so that equal texts are      *)
(* equal values. An id is <<"e", i>> (the i-th string allocated),          *)
(* <<"m", v>> (virtual id v) or <<"x", 0>> (the invalid id).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES
  entries,   \* sequence of strings allocated; each a sequence of components
  maps       \* sequence of mappings [lo, hi, e]: the virtual ids lo..hi map to string e
svars == <<entries, maps>>

MaxVirtual == 100000000
\* "<unknown>" and "<invalid>"
Unknown == <<<<60,1>>,<<117,1>>,<<110,1>>,<<107,1>>,<<110,1>>,<<111,1>>,<<119,1>>,<<110,1>>,<<62,1>>>>
Invalid == <<<<60,1>>,<<105,1>>,<<110,1>>,<<118,1>>,<<97,1>>,<<108,1>>,<<105,1>>,<<100,1>>,<<62,1>>>>

Cat(a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE IF a[Len(a)][1] = b[1][1]
       THEN [a EXCEPT ![Len(a)][2] = @ + b[1][2]] \o Tail(b)
       ELSE a \o b
CatAll(ts) == FoldLeft(Cat, <<>>, ts)

\* The string a virtual id is mapped to by the first m mappings: the latest one counts. 0 if none.
MappedTo(v, m) == LET J == {j \in 1..m : maps[j].lo <= v /\ v <= maps[j].hi}
                  IN IF J = {} THEN 0 ELSE maps[CHOOSE j \in J : \A k \in J : k <= j].e

\* The text of an id, looking at the first m mappings.
RECURSIVE TextM(_, _)
TextOfEntry(i, m) ==
  CatAll([c \in 1..Len(entries[i]) |-> IF entries[i][c][1] = "v" THEN entries[i][c][2] ELSE TextM(entries[i][c], m)])
TextM(id, m) ==
  CASE id[1] = "e" -> TextOfEntry(id[2], m)
    [] id[1] = "m" -> (LET e == MappedTo(id[2], m) IN IF e = 0 THEN Unknown ELSE TextOfEntry(e, m))
    [] OTHER -> Unknown
Text(id) == TextM(id, Len(maps))

SInit == entries = <<>> /\ maps = <<>>
\* A component may refer to any string allocated before, or to any virtual id at all.
CompOk(c) == c[1] \in {"v", "m", "x"} \/ (c[1] = "e" /\ c[2] \in 1..Len(entries))
Alloc(comps) == /\ \A c \in 1..Len(comps) : CompOk(comps[c])
                /\ entries' = Append(entries, comps)
                /\ UNCHANGED maps
CanMap(v) == v >= 0 /\ v <= MaxVirtual
Map(rs, e) == /\ e \in 1..Len(entries)
              /\ \A j \in 1..Len(rs) : CanMap(rs[j][1]) /\ CanMap(rs[j][2])
              /\ maps' = maps \o [j \in 1..Len(rs) |-> [lo |-> rs[j][1], hi |-> rs[j][2], e |-> e]]
              /\ UNCHANGED entries
=============================================================================
