------------------------------ MODULE StringCut ------------------------------
(***************************************************************************)
(* The bytes of a string table cut off anywhere, as by a crash, with any   *)
(* number of the mappings: both ways of reading an id give a text that     *)
(* Crash allows, or fail (by running off the data, or finding no end).     *)
(***************************************************************************)
EXTENDS StringImpl, Crash
Fail == <<-1>>
AndThen(a, b) == IF a = Fail \/ b = Fail THEN Fail ELSE a \o b
ConcMapM(v, m) == LET e == MappedTo(v, m) IN IF e = 0 THEN -1 ELSE addrs[e]
ResolveM(id, m) == IF id < InvalidId THEN ConcMapM(id, m) ELSE IF id = InvalidId THEN -1 ELSE id - FirstRegular
Special(b) == b \in {TAG, TERM}
RECURSIVE SlowC(_, _, _), WalkC(_, _, _), FastC(_, _, _)
\* n bytes of the data are there.
WalkC(p, m, n) ==
  IF p >= n THEN Fail
  ELSE CASE At(p) = TERM -> <<>>
         [] At(p) = TAG -> (IF p + RefSize > n THEN Fail ELSE AndThen(SlowC(Decode(p), m, n), WalkC(p + RefSize, m, n)))
         [] OTHER -> LET E == {q \in p..(n - 1) : Special(At(q))} IN
                     IF E = {} THEN Flat(Invalid)
                     ELSE LET q == CHOOSE x \in E : \A y \in E : x <= y
                          IN AndThen(SubSeq(data, p + 1, q), WalkC(q, m, n))
SlowC(id, m, n) == LET p == ResolveM(id, m) IN IF p = -1 THEN Flat(Unknown) ELSE WalkC(p, m, n)
FastC(id, m, n) ==
  LET p == ResolveM(id, m) IN
  IF p = -1 THEN Flat(Unknown)
  ELSE LET E == {q \in p..(n - 1) : At(q) = TERM} IN
       IF E = {} THEN Fail
       ELSE LET q == (CHOOSE x \in E : \A y \in E : x <= y) - p
            IN IF At(p) = TAG /\ q = RefSize THEN FastC(Decode(p), m, n)
               ELSE IF \A k \in 0..(q - 1) : At(p + k) \in {0, 1} THEN [k \in 1..q |-> At(p + k - 1)]
               ELSE SlowC(id, m, n)
\* The byte alphabet has no letters of its own for the placeholders, so these are compared as bytes.
EndOf(d) == IF d < Len(entries) THEN addrs[d + 1] ELSE Len(data)
Whole(n) == Cardinality({d \in 1..Len(entries) : EndOf(d) <= n})
Allowed(id, m, n) == {LET s == Seen(id, m, Whole(n), j) IN IF s.ok THEN Flat(s.text) ELSE Fail :
                        j \in 0..(IF Whole(n) = Len(entries) THEN 0 ELSE Len(entries[Whole(n) + 1]))}
NeverMisread == \A m \in 0..Len(maps), n \in 0..Len(data), id \in AllIds :
                  LET A == Allowed(id, m, n) \union {Fail} IN SlowC(IdOf(id), m, n) \in A /\ FastC(IdOf(id), m, n) \in A
\* Nothing is lost needlessly: what got to the disk in whole is read.
RECURSIVE Needs(_, _)
NeedsOf(e, m) == {e} \union UNION {Needs(entries[e][c], m) : c \in {x \in 1..Len(entries[e]) : entries[e][x][1] # "v"}}
Needs(id, m) == CASE id[1] = "e" -> NeedsOf(id[2], m)
                  [] id[1] = "m" -> (LET e == MappedTo(id[2], m) IN IF e = 0 THEN {} ELSE NeedsOf(e, m))
                  [] OTHER -> {}
StillRead == \A m \in 0..Len(maps), n \in 0..Len(data), id \in AllIds :
               (\A e \in Needs(id, m) : e <= Whole(n)) =>
                 LET w == Flat(TextM(id, m)) IN SlowC(IdOf(id), m, n) = w /\ FastC(IdOf(id), m, n) = w
=============================================================================
