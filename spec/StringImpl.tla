----------------------------- MODULE StringImpl -----------------------------
(***************************************************************************)
(* The encoding of strings as bytes and the two ways of decoding them, in  *)
(* an alphabet of four byte values: two for text, one that tags a          *)
(* reference and one that ends a string. Ids are three digits to the base  *)
(* four, so that the digits of an id can look like tags and terminators,   *)
(* as the bytes of real ids do. Refines Strings: both ways of reading give *)
(* exactly the text, for every id.                                         *)
(***************************************************************************)
EXTENDS Strings, TLC, Json

CONSTANTS MaxEntries, MaxComps, MaxMaps, Lens, VIds

TAG == 2
TERM == 3
RefSize == 4
InvalidId == 13
FirstRegular == 14

VARIABLES data, addrs, hist, out
ivars == <<svars, data, addrs, hist, out>>

Bytes(id) == <<id % 4, (id \div 4) % 4, id \div 16>>
IdOf(c) == CASE c[1] = "e" -> FirstRegular + addrs[c[2]] [] c[1] = "m" -> c[2] [] OTHER -> InvalidId
EncComp(c) == IF c[1] = "v"
              THEN FoldLeft(LAMBDA a, r : a \o [k \in 1..r[2] |-> r[1]], <<>>, c[2])
              ELSE <<TAG>> \o Bytes(IdOf(c))
Enc(comps) == FoldLeft(LAMBDA a, c : a \o EncComp(c), <<>>, comps) \o <<TERM>>

Flat(t) == FoldLeft(LAMBDA a, r : a \o [k \in 1..r[2] |-> r[1]], <<>>, t)

\* ---- the reader
ConcMap(v) == LET e == MappedTo(v, Len(maps)) IN IF e = 0 THEN -1 ELSE addrs[e]
Resolve(id) == IF id < InvalidId THEN ConcMap(id) ELSE IF id = InvalidId THEN -1 ELSE id - FirstRegular
At(p) == data[p + 1]
Decode(p) == At(p + 1) + 4 * At(p + 2) + 16 * At(p + 3)
RECURSIVE Slow(_), Walk(_), Fast(_)
Walk(p) == CASE At(p) = TERM -> <<>>
             [] At(p) = TAG -> Slow(Decode(p)) \o Walk(p + RefSize)
             [] OTHER -> <<At(p)>> \o Walk(p + 1)
Slow(id) == LET p == Resolve(id) IN IF p = -1 THEN Flat(Unknown) ELSE Walk(p)
Fast(id) ==
  LET p == Resolve(id) IN
  IF p = -1 THEN Flat(Unknown)
  ELSE LET q == CHOOSE d \in 0..(Len(data) - p - 1) : At(p + d) = TERM /\ \A k \in 0..(d - 1) : At(p + k) # TERM
       IN IF At(p) = TAG /\ q = RefSize THEN Fast(Decode(p))
          ELSE IF \A k \in 0..(q - 1) : At(p + k) \in {0, 1} THEN [k \in 1..q |-> At(p + k - 1)]
          ELSE Slow(id)

\* ---- steps
RECURSIVE Virtuals(_)
Virtuals(e) == UNION {IF entries[e][c][1] = "m" THEN {entries[e][c][2]}
                      ELSE IF entries[e][c][1] = "e" THEN Virtuals(entries[e][c][2]) ELSE {} : c \in 1..Len(entries[e])}
Values == {<<"v", IF n = 0 THEN <<>> ELSE <<<<0, n>>>>>> : n \in Lens}
Refs == {<<"e", k>> : k \in 1..Len(entries)} \union {<<"m", v>> : v \in VIds} \union {<<"x", 0>>}
Comps == UNION {[1..n -> Values \union Refs] : n \in 0..MaxComps}

IInit == SInit /\ data = <<>> /\ addrs = <<>> /\ hist = <<>> /\ out = FALSE
IAlloc == /\ Len(entries) < MaxEntries
          /\ \E cs \in Comps :
               /\ Alloc(cs)
               /\ data' = data \o Enc(cs)
               /\ addrs' = Append(addrs, Len(data))
               /\ hist' = Append(hist, [op |-> "alloc", comps |-> cs, id |-> Bytes(FirstRegular + Len(data))])
IMap == /\ Len(maps) < MaxMaps
        /\ \E v \in VIds, e \in 1..Len(entries) :
             /\ \A w \in Virtuals(e) : w < v
             /\ Map(<<<<v, v>>>>, e)
             /\ hist' = Append(hist, [op |-> "map", v |-> v, e |-> e])
        /\ UNCHANGED <<data, addrs>>
IEmit == /\ Len(entries) = MaxEntries /\ ~out
         /\ out' = TRUE /\ PrintT(<<"CASE", ToJson([hist |-> hist])>>)
         /\ UNCHANGED <<svars, data, addrs, hist>>
INext == (~out /\ (IAlloc \/ IMap) /\ UNCHANGED out)
GNext == INext \/ IEmit
ISpec == IInit /\ [][INext]_ivars
GSpec == IInit /\ [][GNext]_ivars

AllIds == {<<"e", k>> : k \in 1..Len(entries)} \union {<<"m", v>> : v \in VIds} \union {<<"x", 0>>}
ReadersAgree == \A id \in AllIds : Slow(IdOf(id)) = Flat(Text(id)) /\ Fast(IdOf(id)) = Flat(Text(id))
AddressesFit == Len(data) <= 64 - FirstRegular
View == <<svars, data, addrs>>
=============================================================================
