------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* The bytes of a profile file, as documented: what each byte stands for,  *)
(* in both directions. w is the width of string ids and addresses: eight   *)
(* bytes in version 9, four in version 8. Numbers of 64 bits are four      *)
(* limbs of 16, texts are bytes.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
Widths == {4, 8}
VersionOf(w) == IF w = 8 THEN 9 ELSE 8
Ref == 254
End == 255
MaxVirtual == 100000000
MetaId == 100000001
NoId == 100000002
First == 100000003
Magic(what) == CASE what = "file" -> <<77, 77, 80, 68>>      \* MMPD
                 [] what = "events" -> <<77, 77, 69, 83>>    \* MMES
                 [] what = "data" -> <<77, 77, 83, 68>>      \* MMSD
                 [] what = "index" -> <<77, 77, 83, 73>>     \* MMSI
Tag(s) == CASE s = "events" -> 0 [] s = "data" -> 1 [] s = "index" -> 2
StreamOfTag(b) == CASE b = 0 -> "events" [] b = 1 -> "data" [] b = 2 -> "index" [] OTHER -> "none"
HeadSize == 8
RefSize(w) == w + 1
EventSize(w) == 2 * w + 16
Concat(q) == FoldLeft(LAMBDA a, b : a \o b, <<>>, q)
-----------------------------------------------------------------------------
(* Numbers, least significant byte first. *)
Byte(n, k) == (n \div (256 ^ k)) % 256
Le32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Id(n, w) == IF w = 4 THEN Le32(n) ELSE Le32(n) \o <<0, 0, 0, 0>>
Lo(l) == <<l % 256, l \div 256>>
LimbsLe(ls) == Concat([k \in 1..Len(ls) |-> Lo(ls[k])])
\* The 16-bit limbs of n bytes from position p on.
LimbsAt(b, p, n) == [k \in 1..(n \div 2) |-> b[p + 2 * k - 2] + 256 * b[p + 2 * k - 1]]
\* A number that is below 2^31, or else -1.
Small(ls) == IF (\A k \in 3..Len(ls) : ls[k] = 0) /\ ls[2] < 32768 THEN ls[1] + 65536 * ls[2] ELSE -1
NumAt(b, p, n) == Small(LimbsAt(b, p, n))
-----------------------------------------------------------------------------
(* Events: the values in 48 bits each, with the last two for the second one marking the kind. *)
Instant == <<65535, 65535, 65535, 0>>
Integer == <<65534, 65535, 65535, 0>>
Packed(v1, v2) == LimbsLe(<<v1[1], v1[2], v2[1], v2[2], v2[3], v1[3]>>)
Second(e) == IF e.ty = "instant" THEN Instant ELSE IF e.ty = "integer" THEN Integer ELSE e.v2
EventBytes(e, w) == Id(e.kind, w) \o Id(e.id, w) \o LimbsLe(e.tid) \o Packed(e.v1, Second(e))
Zero == <<0, 0, 0, 0>>
EventAt(b, p, w) ==
  LET q == p + 2 * w
      x == LimbsAt(b, q + 4, 12)
      v1 == <<x[1], x[2], x[6], 0>>
      v2 == <<x[3], x[4], x[5], 0>>
      ty == IF v2 = Instant THEN "instant" ELSE IF v2 = Integer THEN "integer" ELSE "interval"
  IN [ty |-> ty, kind |-> NumAt(b, p, w), id |-> NumAt(b, p + w, w), tid |-> LimbsAt(b, q, 4),
      v1 |-> v1, v2 |-> IF ty = "interval" THEN v2 ELSE Zero]
-----------------------------------------------------------------------------
(* Strings: parts that are text, or reference another string. *)
PartBytes(c, w) == IF c.k = "text" THEN c.b ELSE <<Ref>> \o Id(c.id, w)
StringBytes(s, w) == Concat([k \in 1..Len(s) |-> PartBytes(s[k], w)]) \o <<End>>
\* The string at a position of the data stream, as parts.
RECURSIVE PartsAt(_, _, _)
PartsAt(b, p, w) ==
  IF p > Len(b) THEN <<[k |-> "cut"]>>
  ELSE IF b[p] = End THEN <<>>
  ELSE IF b[p] = Ref THEN (IF p + w > Len(b) THEN <<[k |-> "cut"]>> ELSE <<[k |-> "ref", id |-> NumAt(b, p + 1, w)]>> \o PartsAt(b, p + RefSize(w), w))
  ELSE LET q == CHOOSE q \in p..(Len(b) + 1) : (q > Len(b) \/ b[q] \in {Ref, End}) /\ \A r \in p..(q - 1) : b[r] \notin {Ref, End}
       IN <<[k |-> "text", b |-> SubSeq(b, p, q - 1)]>> \o PartsAt(b, q, w)
\* The index says where the virtual ids are; the last entry counts.
Entries(ix, w) == [k \in 1..((Len(ix) - HeadSize) \div (2 * w)) |->
                     LET p == HeadSize + (k - 1) * 2 * w + 1 IN [id |-> NumAt(ix, p, w), addr |-> NumAt(ix, p + w, w)]]
IndexOk(ix, w) == (Len(ix) - HeadSize) % (2 * w) = 0
Unknown == <<60, 117, 110, 107, 110, 111, 119, 110, 62>>
AddrOf(id, es) ==
  IF id >= First THEN id - First
  ELSE LET ks == {k \in 1..Len(es) : es[k].id = id}
       IN IF ks = {} THEN -1 ELSE es[CHOOSE k \in ks : \A j \in ks : j <= k].addr
RECURSIVE TextOf(_, _, _, _)
TextOf(id, data, es, w) ==
  LET a == AddrOf(id, es)
  IN IF a < 0 THEN Unknown
     ELSE LET ps == PartsAt(data, a + 1, w)
          IN Concat([k \in 1..Len(ps) |-> IF ps[k].k = "text" THEN ps[k].b ELSE TextOf(ps[k].id, data, es, w)])
-----------------------------------------------------------------------------
(* Pages and the file. *)
Header(what, v) == Magic(what) \o Le32(v)
Page(s, b) == <<Tag(s)>> \o Le32(Len(b)) \o b
FileBytes(pages, v) == Header("file", v) \o Concat([k \in 1..Len(pages) |-> Page(pages[k].s, pages[k].b)])
\* The pages from a position on; the last may be something else.
RECURSIVE PagesAt(_, _)
PagesAt(f, p) ==
  IF p > Len(f) THEN <<>>
  ELSE IF p + 4 > Len(f) THEN <<[s |-> "none", b |-> <<>>]>>
  ELSE LET n == NumAt(f, p + 1, 4)
       IN IF n < 1 \/ p + 4 + n > Len(f) THEN <<[s |-> "none", b |-> <<>>]>>
          ELSE <<[s |-> StreamOfTag(f[p]), b |-> SubSeq(f, p + 5, p + 4 + n)]>> \o PagesAt(f, p + 5 + n)
StreamOf(pages, s) == Concat([k \in 1..Len(pages) |-> IF pages[k].s = s THEN pages[k].b ELSE <<>>])
Starts(b, h) == Len(b) >= Len(h) /\ SubSeq(b, 1, Len(h)) = h
\* Is this a whole file of this width?
WellFormed(f, w) ==
  /\ Starts(f, Header("file", VersionOf(w)))
  /\ \E ps \in {PagesAt(f, HeadSize + 1)} :
       /\ \A k \in 1..Len(ps) : ps[k].s # "none"
       /\ \A s \in {"events", "data", "index"} : Starts(StreamOf(ps, s), Header(s, VersionOf(w)))
       /\ (Len(StreamOf(ps, "events")) - HeadSize) % EventSize(w) = 0
       /\ IndexOk(StreamOf(ps, "index"), w)
\* What it says: the text of the metadata, and the events with texts.
Decoded(f, w) ==
  LET ps == PagesAt(f, HeadSize + 1)
      ev == StreamOf(ps, "events")
      data == StreamOf(ps, "data")
      es == Entries(StreamOf(ps, "index"), w)
      n == (Len(ev) - HeadSize) \div EventSize(w)
      Show(e) == [ty |-> e.ty, v1 |-> e.v1, v2 |-> e.v2, tid |-> e.tid,
                  kind |-> TextOf(e.kind, data, es, w), text |-> TextOf(e.id, data, es, w)]
  IN [meta |-> TextOf(MetaId, data, es, w), events |-> [k \in 1..n |-> Show(EventAt(ev, HeadSize + (k - 1) * EventSize(w) + 1, w))]]
=============================================================================
