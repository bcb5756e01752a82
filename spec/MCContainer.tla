----------------------------- MODULE MCContainer -----------------------------
(* All combinations of headers, as cases for the code, and the sanity of the verdict. *)
EXTENDS Container, SequencesExt, TLC, Json
CONSTANTS Lens, Vs
Hdr(l, m, v) == [len |-> l, magic |-> m, version |-> v]
Tops == {Hdr(8, m, v) : m \in {"good", "bad"}, v \in Vs} \union {Hdr(l, "good", v) : l \in Lens, v \in {8, 9}}
SHeads(v) == {Hdr(8, "good", v), Hdr(8, "bad", v), Hdr(8, "good", IF v = 9 THEN 8 ELSE 9), Hdr(8, "good", 10), Hdr(4, "good", v), Hdr(1, "good", v), Hdr(-1, "good", v)}
VARIABLES f, st
Init == /\ st = "new"
        /\ \E top \in Tops, metas \in {"good", "missing", "broken"} :
             \/ f = [top |-> top, meta |-> metas,
                     streams |-> <<[s |-> "events", h |-> Hdr(8, "good", top.version)], [s |-> "data", h |-> Hdr(8, "good", top.version)],
                                   [s |-> "index", h |-> Hdr(8, "good", top.version)]>>]
             \/ /\ metas = "good" /\ HeaderOk(top, Versions)
                /\ \E e, d, x \in SHeads(top.version) :
                     f = [top |-> top, meta |-> metas,
                          streams |-> SelectSeq(<<[s |-> "events", h |-> e], [s |-> "data", h |-> d], [s |-> "index", h |-> x]>>,
                                                LAMBDA z : z.h.len >= 0)]
Emit == st = "new" /\ st' = "out" /\ UNCHANGED f /\ PrintT(<<"CASE", ToJson(f)>>)
Spec == Init /\ [][UNCHANGED <<f, st>>]_<<f, st>>
GSpec == Init /\ [][Emit]_<<f, st>>
\* Whatever opens has a supported version and all its streams.
Sound == Verdict(f) = "ok" => f.top.len = 8 /\ f.top.magic = "good" /\ f.top.version \in {8, 9}
                              /\ {f.streams[k].s : k \in 1..Len(f.streams)} = Streams
OneGood == (\E k \in 1..Len(f.streams) : f.streams[k].h.magic = "bad") /\ f.top.version = 9 => Verdict(f) = "err"
=============================================================================
