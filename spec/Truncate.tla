------------------------------ MODULE Truncate ------------------------------
(***************************************************************************)
(* A file is a sequence of pages [tag, data]; a stream is the data of the  *)
(* pages with its tag. Truncating keeps the first page of events only.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
RECURSIVE Stream(_, _)
Stream(ps, tag) == IF ps = <<>> THEN <<>> ELSE (IF ps[1].tag = tag THEN ps[1].data ELSE <<>>) \o Stream(Tail(ps), tag)
FirstPage(ps, tag) == LET S == {k \in 1..Len(ps) : ps[k].tag = tag} IN
                      IF S = {} THEN <<>> ELSE ps[CHOOSE k \in S : \A j \in S : k <= j].data
IsTruncation(a, b) == /\ Stream(b, "data") = Stream(a, "data") /\ Stream(b, "index") = Stream(a, "index")
                      /\ Stream(b, "events") = FirstPage(a, "events")
=============================================================================
