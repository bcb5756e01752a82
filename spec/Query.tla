------------------------------- MODULE Query --------------------------------
(***************************************************************************)
(* What can be asked about recorded events, of one, of two, and of one and *)
(* a point of time. Answers that there may not be are sequences of at most *)
(* one value.                                                              *)
(***************************************************************************)
EXTENDS Profile
\* sum of two values, or of a value and a carry at the end
Plus(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + s1 \div 65536
      s3 == a[3] + b[3] + s2 \div 65536
      s4 == a[4] + b[4] + s3 \div 65536
  IN <<s1 % 65536, s2 % 65536, s3 % 65536, s4>>
Answer(e, q, got) ==
  CASE q = "interval" -> got = (e.ty = "interval")
    [] q = "instant" -> got = (e.ty = "instant")
    [] q = "integer" -> got = (e.ty = "integer")
    [] q = "start" -> got = (IF e.ty = "integer" THEN <<>> ELSE <<e.v1>>)
    [] q = "end" -> got = (IF e.ty = "integer" THEN <<>> ELSE IF e.ty = "instant" THEN <<e.v1>> ELSE <<e.v2>>)
    [] q = "value" -> got = (IF e.ty = "integer" THEN <<e.v1>> ELSE <<>>)
    [] q = "duration" -> IF e.ty = "interval" THEN Len(got) = 1 /\ Plus(e.v1, got[1]) = e.v2 ELSE got = <<>>
    [] q = "thread" -> got = e.tid
    [] OTHER -> FALSE
\* The time of a is around all of the time of b. An instant has no extent of its own, a number no time.
Contains(a, b) ==
  /\ a.ty = "interval"
  /\ \/ b.ty = "interval" /\ Leq(a.v1, b.v1) /\ Leq(b.v2, a.v2)
     \/ b.ty = "instant" /\ Leq(a.v1, b.v1) /\ Leq(b.v1, a.v2)
\* A point of time is in an interval from its start until, but without, its end; so it is in at most one
\* of two intervals following each other.
Holds(a, p) == a.ty = "interval" /\ Leq(a.v1, p) /\ ~Leq(a.v2, p)
=============================================================================
