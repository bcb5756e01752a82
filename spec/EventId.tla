------------------------------- MODULE EventId -------------------------------
(***************************************************************************)
(* The grammar of event ids: a label and arguments, each text without      *)
(* control characters other than white space, separated by 0x1E. Texts are *)
(* runs of bytes as in Strings.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
Sep == 30
Space == {9, 10, 11, 12, 13, 32}
Control == (0..31) \union {127}
GoodText(t) == t # <<>> /\ \A j \in 1..Len(t) : t[j][1] \notin Control \/ t[j][1] \in Space
\* The pieces between separators: n + 1 pieces for n separator bytes.
Split(t) == FoldLeft(LAMBDA a, r :
              IF r[1] # Sep THEN [a EXCEPT ![Len(a)] = Append(@, r)]
              ELSE a \o [j \in 1..r[2] |-> <<>>], << <<>> >>, t)
\* "<parse error>"
ParseError == <<<<60,1>>,<<112,1>>,<<97,1>>,<<114,1>>,<<115,1>>,<<101,1>>,<<32,1>>,<<101,1>>,<<114,2>>,<<111,1>>,<<114,1>>,<<62,1>>>>
ParseEventId(t) ==
  LET ps == Split(t)
      bad == {j \in 2..Len(ps) : ~GoodText(ps[j])}
      stop == IF bad = {} THEN Len(ps) ELSE (CHOOSE j \in bad : \A k \in bad : j <= k) - 1
  IN IF GoodText(ps[1]) THEN [label |-> ps[1], args |-> SubSeq(ps, 2, stop)]
     ELSE [label |-> ParseError, args |-> <<>>]
=============================================================================
