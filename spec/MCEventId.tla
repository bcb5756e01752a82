------------------------------ MODULE MCEventId ------------------------------
(***************************************************************************)
(* The event id grammar: a byte by byte parser (a state machine over the   *)
(* text) finds exactly what ParseEventId defines; ids built from good      *)
(* labels and arguments parse back to these; nothing else is misparsed.    *)
(***************************************************************************)
EXTENDS EventId, FiniteSets, TLC, Json
CONSTANTS MaxLen, Alphabet
VARIABLES text,    \* bytes read so far
          st,      \* "run", or "stop" after a bad argument, or "error" after a bad label
          done, cur, out  \* finished pieces and the current one
pvars == <<text, st, done, cur, out>>

Runs(bs) == FoldLeft(LAMBDA a, b : IF a # <<>> /\ a[Len(a)][1] = b THEN [a EXCEPT ![Len(a)][2] = @ + 1]
                                    ELSE Append(a, <<b, 1>>), <<>>, bs)
PInit == text = <<>> /\ st = "run" /\ done = <<>> /\ cur = <<>> /\ out = FALSE
GoodBytes(bs) == bs # <<>> /\ \A k \in 1..Len(bs) : bs[k] \notin Control \/ bs[k] \in Space
Close == IF GoodBytes(cur) THEN <<Append(done, cur), "run">>
         ELSE <<done, IF done = <<>> THEN "error" ELSE "stop">>
Read(b) == /\ Len(text) < MaxLen /\ ~out
           /\ text' = Append(text, b)
           /\ IF st # "run" THEN UNCHANGED <<st, done, cur>>
              ELSE IF b = Sep THEN done' = Close[1] /\ st' = Close[2] /\ cur' = <<>>
              ELSE cur' = Append(cur, b) /\ UNCHANGED <<st, done>>
           /\ UNCHANGED out
PEmit == /\ ~out /\ out' = TRUE /\ PrintT(<<"CASE", ToJson([text |-> text])>>) /\ UNCHANGED <<text, st, done, cur>>
PNext == \E b \in Alphabet : Read(b)
PSpec == PInit /\ [][PNext]_pvars
GSpec == PInit /\ [][PNext \/ PEmit]_pvars

\* What the machine says when the text ends here.
End == IF st = "run" THEN Close ELSE <<done, st>>
Result == IF End[2] = "error" THEN [label |-> ParseError, args |-> <<>>]
          ELSE [label |-> Runs(End[1][1]), args |-> [k \in 1..(Len(End[1]) - 1) |-> Runs(End[1][k + 1])]]
MachineAgrees == ParseEventId(Runs(text)) = Result

\* Building an id and parsing it gives the parts back; a part that is no good stops there.
Pieces == Split(Runs(text))
RoundTrip == (\A k \in 1..Len(Pieces) : GoodText(Pieces[k]))
             => ParseEventId(Runs(text)) = [label |-> Pieces[1], args |-> Tail(Pieces)]
Prefix == LET r == ParseEventId(Runs(text)) IN
          r.label = ParseError \/ (r.label = Pieces[1] /\ Len(r.args) < Len(Pieces)
                                   /\ \A k \in 1..Len(r.args) : r.args[k] = Pieces[k + 1] /\ GoodText(r.args[k]))
=============================================================================
