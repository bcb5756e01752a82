----------------------------- MODULE CommandLine -----------------------------
(***************************************************************************)
(* The command line inside the metadata's JSON: every argument is escaped  *)
(* into a JSON string and followed by a blank, and the reader parses the   *)
(* string. For all argument lists over one character of each kind that     *)
(* matters, what is parsed is the arguments with the blanks, and the       *)
(* string ends where it was meant to.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS MaxLen, MaxArgs
Chars == {"quote", "slash", "control", "letter", "u", "blank"}
Texts == UNION {[1..n -> Chars] : n \in 0..MaxLen}

\* ------------------------------------------------- the writer
Escape(c) == CASE c = "quote" -> <<"slash", "quote">>
               [] c = "slash" -> <<"slash", "slash">>
               [] c = "control" -> <<"slash", "u", "hex">>      \* four digits in fact
               [] OTHER -> <<c>>
EscapeText(w) == FlattenSeq([k \in 1..Len(w) |-> Escape(w[k])])
Line(args) == FlattenSeq([k \in 1..Len(args) |-> EscapeText(args[k]) \o <<"blank">>])

\* ------------------------------------------------- the reader: text up to the closing quote
Bad == <<"bad", <<>>, 0>>
RECURSIVE Parse(_, _, _)
Parse(s, k, got) ==
  IF k > Len(s) THEN Bad
  ELSE CASE s[k] = "quote" -> <<"ok", got, k>>
         [] s[k] = "control" -> Bad                             \* not allowed inside a string
         [] s[k] = "slash" ->
              IF k = Len(s) THEN Bad
              ELSE CASE s[k + 1] = "quote" -> Parse(s, k + 2, Append(got, "quote"))
                     [] s[k + 1] = "slash" -> Parse(s, k + 2, Append(got, "slash"))
                     [] s[k + 1] = "u" -> IF k + 2 <= Len(s) /\ s[k + 2] = "hex" THEN Parse(s, k + 3, Append(got, "control")) ELSE Bad
                     [] OTHER -> Bad
         [] OTHER -> Parse(s, k + 1, Append(got, s[k]))

VARIABLES args, out
Init == args = <<>> /\ out = FALSE
Add == Len(args) < MaxArgs /\ ~out /\ (\E w \in Texts : args' = Append(args, w)) /\ UNCHANGED out
Emit == Len(args) = 1 /\ ~out /\ PrintT(<<"CASE", ToJson([arg |-> args[1]])>>) /\ out' = TRUE /\ UNCHANGED args
Spec == Init /\ [][Add]_<<args, out>>
GSpec == Init /\ [][Add \/ Emit]_<<args, out>>
Plain(as) == FlattenSeq([k \in 1..Len(as) |-> as[k] \o <<"blank">>])
ReadsBack == LET s == Line(args) IN Parse(s \o <<"quote">>, 1, <<>>) = <<"ok", Plain(args), Len(s) + 1>>
=============================================================================
