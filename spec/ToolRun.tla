------------------------------ MODULE ToolRun ------------------------------
(***************************************************************************)
(* What becomes of a run of a command line tool: it reads its inputs in    *)
(* turn, and brings out its result through a buffer to a place with room   *)
(* for so many bytes. Either it tells its caller that it failed, or the    *)
(* whole result is there.                                                  *)
(***************************************************************************)
EXTENDS Container
Single == {"summarize", "summarize json", "view", "truncate", "stacks", "flame"}
Several == {"aggregate", "crox", "crox dir"}
Pairs == {"diff", "diff json"}
Commands == Single \union Several \union Pairs
\* What an input gives, to this command. There is nothing to read ("nothing": no file, a directory, a file of the old format
\* in three parts), or it is known to be a profile ("profile") or a saved summary ("summary", for diff), which may be broken,
\* or it is a file made of a header and streams.
InputVerdict(cmd, x) ==
  CASE x.kind = "nothing" -> "err"
    [] x.kind = "profile" -> "ok"
    [] x.kind = "summary" -> IF x.whole THEN "ok" ELSE "err"
    [] x.kind = "made" ->
         IF cmd = "truncate" THEN (IF ~HeaderOk(x.file.top, 7..Current) THEN "err" ELSE IF Verdict(x.file) = "ok" THEN "ok" ELSE "any")
         \* a profile without intervals has no flame graph, and activities of one thread are what aggregate is for
         ELSE IF cmd \in {"flame", "aggregate"} /\ Verdict(x.file) = "ok" THEN "any"
         ELSE Verdict(x.file)
\* room: the bytes there is place for, -1 if for any; need: the bytes of the whole result; blocked: there is no place to write to.
Required(cmd, ins, room, need, blocked) ==
  IF \E k \in 1..Len(ins) : InputVerdict(cmd, ins[k]) = "err" THEN "fail"
  ELSE IF \E k \in 1..Len(ins) : InputVerdict(cmd, ins[k]) = "any" THEN "any"
  ELSE IF blocked \/ (room >= 0 /\ need > room) THEN "fail" ELSE "ok"
=============================================================================
