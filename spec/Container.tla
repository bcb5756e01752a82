------------------------------ MODULE Container ------------------------------
(***************************************************************************)
(* Which data is a profile: the header of the file, and of each stream in  *)
(* it. A header has eight bytes: four of magic, four of version.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Versions == {8, 9}
Current == 9
Streams == {"events", "data", "index"}
\* A header: [len, magic, version]; len is the number of bytes that are there, eight if all are.
HeaderOk(h, vs) == h.len = 8 /\ h.magic = "good" /\ h.version \in vs
\* A file: [top: header, streams: sequence of [s, h]]; a stream that is missing is not in the sequence.
StreamOk(f, s) == /\ \E k \in 1..Len(f.streams) : f.streams[k].s = s
                  /\ \A k \in 1..Len(f.streams) : f.streams[k].s = s => HeaderOk(f.streams[k].h, {f.top.version})
Complete(f) == \A s \in Streams : StreamOk(f, s)
\* What opening it must give; "any": old files with broken streams are not covered.
Verdict(f) == IF ~HeaderOk(f.top, Versions) THEN "err"
              ELSE IF Complete(f) THEN (IF f.meta = "good" THEN "ok" ELSE IF f.top.version = Current THEN "err" ELSE "any")
              ELSE IF f.top.version = Current THEN "err" ELSE "any"
=============================================================================
