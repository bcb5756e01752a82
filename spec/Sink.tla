-------------------------------- MODULE Sink --------------------------------
(***************************************************************************)
(* What the users of measureme's serialization sinks rely on: each sink is *)
(* an atomic append-only stream of records. A call is invoked, takes       *)
(* effect (is linearized) once, and returns. Behind the streams there is a *)
(* backing file whose whole pages hold a prefix of every stream.           *)
(*                                                                         *)
(* This is the abstract specification; SinkImpl.tla describes the buffers, *)
(* pages and locks that are to implement it, and SinkTrace.tla checks      *)
(* histories recorded from the real code against it.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

CONSTANTS Streams,   \* the streams of one backing storage
          Slack      \* most bytes of completed writes that may be missing from the file

VARIABLES
  handles,  \* number of handles of each sink; dropping the last one closes it (never changes)
  calls,    \* sequence of calls [f, s, n, a, st, mark, hit], in order of invocation
  str,      \* per stream: sequence of runs [k, n]: n bytes written by call k (0: left by failed calls)
  len,      \* per stream: its length in bytes
  hole,     \* per stream: bytes that failed calls may have left behind
  disk,     \* per stream: length of the prefix stored in whole pages of the file
  broken    \* an I/O error has occurred
vars == <<handles, calls, str, len, hole, disk, broken>>

Zero == [s \in Streams |-> 0]
Init(h) ==
        /\ handles = h
        /\ calls = <<>>
        /\ str = [s \in Streams |-> <<>>]
        /\ len = Zero /\ hole = Zero /\ disk = Zero
        /\ broken = FALSE

IsWrite(c) == c.f = "write"
End(c) == c.a + c.n

\* Completed writes of stream s.
Done(s) == {k \in 1..Len(calls) : IsWrite(calls[k]) /\ calls[k].s = s /\ calls[k].a >= 0 /\ calls[k].st = "done"}
DoneEnd(s) == IF Done(s) = {} THEN 0 ELSE Max({End(calls[k]) : k \in Done(s)})
Dropped(s) == {k \in 1..Len(calls) : calls[k].f = "drop" /\ calls[k].s = s /\ calls[k].st = "done"}
\* Bytes of completed writes that are not in the file if it holds the first d bytes of s.
Beyond(s, d) == LET miss(k) == IF End(calls[k]) <= d THEN 0
                               ELSE IF calls[k].a >= d THEN calls[k].n ELSE End(calls[k]) - d
                IN FoldSet(LAMBDA k, acc : acc + miss(k), 0, Done(s))

Invoke(f, s, n) ==
  /\ calls' = Append(calls, [f |-> f, s |-> s, n |-> n, a |-> -1, st |-> "inv",
                             mark |-> IF f = "flush" THEN DoneEnd(s) ELSE 0, hit |-> FALSE])
  /\ UNCHANGED <<handles, str, len, hole, disk, broken>>

AddHole(runs, g) ==
  IF g = 0 THEN runs
  ELSE IF runs # <<>> /\ runs[Len(runs)][1] = 0 THEN [runs EXCEPT ![Len(runs)][2] = @ + g]
  ELSE Append(runs, <<0, g>>)

\* The write takes effect: its bytes go to the end of the stream, possibly after g bytes that
\* failed calls left behind.
Linearize(k, g) ==
  LET c == calls[k] s == c.s IN
  /\ IsWrite(c) /\ c.st = "inv"
  /\ g \in 0..hole[s]
  /\ calls' = [calls EXCEPT ![k].a = len[s] + g, ![k].st = "lin"]
  /\ str' = [str EXCEPT ![s] = AddHole(@, g) \o (IF c.n = 0 THEN <<>> ELSE << <<k, c.n>> >>)]
  /\ len' = [len EXCEPT ![s] = @ + g + c.n]
  /\ hole' = [hole EXCEPT ![s] = @ - g]
  /\ UNCHANGED <<handles, disk, broken>>

\* Some pages reach the file.
Persist(s, d) ==
  /\ d \in disk[s]..len[s]
  /\ disk' = [disk EXCEPT ![s] = d]
  /\ UNCHANGED <<handles, calls, str, len, hole, broken>>

\* A file write made on behalf of call k fails for good.
IOError(k) ==
  /\ calls[k].st \in {"inv", "lin"}
  /\ calls' = [calls EXCEPT ![k].hit = TRUE]
  /\ broken' = TRUE
  /\ UNCHANGED <<handles, str, len, hole, disk>>

\* A call returns normally only if it took effect, and
\*  - after a write, at most Slack bytes of completed writes are missing from the file;
\*  - after a flush, everything completed before the flush started is in the file;
\*  - after the last handle was dropped, everything completed is in the file.
ReturnOk(k) ==
  LET c == calls[k] s == c.s IN
  /\ ~c.hit
  /\ calls' = [calls EXCEPT ![k].st = "done"]
  /\ \/ broken
     \/ /\ IsWrite(c) /\ c.st = "lin"
        /\ LET miss(j) == IF End(calls[j]) <= disk[s] THEN 0
                          ELSE IF calls[j].a >= disk[s] THEN calls[j].n ELSE End(calls[j]) - disk[s]
           IN FoldSet(LAMBDA j, acc : acc + miss(j), 0, Done(s) \cup {k}) <= Slack
     \/ /\ c.f = "flush" /\ c.st = "inv"
        /\ disk[s] >= c.mark
     \/ /\ c.f = "drop" /\ c.st = "inv"
        /\ Cardinality(Dropped(s)) + 1 = handles => disk[s] >= DoneEnd(s)
  /\ UNCHANGED <<handles, str, len, hole, disk, broken>>

\* The file stopped taking data during call d. What was written since then is nowhere but in memory:
\* no flush and no end of a sink can return normally with such data, and no write with too much of it.
Since(d, k) == {j \in (d + 1)..(k - 1) : calls[j].s = calls[k].s /\ IsWrite(calls[j]) /\ calls[j].st = "done"}
HonestAfter(d, k) ==
  LET n == FoldSet(LAMBDA j, acc : acc + calls[j].n, 0, Since(d, k)) IN
  k > d => CASE calls[k].f = "flush" -> n = 0
             [] calls[k].f = "drop" -> Cardinality(Dropped(calls[k].s)) + 1 = handles => n = 0
             [] IsWrite(calls[k]) -> n + calls[k].n <= Slack
             [] OTHER -> TRUE

\* A write whose serializer fails ("bad") may leave up to n bytes of unspecified contents behind,
\* at any moment before it returns, and nothing else.
Spoil(k) ==
  /\ calls[k].f = "bad" /\ calls[k].st = "inv"
  /\ calls' = [calls EXCEPT ![k].st = "spoilt"]
  /\ hole' = [hole EXCEPT ![calls[k].s] = @ + calls[k].n]
  /\ UNCHANGED <<handles, str, len, disk, broken>>

\* A call fails only because of its serializer or because of an I/O error.
ReturnFail(k) ==
  /\ calls[k].st \notin {"done", "failed"}
  /\ calls[k].hit \/ broken \/ calls[k].st = "spoilt"
  /\ calls' = [calls EXCEPT ![k].st = "failed"]
  /\ UNCHANGED <<handles, str, len, hole, disk, broken>>

-----------------------------------------------------------------------------
(* Observations *)
\* The runs rs are the first d bytes of stream s.
RunsLen(rs) == FoldSeq(LAMBDA r, acc : acc + r[2], 0, rs)
IsPrefixRuns(rs, s) ==
  LET m == Len(rs) IN
  /\ m <= Len(str[s])
  /\ \A i \in 1..m : /\ rs[i][1] = str[s][i][1]
                     /\ IF i < m THEN rs[i][2] = str[s][i][2] ELSE rs[i][2] <= str[s][i][2]

-----------------------------------------------------------------------------
(* Properties of the specification itself, model checked in MCSink *)
\* Records tile each stream at the addresses given out (C01, C02).
Tiling == \A s \in Streams :
  /\ len[s] = RunsLen(str[s])
  /\ \A k \in 1..Len(calls) : IsWrite(calls[k]) /\ calls[k].s = s /\ calls[k].a >= 0 /\ calls[k].n > 0 =>
       \E i \in 1..Len(str[s]) : /\ str[s][i] = <<k, calls[k].n>>
                                 /\ calls[k].a = RunsLen(SubSeq(str[s], 1, i - 1))
  /\ \A i, j \in 1..Len(str[s]) : str[s][i][1] = str[s][j][1] /\ str[s][i][1] # 0 => i = j
\* A write that returned before another was invoked has the smaller address.
RealTime == [][\A k \in 1..Len(calls) : calls'[k].a # calls[k].a =>
                 calls'[k].a >= DoneEnd(calls[k].s)]_vars
\* What is in the file stays there; streams only grow (C04).
Durable == [][\A s \in Streams : disk'[s] >= disk[s] /\ IsPrefix(str[s], str'[s])]_vars
DiskOk == \A s \in Streams : disk[s] <= len[s]
MissingOk == ~broken => \A s \in Streams : Beyond(s, disk[s]) <= Slack
FlushedOk == ~broken => \A k \in 1..Len(calls) :
   calls[k].f = "flush" /\ calls[k].st = "done" => disk[calls[k].s] >= calls[k].mark
ClosedOk == ~broken => \A s \in Streams :
   Cardinality(Dropped(s)) = handles => disk[s] >= DoneEnd(s)
\* A call hit by an I/O error never succeeds (C05); without errors only failing serializers fail.
ErrorsReported == \A k \in 1..Len(calls) : calls[k].hit => calls[k].st # "done"
=============================================================================
