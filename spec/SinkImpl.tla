------------------------------ MODULE SinkImpl ------------------------------
(***************************************************************************)
(* How the sinks work inside: a buffer and a lock per stream, one lock for *)
(* the backing file, pages of at most MaxPage bytes that are written in    *)
(* two steps (header, contents). Small sizes stand for large ones: what    *)
(* matters is how a write's size relates to MinPage, MaxPage and the fill  *)
(* of the buffer. Checked to refine Sink, to be free of deadlock, and to   *)
(* let every call return; its behaviours are replayed in the real code.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

CONSTANTS Threads, Streams, MaxPage, MinPage, Ops, MaxOps

VARIABLES
  calls,   \* the history of calls, as in Sink
  buf,     \* per stream: runs in the sink's buffer
  addr,    \* per stream: next address
  dl,      \* per stream: holder of the sink's lock (0: free)
  sl,      \* holder of the file's lock (0: free)
  file,    \* the pages written: sequence of [s, r]
  part,    \* a page has been started but not completed
  th,      \* per thread: [pc, f, s, n, k, rest, back, left]
  refs     \* per stream: handles not dropped yet
ivars == <<calls, buf, addr, dl, sl, file, part, th, refs>>

Size(rs) == FoldSeq(LAMBDA r, a : a + r[2], 0, rs)
\* Runs with neighbours of the same call joined.
Join(rs) == FoldLeft(LAMBDA a, r : IF a # <<>> /\ a[Len(a)][1] = r[1]
                                   THEN [a EXCEPT ![Len(a)][2] = @ + r[2]] ELSE Append(a, r), <<>>, rs)
FileOf(s) == FoldLeft(LAMBDA a, p : IF p.s = s THEN a \o p.r ELSE a, <<>>, file)
Min2(a, b) == IF a < b THEN a ELSE b

IInit ==
  /\ calls = <<>> /\ buf = [s \in Streams |-> <<>>] /\ addr = [s \in Streams |-> 0]
  /\ dl = [s \in Streams |-> 0] /\ sl = 0 /\ file = <<>> /\ part = FALSE
  /\ refs = [s \in Streams |-> Cardinality(Threads)]
  /\ th = [t \in Threads |-> [pc |-> "idle", api |-> "none", f |-> "none", s |-> 0, n |-> 0, k |-> 0, rest |-> <<>>,
                              back |-> "none", left |-> MaxOps, drop |-> Streams]]

Go(t, pc) == th' = [th EXCEPT ![t].pc = pc]

\* A thread makes its next call: one of Ops, and in the end drops its handles.
Start(t) == LET x == th[t] IN
  /\ x.pc = "idle"
  /\ \E o \in Ops \union {[f |-> "drop", s |-> s, n |-> 0] : s \in x.drop} :
       /\ IF o.f = "drop" THEN x.left = 0 /\ \A s \in x.drop : o.s <= s ELSE x.left > 0
       /\ calls' = Append(calls, [f |-> IF o.f \in {"cb", "bytes"} THEN "write" ELSE o.f, s |-> o.s,
                     n |-> o.n, a |-> -1, st |-> "inv", hit |-> FALSE,
                     mark |-> IF o.f = "flush"
                              THEN LET D == {k \in 1..Len(calls) : calls[k].f = "write" /\ calls[k].s = o.s /\ calls[k].st = "done"}
                                   IN IF D = {} THEN 0 ELSE Max({calls[k].a + calls[k].n : k \in D})
                              ELSE 0])
       /\ th' = [th EXCEPT ![t] = [x EXCEPT !.pc = IF o.f = "drop" THEN "deref" ELSE "lock",
                     !.api = o.f,
                     !.f = IF o.f = "cb" /\ o.n > MaxPage THEN "bytes" ELSE o.f,
                     !.s = o.s, !.n = o.n, !.k = Len(calls) + 1, !.rest = <<>>,
                     !.left = IF o.f = "drop" THEN 0 ELSE @ - 1,
                     !.drop = IF o.f = "drop" THEN @ \ {o.s} ELSE @]]
  /\ UNCHANGED <<buf, addr, dl, sl, file, part, refs>>

Deref(t) == LET x == th[t] IN
  /\ x.pc = "deref"
  /\ refs' = [refs EXCEPT ![x.s] = @ - 1]
  /\ Go(t, IF refs[x.s] = 1 THEN "lock" ELSE "ret")
  /\ UNCHANGED <<calls, buf, addr, dl, sl, file, part>>

Lock(t) == LET x == th[t] IN
  /\ x.pc = "lock" /\ dl[x.s] = 0
  /\ dl' = [dl EXCEPT ![x.s] = t]
  /\ Go(t, CASE x.f = "cb" -> "cb" [] x.f = "bytes" -> "bytes" [] OTHER -> "flush")
  /\ UNCHANGED <<calls, buf, addr, sl, file, part, refs>>

\* Continue with `back` after writing the buffer out as a page, if there is anything in it.
ToPage(t, back) == LET x == th[t] IN
  th' = [th EXCEPT ![t].pc = IF buf[x.s] = <<>> THEN back ELSE "page", ![t].back = back]

\* The call takes effect at the current address.
Effect(k, s) == /\ calls' = [calls EXCEPT ![k].a = addr[s], ![k].st = "lin"]
                /\ addr' = [addr EXCEPT ![s] = @ + calls[k].n]
Run(k, n) == IF n = 0 THEN <<>> ELSE << <<k, n>> >>

Cb(t) == LET x == th[t] s == x.s IN
  /\ x.pc = "cb"
  /\ IF Size(buf[s]) + x.n > MaxPage /\ buf[s] # <<>>
     THEN ToPage(t, "cb") /\ UNCHANGED <<calls, addr, buf>>
     ELSE /\ Effect(x.k, s)
          /\ buf' = [buf EXCEPT ![s] = @ \o Run(x.k, x.n)]
          /\ Go(t, "unlock")
  /\ UNCHANGED <<dl, sl, file, part, refs>>

Bytes(t) == LET x == th[t] s == x.s
                take == IF Size(buf[s]) < MinPage THEN Min2(MinPage - Size(buf[s]), x.n) ELSE 0 IN
  /\ x.pc = "bytes"
  /\ Effect(x.k, s)
  /\ buf' = [buf EXCEPT ![s] = @ \o Run(x.k, take)]
  /\ th' = [th EXCEPT ![t].rest = Run(x.k, x.n - take),
                      ![t].pc = IF x.n = take THEN "unlock" ELSE IF buf'[s] = <<>> THEN "chunk" ELSE "page",
                      ![t].back = "chunk"]
  /\ UNCHANGED <<dl, sl, file, part, refs>>

Chunk(t) == LET x == th[t] s == x.s IN
  /\ x.pc = "chunk"
  /\ IF x.rest = <<>> THEN Go(t, "unlock") /\ UNCHANGED buf
     ELSE IF Size(x.rest) >= MinPage THEN Go(t, "cpage") /\ UNCHANGED buf
     ELSE /\ buf' = [buf EXCEPT ![s] = @ \o x.rest]
          /\ th' = [th EXCEPT ![t].rest = <<>>, ![t].pc = "unlock"]
  /\ UNCHANGED <<calls, addr, dl, sl, file, part, refs>>

Flush(t) == LET x == th[t] IN
  /\ x.pc = "flush"
  /\ ToPage(t, IF x.f = "flush" THEN "sync" ELSE "unlock")
  /\ UNCHANGED <<calls, buf, addr, dl, sl, file, part, refs>>
Sync(t) ==
  /\ th[t].pc = "sync" /\ sl = 0
  /\ Go(t, "unlock")
  /\ UNCHANGED <<calls, buf, addr, dl, sl, file, part, refs>>

\* Writing a page: lock the file, write the header, write the contents, unlock.
Acquire(t) ==
  /\ th[t].pc \in {"page", "cpage"} /\ sl = 0
  /\ sl' = t /\ Go(t, IF th[t].pc = "page" THEN "head" ELSE "chead")
  /\ UNCHANGED <<calls, buf, addr, dl, file, part, refs>>
Head1(t) ==
  /\ th[t].pc \in {"head", "chead"}
  /\ part' = TRUE /\ Go(t, IF th[t].pc = "head" THEN "body" ELSE "cbody")
  /\ UNCHANGED <<calls, buf, addr, dl, sl, file, refs>>
Body(t) == LET x == th[t] s == x.s IN
  /\ x.pc \in {"body", "cbody"}
  /\ part' = FALSE /\ sl' = 0
  /\ IF x.pc = "body"
     THEN /\ file' = Append(file, [s |-> s, r |-> buf[s]])
          /\ buf' = [buf EXCEPT ![s] = <<>>]
          /\ Go(t, x.back)
     ELSE LET c == Min2(x.n, Min2(MaxPage, Size(x.rest))) IN
          /\ file' = Append(file, [s |-> s, r |-> Run(x.k, c)])
          /\ th' = [th EXCEPT ![t].rest = Run(x.k, Size(x.rest) - c), ![t].pc = "chunk"]
          /\ UNCHANGED buf
  /\ UNCHANGED <<calls, addr, dl, refs>>

Unlock(t) == LET x == th[t] IN
  /\ x.pc = "unlock"
  /\ dl' = [dl EXCEPT ![x.s] = 0] /\ Go(t, "ret")
  /\ UNCHANGED <<calls, buf, addr, sl, file, part, refs>>
Ret(t) == LET x == th[t] IN
  /\ x.pc = "ret"
  /\ calls' = [calls EXCEPT ![x.k].st = "done"]
  /\ Go(t, IF x.drop = {} THEN "end" ELSE "idle")
  /\ UNCHANGED <<buf, addr, dl, sl, file, part, refs>>

Step(t) == \/ Start(t) \/ Deref(t) \/ Lock(t) \/ Cb(t) \/ Bytes(t) \/ Chunk(t) \/ Flush(t) \/ Sync(t)
           \/ Acquire(t) \/ Head1(t) \/ Body(t) \/ Unlock(t) \/ Ret(t)
AllDone == \A t \in Threads : th[t].pc = "end"
INext == (\E t \in Threads : Step(t)) \/ (AllDone /\ UNCHANGED ivars)
ISpec == IInit /\ [][INext]_ivars /\ \A t \in Threads : WF_ivars(Step(t))

-----------------------------------------------------------------------------
\* Refinement: the stream is what is in the file, in the buffer, and still to be written.
RestOf(s) == LET H == {t \in Threads : dl[s] = t} IN
             IF H = {} THEN <<>> ELSE th[CHOOSE t \in H : TRUE].rest
StrOf(s) == Join(FileOf(s) \o buf[s] \o RestOf(s))
Abs == INSTANCE Sink WITH
  Slack <- MaxPage, handles <- Cardinality(Threads),
  str <- [s \in Streams |-> StrOf(s)],
  len <- addr,
  hole <- [s \in Streams |-> 0],
  disk <- [s \in Streams |-> Size(FileOf(s))],
  broken <- FALSE
AbsInit == Abs!Init(Cardinality(Threads))
\* Every step is a step of Sink, or leaves it alone. (Writing the last page of a write that takes
\* effect at once is one step here and there.)
AbsNext == \/ \E k \in 1..Len(calls) : Abs!Linearize(k, 0) \/ Abs!ReturnOk(k)
           \/ \E s \in Streams : Abs!Persist(s, Size(FileOf(s))')
           \/ /\ Len(calls') = Len(calls) + 1
              /\ LET c == calls'[Len(calls')] IN Abs!Invoke(c.f, c.s, c.n)
Refines == AbsInit /\ [][AbsNext]_(Abs!vars)

\* Pages of a stream written to only through the callback interface hold whole records.
WholeRecords == \A i \in 1..Len(file) :
  (\A k \in 1..Len(calls) : calls[k].f = "write" /\ calls[k].s = file[i].s => calls[k].n <= MinPage) =>
     \A j \in 1..Len(file[i].r) : file[i].r[j][2] = calls[file[i].r[j][1]].n
PagesOk == \A i \in 1..Len(file) : Size(file[i].r) \in 1..MaxPage
LocksOk == /\ part => sl # 0
           /\ \A s \in Streams : Size(buf[s]) <= MaxPage
Closed == AllDone => \A s \in Streams : Join(FileOf(s)) = StrOf(s) /\ Size(FileOf(s)) = addr[s]
\* Every call returns.
Returns == <>[]AllDone
=============================================================================
