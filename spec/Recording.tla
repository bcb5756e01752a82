------------------------------ MODULE Recording ------------------------------
(***************************************************************************)
(* The recording interface of the profiler: guards and detached timings    *)
(* are opened and finished, on any thread, and every completed recording   *)
(* is stored as one event. The clock is read once when an interval is      *)
(* started, once when it is finished, and once for an instant; a read is   *)
(* numbered in the order of the calls, and carries the bracket [lo, hi] of *)
(* the times between which the call ran. A time is <<seconds, nanoseconds  *)
(* of the second>>. A recording that comes too late for its time to fit is *)
(* refused: nothing is stored.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
VARIABLES guards,  \* guards not finished: [id, form, kind, label, tid, s]
          done,    \* completed recordings, in the order of completion
          reads    \* clock reads, in order: [th, lo, hi]
rvars == <<guards, done, reads>>

RInit == guards = {} /\ done = <<>> /\ reads = <<>>
Clock(th, lo, hi) == reads' = Append(reads, [th |-> th, lo |-> lo, hi |-> hi])
ThisRead == Len(reads) + 1
Leq(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
\* The largest times of an instant and of the end of an interval: 2^48 - 1 and 2^48 - 3 ns.
MaxInstant == <<281474, 976710655>>
MaxEnd == <<281474, 976710653>>

OfThread(th) == SelectSeq(done, LAMBDA d : d.th = th)
\* How many events the thread has stored.
Stored(th) == LET D == OfThread(th) IN IF D = <<>> THEN 0 ELSE D[Len(D)].pos + D[Len(D)].n
\* Stores n events, the k-th of which has the value v + k - 1.
Complete(th, ty, kind, label, tid, s, e, v, n) ==
  done' = Append(done, [th |-> th, ty |-> ty, kind |-> kind, label |-> label, tid |-> tid, s |-> s, e |-> e, v |-> v,
                        n |-> n, pos |-> Stored(th)])
Open == {x.id : x \in guards}
Guard(g) == CHOOSE x \in guards : x.id = g
Start(g, form, kind, label, tid, th, lo, hi) ==
  /\ g \notin Open
  /\ Clock(th, lo, hi)
  /\ guards' = guards \union {[id |-> g, form |-> form, kind |-> kind, label |-> label, tid |-> tid, s |-> ThisRead]}
  /\ UNCHANGED done
\* `label`: <<>>, or <<l>> when finished with an event id of its own, which only guards can be.
Finish(g, label, th, lo, hi) ==
  /\ g \in Open
  /\ (label # <<>> => Guard(g).form = "guard")
  /\ Leq(lo, MaxEnd)
  /\ Clock(th, lo, hi)
  /\ LET x == Guard(g) IN
     /\ Complete(th, "interval", x.kind, IF label = <<>> THEN x.label ELSE label[1], x.tid, x.s, ThisRead, <<>>, 1)
     /\ guards' = guards \ {x}
FinishTooLate(g, th, lo, hi) ==
  /\ g \in Open
  /\ ~Leq(hi, MaxEnd)
  /\ Clock(th, lo, hi)
  /\ guards' = guards \ {Guard(g)}
  /\ UNCHANGED done
\* A detached timing that is dropped stores nothing; so does a guard that is leaked.
Abandon(g) == g \in Open /\ guards' = guards \ {Guard(g)} /\ UNCHANGED <<done, reads>>
Instant(kind, label, tid, th, lo, hi) ==
  /\ Leq(lo, MaxInstant)
  /\ Clock(th, lo, hi)
  /\ Complete(th, "instant", kind, label, tid, ThisRead, 0, <<>>, 1)
  /\ UNCHANGED guards
InstantTooLate(th, lo, hi) == ~Leq(hi, MaxInstant) /\ Clock(th, lo, hi) /\ UNCHANGED <<guards, done>>
Integer(kind, label, tid, th, v) ==
  /\ Complete(th, "integer", kind, label, tid, 0, 0, v, 1)
  /\ UNCHANGED <<guards, reads>>
\* n integers in a row: v, v + 1, ..
Burst(kind, label, tid, th, v, n) ==
  /\ v + n <= 65536
  /\ Complete(th, "integer", kind, label, tid, 0, 0, <<v, 0, 0, 0>>, n)
  /\ UNCHANGED <<guards, reads>>

\* What the recording threads should find in the profile `es`: for every thread its own recordings,
\* in order. Recordings of different threads have different labels.
Threads == {done[k].th : k \in 1..Len(done)}
FileOf(D, es) == IF D = done THEN es
                 ELSE CHOOSE F \in {SelectSeq(es, LAMBDA e : e.label \in L) : L \in {{D[k].label : k \in 1..Len(D)}}} : TRUE
Plus(v, k) == [v EXCEPT ![1] = @ + k]
Described(e, d, k) == e.ty = d.ty /\ e.kind = d.kind /\ e.label = d.label /\ e.tid = d.tid
                      /\ (d.ty = "integer" => e.v = IF k = 0 THEN d.v ELSE Plus(d.v, k))
Within(n, x) == Leq(reads[n].lo, x) /\ Leq(x, reads[n].hi)
\* The times each thread reads do not go back.
TimesOf(D, F) == {<<D[j].s, F[D[j].pos + 1].v1>> : j \in {k \in 1..Len(D) : D[k].ty # "integer"}}
                 \union {<<D[j].e, F[D[j].pos + 1].v2>> : j \in {k \in 1..Len(D) : D[k].ty = "interval"}}
Increasing(T) == \A a, b \in T : (a[1] < b[1] /\ reads[a[1]].th = reads[b[1]].th) => Leq(a[2], b[2])
\* Bound variables rather than definitions for what is used more than once: TLC evaluates these once.
Faithful(es) ==
  /\ Len(es) = FoldSet(LAMBDA th, n : Stored(th) + n, 0, Threads)
  /\ \E Parts \in {{[D |-> D, F |-> FileOf(D, es)] : D \in {OfThread(th) : th \in Threads}}} :
       /\ \A p \in Parts :
            /\ Len(p.F) = Stored(p.D[1].th)
            /\ \A j \in 1..Len(p.D) :
                 LET d == p.D[j] IN
                 /\ \A k \in 0..d.n - 1 : Described(p.F[d.pos + 1 + k], d, k)
                 /\ d.ty # "integer" => Within(d.s, p.F[d.pos + 1].v1)
                 /\ d.ty = "interval" => Within(d.e, p.F[d.pos + 1].v2)
       /\ \E T \in {UNION {TimesOf(p.D, p.F) : p \in Parts}} : Increasing(T)
=============================================================================
