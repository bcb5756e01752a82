---------------------------- MODULE ProfileTrace ----------------------------
(***************************************************************************)
(* Histories of events being recorded in a file and of every way of        *)
(* reading them back: one by one from either end, whole, and single raw    *)
(* events.                                                                 *)
(***************************************************************************)
EXTENDS Profile, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i,
          lo, hi      \* an iterator: what is left of the events, lo+1 .. hi
Ev == Traces[t].ops[i]
Adv == i' = i + 1 /\ t' = t /\ (IOEnv.DIAG = "1" => PrintT(<<"AT", t, i>>))
TInit == t \in 1..Len(Traces) /\ i = 1 /\ PInit /\ lo = 0 /\ hi = 0
NoIter == UNCHANGED <<lo, hi>>

TMeta == Ev.op = "meta" /\ Describe([pid |-> Ev.pid, cmd |-> Ev.cmd, start |-> Ev.start]) /\ Adv /\ NoIter
TRec == Ev.op = "rec" /\ Adv /\ NoIter
        /\ IF Ev.r = "ok" THEN Record(Ev.ev) ELSE Refuse(Ev.ev)

\* A single event packed and unpacked again, with nothing around it.
TRaw == /\ Ev.op = "raw" /\ Adv /\ NoIter /\ UNCHANGED pvars
        /\ IF Ev.r = "ok"
           THEN /\ InRange(Ev.ty, Ev.v1, Ev.v2)
                /\ Ev.got = Stored(Ev.ty, Ev.v1, Ev.v2)
                /\ Ev.gotids = <<Ev.kind, Ev.id, Ev.tid>>
           ELSE ~InRange(Ev.ty, Ev.v1, Ev.v2)

Light(k) == [ty |-> events[k].ty, v1 |-> events[k].v1, v2 |-> events[k].v2, tid |-> events[k].tid]
\* What an iterator hands out is event k, in its light form and, if also given, in full.
Is(got, k) == /\ got.light = Light(k)
              /\ got.full = events[k]
              /\ "pos" \in DOMAIN got => got.pos \in {k - 1, -1}
TOpen == Ev.op = "iter" /\ lo' = 0 /\ hi' = Len(events) /\ Adv /\ UNCHANGED pvars
TNext ==
  /\ Ev.op \in {"next", "next_back", "nth", "nth_back"} /\ Adv /\ UNCHANGED pvars
  /\ LET n == Ev.n   \* how many to skip
     IN IF n >= hi - lo
        THEN Ev.got = <<>> /\ IF Ev.op \in {"next", "nth"} THEN lo' = hi /\ UNCHANGED hi ELSE hi' = lo /\ UNCHANGED lo
        ELSE IF Ev.op \in {"next", "nth"}
             THEN Len(Ev.got) = 1 /\ Is(Ev.got[1], lo + n + 1) /\ lo' = lo + n + 1 /\ UNCHANGED hi
             ELSE Len(Ev.got) = 1 /\ Is(Ev.got[1], hi - n) /\ hi' = hi - n - 1 /\ UNCHANGED lo
TLen == Ev.op = "len" /\ Ev.got = hi - lo /\ Adv /\ UNCHANGED pvars /\ NoIter
TSize == Ev.op = "size" /\ Ev.lower = hi - lo /\ Ev.upper = hi - lo /\ Adv /\ UNCHANGED pvars /\ NoIter
\* The rest, consumed in one go.
TRest == /\ Ev.op = "rest" /\ Adv /\ UNCHANGED pvars
         /\ LET n == hi - lo IN
            CASE Ev.how = "count" -> Ev.got = n
              [] Ev.how = "last" -> IF n = 0 THEN Ev.got = <<>> ELSE Len(Ev.got) = 1 /\ Is(Ev.got[1], hi)
              [] Ev.how \in {"rev", "rfold"} -> Len(Ev.got) = n /\ \A k \in 1..n : Is(Ev.got[k], hi + 1 - k)
              [] OTHER -> Len(Ev.got) = n /\ \A k \in 1..n : Is(Ev.got[k], lo + k)
         /\ lo' = hi /\ UNCHANGED hi
\* The whole profile read in any format, and its metadata.
TRead == /\ Ev.op = "read" /\ Adv /\ UNCHANGED pvars /\ NoIter
         /\ Ev.r = "ok"
         /\ Ev.num = Len(events) /\ Len(Ev.events) = Len(events)
         /\ \A k \in 1..Len(events) : Ev.events[k] = events[k] /\ Ev.light[k] = Light(k)
         /\ meta # <<>> => Ev.meta = meta
\* Very many events, the k-th of which is the integer k - 1: looked at one by one, and as a whole.
TMany == Ev.op = "many" /\ lo' = 0 /\ hi' = Ev.n /\ Adv /\ UNCHANGED pvars
TAt == Ev.op = "at" /\ Ev.want < hi /\ Ev.pos = Ev.want /\ Ev.light = Ev.want /\ Ev.full = Ev.want /\ Adv /\ UNCHANGED pvars /\ NoIter
TWhole == Ev.op = "whole" /\ Ev.n = hi /\ Ev.num = hi /\ Ev.first = 0 /\ Ev.up = TRUE /\ Adv /\ UNCHANGED pvars /\ NoIter
TDone == i = Len(Traces[t].ops) + 1 /\ PrintT(<<"DONE", t>>) /\ i' = i + 1 /\ UNCHANGED <<pvars, t, lo, hi>>
TNextState == (i <= Len(Traces[t].ops) /\ (TMeta \/ TRec \/ TRaw \/ TOpen \/ TNext \/ TLen \/ TSize \/ TRest \/ TRead \/ TMany \/ TAt \/ TWhole)) \/ TDone
TSpec == TInit /\ [][TNextState]_<<pvars, t, i, lo, hi>>
=============================================================================
