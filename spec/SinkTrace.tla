------------------------------ MODULE SinkTrace ------------------------------
(***************************************************************************)
(* Are the histories recorded from the real sinks behaviours of Sink? Each *)
(* history in the file TRACES is one initial state; the file says at which *)
(* address every call claims to have written, which makes the moments when *)
(* calls take effect determined. A history is accepted if it can be        *)
(* followed to its end, which prints <<"DONE", number>>.                   *)
(***************************************************************************)
EXTENDS Sink, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
tv == <<vars, t, i>>
T == Traces[t]
Ev == T.ops[i]
Adv == i' = i + 1 /\ t' = t /\ (IOEnv.DIAG = "1" => PrintT(<<"AT", t, i>>))
Stay == UNCHANGED <<t, i>>

TInit == t \in 1..Len(Traces) /\ i = 1 /\ Init(Traces[t].threads)

\* Pending writes of stream s, and the one that has to take effect next.
Pending(s) == {k \in 1..Len(calls) : IsWrite(calls[k]) /\ calls[k].s = s /\ calls[k].st = "inv"}
Fits(k) == T.claims[k] = -1 \/ (T.claims[k] >= len[calls[k].s] /\ T.claims[k] <= len[calls[k].s] + hole[calls[k].s])
NextUp(s) == {k \in Pending(s) : /\ Fits(k)
                /\ \A j \in Pending(s) : Fits(j) =>
                     \/ T.claims[k] < T.claims[j]
                     \/ T.claims[k] = T.claims[j] /\ (calls[k].n < calls[j].n \/ (calls[k].n = calls[j].n /\ k <= j))}
LinOne(s) == \E k \in NextUp(s) :
               Linearize(k, IF T.claims[k] = -1 THEN 0 ELSE T.claims[k] - len[s])

NeedLin(s) ==
  \/ Ev.op = "ret" /\ Ev.r = "ok" /\ calls[Ev.k].s = s /\ IsWrite(calls[Ev.k]) /\ calls[Ev.k].st = "inv" /\ ~broken
  \/ Ev.op = "snap" /\ ~broken /\ RunsLen(Ev.raw[s]) > len[s]

\* Without snapshots the file is not observed before the end: assume it is up to date.
Observed == T.snaps
MustPersist(k) == LET s == calls[k].s IN
   ~Observed /\ ~broken /\ Ev.r = "ok" /\ disk[s] < len[s] /\ calls[k].st = "lin"

TInvoke == Ev.op = "inv" /\ Ev.k = Len(calls) + 1 /\ Invoke(Ev.f, Ev.s, Ev.n) /\ Adv
TLin == \E s \in Streams : NeedLin(s) /\ LinOne(s) /\ Stay
TPersist == Ev.op = "ret" /\ MustPersist(Ev.k) /\ Persist(calls[Ev.k].s, len[calls[Ev.k].s]) /\ Stay
TRet == /\ Ev.op = "ret" /\ Adv
        /\ ~MustPersist(Ev.k)
        /\ \/ Ev.r = "ok" /\ (T.dead = 0 \/ HonestAfter(T.dead, Ev.k)) /\ ReturnOk(Ev.k)
           \/ Ev.r = "fail" /\ ReturnFail(Ev.k)
TFault == Ev.op = "fault" /\ Adv
          /\ IF Ev.e = "error" THEN IOError(Ev.k) ELSE UNCHANGED vars
TSnap == /\ Ev.op = "snap" /\ Adv
         /\ ~\E s \in Streams : NeedLin(s)
         /\ Ev.ok
         /\ \A s \in Streams : IsPrefixRuns(Ev.raw[s], s) /\ RunsLen(Ev.raw[s]) >= disk[s]
         /\ disk' = [s \in Streams |-> RunsLen(Ev.raw[s])]
         /\ UNCHANGED <<handles, calls, str, len, hole, broken>>
\* In the end every stream is exactly what was written, both in the pages and after splitting.
Final(rs, s) == LET g == RunsLen(rs) - len[s] IN
   g >= 0 /\ g <= hole[s] /\ rs = AddHole(str[s], g)
TEnd == /\ Ev.op = "end" /\ Adv
        /\ \/ broken
           \/ /\ Ev.pages = "ok"
              /\ \A s \in Streams : Final(Ev.raw[s], s) /\ Final(Ev.split[s], s)
        /\ UNCHANGED vars
TDone == i = Len(T.ops) + 1 /\ PrintT(<<"DONE", t>>) /\ i' = i + 1 /\ UNCHANGED <<vars, t>>
ToSpoil == {k \in 1..Len(calls) : calls[k].f = "bad" /\ calls[k].st = "inv"}
TSpoil == \E k \in ToSpoil : Spoil(k) /\ Stay
TNext == \/ ToSpoil # {} /\ TSpoil
         \/ ToSpoil = {} /\ i <= Len(T.ops) /\ (TInvoke \/ TLin \/ TPersist \/ TRet \/ TFault \/ TSnap \/ TEnd)
         \/ TDone
TSpec == TInit /\ [][TNext]_tv
=============================================================================
