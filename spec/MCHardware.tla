----------------------------- MODULE MCHardware -----------------------------
(* Hardware with an actual processor: instructions are executed, interrupts and exceptions happen,
   each of which makes the processor count one instruction too many, and registers of W bits that
   start anywhere are read one after the other, extended by their sign, and subtracted. The times
   so found are those the specification allows, and are free of what the counter leaves out.
   Only what stays within the range of a register is considered. *)
EXTENDS Hardware, TLC, Json
CONSTANTS W, MaxOps, MaxHappen, Full
VARIABLES reg,    \* kind -> what its register showed at the start
          cnt,    \* kind -> count
          truth,  \* instructions executed, exceptions
          ghost,  \* the same when the counter was made
          start,  \* what the implementation remembers
          vals,   \* for each event the times the implementation stored
          st,     \* id -> time of start
          half,   \* a reading in progress: <<>> or <<what for, count of instructions, counts before>>
          n, out
mvars == <<hvars, reg, cnt, truth, ghost, start, vals, st, half, n, out>>
K == {"instructions", "r1cb", "r420"}
Intel == [vendor |-> "intel", f |-> 6, xf |-> 0, m |-> 14, xm |-> 5]
P(x) == Norm(0, x)
Pairs == [k \in K |-> P(cnt[k])]
Range == -(2 ^ (W - 1))..(2 ^ (W - 1) - 1)
\* What an instruction reading the register gives, and what the reader makes of it
Raw(k) == (reg[k] + cnt[k]) % (2 ^ W)
Signed(x) == IF x >= 2 ^ (W - 1) THEN x - 2 ^ W ELSE x
Wrap(x) == x % (2 ^ (W + 4))      \* arithmetic of 64 bits
NoiseOf == IF Noise(cpu, name) = {} THEN 0 ELSE Signed(Raw(CHOOSE k \in Noise(cpu, name) : TRUE))

MInit == /\ cpu = Intel /\ bad = {} /\ maybe = {} /\ open = <<>> /\ events = <<>>
         /\ name \in Names
         /\ \E a \in {-(2 ^ (W - 1)), -2, 0}, b \in {-(2 ^ (W - 1)), -1} :
              reg = [k \in K |-> IF k = "instructions" THEN a ELSE b]
         /\ cnt = [k \in K |-> 0] /\ truth = <<0, 0>> /\ ghost = truth
         /\ zero = [lo |-> Pairs, hi |-> Pairs]
         /\ start = Wrap(Signed(Raw("instructions")) - NoiseOf)
         /\ vals = <<>> /\ st = <<>> /\ half = <<>> /\ n = 0 /\ out = FALSE
Fits(c) == \A k \in K : reg[k] + c[k] \in Range
Happen(what) ==
  /\ cnt' = [k \in K |-> cnt[k] + CASE k = "instructions" -> 1
                                    [] k = "r1cb" -> IF what = "irq" THEN 1 ELSE 0
                                    [] k = "r420" -> IF what = "run" THEN 0 ELSE 1]
  /\ Fits(cnt') /\ cnt'["instructions"] <= MaxHappen
  /\ truth' = IF what = "run" THEN <<truth[1] + 1, truth[2]>> ELSE IF what = "exc" THEN <<truth[1], truth[2] + 1>> ELSE truth
  /\ UNCHANGED <<hvars, reg, ghost, start, vals, st, half, n, out>>
\* A reading: the register of instructions first, then the other; anything may happen in between.
Begin(for) == /\ half = <<>> /\ n < MaxOps /\ n' = n + 1 /\ half' = <<for, Signed(Raw("instructions")), Pairs, truth>>
              /\ UNCHANGED <<hvars, reg, cnt, truth, ghost, start, vals, st, out>>
End == /\ half # <<>> /\ half' = <<>>
       /\ LET v == Wrap(half[2] - NoiseOf - start)
              at == [lo |-> half[3], hi |-> Pairs]
              g == half[1][2]
          IN CASE half[1][1] = "instant" -> Instant(at) /\ vals' = Append(vals, <<"instant", P(v)>>) /\ st' = st
               [] half[1][1] = "start" -> Start(g, at) /\ st' = [x \in DOMAIN st \union {g} |-> IF x = g THEN v ELSE st[x]] /\ vals' = vals
               [] OTHER -> Finish(g, at) /\ vals' = Append(vals, <<"interval", P(st[g]), P(v)>>) /\ st' = st
       /\ UNCHANGED <<reg, cnt, truth, ghost, start, n, out>>
MNext == \/ \E what \in {"run", "irq", "exc"} : Happen(what)
         \/ Begin(<<"instant", 0>>)
         \/ \E g \in 1..2 : (g \notin DOMAIN st /\ g = Cardinality(DOMAIN st) + 1 /\ Begin(<<"start", g>>))
                            \/ (g \in DOMAIN open /\ Begin(<<"finish", g>>))
         \/ End
MSpec == MInit /\ [][MNext]_mvars
IsFaithful == \A k \in 1..Len(vals) : \A j \in 2..Len(vals[k]) :
                 \* a reading torn by interrupts may come out below zero, which no counter of 64 bits shows
                 vals[k][j][1] = 0 /\ vals[k][j][2] < 2 ^ (W + 3) => Allowed(events[k][j], vals[k][j])
\* Without anything happening during the reading it is exact: nothing but instructions is left
Exact == half # <<>> /\ half[3] = Pairs =>
           LET v == Wrap(half[2] - NoiseOf - start) IN
           CASE name = "instructions:u" -> v = cnt["instructions"]
             [] name = "instructions-minus-irqs:u" -> v = truth[1] + truth[2]
             [] OTHER -> v = truth[1]

\* ------------------------------------------------------------ histories for the implementation
Signatures ==
  IF ~Full THEN {Intel, [vendor |-> "amd", f |-> 15, xf |-> 8, m |-> 1, xm |-> 3], [vendor |-> "amd", f |-> 15, xf |-> 1, m |-> 2, xm |-> 0],
                 [vendor |-> "intel", f |-> 6, xf |-> 0, m |-> 12, xm |-> 2]}
  ELSE [vendor : {"intel"}, f : {6}, xf : {0}, m : 0..15, xm : 0..15]
       \union [vendor : {"intel", "amd", "other"}, f : 0..14, xf : {0, 1}, m : {1, 13}, xm : {0, 2}]
       \union [vendor : {"intel", "amd"}, f : {15}, xf : (0..12) \union {255}, m : {1, 8}, xm : {0, 1, 3, 7}]
Progs == IF Full THEN {<<>>} ELSE UNION {[1..k -> {"instant", "start", "finish", "run"}] : k \in 0..3}
Bads == IF Full THEN {{}} ELSE SUBSET {"instructions", "irqs", "r420", "r825"}
GInit == MInit /\ reg["instructions"] = 0 /\ reg["r420"] = -1 /\ name = "instructions:u"
Emit == /\ ~out /\ out' = TRUE
        /\ \E c \in Signatures, m \in Names \union {"cycles"}, b \in Bads, p \in Progs :
             /\ (m = "cycles" => b = {}) /\ (b # {} => Len(p) = 0)
             /\ PrintT(<<"CASE", ToJson([cpu |-> c, name |-> m, bad |-> b, prog |-> p])>>)
             /\ n' = n
        /\ UNCHANGED <<hvars, reg, cnt, truth, ghost, start, vals, st, half>>
GSpec == GInit /\ [][Emit]_mvars
=============================================================================
