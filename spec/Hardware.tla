------------------------------ MODULE Hardware ------------------------------
(***************************************************************************)
(* Profiles recorded with a hardware performance counter. A processor has  *)
(* many kinds of events it can count ("instructions", and raw ones named   *)
(* by their configuration); how often each has happened is its count. A    *)
(* counter is made for a name if processor and kernel support it, and      *)
(* from then on every time in the profile is what that name promises:      *)
(* instructions since the counter was made, less the events to leave out.  *)
(* Counts go on while a call runs, so that each call carries the counts    *)
(* before and after it: a time lies between what these allow.              *)
(* Numbers are pairs <<a, b>>, a * 2^24 + b.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cpu,     \* [vendor, f, xf, m, xm]: the vendor, and the processor's signature
          bad,     \* kinds that cannot be counted here
          maybe,   \* kinds that can or cannot, at different moments
          name,    \* the counter in use, or ""
          zero,    \* the counts when it was made: [lo, hi]
          open,    \* intervals started: id -> bracket
          events   \* what has been recorded: <<type, brackets of its times>>
hvars == <<cpu, bad, maybe, name, zero, open, events>>

Base == 16777216
Norm(a, b) == <<a + b \div Base, b % Base>>
Add(x, y) == Norm(x[1] + y[1], x[2] + y[2])
Sub(x, y) == Norm(x[1] - y[1], x[2] - y[2])
LeqN(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])

\* ------------------------------------------------------------ processors
Family(c) == IF c.f = 15 THEN 15 + c.xf ELSE c.f
Model(c) == IF c.f = 15 \/ (c.vendor = "intel" /\ c.f = 6) THEN c.m + 16 * c.xm ELSE c.m
\* Intel processors older than Sandy Bridge, by family and model.
PreBridge(f, m) == \/ f \in 0..5 \/ f = 15
                   \/ f = 6 /\ \/ m \in 0..41 \/ m \in {44, 46, 47}              \* up to Westmere
                               \/ m \in {87, 133}                                \* Xeon Phi
                               \/ m \in {53, 54, 55, 74, 77, 90, 93, 76}         \* Atoms
\* The kind that counts interrupts: "" if there is none, "?" if this is no processor that exists.
Irqs(c) ==
  CASE c.vendor = "amd" -> (CASE Family(c) \in 0..14 \/ Family(c) = 19 -> "?"
                              [] Family(c) \in {15, 16, 17, 18, 20, 21, 22} -> "rcf"
                              [] OTHER -> "r2c")
    [] c.vendor = "intel" -> IF PreBridge(Family(c), Model(c)) THEN "" ELSE "r1cb"
    [] OTHER -> "?"
Names == {"instructions:u", "instructions-minus-irqs:u", "instructions-minus-r0420:u"}
\* The kind that is left out, if any.
Noise(c, n) == CASE n = "instructions-minus-irqs:u" -> {Irqs(c)}
                 [] n = "instructions-minus-r0420:u" -> {"r420"}
                 [] OTHER -> {}
Kinds(c, n) == {"instructions"} \union Noise(c, n)
CanMake(c, n, unusable) == n \in Names /\ Irqs(c) # "?" /\ "" \notin Kinds(c, n) /\ Kinds(c, n) \intersect unusable = {}

\* ------------------------------------------------------------ time
Least(at, k) == at.lo[k]
Most(at, k) == at.hi[k]
\* The least and the largest time a reading in the bracket `at` may give
SumLeast(at) == IF Noise(cpu, name) = {} THEN at.lo["instructions"]
                ELSE Sub(at.lo["instructions"], at.hi[CHOOSE k \in Noise(cpu, name) : TRUE])
SumMost(at) == IF Noise(cpu, name) = {} THEN at.hi["instructions"]
               ELSE Sub(at.hi["instructions"], at.lo[CHOOSE k \in Noise(cpu, name) : TRUE])
Allowed(at, v) == LeqN(Sub(SumLeast(at), SumMost(zero)), v) /\ LeqN(v, Sub(SumMost(at), SumLeast(zero)))

\* ------------------------------------------------------------ behaviour
HInit == /\ cpu = [vendor |-> "", f |-> 0, xf |-> 0, m |-> 0, xm |-> 0] /\ bad = {} /\ maybe = {}
         /\ name = "" /\ zero = <<>> /\ open = <<>> /\ events = <<>>
Machine(c, b, mb) == cpu' = c /\ bad' = b /\ maybe' = mb /\ name' = "" /\ zero' = <<>> /\ open' = <<>> /\ events' = <<>>
Make(n, at) == /\ CanMake(cpu, n, bad) /\ name' = n /\ zero' = at
               /\ UNCHANGED <<cpu, bad, maybe, open, events>>
Refuse(n) == ~CanMake(cpu, n, bad \union maybe) /\ UNCHANGED hvars
Instant(at) == name # "" /\ events' = Append(events, <<"instant", at>>) /\ UNCHANGED <<cpu, bad, maybe, name, zero, open>>
Start(g, at) == /\ name # "" /\ g \notin DOMAIN open
                /\ open' = [x \in DOMAIN open \union {g} |-> IF x = g THEN at ELSE open[x]]
                /\ UNCHANGED <<cpu, bad, maybe, name, zero, events>>
Finish(g, at) == /\ g \in DOMAIN open
                 /\ events' = Append(events, <<"interval", open[g], at>>)
                 /\ open' = [x \in DOMAIN open \ {g} |-> open[x]]
                 /\ UNCHANGED <<cpu, bad, maybe, name, zero>>
\* The profile's metadata names the counter and its units.
IsMeta(n, units) == n = name /\ units = <<<<"instructions", 1>>>>
\* The events found in the profile: <<type, time, ..>>
Faithful(es) == /\ Len(es) = Len(events)
                /\ \A k \in 1..Len(es) : /\ Len(es[k]) = Len(events[k]) /\ es[k][1] = events[k][1]
                                         /\ \A j \in 2..Len(es[k]) : Allowed(events[k][j], es[k][j])
=============================================================================
