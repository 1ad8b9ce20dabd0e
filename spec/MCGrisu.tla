------------------------------ MODULE MCGrisu -------------------------------
(* The algorithm against its contract, on formats small enough to try every  *)
(* input, mode and policy.  The formats keep the exponent widths of the two  *)
(* real ones (the algorithm's constants depend on them) and shorten the      *)
(* fraction.                                                                 *)
EXTENDS GrisuAlgo

CONSTANTS P, EB, Wide, Extra, IK, LeastK, Variant, ExpStep
VARIABLES s, n

\* Extra: table bits beyond twice the width
F == [p |-> P, eb |-> EB, qc |-> 2 * (1 + P + EB) + Extra, wide |-> Wide, ik |-> IK, leastk |-> LeastK]

Exps == {x \in 0..(MaxExp(F) - 1) : x < 12 \/ x > MaxExp(F) - 8 \/ x % ExpStep = 0 \/ (x - Bias(F)) \in -40..60}
Patterns == {BAdd(BShl(BInt(x), P), BInt(f)) : x \in Exps, f \in 0..(2^P - 1)} \ {BZero}
Signed == Patterns \cup {BAdd(b, BPow2(P + EB)) : b \in Patterns}
PlainModes == {"NE", "NO", "NPI", "NMI", "NTZ", "NAZ", "DPI", "DMI", "DTZ", "DAZ"}

Init == \E b \in Signed : s = [pc |-> "input", bits |-> b] /\ n = -1
Choose == /\ s.pc = "input" /\ n' = 0
          /\ \E m \in PlainModes, c \in {"any", "even", "odd", "up", "down"} : s' = Start(F, Variant, s.bits, m, c)
Go == s.pc \notin {"input", "done"} /\ s' = Step(s) /\ n' = n + 1
Next == Choose \/ Go

\* it ends
Ends == n <= 40
Steps == s.pc # "input" => Sound(s)
Answer == s.pc = "done" => GoodAnswer(s)
Integers_ == s.pc # "input" => Shortcuts(s)
=============================================================================
