----------------------------- MODULE GrisuTrace -----------------------------
(* The algorithm machine on the two real formats, started on the inputs of a *)
(* recorded trace, under every mode and policy.  Its invariants are those of *)
(* MCGrisu.  Its answers are compared with the recorded ones: under a policy *)
(* that leaves one answer they have to be equal; "any" leaves the library    *)
(* free, so a difference there is counted and nothing more.                  *)
EXTENDS GrisuAlgo, Json, IOUtils, TLCExt

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, n, at

RealFormat(f) ==
  IF f = 0 THEN [p |-> 23, eb |-> 8, qc |-> 64, wide |-> FALSE, ik |-> 2, leastk |-> 0]
  ELSE [p |-> 52, eb |-> 11, qc |-> 128, wide |-> TRUE, ik |-> 3, leastk |-> 1]

Init == s = [pc |-> "input"] /\ n = 0 /\ at \in {<<i, sg>> : i \in 1..Len(Log), sg \in {0, 1}}
Choose == /\ s.pc = "input" /\ n' = 1
          /\ \E m \in 1..14, t \in 1..5 :
               LET e == Log[at[1]] F == RealFormat(e.f) IN
               /\ s' = Start(F, "ok", IF at[2] = 1 THEN BAdd(e.b, BPow2(Width(F) - 1)) ELSE e.b, LibModes[m], Policies[t])
               /\ at' = Append(at, (m - 1) * 5 + t)
Finish(t) == LET e == Log[at[1]]
                 c == e.c[(IF at[2] = 1 THEN e.n ELSE e.r)[at[3]]]
             IN IF c = <<at[2], t.sig, t.exp>> THEN TLCSet(1, TLCGet(1) + 1)
                ELSE IF t.policy = "any" THEN TLCSet(2, TLCGet(2) + 1)
                ELSE PrintT(<<"DIFFERS", at>>) /\ TLCSet(3, TLCGet(3) + 1)
\* what the decision taken here was: the evidence lists the decisions that the recorded inputs exercised
DecisionOf(z, t) ==
  z.pc
  \o (CASE z.pc = "increase" -> " by " \o ToString(z.lambda) \o (IF t.exp = z.exp THEN " no" ELSE " yes")
        [] z.pc = "search" -> " steps " \o ToString(IF t.pc = "done" THEN 0 ELSE BToInt(t.steps))
        [] z.pc \in {"left2", "edge"} -> (IF t.sig = z.sig THEN " stay" ELSE " move")
        [] z.pc = "shrink" -> (IF t.exp = z.exp THEN " end" ELSE " further")
        [] z.pc = "kappa0" -> (IF IsInt(z, "two", z.fc) THEN " exact" ELSE " inexact")
        [] OTHER -> "")
  \o " -> " \o t.pc \o (IF t.cmp = z.cmp THEN "" ELSE " as fractions are " \o t.cmp)
Decision(t) ==
  (IF s.F.wide THEN "double " ELSE "float ") \o s.plan.tag \o (IF s.plan.left THEN " [" ELSE " (") \o (IF s.plan.right THEN "]" ELSE ")")
  \o ": " \o DecisionOf(s, t)
Go == /\ s.pc \notin {"input", "done"} /\ n' = n + 1 /\ at' = at
      /\ LET t == Step(s) IN s' = t /\ TLCSet(4, TLCGet(4) \cup {Decision(t)}) /\ (t.pc = "done" => Finish(t))
Spec == Init /\ [][Choose \/ Go]_<<s, n, at>>

Ends == n <= 40
Steps == s.pc # "input" => Sound(s)
Answer == s.pc = "done" => GoodAnswer(s)
Integers_ == s.pc # "input" => Shortcuts(s)

Done == /\ \A d \in TLCGet(4) : PrintT(d)
        /\ PrintT(<<"FOLLOWS", TLCGet(1), "FREE", TLCGet(2), "DIFFERS", TLCGet(3)>>)
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0) /\ TLCSet(4, {})
=============================================================================
