------------------------------ MODULE MCEuclid ------------------------------
(* The min-max Euclid of the repository's tools (verify_cache_length.cpp),   *)
(* step by step on unbounded integers: it stops, with the least and greatest *)
(* of a, 2a, ..., na modulo b and where they are taken.                      *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS MaxA, MaxB, MaxN

VARIABLES a, b, n, x, s, y, u, pc, res
vars == <<a, b, n, x, s, y, u, pc, res>>
None == [min |-> -1, max |-> -1, argmin |-> 0, argmax |-> 0]

Init == /\ a \in 1..MaxA /\ b \in 2..MaxB /\ n \in 1..MaxN
        /\ x = a /\ s = 1 /\ y = b /\ u = 0 /\ pc = "run" /\ res = None
\* as often as possible, but leaving something: quotient and what is left
Times(p, q) == IF p % q = 0 THEN (p \div q) - 1 ELSE p \div q
Left(p, q) == p - q * Times(p, q)
Y == Left(y, x)
U == u + s * Times(y, x)
X == Left(x, Y)
S == s + U * Times(x, Y)
Stop(r) == pc' = "done" /\ res' = r /\ UNCHANGED <<x, s, y, u>>
Step ==
  /\ pc = "run" /\ UNCHANGED <<a, b, n>>
  /\ IF U > n
     THEN LET k == (n - u) \div s IN Stop([min |-> x, argmin |-> s, max |-> b - (y - k * x), argmax |-> u + k * s])
     ELSE IF S > n
     THEN LET k == (n - s) \div U IN Stop([min |-> x - k * Y, argmin |-> s + k * U, max |-> b - Y, argmax |-> U])
     ELSE IF Y = y /\ X = x
     THEN Stop([max |-> b - Y, argmax |-> U,
                min |-> IF S + U > n THEN X ELSE 0, argmin |-> IF S + U > n THEN S ELSE S + U])
     ELSE x' = X /\ s' = S /\ y' = Y /\ u' = U /\ UNCHANGED <<pc, res>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

Residue(i) == (a * i) % b
\* what each round keeps
Kept == /\ x > 0 /\ y > 0 /\ s > 0 /\ u >= 0
        /\ (s * a - x) % b = 0
        /\ (u * a + y) % b = 0
        /\ s * y + u * x = b
        /\ s <= n /\ u <= n
Answer == pc = "done" =>
  /\ \A i \in 1..n : res.min <= Residue(i) /\ Residue(i) <= res.max
  /\ res.argmin \in 1..n /\ Residue(res.argmin) = res.min
  /\ (res.argmax \in 1..n /\ Residue(res.argmax) = res.max) \/ (res.max = 0 /\ res.argmax = 0)
Stops == <>(pc = "done")
=============================================================================
