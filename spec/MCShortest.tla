----------------------------- MODULE MCShortest -----------------------------
(* On a small format, for every finite nonzero pattern and every mode:       *)
(* the interval is exactly the set of decimals the independent reader maps   *)
(* to the pattern, and the constructive operators of Shortest mean what      *)
(* their quantified versions say, over every decimal of up to MaxDigits      *)
(* digits whose exponent can matter.                                         *)
EXTENDS Reader, Shortest
CONSTANTS P, EB, MaxDigits, Need
VARIABLES bits, mode, seen

F == [p |-> P, eb |-> EB]
Patterns == {n \in 0..(2^(1+P+EB) - 1) : LET d == Decode(F, BInt(n)) IN IsFinite(F, d) /\ IsNonzero(F, d)}

Init == bits \in Patterns /\ mode \in ReaderModes /\ seen = FALSE
Next == ~seen /\ seen' = TRUE /\ UNCHANGED <<bits, mode>>

\* All decimals of at most MaxDigits digits (no trailing zeros) whose leading digit stands at
\* 10^(t-1), 10^t or 10^(t+1)
Decs(t) == UNION {{<<BInt(s), e - n + 1>> : s \in {x \in (10^(n-1))..(10^n - 1) : x % 10 # 0}} :
                    n \in 1..MaxDigits, e \in (t-1)..(t+1)}
Len10(c) == BDigitLen(c[1])

Check ==
  LET d == Decode(F, BInt(bits))
      I == Interval(F, d, mode)
      decs == Decs(Top(I))
      members == {c \in decs : InInterval(I, c[1], c[2])}
      read == {c \in decs : Read(F, mode, d.neg, c[1], c[2]) = BInt(bits)}
      shortest == {c \in members : \A z \in members : Len10(c) <= Len10(z)}
      best == Best(I)
  IN \* the interval is what the independent reader says
     /\ members = read
     /\ \A n \in 1..MaxDigits : HasDecimal(I, n) <=> \E c \in members : Len10(c) <= n
     /\ members # {} =>
          /\ best = {c \in shortest : \A z \in shortest : Closer(I, c, z) <= 0}
          /\ \A n \in 1..MaxDigits : BestGuess(I, n) = best
          /\ Cardinality(best) \in {1, 2}
          /\ Cardinality(best) = 2 => I.dir = "near" /\ {BIsOdd(c[1]) : c \in best} = {TRUE, FALSE}
          /\ \A p \in {"any", "even", "odd", "up", "down"} : Pick(best, p) \in best
     /\ members # {} \/ MaxDigits < Need
Inv == seen => Check
=============================================================================
