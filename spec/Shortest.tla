------------------------------ MODULE Shortest ------------------------------
(* What the library promises of a decimal, stated over the interval of a     *)
(* reader and nothing else: inside, no shorter one inside, the closest of    *)
(* its length, ties as asked.  Decimals are pairs (s, E) meaning s * 10^E.   *)
(*                                                                           *)
(* MCShortest checks the operators below against their quantified meaning    *)
(* (over all decimals of up to a given length) on small formats.             *)
EXTENDS Rounding, FiniteSets

Max2(x, y) == IF x > y THEN x ELSE y

\* Scale factors that make multiples of 10^E and of 2^b comparable integers.
Scale(E, b) ==
  LET up == IF E > b THEN E - b ELSE 0
      dn == IF b > E THEN b - E ELSE 0
  IN [d |-> BMul(BPow5(Max2(E, 0)), BPow2(up)),
      m |-> BMul(BPow5(Max2(-E, 0)), BPow2(dn))]

\* The interval measured in units in which one unit of 10^E is u.
At(I, E) ==
  LET c == Scale(E, I.b)
  IN [u |-> c.d, lo |-> BMul(I.lo, c.m), y |-> BMul(I.y, c.m), hi |-> BMul(I.hi, c.m),
      lc |-> I.lc, hc |-> I.hc, dir |-> I.dir, E |-> E]

\* x (in those units) inside
Inside(A, x) ==
  LET l == BCmp(A.lo, x) h == BCmp(x, A.hi)
  IN (l < 0 \/ (l = 0 /\ A.lc)) /\ (h < 0 \/ (h = 0 /\ A.hc))

Has(A, s) == Inside(A, BMul(s, A.u))
InInterval(I, s, E) == Has(At(I, E), s)

\* floor(log10) of m * 2^b, m > 0
FloorLog10(m, b) == IF b >= 0 THEN BDigitLen(BShl(m, b)) - 1
                    ELSE BDigitLen(BMul(m, BPow5(-b))) - 1 + b

IsPow10At(m, b, k) ==    \* m * 2^b = 10^k
  LET c == Scale(k, b) IN BMul(m, c.m) = c.d

\* Exponent of the leading digit of the largest members: all members are below 10^(Top+1)
\* and some are at or above 10^Top, or the interval lies just below 10^(Top+1).
Top(I) == LET k == FloorLog10(I.hi, I.b)
          IN IF ~I.hc /\ IsPow10At(I.hi, I.b, k) THEN k - 1 ELSE k

\* Some member is a multiple of 10^E.
HasMultiple(I, E) ==
  LET A == At(I, E)
      q == BDivMod(A.lo, A.u)
      s == IF q[2] = BZero /\ I.lc THEN q[1] ELSE BAdd(q[1], BOne)
  IN Inside(A, BMul(s, A.u)) /\ s # BZero

\* Some member is a decimal of at most n digits.
HasDecimal(I, n) == n >= 1 /\ HasMultiple(I, Top(I) + 1 - n)

\* Trailing zeros removed.
RECURSIVE Strip(_, _)
Strip(s, E) == LET q == BDivMod(s, <<10>>)
               IN IF s # BZero /\ q[2] = BZero THEN Strip(q[1], E + 1) ELSE <<s, E>>

RECURSIVE MinLenFrom(_, _)
MinLenFrom(I, n) == IF HasDecimal(I, n) THEN n ELSE MinLenFrom(I, n + 1)
\* The number of digits of the shortest members.
MinLen(I) == MinLenFrom(I, 1)

\* Among members of n digits, the ones closest to the exact value: one, or two on a tie.
\* Candidates sit next to the value on the grid of their last digit.  The finer grid matters
\* only when the interval reaches below the power of ten of its top.
GridNext(I, E) ==
  LET A == At(I, E)
      q == BDivMod(A.y, A.u)
      f == q[1]
      c == IF q[2] = BZero THEN f ELSE BAdd(f, BOne)
  IN {<<s, E>> : s \in {s \in {f, c} : s # BZero /\ Has(A, s)}}

\* distance of s*10^E from y compared with that of t*10^G
Closer(I, x, z) ==       \* -1, 0, 1
  LET E == IF x[2] < z[2] THEN x[2] ELSE z[2]
      A == At(I, E)
      X == BMul(BMul(x[1], BPow10(x[2] - E)), A.u)
      Z == BMul(BMul(z[1], BPow10(z[2] - E)), A.u)
      Dist(v) == IF BLe(A.y, v) THEN BSub(v, A.y) ELSE BSub(A.y, v)
  IN BCmp(Dist(X), Dist(Z))

Closest(I, n) ==
  LET t == Top(I) + 1 - n
      raw == GridNext(I, t) \cup GridNext(I, t - 1)
      cand == {c \in {Strip(c[1], c[2]) : c \in raw} : BDigitLen(c[1]) <= n}
  IN {c \in cand : \A z \in cand : Closer(I, c, z) <= 0}

\* n-digit members closest to the value, for the least n: everything the library may return
\* when asked for correct rounding.
Best(I) == Closest(I, MinLen(I))

\* The same, given a guess at the length.
BestGuess(I, n) == Closest(I, IF HasDecimal(I, n) /\ ~HasDecimal(I, n - 1) THEN n ELSE MinLen(I))

\* The one the tie policy asks for.
Larger(x, z) ==
  LET E == IF x[2] < z[2] THEN x[2] ELSE z[2]
  IN BCmp(BMul(x[1], BPow10(x[2] - E)), BMul(z[1], BPow10(z[2] - E))) > 0
Pick(S, policy) ==
  CHOOSE c \in S :
    \/ Cardinality(S) = 1
    \/ policy = "any"
    \/ policy = "even" /\ ~BIsOdd(c[1])
    \/ policy = "odd" /\ BIsOdd(c[1])
    \/ policy = "up" /\ \A z \in S : z # c => Larger(c, z)
    \/ policy = "down" /\ \A z \in S : z # c => Larger(z, c)
=============================================================================
