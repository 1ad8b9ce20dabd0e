------------------------------ MODULE Residues ------------------------------
(* The extremes of a * m mod b over 1 <= m <= n.                             *)
EXTENDS BigNat

(* The values nearest to 0 from above and to b from below.  x is the least value so far, at the multiple s;      *)
(* y the distance to b of the greatest, at u (u = 0: b itself).                                                   *)
RECURSIVE Nearest(_, _, _, _, _)
Nearest(x, s, y, u, n) ==
  LET j1 == BDiv(y, x)
      j2 == BDiv(BSub(n, u), s)
      j == IF BLt(j1, j2) THEN j1 ELSE j2
      y2 == BSub(y, BMul(j, x))
      u2 == BAdd(u, BMul(j, s))
  IN IF y2 = BZero THEN [zero |-> TRUE, x |-> x, y |-> y2]
     ELSE IF BLe(x, y2) THEN [zero |-> FALSE, x |-> x, y |-> y2]      \* no multiple is left
     ELSE LET i1 == BDiv(x, y2)
              i2 == BDiv(BSub(n, s), u2)
              i == IF BLt(i1, i2) THEN i1 ELSE i2
              x2 == BSub(x, BMul(i, y2))
              s2 == BAdd(s, BMul(i, u2))
          IN IF x2 = BZero THEN [zero |-> TRUE, x |-> x2, y |-> y2]
             ELSE IF BLe(y2, x2) THEN [zero |-> FALSE, x |-> x2, y |-> y2]
             ELSE Nearest(x2, s2, y2, u2, n)
NearestResidues(a, b, n) ==
  IF BMod(a, b) = BZero THEN [zero |-> TRUE, x |-> BZero, y |-> b] ELSE Nearest(BMod(a, b), BOne, b, BZero, n)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = BZero THEN a ELSE Gcd(b, BMod(a, b))

\* least and greatest residue; once 0 occurs every multiple of the common divisor does
Extremes(a, b, n) ==
  LET r == NearestResidues(a, b, n)
  IN IF r.zero THEN [min |-> BZero, max |-> BSub(b, Gcd(a, b))] ELSE [min |-> r.x, max |-> BSub(b, r.y)]

\* the same by trying, to check the above
Tried(a, b, n) == {(a * m) % b : m \in 1..n}
LeastOf(v) == CHOOSE w \in v : \A z \in v : w <= z
GreatestOf(v) == CHOOSE w \in v : \A z \in v : w >= z
Agrees(a, b, n) ==
  LET r == NearestResidues(BInt(a), BInt(b), BInt(n))
      x == Extremes(BInt(a), BInt(b), BInt(n))
      v == Tried(a, b, n)
  IN /\ x = [min |-> BInt(LeastOf(v)), max |-> BInt(GreatestOf(v))]
     /\ IF 0 \in v THEN r.zero ELSE ~r.zero /\ r.x = BInt(LeastOf(v)) /\ r.y = BInt(b - GreatestOf(v))
AgreesOnSmall == \A b \in 2..23 : \A a \in 1..30 : \A n \in {1, 2, 3, 5, 8, 13, 21, 30} : Agrees(a, b, n)
=============================================================================
