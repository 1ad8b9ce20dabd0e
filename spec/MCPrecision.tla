---------------------------- MODULE MCPrecision -----------------------------
(* Is the table precise enough for every input?  One state per binary        *)
(* exponent of a real format; each invariant speaks about all significands   *)
(* of that exponent at once.  The algorithm multiplies a table entry by      *)
(* significands, endpoints and their doubles, all of which are m * 2^h with  *)
(* h = q - p - 3 and 1 <= m <= 2^(p + 4).                                    *)
EXTENDS GrisuAlgo, Residues

CONSTANTS P, EB, QC, Wide
VARIABLES e, st

F == [p |-> P, eb |-> EB, qc |-> QC, wide |-> Wide]
N == BPow2(P + 4)

ASSUME AgreesOnSmall

---------------------------------------------------------------------------
Mk(x) == FLog10Pow2(x + 1 - Alpha)
S(x) == [F |-> F, e |-> x, mk |-> Mk(x), mb |-> -(x + FLog2Pow10(-Mk(x)) + 1), cache |-> TableEntry(-Mk(x), QC), plan |-> [tag |-> "near"]]
H == Qmp(F) - 3

\* num / den in units of 2^-w
Fact(x) ==
  LET s == S(x) k == -s.mk
      two == H + x + k                                    \* theta = 2^H * 2^x * 10^k
      up == IF two > 0 THEN two ELSE 0
      dn == IF two < 0 THEN -two ELSE 0
      a == BMul(BPow2(up), BPow5(IF k > 0 THEN k ELSE 0))
      b == BMul(BPow2(dn), BPow5(IF k < 0 THEN -k ELSE 0))
      \* theta by the table: g * 2^H / 2^(qc + mb), over the denominator 2^w
      w == QC + s.mb - H
      \* difference of g * b and a * 2^w, over b * 2^w
      ta == BMul(s.cache, b) tb == BShl(a, w)
      d == IF BLt(ta, tb) THEN BSub(tb, ta) ELSE BSub(ta, tb)
  IN [a |-> a, b |-> b, w |-> w, sign |-> BCmp(ta, tb), d |-> d]

\* floor(m * table) = floor(m * theta) for all m <= N
Products ==
  st = "checked" =>
  LET f == Fact(e)
      r == NearestResidues(f.a, f.b, N)
      \* m * |table - theta| <= N * d / (b * 2^w); compared with a residue / b
      err == BMul(N, f.d)
      room(x) == BLt(err, BShl(x, f.w))
  IN CASE f.sign = 0 -> TRUE
       [] f.sign > 0 -> room(IF r.zero THEN BOne ELSE r.y)   \* too large: must not reach the next integer
       [] OTHER -> ~r.zero /\ room(r.x)                      \* too small: must not fall below an integer
\* and the lengths of intervals, which the algorithm takes from the upper part of the entry
Lengths ==
  st = "checked" =>
  LET s == S(e) k == -s.mk
      exact(n, dn) ==   \* floor(n * 2^(e - dn) * 10^k)
        LET two == e - dn + k IN
        BDiv(BMul(n, BMul(BPow2(IF two > 0 THEN two ELSE 0), BPow5(IF k > 0 THEN k ELSE 0))),
             BMul(BPow2(IF two < 0 THEN -two ELSE 0), BPow5(IF k < 0 THEN -k ELSE 0)))
      t(tag) == [s EXCEPT !.plan = [tag |-> tag]]
  IN /\ Delta(s, "near", FALSE, s.mb) = exact(Length(s), 0)
     /\ Delta(s, "left", FALSE, s.mb + 1) = exact(Length(s), 1)
     /\ Delta(s, "right", TRUE, s.mb) = exact(Boundary(s), 0)
     /\ e = MinExponent(F) \/ Delta(s, "near", TRUE, s.mb) = exact(BMul(<<3>>, HalfBoundary(s)), 0)
     /\ -s.mb \in Alpha..Gamma

\* the shortcuts for divisibility, for all significands: by the powers of two and five in f * 2^e * 10^k
IntegerRules ==
  st = "checked" =>
  LET s == S(e) k == -s.mk
      odd == H + 1                                 \* endpoints between neighbours: odd multiples of 2^(H+1), of at most P + 2 bits
      always(h) == k >= 0 /\ h + e + k >= 0        \* every odd multiple of 2^h
      fives(n) == k >= 0 \/ BLe(BPow5(-k), BSub(BPow2(n), BOne))   \* some n-bit number is divisible
  IN /\ \* "qmpm2"
        (e < LB2(F) => odd + e + k < 0)
        /\ (e >= LB2(F) /\ e <= MaxK0 => always(odd))
        /\ (e >= LB2(F) /\ e > MaxK0 => k < 0 /\ odd + e + k >= 0)
        /\ (e > UB2(F) /\ e > MaxK0 => ~fives(P + 2))
     /\ \* "qmpm3edge": 2^(q-1) - 2^H = (2^(P+2) - 1) * 2^H
        ((e >= LB3(F) /\ e <= MaxK0) <=> always(H) \/ (k < 0 /\ H + e + k >= 0 /\ BMod(BSub(BPow2(P + 2), BOne), BPow5(-k)) = BZero))
     /\ \* "other": multiples of 2^(H+2) of at most P + 2 bits
        (e >= LB1(F) /\ e <= MaxK0 => always(H + 2))
        /\ (e >= LB1(F) /\ e > MaxK0 => k < 0 /\ H + 2 + e + k >= 0)
        /\ (e < LB1(F) => k >= 0)
        /\ (e > UB1(F) /\ e > MaxK0 => ~fives(P + 1))
     /\ \* "two"
        (e >= LB0(F) /\ e <= MaxK0 => always(H + 3))
        /\ (e < LB0(F) => k >= 0)

Init == e \in MinExponent(F)..MaxExponent(F) /\ st = "input"
Next == st = "input" /\ st' = "checked" /\ e' = e
Count == TLCGet("stats").distinct = 2 * (MaxExponent(F) - MinExponent(F) + 1)
=============================================================================
