------------------------------- MODULE Reader -------------------------------
(* A correct reader, written without reference to Rounding's intervals:      *)
(* round the exact rational s * 10^E to the format, in one of the ten modes. *)
(* The reader treats the exponent as unbounded above (overflow is decided    *)
(* after rounding), as IEEE-754 does for the to-nearest modes.               *)
EXTENDS Rounding

\* Rational num/den for s * 10^E
Rat(s, E) == IF E >= 0 THEN [num |-> BMul(s, BPow10(E)), den |-> BOne]
             ELSE [num |-> s, den |-> BPow10(-E)]

\* num/den >= 2^k
GePow2(r, k) == IF k >= 0 THEN BLe(BShl(r.den, k), r.num) ELSE BLe(r.den, BShl(r.num, -k))

\* floor(log2(num/den))
Log2(r) == LET g == BBitLen(r.num) - BBitLen(r.den)
           IN IF GePow2(r, g) THEN g ELSE g - 1

\* <<floor(v / 2^k), remainder, divisor>>
QuoAt(r, k) ==
  LET n == IF k >= 0 THEN r.num ELSE BShl(r.num, -k)
      m == IF k >= 0 THEN BShl(r.den, k) ELSE r.den
      q == BDivMod(n, m)
  IN [q |-> q[1], r |-> q[2], m |-> m]

\* Does a reader in this mode round the magnitude q + r/m up?
RoundsUp(mode, neg, q, r, m) ==
  LET half == BCmp(BMul(<<2>>, r), m)
  IN IF r = BZero THEN FALSE
     ELSE IF mode \in NearestModes
     THEN \/ half > 0
          \/ half = 0 /\ CASE mode = "NE" -> BIsOdd(q)
                           [] mode = "NO" -> ~BIsOdd(q)
                           [] mode = "NPI" -> ~neg
                           [] mode = "NMI" -> neg
                           [] mode = "NTZ" -> FALSE
                           [] mode = "NAZ" -> TRUE
     ELSE CASE mode = "DPI" -> ~neg
            [] mode = "DMI" -> neg
            [] mode = "DTZ" -> FALSE
            [] mode = "DAZ" -> TRUE

\* The bit pattern read from (-1)^neg * s * 10^E, or an infinity on overflow.
Read(F, mode, neg, s, E) ==
  IF s = BZero THEN Encode(F, neg, 0, BZero)
  ELSE LET r    == Rat(s, E)
           emin == 1 - Bias(F) - F.p
           l    == Log2(r) - F.p
           k    == IF l < emin THEN emin ELSE l
           x    == QuoAt(r, k)
           q    == IF RoundsUp(mode, neg, x.q, x.r, x.m) THEN BAdd(x.q, BOne) ELSE x.q
           carry == q = BPow2(F.p + 1)
           q2   == IF carry THEN BPow2(F.p) ELSE q
           k2   == IF carry THEN k + 1 ELSE k
           be   == IF BLt(q2, BPow2(F.p)) THEN 0 ELSE k2 + F.p + Bias(F)
           fr   == IF be = 0 THEN q2 ELSE BSub(q2, BPow2(F.p))
       IN IF be >= MaxExp(F) THEN Encode(F, neg, MaxExp(F), BZero) ELSE Encode(F, neg, be, fr)
=============================================================================
