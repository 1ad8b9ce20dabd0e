------------------------------- MODULE Tools --------------------------------
(* What the repository's offline programs compute: the extremes of multiples *)
(* modulo a number, the table of powers, the number of bits a table entry    *)
(* needs for a binary exponent, and the ranges in which the integer formulas *)
(* for logarithms hold.                                                      *)
EXTENDS GrisuAlgo, Residues
LOCAL INSTANCE Ieee
LOCAL INSTANCE TLC

ToolFmt(f) == IF f = 0 THEN [p |-> 23, eb |-> 8, qc |-> 64, wide |-> FALSE] ELSE [p |-> 52, eb |-> 11, qc |-> 128, wide |-> TRUE]
MinK(F) == -FLog10Pow2(MaxExponent(F) + 1 - Alpha)
MaxK(F) == -FLog10Pow2(MinExponent(F) + 1 - Alpha)

(* Min-max Euclid, for positive a, b, n: the extremes and where they are taken; a greatest residue of 0 may be given as that of 0. *)
IsMinMax(e) ==
  LET x == Extremes(e.a, e.b, e.n) ok(i, v) == BLe(BOne, i) /\ BLe(i, e.n) /\ BMod(BMul(e.a, i), e.b) = v
  IN /\ e.died = 0
     /\ e.min = x.min /\ e.max = x.max
     /\ ok(e.argmin, e.min)
     /\ ok(e.argmax, e.max) \/ (e.max = BZero /\ e.argmax = BZero)

(* The table as generated: exact up to its length, one entry per power       *)
IsEntry(e) == LET F == ToolFmt(e.f) IN e.i \in 0..(MaxK(F) - MinK(F)) /\ e.v = TableEntry(MinK(F) + e.i, F.qc)
IsTable(e) == LET F == ToolFmt(e.f) IN e.n = MaxK(F) - MinK(F) + 1

(* Bits of a table entry that suffice for every significand at exponent x.   *)
(* Products m * theta with theta = 2^s * 2^x * 10^k are taken from so many   *)
(* leading bits of 10^k that the error stays below the distance of the       *)
(* nearest product to an integer it must not cross: below the next one for   *)
(* rounded-up entries (k < 0), above the last for truncated ones (k >= 0).   *)
Max3(a, b, c) == IF a >= b THEN IF a >= c THEN a ELSE c ELSE IF b >= c THEN b ELSE c
Bits(F, x) ==
  LET k == -FLog10Pow2(x + 1 - Alpha)
      p == F.p h == Qmp(F) - 2 lg == FLog2Pow10(k)
      n == BPow2(p + 2) half == BPow2(p + 1) last == BSub(n, BOne)
  IN IF x >= Alpha + 3
     THEN LET w == BPow5(-k)
              gap(v) == BBitLen(BDiv(w, BSub(w, v)))
              base == Q(F) + x + lg
          IN Max3(base + 1 + gap(Extremes(BPow2(h + x + k), w, n).max),
                  base + 1 + gap(Extremes(BPow2(h + x + k + 2), w, half).max),
                  base + gap(BMod(BMul(BPow2(h + x + k - 1), last), w)))
     ELSE LET w == BPow5(k)
              base == lg - k + 1
              dn == -x - k - h
              spare(v, room) == IF v = BZero \/ BBitLen(v) - 1 <= room THEN 0 ELSE BBitLen(v) - 1 - room
              all == IF dn > 0 THEN base - spare(Extremes(w, BPow2(dn), n).min, p + 2) ELSE base
              \* the other two can only raise it, and only where they save something themselves
              other(v, room) == IF spare(v, room) > 0 THEN base - spare(v, room) ELSE 0
          IN Max3(all,
                  IF dn > 2 THEN other(Extremes(w, BPow2(dn - 2), half).min, p + 1) ELSE 0,
                  IF dn > -1 THEN other(BMod(BMul(w, last), BPow2(dn + 1)), p + 2) ELSE 0)
IsBits(e) ==
  LET F == ToolFmt(e.f) IN
  /\ e.e \in MinExponent(F)..MaxExponent(F)
  /\ e.r = Bits(F, e.e)
  /\ e.r <= F.qc
IsBitsCount(e) ==
  LET F == ToolFmt(e.f) IN e.n = IF e.neg = 1 THEN MaxExponent(F) - (Alpha + 3) + 1 ELSE (Alpha + 2) - MinExponent(F) + 1

(* floor(n * c / 2^s), with c a rational approximation of a logarithm        *)
Formula(fn) == CASE fn = "floor_log10_pow2" -> [c |-> BInt(315652), s |-> 20, top |-> 4096]
                 [] fn = "floor_log2_pow10" -> [c |-> BInt(3483294), s |-> 20, top |-> 1024]
                 [] fn = "floor_log5_pow2" -> [c |-> BInt(1849741732), s |-> 32, top |-> 65536]
ByFormula(fn, n) == LET g == Formula(fn) IN BToInt(BShr(BMul(BInt(n), g.c), g.s))
\* exact for n > 0; for -n the formula gives the floor of a number that is no integer
LogIs(fn, n, r) ==
  CASE fn = "floor_log10_pow2" -> BLe(BPow10(r), BPow2(n)) /\ BLt(BPow2(n), BPow10(r + 1))
    [] fn = "floor_log2_pow10" -> BLe(BPow2(r), BPow10(n)) /\ BLt(BPow10(n), BPow2(r + 1))
    [] fn = "floor_log5_pow2" -> BLe(BPow5(r), BPow2(n)) /\ BLt(BPow2(n), BPow5(r + 1))
\* log5 is far too long to try all; the rest is
Tries(fn, n) == IF fn = "floor_log5_pow2" THEN {i \in 1..n : i % 509 = 7 \/ i > n - 4 \/ i < 200} ELSE 1..n
ValidUpTo(fn, n) ==
  /\ \A i \in Tries(fn, n) : LogIs(fn, i, ByFormula(fn, i))
  /\ n = Formula(fn).top \/ ~LogIs(fn, n + 1, ByFormula(fn, n + 1))
\* the verifier has to find the range the functions are documented for
Documented(fn) == CASE fn = "floor_log10_pow2" -> 1650 [] fn = "floor_log2_pow10" -> 642 [] fn = "floor_log5_pow2" -> 65536
IsValidUpTo(e) == Documented(e.fn) <= e.n /\ e.n <= Formula(e.fn).top

(* What the other verifiers claim holds (MCPrecision, MCEdge): they say so   *)
IsClaim(e) == e.ok = 1

ExplainsTool(e) ==
  CASE e.k = "minmax" -> IsMinMax(e)
    [] e.k = "entry" -> IsEntry(e)
    [] e.k = "table" -> IsTable(e)
    [] e.k = "bits" -> IsBits(e)
    [] e.k = "bitscount" -> IsBitsCount(e)
    [] e.k = "valid" -> IsValidUpTo(e)
    [] e.k = "claim" -> IsClaim(e)
    [] OTHER -> FALSE
=============================================================================
