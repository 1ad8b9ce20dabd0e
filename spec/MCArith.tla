------------------------------ MODULE MCArith -------------------------------
(* The arithmetic building blocks, as the portable code computes them, on    *)
(* words of W = 2H bits instead of 64 and 32: every operand.                 *)
EXTENDS BigNat, TLC
CONSTANTS H,         \* bits of a half word
          WD         \* width of the words tested for divisibility
VARIABLES op, x, y, done
W == 2 * H
Half == 2^H
Word == 2^W

\* x * y from half words: <<high word, low word>>
Mul2(u, v) ==
  LET a == u \div Half  b == u % Half
      c == v \div Half  d == v % Half
      ac == a * c  bc == b * c  ad == a * d  bd == b * d
      m == (bd \div Half) + (ad % Half) + (bc % Half)
  IN << (ac + (m \div Half) + (ad \div Half) + (bc \div Half)) % Word,
        ((m * Half) + (bd % Half)) % Word >>
Upper(u, v) == Mul2(u, v)[1]
\* upper word of u * (vh:vl): carry detected by wrap-around
Upper3(u, vh, vl) ==
  LET g0 == Mul2(u, vh)
      g10 == Upper(u, vl)
      m == (g0[2] + g10) % Word
  IN (g0[1] + (IF m < g10 THEN 1 ELSE 0)) % Word
\* upper half word of (half word u) * (word v)
UpperHalf(u, v) == (((u * (v % Half)) \div Half) + u * (v \div Half)) \div Half

\* inverse of 5 modulo 2^n, by the recurrence r -> 5 r^2
RECURSIVE Inv5From(_, _, _)
Inv5From(r, e, n) == IF e > n - 2 THEN r ELSE Inv5From((((5 * r) % 2^n) * r) % 2^n, e + 1, n)
Inv5(n) == Inv5From(5, 1, n)
RECURSIVE PowMod(_, _, _)
PowMod(b, e, m) == IF e = 0 THEN 1 ELSE (b * PowMod(b, e - 1, m)) % m
Div5(u, e, n) == (u * PowMod(Inv5(n), e, 2^n)) % 2^n <= (2^n - 1) \div 5^e
Exps5(n) == {e \in 0..13 : 5^e < 2^n}

Log10Of2(e) == (e * 315652) \div 1048576
Log2Of10(e) == 3 * e + ((e * 337566) \div 1048576)
FloorLog(r, n, B(_), C(_)) ==
  IF n >= 0 THEN r >= 0 /\ BLe(B(r), C(n)) /\ BLt(C(n), B(r + 1))
  ELSE r < 0 /\ BLe(C(-n), B(-r)) /\ BLt(B(-r - 1), C(-n))
\* 0x6e40d1a4 = 56449 * 2^15 + 20900
Log5Of2(e) == LET c == BAdd(BMul(<<56449 % 32768, 56449 \div 32768>>, <<0, 1>>), BInt(20900))
                  n == BMul(BInt(IF e < 0 THEN -e ELSE e), c)
              IN IF e >= 0 THEN BToInt(BShr(n, 32))
                 ELSE -(BToInt(BShr(BAdd(n, BSub(BPow2(32), BOne)), 32)))

Init == /\ done = FALSE
        /\ \/ op = "mul" /\ x \in 0..(Word - 1) /\ y \in 0..(Word - 1)
           \/ op = "mul3" /\ x \in 0..(Word - 1) /\ y \in 0..(Word - 1)
           \/ op = "mul96" /\ x \in 0..(Half - 1) /\ y \in 0..(Word - 1)
           \/ op = "div5" /\ x \in 0..(2^WD - 1) /\ y \in Exps5(WD)
           \/ op = "log10" /\ x \in -1650..1650 /\ y = 0
           \/ op = "log2" /\ x \in -642..642 /\ y = 0
           \/ op = "log5" /\ x \in -2000..2000 /\ y = 0
Next == ~done /\ done' = TRUE /\ UNCHANGED <<op, x, y>>

Check ==
  CASE op = "mul" -> Mul2(x, y)[1] * Word + Mul2(x, y)[2] = x * y
    [] op = "mul3" -> \A l \in 0..(Word - 1) : Upper3(x, y, l) = (x * (y * Word + l)) \div (Word * Word)
    [] op = "mul96" -> UpperHalf(x, y) = (x * y) \div Word
    [] op = "div5" -> /\ (5 * Inv5(WD)) % 2^WD = 1
                      /\ Div5(x, y, WD) <=> x % 5^y = 0
    [] op = "log10" -> FloorLog(Log10Of2(x), x, BPow10, BPow2)
    [] op = "log2" -> FloorLog(Log2Of10(x), x, BPow2, BPow10)
    [] op = "log5" -> FloorLog(Log5Of2(x), x, BPow5, BPow2)
Inv == done => Check
=============================================================================
