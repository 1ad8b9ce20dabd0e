----------------------------- MODULE BigNatDef -----------------------------
(* Natural numbers of any size, as little-endian sequences of limbs in base  *)
(* 2^15 without leading (that is: trailing) zero limbs.  <<>> is zero.       *)
(* TLC's integers are 32 bits wide, and the properties of this library talk  *)
(* about exact values of more than a thousand bits, so everything above this *)
(* module works on these sequences.                                          *)
(*                                                                           *)
(* This module is the definition.  BigNat has the same operators evaluated   *)
(* by java.math.BigInteger; MCBigNat checks that the two agree.              *)
EXTENDS Integers, Sequences

B == 32768

IsNat(a) == /\ \A i \in 1..Len(a) : a[i] \in 0..(B-1)
            /\ Len(a) > 0 => a[Len(a)] # 0

RECURSIVE Norm(_)
Norm(a) == IF Len(a) > 0 /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a)-1)) ELSE a

RECURSIVE FromInt(_)
FromInt(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o FromInt(n \div B)

\* Only for values below 2^31.
RECURSIVE ToInt(_)
ToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + B * ToInt(Tail(a))

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1
                    ELSE CmpFrom(a, b, i-1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1
             ELSE IF Len(a) > Len(b) THEN 1
             ELSE CmpFrom(a, b, Len(a))

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET x == Limb(a, i) + Limb(b, i) + c IN <<x % B>> \o AddFrom(a, b, i+1, x \div B)
Add(a, b) == AddFrom(a, b, 1, 0)

\* a - b, for a >= b
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET x == a[i] - Limb(b, i) - c
       IN <<x % B>> \o SubFrom(a, b, i+1, IF x < 0 THEN 1 ELSE 0)
Sub(a, b) == Norm(SubFrom(a, b, 1, 0))

RECURSIVE MulLimbFrom(_, _, _, _)
MulLimbFrom(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET x == a[i] * d + c IN <<x % B>> \o MulLimbFrom(a, d, i+1, x \div B)
RECURSIVE Mul(_, _)
Mul(a, b) == IF b = <<>> \/ a = <<>> THEN <<>>
             ELSE LET hi == Mul(a, Tail(b))
                      lo == Norm(MulLimbFrom(a, Head(b), 1, 0))
                  IN IF hi = <<>> THEN lo ELSE Add(<<0>> \o hi, lo)

RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN <<1>>
             ELSE LET h == Pow(a, n \div 2) s == Mul(h, h) IN IF n % 2 = 1 THEN Mul(s, a) ELSE s
Pow2(n) == Pow(<<2>>, n)
Pow5(n) == Pow(<<5>>, n)
Pow10(n) == Pow(<<10>>, n)

\* Long division, one bit of the dividend at a time from the top.
Bit(a, k) == (Limb(a, (k \div 15) + 1) \div (2^(k % 15))) % 2
RECURSIVE DivBits(_, _, _, _, _)
DivBits(a, b, k, q, r) ==
  IF k < 0 THEN <<q, r>>
  ELSE LET r2 == Add(Add(r, r), FromInt(Bit(a, k)))
           ge == Cmp(r2, b) >= 0
       IN DivBits(a, b, k-1, Add(Add(q, q), IF ge THEN <<1>> ELSE <<>>),
                  IF ge THEN Sub(r2, b) ELSE r2)
\* <<quotient, remainder>>, for b # 0
DivMod(a, b) == DivBits(a, b, 15 * Len(a) - 1, <<>>, <<>>)
Div(a, b) == DivMod(a, b)[1]
Mod(a, b) == DivMod(a, b)[2]

\* Number of bits; 0 for 0.
RECURSIVE IntBits(_)
IntBits(n) == IF n = 0 THEN 0 ELSE 1 + IntBits(n \div 2)
BitLen(a) == IF a = <<>> THEN 0 ELSE 15 * (Len(a) - 1) + IntBits(a[Len(a)])

IsOdd(a) == Limb(a, 1) % 2 = 1

\* Decimal digits, most significant first; <<>> for 0.
RECURSIVE Digits(_)
Digits(a) == IF a = <<>> THEN <<>>
             ELSE LET qr == DivMod(a, <<10>>) IN Digits(qr[1]) \o <<ToInt(qr[2])>>
DigitLen(a) == Len(Digits(a))

\* Number read from decimal digits.
RECURSIVE FromDigits(_)
FromDigits(s) == IF s = <<>> THEN <<>>
                 ELSE Add(Mul(FromDigits(SubSeq(s, 1, Len(s)-1)), <<10>>), FromInt(s[Len(s)]))
=============================================================================
