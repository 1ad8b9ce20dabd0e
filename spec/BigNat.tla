------------------------------- MODULE BigNat -------------------------------
(* The operators of BigNatDef under short names.  java/BigNat.java replaces  *)
(* them, when it is on TLC's class path, by BigInteger arithmetic on the     *)
(* same limb sequences; without it this module still means the same, slower. *)
EXTENDS Integers, Sequences
D == INSTANCE BigNatDef

BInt(n) == D!FromInt(n)
BToInt(a) == D!ToInt(a)
BCmp(a, b) == D!Cmp(a, b)
BAdd(a, b) == D!Add(a, b)
BSub(a, b) == D!Sub(a, b)
BMul(a, b) == D!Mul(a, b)
BPow2(n) == D!Pow2(n)
BPow5(n) == D!Pow5(n)
BPow10(n) == D!Pow10(n)
BDivMod(a, b) == D!DivMod(a, b)
BDiv(a, b) == D!Div(a, b)
BMod(a, b) == D!Mod(a, b)
BBitLen(a) == D!BitLen(a)
BDigits(a) == D!Digits(a)
BDigitLen(a) == D!DigitLen(a)
BFromDigits(s) == D!FromDigits(s)
BIsNat(a) == D!IsNat(a)

BZero == <<>>
BOne == <<1>>
BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0
BIsOdd(a) == IF a = <<>> THEN FALSE ELSE a[1] % 2 = 1
BShl(a, n) == BMul(a, BPow2(n))
BShr(a, n) == BDiv(a, BPow2(n))
=============================================================================
