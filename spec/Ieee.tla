-------------------------------- MODULE Ieee --------------------------------
(* Binary floating-point formats and bit patterns, IEEE-754.                 *)
(* A format is [p |-> number of stored fraction bits, eb |-> exponent bits]. *)
(* A bit pattern is a BigNat below 2^(1 + eb + p).                           *)
EXTENDS BigNat

Float  == [p |-> 23, eb |-> 8]
Double == [p |-> 52, eb |-> 11]

Width(F) == 1 + F.eb + F.p
Bias(F) == 2^(F.eb - 1) - 1
MaxExp(F) == 2^F.eb - 1                       \* the exponent field of infinities and NaNs

\* The three fields.
Decode(F, bits) ==
  LET t == BDivMod(bits, BPow2(F.p))
      top == BToInt(t[1])
  IN [neg |-> top >= 2^F.eb, exp |-> top % (2^F.eb), frac |-> t[2]]

Encode(F, neg, exp, frac) ==
  BAdd(BShl(BInt((IF neg THEN 2^F.eb ELSE 0) + exp), F.p), frac)

\* Classification.
IsFinite(F, d) == d.exp # MaxExp(F)
IsZero(F, d) == d.exp = 0 /\ d.frac = BZero
IsNonzero(F, d) == ~IsZero(F, d)
IsSubnormal(F, d) == d.exp = 0               \* as the library documents it: exponent field all zero
IsInf(F, d) == d.exp = MaxExp(F) /\ d.frac = BZero
IsNaN(F, d) == d.exp = MaxExp(F) /\ d.frac # BZero
IsQuietNaN(F, d) == IsNaN(F, d) /\ BLe(BPow2(F.p - 1), d.frac)
IsSignalingNaN(F, d) == IsNaN(F, d) /\ BLt(d.frac, BPow2(F.p - 1))

\* The exact magnitude of a finite pattern: Sig * 2^BinExp.
Sig(F, d) == IF d.exp = 0 THEN d.frac ELSE BAdd(BPow2(F.p), d.frac)
BinExp(F, d) == (IF d.exp = 0 THEN 1 ELSE d.exp) - Bias(F) - F.p
=============================================================================
