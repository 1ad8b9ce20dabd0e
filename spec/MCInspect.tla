----------------------------- MODULE MCInspect ------------------------------
(* Every pattern of a small format: the classes partition the patterns, the  *)
(* fields determine the pattern, and the code's way of asking (masks and     *)
(* shifts on the whole word, as in the source) agrees with the definitions.  *)
EXTENDS Ieee
CONSTANTS P, EB
VARIABLES bits, done
F == [p |-> P, eb |-> EB]
W == Width(F)
Init == bits \in 0..(2^W - 1) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED bits

One(S) == \E x \in DOMAIN S : S[x] /\ \A y \in DOMAIN S : S[y] => y = x
ExpMask == (2^EB - 1) * 2^P
And(x, m) == (((x \div 2^P) % 2^EB) * 2^P)               \* x & ExpMask
Shl1(x) == (2 * x) % 2^W
ShlE(x) == (x * 2^(EB + 1)) % 2^W

Check ==
  LET d == Decode(F, BInt(bits))
      fr == BToInt(d.frac)
  IN /\ Encode(F, d.neg, d.exp, d.frac) = BInt(bits)
     /\ One(<<IsFinite(F, d), IsInf(F, d), IsNaN(F, d)>>)
     /\ IsNaN(F, d) <=> One(<<IsQuietNaN(F, d), IsSignalingNaN(F, d)>>)
     /\ ~IsNaN(F, d) => ~IsQuietNaN(F, d) /\ ~IsSignalingNaN(F, d)
     /\ IsZero(F, d) => IsFinite(F, d) /\ IsSubnormal(F, d)
     \* the source's formulations
     /\ IsFinite(F, d) <=> And(bits, ExpMask) # ExpMask
     /\ IsNonzero(F, d) <=> Shl1(bits) # 0
     /\ IsSubnormal(F, d) <=> And(bits, ExpMask) = 0
     /\ d.neg <=> bits \div 2^(W - 1) # 0
     /\ (IsInf(F, d) /\ ~d.neg) <=> bits = ExpMask
     /\ (IsInf(F, d) /\ d.neg) <=> bits = ExpMask + 2^(W - 1)
     /\ IsNaN(F, d) <=> (~IsFinite(F, d) /\ fr # 0)
     /\ IsNaN(F, d) <=> (~IsFinite(F, d) /\ ShlE(bits) # 0)          \* as the text writer asks
     \* every NaN is its quiet bit and its payload
     /\ IsNaN(F, d) => fr = (IF IsQuietNaN(F, d) THEN 2^(P - 1) ELSE 0) + (fr % 2^(P - 1))
     \* order of magnitudes is order of patterns
     /\ (IsFinite(F, d) /\ bits % 2^(W - 1) # 0) =>
          LET q == Decode(F, BInt(bits - 1))
              e == IF BinExp(F, d) < BinExp(F, q) THEN BinExp(F, d) ELSE BinExp(F, q)
          IN BLt(BShl(Sig(F, q), BinExp(F, q) - e), BShl(Sig(F, d), BinExp(F, d) - e))
Inv == done => Check
=============================================================================
