------------------------------ MODULE MCTools -------------------------------
(* The integer formulas for logarithms hold exactly where the repository's   *)
(* verifier says they do, and no further.                                    *)
EXTENDS Tools
LOCAL INSTANCE TLC
VARIABLE fn
Init == fn \in {"floor_log10_pow2", "floor_log2_pow10", "floor_log5_pow2"}
Next == FALSE /\ fn' = fn
Range(f) == CASE f = "floor_log10_pow2" -> 1650 [] f = "floor_log2_pow10" -> 1024 [] f = "floor_log5_pow2" -> 65536
Holds == ValidUpTo(fn, Range(fn)) /\ Documented(fn) <= Range(fn)
=============================================================================
