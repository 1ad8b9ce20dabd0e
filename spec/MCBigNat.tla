------------------------------ MODULE MCBigNat ------------------------------
(* Checks that the overridden operators of BigNat are the defined ones: on   *)
(* every pair from a set of numbers around limb boundaries, and their        *)
(* products.  One state per pair.                                            *)
EXTENDS BigNat, FiniteSets, TLC
VARIABLES a, b, done
DD == INSTANCE BigNatDef

Small == {DD!FromInt(n) : n \in {0, 1, 2, 3, 5, 9, 10, 11, 99, 100, 101, 999, 1000, 32767, 32768, 32769, 65535, 65536, 65537,
                      99999, 100000, 16777216, 1073741824, 2147483647}}
Wide == {DD!Mul(x, y) : x \in {DD!FromInt(2147483647), DD!FromInt(1073741824), DD!FromInt(1000000000)},
                        y \in {DD!FromInt(2147483647), DD!FromInt(32768), DD!FromInt(99991)}}
Huge == {DD!Mul(x, x) : x \in Wide} \cup {DD!Pow5(40), DD!Pow2(127), DD!Sub(DD!Pow2(150), <<1>>), DD!Pow10(25),
                                          DD!Sub(DD!Pow10(25), <<1>>)}
All == Small \cup Wide \cup Huge

Init == a \in All /\ b = <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\ b' \in All /\ UNCHANGED a

SameOne == /\ BDigits(a) = DD!Digits(a) /\ BDigitLen(a) = DD!DigitLen(a)
           /\ BBitLen(a) = DD!BitLen(a) /\ BFromDigits(DD!Digits(a)) = a
           /\ DD!FromDigits(DD!Digits(a)) = a
           /\ BIsNat(a) /\ DD!IsNat(a) /\ BIsNat(<<1, 0>>) = DD!IsNat(<<1, 0>>)
Same == /\ BCmp(a, b) = DD!Cmp(a, b)
        /\ BAdd(a, b) = DD!Add(a, b)
        /\ BMul(a, b) = DD!Mul(a, b)
        /\ DD!Cmp(a, b) >= 0 => BSub(a, b) = DD!Sub(a, b)
        /\ b # <<>> => /\ BDivMod(a, b) = DD!DivMod(a, b) /\ BDiv(a, b) = DD!Div(a, b) /\ BMod(a, b) = DD!Mod(a, b)
Inv == (done => Same) /\ (~done => SameOne)
Consts == /\ \A n \in 0..70 : BPow2(n) = DD!Pow2(n) /\ BPow5(n) = DD!Pow5(n) /\ BPow10(n) = DD!Pow10(n)
          /\ \A n \in {0, 1, 32767, 32768, 2147483647} : BInt(n) = DD!FromInt(n) /\ BToInt(BInt(n)) = n /\ DD!ToInt(BInt(n)) = n
ASSUME Consts
=============================================================================
