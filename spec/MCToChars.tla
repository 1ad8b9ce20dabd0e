----------------------------- MODULE MCToChars ------------------------------
(* The writer on every length of significand, every exponent around the      *)
(* places where the exponent's text changes length, both signs: the final    *)
(* buffer is the canonical text, which parses back; the size bounds hold.    *)
EXTENDS Writer
CONSTANTS MaxF, MaxD       \* digits explored for float and for double

\* For n digits: ascending digits, nines, one with zeros inside, one and a half
Pattern(n, k) ==
  BFromDigits([j \in 1..n |->
    CASE k = 1 -> ((j - 1) % 9) + 1
      [] k = 2 -> 9
      [] k = 3 -> IF j = 1 \/ j = n THEN 1 ELSE 0
      [] k = 4 -> IF j = n THEN 7 ELSE 4
      [] k = 5 -> IF j = 1 THEN 4 ELSE IF j = 2 THEN 2 ELSE 9
      [] OTHER -> IF j % 4 = 1 THEN 5 ELSE IF j = n THEN 3 ELSE 0])
\* around 2^32, where the wide writer changes its path
Around == {BAdd(BPow2(32), BInt(x)) : x \in {1, 3, 9}} \cup {BSub(BPow2(32), BInt(x)) : x \in {1, 3, 5}}
Sigs(n) == {s \in {Pattern(n, k) : k \in 1..6} : BMod(s, <<10>>) # BZero}
Leads(w) == IF w THEN {-324, -323, -308, -101, -100, -99, -50, -11, -10, -9, -1, 0, 1, 9, 10, 11, 99, 100, 101, 250, 308}
            ELSE -45..38

Init == /\ neg \in BOOLEAN /\ wide \in BOOLEAN
        /\ \/ \E n \in 1..(IF wide THEN MaxD ELSE MaxF) : \E s \in Sigs(n) : \E l \in Leads(wide) : sig = s /\ ex = l - n + 1
           \/ wide /\ \E s \in Around : \E l \in {0, -7} : sig = s /\ ex = l
        /\ WInit
Next == WNext
Bounded == LET F == IF wide THEN Double ELSE Float IN Len(Render(neg, sig, ex)) <= MaxText(F)
=============================================================================
