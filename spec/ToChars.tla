------------------------------ MODULE ToChars -------------------------------
(* Text of a decimal and of the special values, as sequences of bytes.       *)
EXTENDS Shortest

Minus == 45   Point == 46   Zero == 48   LetterE == 69
Infinity == <<73, 110, 102, 105, 110, 105, 116, 121>>
NaN == <<78, 97, 78>>
ZeroText == <<48, 69, 48>>

Ascii(ds) == [i \in 1..Len(ds) |-> Zero + ds[i]]

\* A machine integer in minimal decimal form.
IntText(n) == IF n = 0 THEN <<Zero>>
              ELSE IF n < 0 THEN <<Minus>> \o Ascii(BDigits(BInt(-n)))
              ELSE Ascii(BDigits(BInt(n)))

\* Text of (-1)^neg * s * 10^E, s > 0.
Render(neg, s, E) ==
  LET ds == BDigits(s)
      n  == Len(ds)
  IN (IF neg THEN <<Minus>> ELSE <<>>)
     \o <<Zero + ds[1]>>
     \o (IF n > 1 THEN <<Point>> \o Ascii(Tail(ds)) ELSE <<>>)
     \o <<LetterE>> \o IntText(E + n - 1)

SpecialText(F, d) ==
  IF IsNaN(F, d) THEN NaN
  ELSE (IF d.neg THEN <<Minus>> ELSE <<>>) \o (IF IsInf(F, d) THEN Infinity ELSE ZeroText)

(* Reading a text back, from its grammar alone.                              *)
IsDigit(c) == c \in 48..57
IndexOf(t, c) == CHOOSE i \in 1..Len(t) : t[i] = c /\ \A j \in 1..(i-1) : t[j] # c
Contains(t, c) == \E i \in 1..Len(t) : t[i] = c
AllDigits(t) == Len(t) > 0 /\ \A i \in 1..Len(t) : IsDigit(t[i])
Vals(t) == [i \in 1..Len(t) |-> t[i] - Zero]

\* Well-formed finite text: [-] d [. d+] E [-] d+ , canonical in every part.
Canonical(t) ==
  LET u == IF Len(t) > 0 /\ t[1] = Minus THEN Tail(t) ELSE t
  IN /\ Contains(u, LetterE)
     /\ LET k  == IndexOf(u, LetterE)
            mt == SubSeq(u, 1, k - 1)
            et == SubSeq(u, k + 1, Len(u))
            ed == IF Len(et) > 0 /\ et[1] = Minus THEN Tail(et) ELSE et
            neg == ed # et
        IN /\ AllDigits(ed)
           /\ Len(ed) > 1 => ed[1] # Zero
           /\ neg => ed # <<Zero>>
           /\ Len(mt) > 0 /\ IsDigit(mt[1])
           /\ Len(mt) > 1 => /\ Len(mt) > 2 /\ mt[2] = Point /\ AllDigits(SubSeq(mt, 3, Len(mt)))
                             /\ mt[Len(mt)] # Zero
           /\ mt[1] # Zero

\* The decimal a canonical text denotes: <<neg, s, E>>
Parse(t) ==
  LET neg == t[1] = Minus
      u  == IF neg THEN Tail(t) ELSE t
      k  == IndexOf(u, LetterE)
      mt == SubSeq(u, 1, k - 1)
      et == SubSeq(u, k + 1, Len(u))
      eneg == et[1] = Minus
      ev == BToInt(BFromDigits(Vals(IF eneg THEN Tail(et) ELSE et)))
      ds == <<mt[1]>> \o SubSeq(mt, 3, Len(mt))
  IN <<neg, BFromDigits(Vals(ds)), (IF eneg THEN -ev ELSE ev) - (Len(ds) - 1)>>

MaxText(F) == IF F.p = 23 THEN 15 ELSE 24
=============================================================================
