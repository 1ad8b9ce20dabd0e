------------------------------- MODULE Writer -------------------------------
(* The text writer as a machine: it peels groups of digits off the           *)
(* significand from the right, putting bytes directly into the caller's      *)
(* buffer, then the leading digit, the point, and the exponent.  A cell of   *)
(* the buffer not yet written holds Untouched, so a cell the writer forgets  *)
(* or one it writes outside its text is visible in the final state.          *)
EXTENDS ToChars
Untouched == -1
Cells == -2..27          \* indices of the modelled memory; the buffer starts at 1

VARIABLES neg, sig, ex, wide,  \* the request: sign, significand, exponent, double?
          pc, out, i, base, buf
wvars == <<neg, sig, ex, wide, pc, out, i, base, buf>>

OLen == BDigitLen(sig)
Digit(n, k) == BToInt(BMod(BDiv(n, BPow10(k)), <<10>>))     \* k-th digit from the right
Put(b, at, ds) == [j \in DOMAIN b |-> IF j >= at /\ j < at + Len(ds) THEN ds[j - at + 1] ELSE b[j]]
\* the k lowest digits of n, as text
Low(n, k) == [j \in 1..k |-> Zero + Digit(n, k - j)]

WInit == pc = "sign" /\ out = sig /\ i = 0 /\ base = 1 /\ buf = [j \in Cells |-> Untouched]

Sign ==
  /\ pc = "sign"
  /\ IF neg THEN buf' = Put(buf, 1, <<Minus>>) /\ base' = 2 ELSE UNCHANGED <<buf, base>>
  /\ pc' = "digits" /\ UNCHANGED <<neg, sig, ex, wide, out, i>>

\* peel k digits; the group ends where the previous one began
Peel(k) ==
  /\ buf' = Put(buf, base + OLen - i - k + 1, Low(out, k))
  /\ out' = BDiv(out, BPow10(k))
  /\ i' = i + k
  /\ UNCHANGED <<neg, sig, ex, wide, base>>

Eight == pc = "digits" /\ wide /\ i = 0 /\ BLe(BPow2(32), out) /\ Peel(8) /\ UNCHANGED pc
Four == pc = "digits" /\ ~(wide /\ i = 0 /\ BLe(BPow2(32), out)) /\ BLe(BPow10(4), out) /\ Peel(4) /\ UNCHANGED pc
Two == pc = "digits" /\ BLt(out, BPow10(4)) /\ BLe(BPow10(2), out) /\ Peel(2) /\ UNCHANGED pc
Lead ==   \* one or two digits left; the point goes between them
  /\ pc = "digits" /\ BLt(out, BPow10(2))
  /\ buf' = IF BLe(<<10>>, out)
            THEN Put(Put(buf, base + OLen - i, <<Zero + Digit(out, 0)>>), base, <<Zero + Digit(out, 1)>>)
            ELSE Put(buf, base, <<Zero + Digit(out, 0)>>)
  /\ pc' = "point" /\ UNCHANGED <<neg, sig, ex, wide, out, i, base>>
PointStep ==
  /\ pc = "point"
  /\ IF OLen > 1 THEN buf' = Put(buf, base + 1, <<Point>>) /\ base' = base + OLen + 1
     ELSE base' = base + 1 /\ UNCHANGED buf
  /\ pc' = "exp" /\ UNCHANGED <<neg, sig, ex, wide, out, i>>
Exp ==
  /\ pc = "exp"
  /\ LET e == ex + OLen - 1
         t == <<LetterE>> \o IntText(e)
     IN buf' = Put(buf, base, t) /\ base' = base + Len(t)
  /\ pc' = "done" /\ UNCHANGED <<neg, sig, ex, wide, out, i>>

WNext == Sign \/ Eight \/ Four \/ Two \/ Lead \/ PointStep \/ Exp

\* What must be true at the end: exactly the canonical text, and nothing else touched.
Written ==
  pc = "done" =>
    LET t == Render(neg, sig, ex)
    IN /\ base = 1 + Len(t)
       /\ \A j \in Cells : buf[j] = IF j \in 1..Len(t) THEN t[j] ELSE Untouched
       /\ Canonical(t) /\ Parse(t) = <<neg, sig, ex>>
       /\ t[1] # 78 /\ ~Contains(t, 73)                     \* neither NaN nor Infinity
       /\ t # ZeroText /\ t # <<Minus>> \o ZeroText
\* No write ever leaves the final text's range.
InRange == \A j \in Cells : buf[j] # Untouched => j \in 1..Len(Render(neg, sig, ex))
=============================================================================
