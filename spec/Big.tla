-------------------------------- MODULE Big ---------------------------------
(* The big integers the repository computes and verifies its tables with     *)
(* (tests/bigint.h), as a machine: registers hold natural numbers of at most *)
(* cap bits, and each operation, where its precondition holds, leaves in its *)
(* destination the exact result together with that result's length in bits.  *)
EXTENDS BigNat
LOCAL INSTANCE TLC

VARIABLES cap,   \* capacity in bits, a multiple of the limb size
          reg    \* register -> natural number

Regs == 0..3
BigInit == cap = 0 /\ reg = [r \in Regs |-> BZero]

B(i) == IF i THEN 1 ELSE 0
Order(x, y) == LET c == BCmp(x, y) IN <<B(c < 0), B(c <= 0), B(c > 0), B(c >= 0), B(c = 0), B(c # 0)>>

\* the least k with x * 2^k >= y
Doublings(x, y) == LET k == BBitLen(y) - BBitLen(x) IN IF BLe(y, BShl(x, k)) THEN k ELSE k + 1

\* preconditions: what bigint.h states or asserts, and room for the result
Fits(x) == BBitLen(x) <= cap
Result(e) ==
  LET x == reg[e.d] IN
  CASE e.op = "load" -> e.n
    [] e.op = "pow2" -> BPow2(e.n)
    [] e.op = "mul5" -> BMul(x, <<5>>)
    [] e.op = "add" -> BAdd(x, reg[e.s])
    [] e.op = "adde" -> BAdd(x, e.n)
    [] e.op = "sub" -> BSub(x, reg[e.s])
    [] e.op = "dec" -> BSub(x, BOne)
    [] e.op = "mul" -> BMul(x, reg[e.s])
    [] e.op = "mule" -> BMul(x, e.n)
    [] e.op = "div" -> BMod(x, reg[e.s])
    [] e.op = "until" -> BShl(x, Doublings(x, reg[e.s]))
    [] e.op \in {"cmp", "cmpe"} -> x
Allowed(e) ==
  /\ e.d \in Regs
  /\ LET x == reg[e.d] IN
     CASE e.op \in {"load", "cmpe"} -> BBitLen(e.n) <= 64
       [] e.op = "pow2" -> e.n < cap
       [] e.op = "sub" -> BLe(reg[e.s], x)
       [] e.op = "dec" -> x # BZero
       [] e.op = "div" -> reg[e.s] # BZero
       [] e.op = "until" -> x # BZero /\ BLe(x, reg[e.s])
       [] e.op = "mul5" -> x # BZero
       [] OTHER -> TRUE
  /\ Fits(Result(e))
\* what else the operation tells
Told(e) ==
  CASE e.op = "cmp" -> e.r = Order(reg[e.d], reg[e.s])
    [] e.op = "cmpe" -> e.r = Order(reg[e.d], e.n)
    [] e.op = "until" -> e.r = Doublings(reg[e.d], reg[e.s])
    [] e.op = "div" -> e.died = 0 /\ e.t \in Regs \ {e.d} /\ e.q = BDiv(reg[e.d], reg[e.s]) /\ e.ql = BBitLen(e.q)
    [] OTHER -> TRUE

CanDo(e) == Allowed(e) /\ e.v = Result(e) /\ e.l = BBitLen(e.v) /\ Told(e)
Do(e) == /\ CanDo(e)
         /\ reg' = LET r == [reg EXCEPT ![e.d] = e.v] IN IF e.op = "div" THEN [r EXCEPT ![e.t] = e.q] ELSE r
         /\ UNCHANGED cap
CanBegin(e) == e.cap > 0 /\ e.cap % 64 = 0
Begin(e) == CanBegin(e) /\ cap' = e.cap /\ reg' = [r \in Regs |-> BZero]

---------------------------------------------------------------------------
(* The defects of bigint.h found with this machine, exactly: which operands, *)
(* and which wrong outcome.  Nothing else is excused by them.                *)
Pos(x) == IF x = BZero THEN 0 ELSE (BBitLen(x) - 1) \div 64
Word == BPow2(64)
Limb(x, i) == BMod(BShr(x, 64 * i), Word)
RECURSIVE LowestFrom(_, _)
LowestFrom(x, i) == IF Limb(x, i) # BZero THEN i ELSE LowestFrom(x, i + 1)

\* a recorded length, of a number whose leading bit is said to be in word p, where the length is b (0 in a word but the lowest makes no sense)
Length(p, b) == 64 * p + b + (IF p > 0 /\ b = 0 THEN 1000000 ELSE 0)

\* += of a word does not move the position of the leading bit unless a new word begins
StaleBit(e) == /\ e.op = "adde" /\ Allowed(e)
               /\ LET x == reg[e.d] r == Result(e) IN
                  Pos(r) = Pos(x) /\ BBitLen(r) # BBitLen(x) /\ e.v = r /\ e.l = BBitLen(x)
\* -- takes the word where the borrow ends for the leading one
LostTop(e) == /\ e.op = "dec" /\ Allowed(e)
              /\ LET x == reg[e.d] i == LowestFrom(x, 0) top == Pos(x) IN
                 i < top /\ IF Limb(x, i) = BOne /\ i > 0
                            THEN e.v = BMod(BSub(x, BOne), BPow2(64 * top)) /\ e.l = 64 * top
                            ELSE e.v = BSub(x, BOne) /\ e.l = Length(top, BBitLen(BSub(Limb(x, i), BOne)))
\* * drops the carry out of a partial sum whose last partial product did not need another word
RECURSIVE Sum(_, _, _, _)
Sum(x, y, i, acc) ==
  IF i > Pos(y) THEN acc
  ELSE LET part == BMul(x, Limb(y, i))
           t == BAdd(acc, BShl(part, 64 * i))
       IN Sum(x, y, i + 1, IF BBitLen(part) > 64 * (Pos(x) + 1) THEN t ELSE BMod(t, BPow2(64 * (Pos(x) + i + 1))))
LostCarry(e) == /\ e.op = "mul" /\ Allowed(e)
                /\ LET x == reg[e.d] y == reg[e.s] w == Sum(x, y, 1, BMul(x, Limb(y, 0)))
                       top == Pos(y) + IF BBitLen(BMul(x, Limb(y, Pos(y)))) > 64 * (Pos(x) + 1) THEN Pos(x) + 1 ELSE Pos(x)
                   IN w # BMul(x, y) /\ e.v = w /\ e.l = Length(top, BBitLen(Limb(w, top)))
\* a product with zero keeps the length of the other factor
LongZero(e) == /\ e.op \in {"mul", "mule"} /\ Allowed(e) /\ Result(e) = BZero
               /\ LET p == IF e.op = "mul" THEN Pos(reg[e.d]) + Pos(reg[e.s]) ELSE Pos(reg[e.d])
                  IN p > 0 /\ e.v = BZero /\ e.l = Length(p, 0)
\* Long division keeps n * 2^t aligned with what is left of x.  It goes wrong when it moves it down by a whole word and
\* some bits more at once (words are left behind), and when it starts a new lowest word, which then gets the last bit of n twice
Bit(x) == ((BBitLen(x) - 1) % 64) + 1
RECURSIVE Slips(_, _)
Slips(x, n) ==
  IF BLt(x, n) THEN FALSE
  ELSE LET a == BBitLen(x) - BBitLen(n)
           t == IF BLe(BShl(n, a), x) THEN a ELSE a - 1
           m == BShl(n, t)
           y == BSub(x, m)
           down == BBitLen(m) - BBitLen(y)
       IN \/ a > 0 /\ a % 64 = 0 /\ t < a /\ BMod(n, <<2>>) = BOne
          \/ /\ y # BZero
             /\ down <= t
             /\ (down > 64 /\ down % 64 # 0) \/ Slips(y, n)
DivisionSlip(e) == e.op = "div" /\ Allowed(e) /\ Slips(reg[e.d], reg[e.s])
\* by a product with zero, min-max Euclid takes the number 1 for more than n, and divides by zero
LongRatio(e) == e.k = "minmax" /\ e.died = 1 /\ BLe(Word, BDiv(e.a, e.b))
\* min-max Euclid inherits the slips of the divisions it makes
RECURSIVE EuclidSlips(_, _, _, _, _)
EuclidSlips(a, b, s, u, n) ==
  LET even == BMod(b, a) = BZero
      b1 == IF even THEN a ELSE BMod(b, a)
      u1 == BAdd(u, BMul(s, BSub(BDiv(b, a), IF even THEN BOne ELSE BZero)))
      even2 == BMod(a, b1) = BZero
      a1 == IF even2 THEN b1 ELSE BMod(a, b1)
      s1 == BAdd(s, BMul(u1, BSub(BDiv(a, b1), IF even2 THEN BOne ELSE BZero)))
  IN \/ Slips(b, a)
     \/ BLe(u1, n) /\ (Slips(a, b1) \/ (BLe(s1, n) /\ <<a1, b1>> # <<a, b>> /\ EuclidSlips(a1, b1, s1, u1, n)))
EuclidSlip(e) == e.k = "minmax" /\ EuclidSlips(e.a, e.b, BOne, BZero, e.n)
Known(e) == IF e.k # "op" THEN CASE LongRatio(e) -> "long-ratio" [] EuclidSlip(e) -> "division-slip" [] OTHER -> ""
            ELSE CASE StaleBit(e) -> "stale-bit" [] LostTop(e) -> "lost-top" [] LostCarry(e) -> "lost-carry" [] LongZero(e) -> "long-zero" [] DivisionSlip(e) -> "division-slip" [] OTHER -> ""
=============================================================================
