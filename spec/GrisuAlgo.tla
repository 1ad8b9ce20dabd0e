----------------------------- MODULE GrisuAlgo ------------------------------
(* The conversion algorithm of the library as a machine that takes one step  *)
(* per decision, for any format.  A format F has the fields of Ieee plus     *)
(*   qc   bits of a table entry                                              *)
(*   ik   the initial kappa, mk the least (fixed by the format's width)      *)
(* and is used with the table of Contract!LeadingBits.                       *)
(*                                                                           *)
(* Variant "ok" is the algorithm.  The others plant one defect each, two of  *)
(* them defects the library once had; the model has to notice them.          *)
EXTENDS Shortest

Alpha == -5
Gamma == -2
Q(F) == Width(F)
MinExponent(F) == 2 - 2^(F.eb - 1) - (Q(F) - 1)
MaxExponent(F) == 2^(F.eb - 1) - Q(F)

\* logarithms, exact
FLog10Pow2(e) == IF e >= 0 THEN BDigitLen(BPow2(e)) - 1 ELSE BDigitLen(BPow5(-e)) - 1 + e
FLog2Pow10(e) == IF e >= 0 THEN BBitLen(BPow10(e)) - 1 ELSE -BBitLen(BPow10(-e))
RECURSIVE FLog5From(_, _)
FLog5From(x, n) == IF BLt(x, BPow5(n + 1)) THEN n ELSE FLog5From(x, n + 1)
FLog5Pow2(e) == IF e >= 0 THEN FLog5From(BPow2(e), 0)
                ELSE LET x == BPow2(-e) n == FLog5From(x, 0) IN IF x = BPow5(n) THEN -n ELSE -n - 1

\* bounds for deciding whether f * 2^x * 5^y is an integer, from the exponent alone
Qmp(F) == Q(F) - F.p
LowerBound(n) == FLog5Pow2(-(n + Alpha)) - n
LB3(F) == LowerBound(Qmp(F) - 3)
LB2(F) == LowerBound(Qmp(F) - 2)
LB1(F) == LowerBound(Qmp(F) - 1)
LB0(F) == LowerBound(Qmp(F))
MaxK0 == Alpha + 2
MaxKm1 == Alpha + 5
UB2(F) == (Alpha - 2) - FLog2Pow10(-FLog5Pow2(F.p + 2) - 1)
UB1(F) == (Alpha - 2) - FLog2Pow10(-FLog5Pow2(F.p + 1) - 1)

\* the leading n bits of 10^k: truncated, plus one for negative k
TableEntry(k, n) ==
  LET w == BPow10(IF k >= 0 THEN k ELSE -k)
      len == BBitLen(w)
  IN IF k >= 0 THEN (IF len <= n THEN BShl(w, n - len) ELSE BShr(w, len - n))
     ELSE LET t == BDiv(BPow2(n + len - 1), w)
              u == IF BBitLen(t) = n THEN t ELSE BDiv(BPow2(n + len), w)
          IN BAdd(u, BOne)

Divides2(x, n) == n <= 0 \/ BMod(x, BPow2(n)) = BZero
Divides5(x, n) == BMod(x, BPow5(n)) = BZero

---------------------------------------------------------------------------
(* Dispatch: what a rounding mode and a sign ask of the algorithm.           *)
Plan(libmode, neg, even) ==
  LET near(l, r, sym) == [tag |-> "near", left |-> l, right |-> r, sym |-> sym]
      lo == [tag |-> "left", left |-> TRUE, right |-> FALSE, sym |-> FALSE]
      hi == [tag |-> "right", left |-> FALSE, right |-> TRUE, sym |-> FALSE]
  IN CASE libmode \in {"NE", "NEs"} -> near(even, even, TRUE)
       [] libmode \in {"NO", "NOs"} -> near(~even, ~even, TRUE)
       [] libmode \in {"NPI", "NPIs"} -> near(~neg, neg, FALSE)
       [] libmode \in {"NMI", "NMIs"} -> near(neg, ~neg, FALSE)
       [] libmode = "NTZ" -> near(FALSE, TRUE, FALSE)
       [] libmode = "NAZ" -> near(TRUE, FALSE, FALSE)
       [] libmode = "DTZ" -> lo
       [] libmode = "DAZ" -> hi
       [] libmode = "DPI" -> IF neg THEN lo ELSE hi
       [] libmode = "DMI" -> IF neg THEN hi ELSE lo

---------------------------------------------------------------------------
(* Pieces of the algorithm over its state s.                                 *)
SignBit(s) == BPow2(Q(s.F) - 1)
Boundary(s) == BPow2(Qmp(s.F) - 2)
HalfBoundary(s) == BPow2(Qmp(s.F) - 3)
Length(s) == BPow2(Qmp(s.F) - 1)
Edge(s) == s.fc = SignBit(s) /\ s.e # MinExponent(s.F)

Mul(s, f) == BShr(BMul(f, s.cache), s.F.qc + s.mb)     \* floor(f * 10^k * 2^e), as far as the table tells
MulTwice(s, f) == BShr(BMul(f, s.cache), s.F.qc + s.mb - 1)

\* length of the interval in the same scale, integer part
Delta(s, tag, edge, mb) ==
  LET hiN == IF s.F.wide THEN Q(s.F) ELSE s.F.qc
      r == IF s.F.wide THEN BShr(s.cache, s.F.qc - Q(s.F)) ELSE s.cache
      n == Qmp(s.F) - 1
  IN CASE tag = "near" /\ edge -> BShr(BAdd(BShr(r, 1), BShr(r, 2)), hiN - n + mb)
       [] tag = "right" /\ edge -> BShr(r, hiN - (n - 1) + mb)
       [] OTHER -> BShr(r, hiN - n + mb)

\* is f * 2^e * 10^k (k = -minus_k) an integer, for the shapes of f the algorithm asks about
IsInt(s, case, f) ==
  LET e == s.e F == s.F IN
  CASE case = "qmpm3edge" -> e >= LB3(F) /\ e <= MaxK0
    [] case = "qmpm2" -> /\ e >= LB2(F)
                         /\ e <= MaxK0 \/ (e <= UB2(F) /\ Divides5(f, s.mk))
    [] OTHER ->
         LET ub == IF case = "two" THEN LB0(F) ELSE LB1(F) IN
         IF e < ub THEN Divides2(f, s.mk - e - (IF case = "two" THEN 1 ELSE 0))
         ELSE e <= MaxK0 \/ (e <= UB1(F) /\ Divides5(f, s.mk))
IsIntExact(s, f, twice) == \* the same, by definition
  LET e == s.e + (IF twice THEN 1 ELSE 0) k == -s.mk
      two == e + k
      num == BMul(f, BMul(BPow5(IF k > 0 THEN k ELSE 0), BPow2(IF two > 0 THEN two ELSE 0)))
  IN BMod(num, BMul(BPow5(IF k < 0 THEN -k ELSE 0), BPow2(IF two < 0 THEN -two ELSE 0))) = BZero

LeftEnd(s) ==
  CASE s.plan.tag = "near" -> IF Edge(s) THEN BSub(SignBit(s), HalfBoundary(s)) ELSE BSub(s.fc, Boundary(s))
    [] s.plan.tag = "left" -> s.fc
    [] OTHER -> IF Edge(s) THEN BSub(SignBit(s), Boundary(s)) ELSE BSub(s.fc, Length(s))
EqualFractions(s, fl) ==
  CASE s.plan.tag = "near" -> IF fl # BSub(SignBit(s), HalfBoundary(s)) THEN IsInt(s, "qmpm2", fl) ELSE IsInt(s, "qmpm3edge", fl)
    [] s.plan.tag = "left" -> IsInt(s, "other", fl)
    [] OTHER -> FALSE
FracSmaller(s) == LET fl == LeftEnd(s) IN BIsOdd(Mul(s, fl)) \/ (s.plan.left /\ EqualFractions(s, fl))

P10(n) == BPow10(n)
Odd(x) == BIsOdd(x)
Searches(s) == s.policy # "any"

---------------------------------------------------------------------------
(* The machine.                                                              *)
Start(F, variant, bits, libmode, policy) ==
  LET d == Decode(F, bits)
      e == IF d.exp # 0 THEN d.exp - Bias(F) - Q(F) + 1 ELSE MinExponent(F)
      low == BShl(d.frac, Qmp(F) - 1)
      mk == FLog10Pow2(e + 1 - Alpha)
  IN [F |-> F, variant |-> variant, bits |-> bits, libmode |-> libmode, policy |-> policy, pc |-> "setup",
      neg |-> d.neg, e |-> e, fc |-> IF d.exp # 0 THEN BAdd(low, BPow2(Q(F) - 1)) ELSE low,
      plan |-> Plan(libmode, d.neg, ~BIsOdd(bits)),
      mk |-> mk, mb |-> -(e + FLog2Pow10(-mk) + 1), cache |-> TableEntry(-mk, F.qc),
      fr |-> BZero, zi |-> BZero, delta |-> BZero, sig |-> BZero, exp |-> 0, r |-> BZero, div |-> BZero,
      cmp |-> "unknown", lambda |-> 0, steps |-> BZero, eps |-> BZero]

Setup(s) ==
  LET raw == CASE s.plan.tag = "near" -> BAdd(s.fc, Boundary(s))
               [] s.plan.tag = "left" -> BAdd(s.fc, Length(s))
               [] OTHER -> s.fc
      zi == Mul(s, raw)
      t == BDivMod(zi, P10(s.F.ik))
  IN [s EXCEPT !.pc = "initial", !.fr = raw, !.zi = zi,
               !.delta = Delta(s, s.plan.tag, Edge(s), s.mb),
               !.sig = t[1], !.r = t[2], !.exp = s.F.ik + s.mk, !.div = P10(s.F.ik)]

\* remember the outcome of comparing fractional parts
Compare(s) == [s EXCEPT !.cmp = IF FracSmaller(s) THEN "smaller" ELSE "larger"]

FirstLambda(F) == IF F.wide THEN 8 ELSE 4

Initial(s) ==
  LET c == BCmp(s.r, s.delta)
      t == IF c = 0 THEN Compare(s) ELSE s
  IN IF c < 0 \/ (c = 0 /\ t.cmp = "smaller")
     THEN [t EXCEPT !.pc = "increase", !.lambda = FirstLambda(s.F)]
     ELSE [t EXCEPT !.pc = "decrease"]

Decrease(s) ==
  LET t == BDivMod(s.r, P10(s.F.ik - 1))
      c == BCmp(t[2], s.delta)
      u == IF c = 0 /\ s.cmp = "unknown" THEN Compare(s) ELSE s
      one == [u EXCEPT !.sig = BAdd(BMul(s.sig, <<10>>), t[1]), !.r = t[2], !.exp = s.exp - 1, !.div = P10(s.F.ik - 1), !.pc = "right"]
      v == BDivMod(t[2], P10(s.F.ik - 2))
      two == [u EXCEPT !.sig = BAdd(BMul(s.sig, <<100>>), BAdd(BMul(<<10>>, t[1]), v[1])), !.r = v[2], !.exp = s.exp - 2, !.div = P10(s.F.ik - 2),
                       !.pc = IF Searches(s) /\ s.plan.tag = "near" THEN (IF s.F.leastk = 0 THEN "kappa0" ELSE "search") ELSE "right"]
  IN IF c < 0 \/ (c = 0 /\ s.cmp = "unknown" /\ u.cmp = "smaller") THEN one ELSE two

Increase(s) ==
  LET p == P10(s.lambda)
      t == BDivMod(s.sig, p)
      nr == BAdd(s.r, BMul(s.div, t[2]))
      c == BCmp(nr, s.delta)
      u == IF c = 0 /\ s.cmp = "unknown" THEN Compare(s) ELSE s
      yes == c < 0 \/ (c = 0 /\ u.cmp = "smaller")
      v == IF yes THEN [u EXCEPT !.sig = t[1], !.exp = s.exp + s.lambda, !.r = nr, !.div = BMul(s.div, p)] ELSE u
  IN IF s.lambda = 1 THEN [v EXCEPT !.pc = "right"] ELSE [v EXCEPT !.lambda = s.lambda \div 2]

\* the right endpoint is not included: step away from it
RightIsInt(s) ==
  IF s.plan.tag = "left" /\ s.fr = BPow2(Q(s.F))
  THEN IF s.variant = "zero-endpoint" THEN s.e >= LB1(s.F) /\ (s.e <= MaxK0 \/ s.e <= UB1(s.F))   \* as if it were 0, undefined below that
       ELSE s.mk <= 0 /\ s.e + Q(s.F) >= s.mk
  ELSE IsInt(s, IF s.plan.tag = "near" THEN "qmpm2" ELSE "other", s.fr)
AfterRight(s) == [s EXCEPT !.pc = IF ~Searches(s) \/ s.plan.tag = "right" THEN "done"
                                  ELSE IF s.plan.tag = "left" THEN "left" ELSE "search"]
Right(s) ==
  IF ~s.plan.right /\ s.r = BZero /\ s.variant # "open-right" /\ RightIsInt(s) THEN [s EXCEPT !.pc = "shrink"] ELSE AfterRight(s)

Less(s) == [s EXCEPT !.sig = BMul(s.sig, <<10>>), !.div = BDiv(s.div, <<10>>), !.exp = s.exp - 1]
Shrink(s) ==
  LET c == BCmp(s.div, s.delta)
      end(t) == LET u == IF ~Searches(t) \/ t.plan.tag # "near" THEN [t EXCEPT !.sig = BSub(t.sig, BOne)] ELSE t
                    v == IF Searches(t) /\ t.plan.tag = "left" THEN [u EXCEPT !.r = t.div] ELSE u
                IN IF Searches(t) /\ t.plan.tag = "near" /\ t.F.leastk = 0 /\ v.exp = v.mk THEN [v EXCEPT !.pc = "kappa0"] ELSE AfterRight(v)
  IN IF c > 0 THEN Less(s)
     ELSE IF c = 0 /\ s.plan.tag = "near" /\ s.plan.sym /\ s.e = -(Qmp(s.F) - 1) /\ s.variant # "no-equal" THEN end(Less(s))
     ELSE end(s)

\* left-closed directed: get as close to the left endpoint as possible
LeftStart(s) ==
  [s EXCEPT !.pc = "left2", !.delta = BSub(s.delta, s.r), !.steps = BDiv(BMod(s.sig, <<10>>), <<2>>),
            !.eps = BSub(s.zi, s.delta)]
Left(s) ==
  IF s.steps = BZero THEN [s EXCEPT !.pc = "done"]
  ELSE LET d == BMul(s.steps, s.div) c == BCmp(d, s.delta) IN
    IF c > 0 THEN [s EXCEPT !.steps = BDiv(s.steps, <<2>>)]
    ELSE IF c = 0
    THEN LET back == CASE s.cmp = "unknown" -> Odd(Mul(s, s.fc)) = Odd(s.eps) /\ ~EqualFractions(s, s.fc)
                       [] s.cmp = "larger" -> TRUE
                       [] OTHER -> FALSE
             n == IF back THEN BSub(s.steps, BOne) ELSE s.steps
         IN [s EXCEPT !.pc = "done", !.sig = IF s.variant = "drop-last" THEN s.sig ELSE BSub(s.sig, n)]
    ELSE [s EXCEPT !.sig = BSub(s.sig, s.steps), !.delta = BSub(s.delta, d)]

\* to nearest: move toward the exact value
MaxSteps(s) == IF s.F.wide THEN 6 ELSE 5
Search(s) ==
  LET disp == BAdd(BDiv(s.div, <<2>>), s.r)
      eps0 == Delta(s, "left", FALSE, s.mb + 1)
  IN IF BLt(eps0, disp) THEN [s EXCEPT !.pc = "done"]
     ELSE LET t == BDivMod(BSub(eps0, disp), s.div)
              n0 == 1 + BToInt(t[1])
              n == IF n0 > MaxSteps(s) THEN MaxSteps(s) ELSE n0
              rest == BSub(BSub(eps0, disp), BMul(BInt(n - 1), s.div))
              exact == IsInt(s, "other", s.fc)
              back == /\ rest = BZero /\ Mul(s, s.fc) = BSub(s.zi, eps0)
                      /\ CASE s.policy = "even" -> ~exact \/ Odd(s.sig) # (n % 2 = 1)
                           [] s.policy = "odd" -> ~exact \/ Odd(s.sig) = (n % 2 = 1)
                           [] s.policy = "up" -> TRUE
                           [] OTHER -> ~exact
          IN [s EXCEPT !.steps = BInt(IF back THEN n - 1 ELSE n), !.pc = "edge"]
EdgeCheck(s) ==
  LET left == BSub(s.delta, s.r)
      c == BCmp(s.div, left)
      stay == /\ s.steps = BOne /\ s.fc = SignBit(s) /\ s.variant # "no-edge"
              /\ c > 0 \/ (c = 0 /\ ~FracSmaller(s))
  IN [s EXCEPT !.pc = "done", !.sig = IF stay THEN s.sig ELSE BSub(s.sig, s.steps)]

Kappa0(s) ==
  LET two == MulTwice(s, s.fc)
      exact == IsInt(s, "two", s.fc)
      up == BDiv(BAdd(two, BOne), <<2>>)
      down == BDiv(two, <<2>>)
      res == CASE s.policy \in {"even", "odd"} -> IF exact THEN (IF Odd(down) = (s.policy = "even") THEN up ELSE down) ELSE up
               [] s.policy = "up" -> up
               [] OTHER -> IF exact THEN down ELSE up
  IN [s EXCEPT !.pc = "done", !.sig = res]

Step(s) ==
  CASE s.pc = "setup" -> Setup(s)
    [] s.pc = "initial" -> Initial(s)
    [] s.pc = "decrease" -> Decrease(s)
    [] s.pc = "increase" -> Increase(s)
    [] s.pc = "right" -> Right(s)
    [] s.pc = "shrink" -> Shrink(s)
    [] s.pc = "left" -> LeftStart(s)
    [] s.pc = "left2" -> Left(s)
    [] s.pc = "search" -> Search(s)
    [] s.pc = "edge" -> EdgeCheck(s)
    [] s.pc = "kappa0" -> Kappa0(s)

RECURSIVE RunFrom(_, _)
RunFrom(s, n) == IF s.pc = "done" \/ n = 0 THEN s ELSE RunFrom(Step(s), n - 1)
\* the whole conversion at once
Convert(F, bits, libmode, policy) == LET s == RunFrom(Start(F, "ok", bits, libmode, policy), 60) IN <<s.sig, s.exp, s.pc>>

\* what the steps before the last search preserve: the right endpoint, in the scale of the table, is sig * div + r
Mid == {"initial", "increase", "right", "decrease"}
Sound(s) ==
  /\ -s.mb \in Alpha..Gamma
  /\ s.pc \in Mid => s.zi = BAdd(BMul(s.sig, s.div), s.r)
  /\ s.pc \in Mid \cup {"search"} => s.div = BPow10(s.exp - s.mk) /\ BLt(s.r, s.div)
  /\ BLt(s.delta, BPow2(32)) /\ BLe(s.fr, BPow2(Q(s.F)))
  /\ s.pc = "left2" => BLe(s.r, BAdd(s.delta, s.r))
\* The last search looks for members with the digits of the answer.  An interval that holds both 10^k and
\* 9 * 10^(k-1) has a shortest member one digit down; it takes a format with few bits, or a subnormal with few.
Straddles(I, sig, exp) == sig = BOne /\ InInterval(I, <<9>>, exp - 1)

\* what a finished conversion has to be
GoodAnswer(s) ==
  LET F == s.F
      d == Decode(F, s.bits)
      I == Interval(F, d, ReaderOf[s.libmode])
      len == BDigitLen(s.sig)
  IN /\ s.sig # BZero
     /\ InInterval(I, s.sig, s.exp)
     /\ BMod(s.sig, <<10>>) # BZero
     /\ ~HasDecimal(I, len - 1)
     /\ (Searches(s) /\ ~Straddles(I, s.sig, s.exp)) =>
          LET best == BestGuess(I, len)
          IN IF s.plan.tag = "near" THEN <<s.sig, s.exp>> = Pick(best, s.policy) ELSE <<s.sig, s.exp>> \in best

\* the shortcuts for divisibility agree with its meaning
Shortcuts(s) ==
  s.pc \in {"initial", "search", "kappa0"} =>
    /\ s.plan.tag = "near" =>
         /\ IsInt(s, "qmpm2", s.fr) = IsIntExact(s, s.fr, FALSE)
         /\ EqualFractions(s, LeftEnd(s)) = IsIntExact(s, LeftEnd(s), FALSE)
         /\ IsInt(s, "two", s.fc) = IsIntExact(s, s.fc, TRUE)
    /\ IsInt(s, "other", s.fc) = IsIntExact(s, s.fc, FALSE)
    /\ s.plan.tag = "left" => RightIsInt(s) = IsIntExact(s, s.fr, FALSE)
=============================================================================
