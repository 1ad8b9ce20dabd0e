------------------------------ MODULE Contract ------------------------------
(* Per property: which observed events are explained by the specification.   *)
(* Events come from the real library.  A conversion event carries one bit    *)
(* pattern b (sign bit clear), the distinct decimals seen (c), and for the   *)
(* pattern (r), its negation (n) and possibly the next pattern up (u) the    *)
(* index into c of the result under each of the 70 combinations of mode and  *)
(* policy, row-major (mode, policy).  A decimal is <<sign, s, E>>.           *)
EXTENDS Reader, Shortest, ToChars

Fmt(e) == IF e.f = 0 THEN Float ELSE Double
ModeOf(i) == (i - 1) \div 5 + 1
PolOf(i) == ((i - 1) % 5) + 1
Combos == 1..70
At2(m, t) == (m - 1) * 5 + t

NearI == {i \in Combos : LibReader[ModeOf(i)] \in NearestModes}
DirI == Combos \ NearI
RoundI == {i \in Combos : PolOf(i) # 1}

\* The two rows of a conversion event, with what they were computed from.
Sides(e) ==
  LET d == Decode(Fmt(e), e.b)
  IN {[d |-> d, row |-> e.r, bits |-> e.b],
      [d |-> [d EXCEPT !.neg = TRUE], row |-> e.n, bits |-> BAdd(e.b, BPow2(Width(Fmt(e)) - 1))]}

Sane(e) == /\ \A i \in 1..Len(e.c) : e.c[i][1] \in {0, 1} /\ BIsNat(e.c[i][2])
                                 /\ e.c[i][3] \in -2000..2000
           /\ Len(e.r) = 70 /\ Len(e.n) = 70

\* pairs of (reader mode, decimal) over a set of combinations
Pairs(e, S, I) == {<<LibReader[ModeOf(i)], S.row[i]>> : i \in I}
IPairs(e, S, I) == {<<Interval(Fmt(e), S.d, p[1]), p[2]>> : p \in Pairs(e, S, I)}

---------------------------------------------------------------------------
ReadsBack(e, S, I) ==
  \A p \in Pairs(e, S, I) :
    LET c == e.c[p[2]] IN Read(Fmt(e), p[1], c[1] = 1, c[2], c[3]) = S.bits

C01(e) == Sane(e) /\ \A S \in Sides(e) : ReadsBack(e, S, Combos)

C02(e) == Sane(e) /\ \A S \in Sides(e) : \A p \in IPairs(e, S, Combos) :
  LET s == e.c[p[2]][2]
      n == BDigitLen(s)
  IN /\ s # BZero
     /\ BMod(s, <<10>>) # BZero
     /\ ~HasDecimal(p[1], n - 1)

\* c is one of the closest members of its own length.  (That it is of the least length is C02.)
AsCloseAsAny(I, s, E) ==
  LET n == BDigitLen(s)
  IN IF InInterval(I, s, E)
     THEN \A z \in Closest(I, n) : BDigitLen(z[1]) <= n => Closer(I, <<s, E>>, z) <= 0
     ELSE ~HasDecimal(I, n)

C03(e) == Sane(e) /\ \A S \in Sides(e) : \A p \in IPairs(e, S, NearI \cap RoundI) :
  LET c == e.c[p[2]] IN AsCloseAsAny(p[1], c[2], c[3])

\* Where two closest shortest candidates exist each policy has its own answer, where one exists all agree.
C04(e) == Sane(e) /\ \A S \in Sides(e) :
  LET iv == [m \in 1..14 |-> Interval(Fmt(e), S.d, LibReader[m])]
      near == {m \in 1..14 : LibReader[m] \in NearestModes}
      cases == {<<iv[m], S.row[At2(m, 2)], S.row[At2(m, 3)], S.row[At2(m, 4)], S.row[At2(m, 5)]>> : m \in near}
      res(k) == <<e.c[k][2], e.c[k][3]>>
  IN \A x \in cases :
       LET best == BestGuess(x[1], BDigitLen(e.c[x[2]][2]))
       IN IF Cardinality(best) = 2
          THEN \A t \in 2..5 : res(x[t]) = Pick(best, Policies[t])
          ELSE \A t \in 3..5 : x[t] = x[2]

C05(e) == Sane(e) /\ \A S \in Sides(e) :
  /\ ReadsBack(e, S, DirI)
  /\ \A p \in IPairs(e, S, DirI) :
       LET c == e.c[p[2]] IN InInterval(p[1], c[2], c[3])
  /\ \A p \in IPairs(e, S, DirI \cap RoundI) :
       LET c == e.c[p[2]] IN <<c[2], c[3]>> \in BestGuess(p[1], BDigitLen(c[2]))

C06(e) == Sane(e) /\ \A S \in Sides(e) :
  /\ \A m \in 1..14 : \A t \in 2..5 :
       BDigitLen(e.c[S.row[At2(m, 1)]][2]) = BDigitLen(e.c[S.row[At2(m, t)]][2])
  /\ \A p \in IPairs(e, S, {At2(m, 1) : m \in 1..14}) :
       LET c == e.c[p[2]] IN InInterval(p[1], c[2], c[3])
  /\ ReadsBack(e, S, {At2(m, 1) : m \in 1..14})
  /\ \A m \in 1..14 :
       LET c == e.c[S.row[At2(m, 1)]]
           z == e.c[S.row[At2(m, 2)]]
           I == Interval(Fmt(e), S.d, LibReader[m])
       IN c # z => \* a second candidate of that length exists: the two are it
            /\ InInterval(I, c[2], c[3]) /\ InInterval(I, z[2], z[3])

C07(e) ==
  /\ Sane(e)
  /\ \A i \in Combos :
       LET c == e.c[e.r[At2(Mirror[ModeOf(i)], PolOf(i))]]
           z == e.c[e.n[i]]
       IN c[1] = 0 /\ z[1] = 1 /\ c[2] = z[2] /\ c[3] = z[3]

C08(e) == Sane(e) /\ \A S \in Sides(e) : \A m \in DOMAIN PlainOf :
  /\ \A t \in 2..5 : S.row[At2(m, t)] = S.row[At2(PlainOf[m], t)]
  /\ LET c == e.c[S.row[At2(m, 1)]] z == e.c[S.row[At2(PlainOf[m], 1)]]
     IN c[1] = z[1] /\ BDigitLen(c[2]) = BDigitLen(z[2])

MaxDigitsOf(F) == IF F.p = 23 THEN 9 ELSE 17
MinLead(F) == IF F.p = 23 THEN -45 ELSE -324
MaxLead(F) == IF F.p = 23 THEN 38 ELSE 308
C16(e) == Sane(e) /\ \A i \in 1..Len(e.c) :
  LET c == e.c[i] n == BDigitLen(c[2])
  IN /\ n \in 1..MaxDigitsOf(Fmt(e))
     /\ c[3] + n - 1 \in MinLead(Fmt(e))..MaxLead(Fmt(e))

\* the row u belongs to the next larger magnitude
DecLess(x, z) ==
  LET E == IF x[3] < z[3] THEN x[3] ELSE z[3]
  IN BLt(BMul(x[2], BPow10(x[3] - E)), BMul(z[2], BPow10(z[3] - E)))
MaxMag(F) == BSub(BShl(BInt(MaxExp(F)), F.p), BOne)
C17(e) == Sane(e) /\
  \/ e.u = <<>> /\ e.b = MaxMag(Fmt(e))
  \/ Len(e.u) = 70 /\ \A p \in {<<e.r[i], e.u[i]>> : i \in Combos} : DecLess(e.c[p[1]], e.c[p[2]])

---------------------------------------------------------------------------
(* Text.  An event carries a full bit pattern b, the numeric results (c, r)  *)
(* when the input is finite and nonzero, and the texts (t) with the index    *)
(* seen under each combination from the non-terminating function (x) and     *)
(* from the terminating one (y).                                             *)
IsText(t) == \A i \in 1..Len(t) : t[i] \in 1..127
Ordinary(F, d) == IsFinite(F, d) /\ IsNonzero(F, d)

SaneText(e) == /\ Len(e.x) = 70 /\ Len(e.y) = 70
               /\ \A i \in 1..Len(e.t) : IsText(e.t[i])
               /\ \A i \in 1..Len(e.c) : /\ e.c[i][1] \in {0, 1} /\ BIsNat(e.c[i][2]) /\ e.c[i][2] # BZero
                                         /\ e.c[i][3] \in -2000..2000

C09(e) == LET d == Decode(Fmt(e), e.b) IN
  Ordinary(Fmt(e), d) =>
    /\ SaneText(e) /\ Len(e.r) = 70
    /\ \A p \in {<<e.r[i], e.x[i]>> : i \in Combos} \cup {<<e.r[i], e.y[i]>> : i \in Combos} :
         LET c == e.c[p[1]] t == e.t[p[2]]
         IN /\ t = Render(c[1] = 1, c[2], c[3])
            /\ Canonical(t)
            /\ Parse(t) = <<d.neg, c[2], c[3]>>

C10(e) == LET F == Fmt(e) d == Decode(F, e.b) IN
  /\ SaneText(e)
  /\ \A i \in {e.x[i] : i \in Combos} \cup {e.y[i] : i \in Combos} :
       IF Ordinary(F, d) THEN Canonical(e.t[i]) /\ (e.t[i][1] = Minus <=> d.neg)
       ELSE e.t[i] = SpecialText(F, d)

C16t(e) == SaneText(e) /\ \A i \in 1..Len(e.t) : Len(e.t[i]) <= MaxText(Fmt(e))

\* The bytes around and in the caller's buffer before and after, for one call.
\* at: index of the buffer's first byte; ret: index the function returned; z: 1 for the terminating function.
C11(e) ==
  LET F == Fmt(e) d == Decode(F, e.b)
      txt == IF Ordinary(F, d) THEN Render(e.c[1] = 1, e.c[2], e.c[3]) ELSE SpecialText(F, d)
      n == Len(txt)
      full == IF e.z = 1 THEN txt \o <<0>> ELSE txt
  IN /\ Len(e.before) = Len(e.after)
     /\ n <= MaxText(F)
     /\ e.ret = e.at + n
     /\ \A i \in 1..Len(e.before) :
          e.after[i] = IF i >= e.at /\ i < e.at + Len(full) THEN full[i - e.at + 1] ELSE e.before[i]

\* The unique canonical answer of the default conversion.
DefaultText(F, d) ==
  IF Ordinary(F, d)
  THEN LET c == Pick(Best(Interval(F, d, "NE")), "even") IN Render(d.neg, c[1], c[2])
  ELSE SpecialText(F, d)
C20(e) == LET F == Fmt(e) d == Decode(F, e.b) IN
  /\ e.lib = e.ryu
  /\ e.lib = DefaultText(F, d)

---------------------------------------------------------------------------
(* The same conversion in several builds of the library: every row of        *)
(* numeric results and of texts is the first one.                            *)
C12(e) == /\ Len(e.rows) = Len(e.builds) /\ Len(e.texts) = Len(e.builds) /\ Len(e.builds) >= 2
          /\ \A i \in 1..Len(e.rows) : e.rows[i] = e.rows[1] /\ Len(e.rows[i]) \in {0, 70}
          /\ \A i \in 1..Len(e.texts) : e.texts[i] = e.texts[1]
          /\ e.rows[1] # <<>> <=> LET d == Decode(Fmt(e), e.b) IN Ordinary(Fmt(e), d)

---------------------------------------------------------------------------
(* Bit inspection: v is the record of everything the inspection object said. *)
C14(e) ==
  LET F == Fmt(e) d == Decode(F, e.b)
      B(x) == IF x THEN 1 ELSE 0
      v == e.v
  IN /\ v.f = e.b /\ v.back = e.b
     /\ v.finite = B(IsFinite(F, d)) /\ v.nonzero = B(IsNonzero(F, d)) /\ v.subnormal = B(IsSubnormal(F, d))
     /\ v.positive = B(~d.neg) /\ v.negative = B(d.neg)
     /\ v.inf = B(IsInf(F, d)) /\ v.pinf = B(IsInf(F, d) /\ ~d.neg) /\ v.ninf = B(IsInf(F, d) /\ d.neg)
     /\ v.nan = B(IsNaN(F, d)) /\ v.qnan = B(IsQuietNaN(F, d)) /\ v.snan = B(IsSignalingNaN(F, d))
     /\ v.sig = d.frac /\ v.exp = d.exp
     /\ v.paylen = F.p - 1 /\ v.payload = BMod(d.frac, BPow2(F.p - 1))
     /\ v.finite + v.inf + v.nan = 1 /\ v.qnan + v.snan = v.nan

---------------------------------------------------------------------------
(* A conversion that returned at all, in an instrumented build.              *)
C15(e) == CASE e.k = "conv" -> Sane(e)
            [] e.k = "text" -> SaneText(e)
            [] OTHER -> FALSE

(* A decimal s * 10^E of few digits, the pattern b it is read as, and the    *)
(* default conversion of that pattern.                                       *)
C18(e) ==
  LET F == Fmt(e)
      want == Strip(e.s, e.E)
      limit == IF F.p = 23 THEN 6 ELSE 15
      d == Decode(F, e.b)
  IN BDigitLen(e.s) <= limit /\ IsFinite(F, d) /\ d.exp > 0 /\ Read(F, "NE", e.g = 1, e.s, e.E) = e.b
     => /\ e.c = <<e.g, want[1], want[2]>>
        /\ e.t = Render(e.g = 1, want[1], want[2])

(* The special-case handler: the patterns it was called with (calls), how    *)
(* many of them before the conversion did anything else it could be seen     *)
(* doing, and how the call ended.                                            *)
C19(e) ==
  LET F == Fmt(e) d == Decode(F, e.b) IN
  CASE e.h = "recording" -> e.calls = <<e.b>> /\ e.end = "returned"
    [] e.h = "throwing" -> e.calls = <<e.b>> /\ e.end = "threw"
    [] e.h = "default" -> e.end = IF IsFinite(F, d) THEN "returned" ELSE "aborted"
    [] e.h = "ignoring" -> e.end = "returned"
    [] OTHER -> FALSE

(* All forms of asking for one conversion: c are the distinct answers, r the *)
(* index per form; sg the forms that report a sign.                          *)
C23(e) ==
  /\ Len(e.r) >= 2
  /\ \A i \in 1..Len(e.r) : e.r[i] = e.r[1]
  /\ Len(e.t) >= 2 /\ \A i \in 1..Len(e.t) : e.t[i] = e.t[1]
  /\ \A i \in 1..Len(e.g) : e.g[i] = e.c[e.r[1]][1]
  /\ LET c == e.c[e.r[1]] IN e.t[1] = Render(c[1] = 1, c[2], c[3])
  /\ e.dflt = 1 => LET F == Fmt(e) d == Decode(F, e.b) IN e.t[1] = DefaultText(F, d)

---------------------------------------------------------------------------
(* The table of powers of ten.  Entry k holds the leading bits of 10^k:      *)
(* truncated, plus one for negative k unless exact.                          *)
LeadingBits(k, q) ==
  IF k >= 0
  THEN LET n == BPow10(k) len == BBitLen(n)
       IN IF len <= q THEN BShl(n, q - len) ELSE BShr(n, len - q)
  ELSE \* 2^(q + m) / 10^-k with m such that the quotient has q bits
       LET n == BPow10(-k) len == BBitLen(n)
           t == BDiv(BPow2(q + len - 1), n)
           u == IF BBitLen(t) = q THEN t ELSE BDiv(BPow2(q + len), n)
       IN BAdd(u, BOne)
C21entry(e) == LET q == IF e.f = 0 THEN 64 ELSE 128
               IN e.v = LeadingBits(e.p, q) /\ BBitLen(e.v) = q
\* the whole table: lowest and highest index
FloorLog10Pow2(e) == IF e >= 0 THEN BDigitLen(BPow2(e)) - 1 ELSE BDigitLen(BPow5(-e)) - 1 + e
C21range(e) ==
  LET F == Fmt(e)
      q == IF e.f = 0 THEN 32 ELSE 64
      lo == 2 - 2^(F.eb - 1) - (q - 1)        \* binary exponents of q-bit significands
      hi == 2^(F.eb - 1) - q
      need == {-FloorLog10Pow2(x + 6) : x \in lo..hi}
  IN /\ \A k \in need : k \in e.lo..e.hi
     /\ e.n = e.hi - e.lo + 1
\* where a building block cannot be called by itself: the conversions that are built from it
Correct(e) == C01(e) /\ C02(e) /\ C03(e) /\ C04(e) /\ C05(e)
C21(e) == CASE e.k = "pow" -> C21entry(e) [] e.k = "range" -> C21range(e) [] OTHER -> FALSE

(* Arithmetic building blocks: op, operands and result.                      *)
\* r is floor(log_b(c^n)) for n of either sign, given powers of both bases; c^n is no power of b for n # 0.
IsFloorLog(r, n, B(_), C(_)) ==
  IF n >= 0 THEN r >= 0 /\ BLe(B(r), C(n)) /\ BLt(C(n), B(r + 1))
  ELSE r < 0 /\ BLe(C(-n), B(-r)) /\ BLt(B(-r - 1), C(-n))
C22(e) ==
  CASE e.op = "umul64" -> e.r = BMul(e.x, e.y)
    [] e.op = "umul128" -> e.r = BMul(e.x, e.y)
    [] e.op = "umul128_upper64" -> e.r = BShr(BMul(e.x, e.y), 64)
    [] e.op = "umul192_upper64" -> e.r = BShr(BMul(e.x, e.y), 128)
    [] e.op = "umul96_upper32" -> e.r = BShr(BMul(e.x, e.y), 64)
    [] e.op = "div2" -> e.r = IF BMod(e.x, BPow2(e.n)) = BZero THEN 1 ELSE 0
    [] e.op = "div5" -> e.r = IF BMod(e.x, BPow5(e.n)) = BZero THEN 1 ELSE 0
    [] e.op = "log10_2" -> IsFloorLog(e.r, e.n, BPow10, BPow2)
    [] e.op = "log2_10" -> IsFloorLog(e.r, e.n, BPow2, BPow10)
    [] e.op = "log5_2" -> IsFloorLog(e.r, e.n, BPow5, BPow2)
    [] OTHER -> FALSE
=============================================================================
