------------------------------ MODULE Rounding ------------------------------
(* Rounding modes of a reader, and for a finite nonzero input the interval   *)
(* of magnitudes such a reader maps to it.                                   *)
EXTENDS Ieee, TLC

(* The ten ways of rounding.  Static-boundary variants are the same modes.   *)
\*   NE NO      to nearest, ties to even / to odd
\*   NPI NMI    to nearest, ties toward plus / minus infinity
\*   NTZ NAZ    to nearest, ties toward zero / away from zero
\*   DPI DMI DTZ DAZ   directed: toward plus / minus infinity, zero, away from zero
ReaderModes == {"NE", "NO", "NPI", "NMI", "NTZ", "NAZ", "DPI", "DMI", "DTZ", "DAZ"}
NearestModes == {"NE", "NO", "NPI", "NMI", "NTZ", "NAZ"}
DirectedModes == ReaderModes \ NearestModes

\* The modes of the library, in the order the harness numbers them from 1.
LibModes == <<"NE", "NO", "NPI", "NMI", "NTZ", "NAZ", "NEs", "NOs", "NPIs", "NMIs", "DPI", "DMI", "DTZ", "DAZ">>
ReaderOf == [NE |-> "NE", NO |-> "NO", NPI |-> "NPI", NMI |-> "NMI", NTZ |-> "NTZ", NAZ |-> "NAZ",
             NEs |-> "NE", NOs |-> "NO", NPIs |-> "NPI", NMIs |-> "NMI",
             DPI |-> "DPI", DMI |-> "DMI", DTZ |-> "DTZ", DAZ |-> "DAZ"]
LibReader == [i \in 1..14 |-> ReaderOf[LibModes[i]]]
\* index of the plain counterpart of a static-boundary mode
PlainOf == (7 :> 1) @@ (8 :> 2) @@ (9 :> 3) @@ (10 :> 4)
\* mode with plus and minus infinity exchanged
Mirror == <<1, 2, 4, 3, 5, 6, 7, 8, 10, 9, 12, 11, 13, 14>>

\* Correct-rounding policies, in the order the harness numbers them from 1.
Policies == <<"any", "even", "odd", "up", "down">>

\* Which bound of a to-nearest interval belongs to the input.
TieKeepsLow(mode, neg, even) ==      \* the tie at the lower bound is read as the input
  CASE mode = "NE" -> even
    [] mode = "NO" -> ~even
    [] mode = "NPI" -> ~neg
    [] mode = "NMI" -> neg
    [] mode = "NTZ" -> FALSE
    [] mode = "NAZ" -> TRUE
TieKeepsHigh(mode, neg, even) ==
  CASE mode \in {"NE", "NO"} -> TieKeepsLow(mode, neg, even)
    [] OTHER -> ~TieKeepsLow(mode, neg, even)

\* A directed reader rounds magnitudes down (toward zero) or up.
RoundsMagnitudeDown(mode, neg) ==
  CASE mode = "DTZ" -> TRUE
    [] mode = "DAZ" -> FALSE
    [] mode = "DPI" -> neg
    [] mode = "DMI" -> ~neg

(* Magnitudes in units of 2^(BinExp - 2).  The distance to the next smaller  *)
(* magnitude is halved at a power of two, unless it is the smallest normal   *)
(* number.                                                                   *)
IntervalIn(p, f, exp, mode, neg) ==
  LET y    == BMul(<<4>>, f)
      even == ~BIsOdd(f)
      edge == f = BPow2(p) /\ exp > 1
  IN IF mode \in NearestModes
     THEN [lo |-> BSub(y, IF edge THEN <<1>> ELSE <<2>>), y |-> y, hi |-> BAdd(y, <<2>>),
           lc |-> TieKeepsLow(mode, neg, even), hc |-> TieKeepsHigh(mode, neg, even), dir |-> "near"]
     ELSE IF RoundsMagnitudeDown(mode, neg)
     THEN [lo |-> y, y |-> y, hi |-> BAdd(y, <<4>>), lc |-> TRUE, hc |-> FALSE, dir |-> "above"]
     ELSE [lo |-> BSub(y, IF edge THEN <<2>> ELSE <<4>>), y |-> y, hi |-> y,
           lc |-> FALSE, hc |-> TRUE, dir |-> "below"]

Interval(F, d, mode) ==
  IntervalIn(F.p, Sig(F, d), d.exp, mode, d.neg) @@ [b |-> BinExp(F, d) - 2]
=============================================================================
