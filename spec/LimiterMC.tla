----------------------------- MODULE LimiterMC ------------------------------
(***************************************************************************)
(* The limited reconstruction of the fallback scheme on all triples of     *)
(* neighbouring values of a lattice.                                       *)
(***************************************************************************)
EXTENDS Limiter, TLC
CONSTANT K
Vals == (0 - K) .. K
VARIABLES a, b, c, lim
Init == a \in Vals /\ b = 0 /\ c = 0 /\ lim \in {"minmod", "moncen", "none"}
Next == b = 0 /\ c = 0 /\ b' \in Vals /\ c' \in Vals /\ UNCHANGED <<a, lim>>

Lf == MusclL(lim, a, b, c)
Rf == MusclR(lim, a, b, c)
\* face values lie between the neighbouring cells
Bounded == lim # "none" => Between(Lf, a, b) /\ Between(Rf, b, c)
\* an extremum is flat
Extremum == (lim # "none" /\ (b - a) * (c - b) <= 0) => REq(Lf, b) /\ REq(Rf, b)
\* the cell average is kept
Conservative == REq(RAdd(Lf, Rf), 2 * b)
\* linear data is reproduced
Linear == (b - a = c - b) => REq(RSub(Rf, Lf), b - a)
MirrorImage == REq(MusclL(lim, c, b, a), Rf) /\ REq(MusclR(lim, c, b, a), Lf)
Negation == REq(MusclR(lim, -a, -b, -c), RNeg(Rf))
Shift == REq(MusclR(lim, a + 3, b + 3, c + 3), RAdd(Rf, 3))
\* minmod is the most cautious, the limited slopes never exceed the central one
Ordered == RLe(RAbs(Slope("minmod", b - a, c - b)), RAbs(Slope("moncen", b - a, c - b)))
           /\ RLe(RAbs(Slope("moncen", b - a, c - b)), RAbs(Slope("none", b - a, c - b)))
=============================================================================
