------------------------------- MODULE Limiter ------------------------------
(***************************************************************************)
(* Slope limiters and the piecewise linear reconstruction of the fallback  *)
(* scheme.  a and b are the backward and forward differences of a cell.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat

Minmod(a, b) ==
  IF RSign(a) * RSign(b) <= 0 THEN RatOf(0)
  ELSE IF RSign(a) > 0 THEN RMin(a, b) ELSE RMax(a, b)

Moncen(a, b) ==
  LET c == RDiv(RAdd(a, b), 2)
      m == RMin(RMin(RMul(2, RAbs(a)), RMul(2, RAbs(b))), RAbs(c))
  IN IF RSign(a) * RSign(b) < 0 THEN RatOf(0) ELSE IF RSign(c) < 0 THEN RNeg(m) ELSE m

Slope(limiter, a, b) ==
  CASE limiter = "minmod" -> Minmod(a, b)
    [] limiter = "moncen" -> Moncen(a, b)
    [] limiter = "none"   -> RDiv(RAdd(a, b), 2)

\* values at the left and right face of the middle one of three cells
MusclL(limiter, a, b, c) == RSub(b, RDiv(Slope(limiter, RSub(b, a), RSub(c, b)), 2))
MusclR(limiter, a, b, c) == RAdd(b, RDiv(Slope(limiter, RSub(b, a), RSub(c, b)), 2))

Between(x, a, b) == RLe(RMin(a, b), x) /\ RLe(x, RMax(a, b))
=============================================================================
