-------------------------------- MODULE Trig --------------------------------
(***************************************************************************)
(* Sine and exponential as their series, far below double precision.       *)
(***************************************************************************)
EXTENDS Integers, Rat

Bits == 120
N(x) == RRound(x, Bits)
Pi == "314159265358979323846264338327950288419716939937510/100000000000000000000000000000000000000000000000000"
RECURSIVE Series(_, _, _, _, _)
\* term + term * s / (k (k+1)) + ... up to order m, stepping k by two
Series(term, s, k, m, acc) ==
  IF k > m THEN acc
  ELSE LET nx == N(RDiv(RMul(term, s), k * (k + 1))) IN Series(nx, s, k + 2, m, N(RAdd(acc, nx)))
SinRad(y) == Series(RatOf(y), RNeg(N(RMul(y, y))), 2, 60, RatOf(y))        \* |y| <= Pi
SinTurn(r) == LET f == RSub(r, RFloor(RAdd(r, "1/2"))) IN SinRad(N(RMul(RMul(2, Pi), f)))  \* sin(2 Pi r)
Sin(y) == SinTurn(N(RDiv(y, RMul(2, Pi))))
RECURSIVE ExpSeries(_, _, _, _)
ExpSeries(term, a, k, acc) == IF k > 30 THEN acc
  ELSE LET nx == N(RDiv(RMul(term, a), k)) IN ExpSeries(nx, a, k + 1, N(RAdd(acc, nx)))
RECURSIVE ExpNeg(_)                                                         \* exp(-a), a >= 0
ExpNeg(a) == IF RLt(200, a) THEN RatOf(0) ELSE IF RLe(a, "1/2") THEN ExpSeries(RatOf(1), RNeg(a), 1, RatOf(1))
             ELSE LET h == ExpNeg(N(RDiv(a, 2))) IN N(RMul(h, h))
=============================================================================
