------------------------------ MODULE RatTest -------------------------------
(***************************************************************************)
(* The Java override of module Rat agrees with the definitions in Rat.tla, *)
(* written out here on pairs of TLC's own integers, for all small          *)
(* fractions a/b and c/d.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Rat
CONSTANT M
Nz == (-M .. M) \ {0}
VARIABLES a, b, c, d
Init == a \in -M .. M /\ b \in Nz /\ c = 0 /\ d = 0
Next == d = 0 /\ c' \in -M .. M /\ d' \in Nz /\ UNCHANGED <<a, b>>

\* integers only
Sg(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Leq(n1, d1, n2, d2) == n1 * d2 * Sg(d1) * Sg(d2) <= n2 * d1 * Sg(d1) * Sg(d2)
Is(q, n, m) == /\ RLe(RMul(q, m), n) /\ RLe(n, RMul(q, m))     \* q is n/m
x == RDiv(a, b)
y == RDiv(c, d)
Max(i, j) == IF i > j THEN i ELSE j

Integers1 == \A i, j \in -M .. M :
  /\ RLe(i, j) = (i <= j) /\ RLt(i, j) = (i < j) /\ REq(i, j) = (i = j)
  /\ REq(RAdd(i, j), i + j) /\ REq(RMul(i, j), i * j) /\ REq(RSub(i, j), i - j)
Unary == d = 0 =>
  /\ Is(x, a, b) /\ Is(RNeg(x), -a, b)
  /\ Is(RAbs(x), IF a < 0 THEN -a ELSE a, IF b < 0 THEN -b ELSE b)
  /\ RSign(x) = Sg(a) * Sg(b)
  /\ LET f == RFloor(x) IN RLe(f, x) /\ RLt(x, RAdd(f, 1))
  /\ REq(RatOf(x), x)
  /\ RLe(RAbs(RSub(RRound(x, 20), x)), RDiv(RAbs(x), 524288))
  /\ RSign(x) >= 0 =>
       LET q == RSqrt(x, 9) IN
         /\ RLe(RMul(q, q), x)
         /\ RLt(x, RMul(RAdd(q, RDiv(1, 512)), RAdd(q, RDiv(1, 512))))
         /\ Is(RMul(q, 512), RFloor(RMul(q, 512)), 1)
Binary == d # 0 =>
  /\ Is(RAdd(x, y), a * d + c * b, b * d)
  /\ Is(RSub(x, y), a * d - c * b, b * d)
  /\ Is(RMul(x, y), a * c, b * d)
  /\ c # 0 => Is(RDiv(x, y), a * d, b * c)
  /\ RLe(x, y) = Leq(a, b, c, d)
  /\ RLt(x, y) = ~ Leq(c, d, a, b)
  /\ REq(x, y) = (a * d = c * b)
  /\ REq(RMin(x, y), IF Leq(a, b, c, d) THEN x ELSE y)
  /\ REq(RMax(x, y), IF Leq(a, b, c, d) THEN y ELSE x)
  /\ REq(RSum(<<x, y, 1>>), RAdd(RAdd(x, y), 1)) /\ REq(RSum(<<>>), 0)
  /\ REq(RDot(<<2, x>>, <<y, 3>>), RAdd(RMul(2, y), RMul(x, 3)))
  /\ REq(MaxLeaf(<<x, y, 0>>), RMax(x, RMax(y, 0)))
  /\ REq(MinLeaf(<< <<x, y>>, <<0>> >>), RMin(x, RMin(y, 0)))
  /\ REq(AbsLeaf(<<x, <<y>> >>), RMax(RAbs(x), RAbs(y)))
  /\ REq(DiffLeaf(<<x, <<y>> >>, <<y, <<x>> >>), RAbs(RSub(x, y)))
  /\ REq(DiffLeaf(<<x, y>>, <<x>>), -1)
  /\ Near(<<x>>, <<y>>, RAbs(RSub(x, y)))
  /\ (a * d # c * b) => ~ Near(<<x>>, <<y>>, RDiv(RAbs(RSub(x, y)), 2))
  /\ ~ Near(<<x, y>>, <<x>>, 100)
Notation == REq("-7/3", RDiv(-7, 3)) /\ REq("12", 12) /\ REq(DeepRat(<<"1/2", <<3>> >>)[1], RDiv(1, 2)) /\ REq(DeepRat(<<"1/2", <<3>> >>)[2][1], 3)
=============================================================================
