-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic.  The definitions below give the meaning on   *)
(* pairs <<num, den>> of TLC integers; java/Rat.java overrides them by the *)
(* same operations on BigInteger fractions, so that every IEEE double (a   *)
(* dyadic rational) and every intermediate result of the specification is  *)
(* represented without rounding.  A rational is written in traces as the   *)
(* string "num/den" or "num", or as a TLC integer.  spec/RatTest.tla       *)
(* checks the override against the definitions on small integers.          *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

LOCAL Sgn(n)    == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
LOCAL AbsI(n)   == IF n < 0 THEN -n ELSE n
RECURSIVE RGcd(_, _)
RGcd(a, b) == IF b = 0 THEN a ELSE RGcd(b, a % b)
LOCAL Mk(n, d)  == LET g == RGcd(AbsI(n), AbsI(d)) * Sgn(d) IN <<(n \div g), (d \div g)>>

RatOf(x)   == IF x \in Int THEN <<x, 1>> ELSE x
RAdd(a, b) == LET x == RatOf(a) y == RatOf(b) IN Mk(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
RNeg(a)    == LET x == RatOf(a) IN <<-x[1], x[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET x == RatOf(a) y == RatOf(b) IN Mk(x[1] * y[1], x[2] * y[2])
RDiv(a, b) == LET x == RatOf(a) y == RatOf(b) IN Mk(x[1] * y[2], x[2] * y[1])
RLe(a, b)  == LET x == RatOf(a) y == RatOf(b) IN x[1] * y[2] <= y[1] * x[2]
RLt(a, b)  == ~ RLe(b, a)
REq(a, b)  == RLe(a, b) /\ RLe(b, a)
RMin(a, b) == IF RLe(a, b) THEN RatOf(a) ELSE RatOf(b)
RMax(a, b) == IF RLe(b, a) THEN RatOf(a) ELSE RatOf(b)
RAbs(a)    == IF RLe(0, a) THEN RatOf(a) ELSE RNeg(a)
RSign(a)   == IF RLt(a, 0) THEN -1 ELSE IF RLt(0, a) THEN 1 ELSE 0
RFloor(a)  == LET x == RatOf(a) IN x[1] \div x[2]
\* a rounded to `bits' significant bits: used only to bound the growth of
\* numerators, never where a decision is taken on the result
RRound(a, bits) == RatOf(a)
\* the square root from below, on the grid 2^-bits
RSqrt(a, bits)  == CHOOSE q \in {<<n, 2^bits>> : n \in 0 .. 2^15} :
                     /\ RLe(RMul(q, q), a)
                     /\ LET s == RAdd(q, <<1, 2^bits>>) IN RLt(a, RMul(s, s))
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN RatOf(0) ELSE RAdd(Head(s), RSum(Tail(s)))
RECURSIVE RDot(_, _)
RDot(w, s) == IF s = <<>> THEN RatOf(0)
              ELSE RAdd(RMul(Head(w), Head(s)), RDot(Tail(w), Tail(s)))

\* evaluation hints for TLC: the same value, written out (DeepRat: with numbers
\* in the traces' notation turned into rationals)
Deep(x)    == x
DeepRat(x) == x
\* the largest, the smallest entry, the largest magnitude in nested non-empty
\* sequences of rationals (meaning on flat sequences)
MaxLeaf(s) == LET i == CHOOSE i \in 1 .. Len(s) : \A j \in 1 .. Len(s) : RLe(s[j], s[i]) IN RatOf(s[i])
MinLeaf(s) == LET i == CHOOSE i \in 1 .. Len(s) : \A j \in 1 .. Len(s) : RLe(s[i], s[j]) IN RatOf(s[i])
AbsLeaf(s) == MaxLeaf([i \in 1 .. Len(s) |-> RAbs(s[i])])
\* the largest difference of corresponding entries, -1 if the shapes differ
DiffLeaf(s, u) == IF Len(s) # Len(u) THEN -1 ELSE IF s = <<>> THEN 0
                  ELSE AbsLeaf([i \in 1 .. Len(s) |-> RSub(s[i], u[i])])
\* equal up to tol
Near(a, b, tol) == LET d == DiffLeaf(a, b) IN RLe(0, d) /\ RLe(d, tol)

a \oplus b   == RAdd(a, b)
a \ominus b  == RSub(a, b)
a \otimes b  == RMul(a, b)
a \oslash b  == RDiv(a, b)
a \preceq b  == RLe(a, b)
a \prec b    == RLt(a, b)
=============================================================================
