------------------------------- MODULE Stencil ------------------------------
(***************************************************************************)
(* Interpolation weights from cell averages to points, and from points to  *)
(* cell averages, derived (not tabulated) in exact arithmetic.             *)
(*                                                                         *)
(* Cells have unit width; cell m is centred at m.  For even degree p the   *)
(* stencil is the p+1 cells -p/2..p/2 and the weights are the unique ones  *)
(* exact for polynomials of degree p.  For odd p the weights are the mean  *)
(* of the two p+1 cell stencils that lean left and right, which keeps the  *)
(* stencil symmetric (p+2 cells) and mirror images mirror images.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rat

Reach(p) == (p + 1) \div 2            \* cells to each side of the centre
Width(p) == 2 * Reach(p) + 1

RECURSIVE RProdSet(_, _)
RProdSet(S, f) == IF S = {} THEN RatOf(1)
                  ELSE LET x == CHOOSE x \in S : TRUE IN RMul(f[x], RProdSet(S \ {x}, f))
RECURSIVE RSumSet(_, _)
RSumSet(S, f) == IF S = {} THEN RatOf(0)
                 ELSE LET x == CHOOSE x \in S : TRUE IN RAdd(f[x], RSumSet(S \ {x}, f))

Half == RDiv(1, 2)
RECURSIVE RPow(_, _)
RPow(x, n) == IF n = 0 THEN RatOf(1) ELSE RMul(x, RPow(x, n - 1))

(***************************************************************************)
(* Cell averages -> value at xi.  The primitive of the averages is         *)
(* interpolated at the cell edges a-1/2 .. b+1/2 (edge e is at e - 1/2)    *)
(* and differentiated at xi.                                               *)
(***************************************************************************)
AvgToPoint(a, b, xi) ==
  LET E    == a .. (b + 1)
      x(e) == RSub(e, Half)
      D(m) == \* derivative at xi of the Lagrange polynomial of edge m
        RDiv(RSumSet(E \ {m}, [l \in E \ {m} |->
                RProdSet(E \ {m, l}, [q \in E \ {m, l} |-> RSub(xi, x(q))])]),
             RProdSet(E \ {m}, [l \in E \ {m} |-> RSub(x(m), x(l))]))
      d == Deep([m \in E |-> D(m)])
  IN Deep([c \in a .. b |-> RSumSet((c + 1) .. (b + 1), d)])

(***************************************************************************)
(* Values at the cell centres a..b -> average over cell 0.                 *)
(***************************************************************************)
\* coefficient of x^n in the product of (x - r), r \in R
RECURSIVE PolyFromRoots(_)
PolyFromRoots(R) ==
  IF R = {} THEN <<RatOf(1)>>
  ELSE LET r == CHOOSE r \in R : TRUE
           P == PolyFromRoots(R \ {r})
       IN Deep([n \in 1 .. (Len(P) + 1) |->
             RSub(IF n > 1 THEN P[n - 1] ELSE RatOf(0),
                  IF n <= Len(P) THEN RMul(r, P[n]) ELSE RatOf(0))])
\* the average of x^n over [m - 1/2, m + 1/2]
CellMoment(m, n) == RDiv(RSub(RPow(RAdd(m, Half), n + 1), RPow(RSub(m, Half), n + 1)), n + 1)
PointToAvg(a, b) ==
  [c \in a .. b |->
     LET P == PolyFromRoots((a .. b) \ {c})
     IN RDiv(RSum([n \in 1 .. Len(P) |-> RMul(P[n], CellMoment(0, n - 1))]),
             RProdSet((a .. b) \ {c}, [l \in (a .. b) \ {c} |-> RatOf(c - l)]))]

(***************************************************************************)
(* The symmetric stencils of the scheme, as sequences from left to right.  *)
(***************************************************************************)
Spread(p, W(_, _)) ==
  LET r == Reach(p)
      g(w, m) == IF m \in DOMAIN w THEN w[m] ELSE RatOf(0)
  IN IF p % 2 = 0
     THEN LET w == W(-r, r) IN [n \in 1 .. Width(p) |-> w[n - 1 - r]]
     ELSE LET l == W(-r, r - 1)
              h == W(1 - r, r)
          IN [n \in 1 .. Width(p) |-> RMul(Half, RAdd(g(l, n - 1 - r), g(h, n - 1 - r)))]

XiOf(pos) == CASE pos = "l" -> RNeg(Half) [] pos = "c" -> RatOf(0) [] pos = "r" -> Half
DeriveInterp(p, pos) == Spread(p, LAMBDA a, b : AvgToPoint(a, b, XiOf(pos)))
DeriveRecon(p)       == Spread(p, LAMBDA a, b : PointToAvg(a, b))

PMax == 8
\* tables, computed once
InterpTable == Deep([p \in 0 .. PMax |-> [pos \in {"l", "c", "r"} |-> DeriveInterp(p, pos)]])
ReconTable  == Deep([p \in 0 .. PMax |-> DeriveRecon(p)])
Interp(p, pos) == InterpTable[p][pos]
Recon(p)       == ReconTable[p]

(***************************************************************************)
(* What the weights are for.                                               *)
(***************************************************************************)
InterpExact(p, pos) ==      \* cell averages of x^n give the value of x^n at xi
  \A n \in 0 .. p :
    REq(RDot(Interp(p, pos), [m \in 1 .. Width(p) |-> CellMoment(m - 1 - Reach(p), n)]),
        RPow(XiOf(pos), n))
ReconExact(p) ==            \* point values of x^n give its average
  \A n \in 0 .. p :
    REq(RDot(Recon(p), [m \in 1 .. Width(p) |-> RPow(RatOf(m - 1 - Reach(p)), n)]), CellMoment(0, n))
Mirror(s) == [n \in 1 .. Len(s) |-> s[Len(s) + 1 - n]]
SameSeq(s, t) == Len(s) = Len(t) /\ \A n \in 1 .. Len(s) : REq(s[n], t[n])
InterpMirror(p) == SameSeq(Interp(p, "r"), Mirror(Interp(p, "l"))) /\ SameSeq(Interp(p, "c"), Mirror(Interp(p, "c")))
ReconMirror(p)  == SameSeq(Recon(p), Mirror(Recon(p)))
=============================================================================
