-------------------------------- MODULE Hydro -------------------------------
(***************************************************************************)
(* The Euler equations of an ideal gas with passive scalars, pointwise.    *)
(* A primitive state is <<rho, vx, vy, vz, P, s1, s2, ...>>, a conserved   *)
(* state <<rho, mx, my, mz, E, rho s1, rho s2, ...>>.  d \in 1..3 is a     *)
(* direction; 1 + d is the index of its velocity and momentum.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat

LOCAL Q(x) == RRound(x, 140)
SqrtBits == 200

Dot3(a, b, o) == RAdd(RMul(a[o + 1], b[o + 1]), RAdd(RMul(a[o + 2], b[o + 2]), RMul(a[o + 3], b[o + 3])))

Prim(u, g) ==
  LET rho == u[1]
      v   == Deep([d \in 1 .. 3 |-> Q(RDiv(u[1 + d], rho))])
      ke  == RDiv(Dot3(u, u, 1), RMul(2, rho))
  IN Deep([n \in 1 .. Len(u) |->
        CASE n = 1        -> RatOf(rho)
          [] n \in 2 .. 4 -> v[n - 1]
          [] n = 5        -> Q(RMul(RSub(g, 1), RSub(u[5], ke)))
          [] OTHER        -> Q(RDiv(u[n], rho))])

Cons(w, g) ==
  LET rho == w[1]
  IN Deep([n \in 1 .. Len(w) |->
        CASE n = 1        -> RatOf(rho)
          [] n \in 2 .. 4 -> Q(RMul(rho, w[n]))
          [] n = 5        -> Q(RAdd(RDiv(w[5], RSub(g, 1)), RMul(RDiv(rho, 2), Dot3(w, w, 1))))
          [] OTHER        -> Q(RMul(rho, w[n]))])

\* flux of the conserved variables in direction d; withP: keep the pressure terms
Flux(w, g, d, withP) ==
  LET u == Cons(w, g)
      v == w[1 + d]
      P == IF withP THEN RatOf(w[5]) ELSE RatOf(0)
  IN Deep([n \in 1 .. Len(w) |->
        CASE n = 1 + d -> Q(RAdd(RMul(v, u[n]), P))
          [] n = 5     -> Q(RMul(v, RAdd(u[5], P)))
          [] OTHER     -> Q(RMul(v, u[n]))])

\* speed of sound, with a floor on its square
Sound(w, g, floor) == RSqrt(RMax(RDiv(RMul(g, w[5]), w[1]), floor), SqrtBits)

\* what a cell contributes to the largest signal speed
Signal(w, g, floor, ndim) ==
  RAdd(RAdd(RAbs(w[2]), RAdd(RAbs(w[3]), RAbs(w[4]))), RMul(ndim, Sound(w, g, floor)))

(***************************************************************************)
(* Symmetries of states: swapping two directions, reflecting one.          *)
(***************************************************************************)
SwapDir(w, a, b)  == [w EXCEPT ![1 + a] = w[1 + b], ![1 + b] = w[1 + a]]
MirrorDir(w, d)   == [w EXCEPT ![1 + d] = RNeg(w[1 + d])]
=============================================================================
