------------------------------- MODULE Riemann ------------------------------
(***************************************************************************)
(* The three interface fluxes, in direction d, between a left state wl and *)
(* a right state wr.                                                       *)
(***************************************************************************)
EXTENDS Hydro

LOCAL Q(x) == RRound(x, 140)
LOCAL Zero(w) == [n \in 1 .. Len(w) |-> RatOf(0)]

\* pressureless upwinding with the velocity of the left state
Upwind(wl, wr, g, d) ==
  CASE RSign(wl[1 + d]) > 0 -> Flux(wl, g, d, FALSE)
    [] RSign(wl[1 + d]) < 0 -> Flux(wr, g, d, FALSE)
    [] OTHER                -> Zero(wl)

\* local Lax-Friedrichs
LLF(wl, wr, g, d, floor) ==
  LET ul == Cons(wl, g)  ur == Cons(wr, g)
      fl == Flux(wl, g, d, TRUE)  fr == Flux(wr, g, d, TRUE)
      s  == RMax(RAdd(RAbs(wl[1 + d]), Sound(wl, g, floor)), RAdd(RAbs(wr[1 + d]), Sound(wr, g, floor)))
  IN Deep([n \in 1 .. Len(wl) |->
        Q(RDiv(RSub(RAdd(fl[n], fr[n]), RMul(s, RSub(ur[n], ul[n]))), 2))])

(***************************************************************************)
(* HLLC with Davis wave speeds.  Written in its textbook form: the flux in *)
(* a star region is F(outer) + S (U* - U(outer)), U* from the jump         *)
(* conditions across the wave S; zero is resolved like the state it        *)
(* belongs to, the formulas agree there.                                   *)
(***************************************************************************)
HLLC(wl, wr, g, d, floor) ==
  LET vl == wl[1 + d]  vr == wr[1 + d]
      cm == RMax(Sound(wl, g, floor), Sound(wr, g, floor))
      Sl == RSub(RMin(vl, vr), cm)
      Sr == RAdd(RMax(vl, vr), cm)
      al == RMul(wl[1], RSub(vl, Sl))         \* mass fluxes through the waves
      ar == RMul(wr[1], RSub(Sr, vr))
      vs == Q(RDiv(RAdd(RAdd(RMul(al, vl), RMul(ar, vr)), RSub(wl[5], wr[5])), RAdd(al, ar)))
      Star(w, S) ==                           \* flux behind the wave S next to the state w
        LET u  == Cons(w, g)
            f  == Flux(w, g, d, TRUE)
            v  == w[1 + d]
            rs == RDiv(RMul(w[1], RSub(S, v)), RSub(S, vs))
            Us == Deep([n \in 1 .. Len(w) |->
                     CASE n = 1     -> rs
                       [] n = 1 + d -> RMul(rs, vs)
                       [] n = 5     -> RMul(rs, RAdd(RDiv(u[5], w[1]),
                                         RMul(RSub(vs, v), RAdd(vs, RDiv(w[5], RMul(w[1], RSub(S, v)))))))
                       [] OTHER     -> RMul(rs, RDiv(u[n], w[1]))])
        IN Deep([n \in 1 .. Len(w) |-> Q(RAdd(f[n], RMul(S, RSub(Us[n], u[n]))))])
  IN CASE RLt(0, Sl)                -> Flux(wl, g, d, TRUE)
       [] RLe(Sl, 0) /\ RLt(0, vs)  -> Star(wl, Sl)
       [] RLe(vs, 0) /\ RLt(0, Sr)  -> Star(wr, Sr)
       [] OTHER                     -> Flux(wr, g, d, TRUE)

RFlux(solver, wl, wr, g, d, floor) ==
  CASE solver = "advection_upwind" -> Upwind(wl, wr, g, d)
    [] solver = "llf"              -> LLF(wl, wr, g, d, floor)
    [] solver = "hllc"             -> HLLC(wl, wr, g, d, floor)
=============================================================================
