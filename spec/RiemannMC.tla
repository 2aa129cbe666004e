----------------------------- MODULE RiemannMC ------------------------------
(***************************************************************************)
(* The specified interface fluxes have the properties they are chosen for, *)
(* on a lattice of pairs of states (gamma = 7/5, floor 1/100).             *)
(***************************************************************************)
EXTENDS Riemann, TLC

Rho == {"1", "5/2"}
Vn  == {"-4", "-1/3", "0", "1/2", "4"}
Vt  == {"-1", "2/3"}
Pr  == {"-1/10", "1", "3"}         \* a negative pressure makes the floor act
g   == "7/5"
fl  == "1/100"
Dirs == 1 .. 3
VARIABLES L, R, d, solver
State(rho, v, t, p, dir) ==
  <<rho>> \o [n \in 1 .. 3 |-> IF n = dir THEN v ELSE IF n = (dir % 3) + 1 THEN t ELSE "1/4"] \o <<p, v, "2">>
Init ==
  /\ d \in Dirs
  /\ solver \in {"llf", "hllc", "advection_upwind"}
  /\ \E a \in Rho, b \in Vn, c \in Vt, e \in Pr : L = State(a, b, c, e, d)
  /\ R = L
Next ==
  /\ R = L
  /\ \E a \in Rho, b \in Vn, c \in Vt, e \in Pr : R' = State(a, b, c, e, d)
  /\ UNCHANGED <<L, d, solver>>

F(l, r) == RFlux(solver, l, r, g, d, fl)
Tiny == "1/1000000000000000000000000000000"   \* square roots are rounded

\* equal states: the physical flux
Consistency == (L = R) => Near(F(L, R), Flux(L, g, d, solver # "advection_upwind"), Tiny)
\* reflecting the direction exchanges the states and the sign of all but the normal momentum
MirrorImage ==
  (solver # "advection_upwind" \/ L[1 + d] = R[1 + d]) =>
  LET f == F(L, R)
      m == F(MirrorDir(R, d), MirrorDir(L, d))
  IN Near(m, [n \in 1 .. Len(f) |-> IF n = 1 + d THEN RatOf(f[n]) ELSE RNeg(f[n])], Tiny)
\* supersonic flow to one side uses the upwind state only
Supersonic(l, r, s) ==
  \A w \in {l, r} : RLt(RMax(Sound(l, g, fl), Sound(r, g, fl)), RMul(s, w[1 + d]))
Upwinding ==
  solver = "hllc" =>
    /\ Supersonic(L, R, 1)  => Near(F(L, R), Flux(L, g, d, TRUE), Tiny)
    /\ Supersonic(L, R, -1) => Near(F(L, R), Flux(R, g, d, TRUE), Tiny)
\* the same state reflected on the other side: nothing passes
Wall ==
  solver # "advection_upwind" =>
  LET f == F(L, MirrorDir(L, d))
  IN \A n \in 1 .. Len(f) : n = 1 + d \/ Near(f[n], 0, Tiny)
\* a contact discontinuity at rest is kept by HLLC
Contact ==
  (solver = "hllc" /\ RSign(L[1 + d]) = 0 /\ RSign(R[1 + d]) = 0 /\ L[5] = R[5]) =>
    LET f == F(L, R) IN \A n \in 1 .. Len(f) : Near(f[n], IF n = 1 + d THEN RatOf(L[5]) ELSE RatOf(0), Tiny)
\* passive scalars follow the mass: their flux is a mean of both sides' values
\* times the mass flux (upwinded exactly by HLLC)
Passives ==
  solver = "hllc" =>
    LET f == F(L, R) IN Near(f[6], RMul(f[1], IF RSign(f[1]) > 0 THEN L[6] ELSE R[6]), Tiny)
                        /\ Near(f[7], RMul(f[1], 2), Tiny)
=============================================================================
