----------------------------- MODULE Reference ------------------------------
(***************************************************************************)
(* The one-dimensional reference solver: the Euler equations of a gas with *)
(* gamma = 7/5 on n >= 4 cells of the unit interval, states <<density,     *)
(* momentum, energy>>; a limited reconstruction of the primitive variables *)
(* (space 1..5), one Riemann problem per interface, a classical            *)
(* Runge-Kutta step (time 1..4), dt = cfl h / max(|v| + c).                *)
(*                                                                         *)
(* A field is a sequence over the variables of sequences over the cells.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat, RungeKutta
LOCAL INSTANCE Riemann

G == RatOf("7/5")
LOCAL Q(x) == RRound(x, 140)
Half(x) == RDiv(x, 2)
Wide(s) == <<s[1], s[2], 0, 0, s[3]>>            \* as a state of module Hydro
Narrow(s) == <<s[1], s[2], s[5]>>
PrimOf(u) == Narrow(Prim(Wide(u), G))
ConsOf(w) == Narrow(Cons(Wide(w), G))
SpeedOf(w) == RAdd(RAbs(w[2]), Sound(Wide(w), G, 0))
FluxOf(solver, wl, wr) == Narrow(RFlux(solver, Wide(wl), Wide(wr), G, 1, 0))
Cell(f, i) == [v \in 1 .. 3 |-> f[v][i]]
ByCells(n, Op(_)) ==                              \* cellwise to a field
  LET c == Deep([i \in 1 .. n |-> Op(i)]) IN Deep([v \in 1 .. 3 |-> [i \in 1 .. n |-> c[i][v]]])

\* ghosts: the value at cell i of ... -1, 0, 1 .. n, n + 1 ...
Inside(i, n, bc) == IF bc = "periodic" THEN ((i - 1) % n) + 1 ELSE IF i < 1 THEN 1 ELSE IF i > n THEN n ELSE i

(***************************************************************************)
(* Reconstruction in cell i from the values s of one variable.             *)
(***************************************************************************)
\* weights of the cells i-2 .. i+2 for the right face; the left face mirrors them
FaceW(space) == CASE space = 1 -> <<0, 0, 1, 0, 0>>
                  [] space = 2 -> <<0, "-1/4", 1, "1/4", 0>>
                  [] space = 3 -> <<0, "-1/6", "5/6", "1/3", 0>>
                  [] space = 4 -> <<"1/24", "-1/4", "5/6", "5/12", "-1/24">>
                  [] space = 5 -> <<"1/30", "-13/60", "47/60", "9/20", "-1/20">>
MidW(space) == CASE space \in {3, 4} -> <<0, "-1/24", "13/12", "-1/24", 0>>
                 [] space = 5 -> <<"3/640", "-29/480", "1067/960", "-29/480", "3/640">>
Rev5(w) == [k \in 1 .. 5 |-> w[6 - k]]

Tiny(scale) == RMul("1/10000000000", scale)
\* sets of possible answers: more than one where rounding may decide
Smooth(s, n, bc, i, scale) ==
  LET X(j) == s[Inside(j, n, bc)]
      D(j) == LET k == Inside(j, n, bc) IN Half(RSub(X(k + 1), X(k - 1)))   \* the derivative is extended like a state
      dl == RSub(D(i), D(i - 1))
      dr == RSub(D(i + 1), D(i))
      sum == RAdd(dl, dr)
      t  == Tiny(scale)
      Signed(a, b) ==                             \* for an upward bend: neither side below half the mean
        LET l == RSub(RMul(3, a), b)  r == RSub(RMul(3, b), a)
        IN IF RLt(t, l) /\ RLt(t, r) THEN {TRUE}
           ELSE IF RLt(l, RNeg(t)) \/ RLt(r, RNeg(t)) THEN {FALSE} ELSE BOOLEAN
  IN IF REq(dl, 0) /\ REq(dr, 0) THEN {TRUE}
     ELSE IF RLe(RAbs(sum), t) THEN BOOLEAN
     ELSE IF RLt(0, sum) THEN Signed(dl, dr) ELSE Signed(RNeg(dl), RNeg(dr))

AllOf(X, Y, Z) == {a /\ b /\ c : a \in X, b \in Y, c \in Z}

(***************************************************************************)
(* [l, r |-> values at the left and the right face, sure].  Away from      *)
(* smooth extrema the deviations from the mean are scaled so that they     *)
(* stay within the values of the neighbours.                               *)
(***************************************************************************)
Recon(s, smooth, n, bc, space, i, scale) ==
  LET X(j) == s[Inside(j, n, bc)]
      m   == X(i)
      five == [k \in 1 .. 5 |-> X(i + k - 3)]
      Dev(w) == Q(RSub(RDot(w, five), m))
      r   == Dev(FaceW(space))
      l   == Dev(Rev5(FaceW(space)))
      c   == IF space > 2 THEN Dev(MidW(space)) ELSE l
      up  == RSub(RMax(m, RMax(X(i - 1), X(i + 1))), m)
      dn  == RSub(m, RMin(m, RMin(X(i - 1), X(i + 1))))
      hi  == RMax(l, RMax(r, c))
      lo  == RMin(l, RMin(r, c))
      Ratio(room, dev) == Q(RDiv(room, RAdd(RAbs(dev), "1/1000000000000000")))
      theta == RMin(1, RMin(Ratio(up, hi), Ratio(dn, lo)))
      t   == Tiny(scale)
      \* zero over zero up to rounding
      Frail(room, dev) == RLe(room, t) /\ RLe(RAbs(dev), t) /\ ~ (REq(l, 0) /\ REq(r, 0))
      ok  == AllOf(smooth[Inside(i - 1, n, bc)], smooth[Inside(i, n, bc)], smooth[Inside(i + 1, n, bc)])
      At(f) == <<Q(RAdd(m, RMul(f, l))), Q(RAdd(m, RMul(f, r)))>>
      Same(f) == RLe(RMul(RSub(1, f), RMax(RAbs(l), RAbs(r))), t)
      pick == IF space = 1 \/ ok = {TRUE} THEN <<At(1), TRUE>>
              ELSE IF Frail(up, hi) \/ Frail(dn, lo) THEN <<At(theta), Same(0)>>
              ELSE IF ok = {FALSE} THEN <<At(theta), TRUE>>
              ELSE <<At(theta), Same(theta)>>
  IN [l |-> pick[1][1], r |-> pick[1][2], sure |-> pick[2]]

(***************************************************************************)
(* The fluxes through the interfaces 0 .. n, and the rate of change.       *)
(***************************************************************************)
Interfaces(u, n, bc, solver, space) ==
  LET w  == ByCells(n, LAMBDA i : PrimOf(Cell(u, i)))
      sc == Deep([v \in 1 .. 3 |-> AbsLeaf(w[v])])
      sm == Deep([v \in 1 .. 3 |-> [i \in 1 .. n |-> Smooth(w[v], n, bc, i, sc[v])]])
      rc == Deep([i \in 1 .. n + 2 |-> [v \in 1 .. 3 |-> Recon(w[v], sm[v], n, bc, space, i - 1, sc[v])]])
      \* the flux is defined for positive density and pressure only
      Pos(x) == RLt(0, x[1]) /\ RLt(0, x[3])
      One(L, R) == IF Pos(L) /\ Pos(R) THEN <<FluxOf(solver, L, R), TRUE>> ELSE <<<<0, 0, 0>>, FALSE>>
  IN Deep([q \in 1 .. n + 1 |->
       LET f == One(Deep([v \in 1 .. 3 |-> rc[q][v].r]), Deep([v \in 1 .. 3 |-> rc[q + 1][v].l]))
       IN [flux |-> f[1], sure |-> f[2] /\ \A v \in 1 .. 3 : rc[q][v].sure /\ rc[q + 1][v].sure]])
Rate(u, n, bc, solver, space) ==
  LET f == Interfaces(u, n, bc, solver, space)
  IN [k |-> Deep([v \in 1 .. 3 |-> [i \in 1 .. n |-> Q(RMul(n, RSub(f[i].flux[v], f[i + 1].flux[v])))]]),
      sure |-> \A q \in 1 .. n + 1 : f[q].sure]
Dt(u, n, cfl) == Q(RDiv(cfl, RMul(n, MaxLeaf([i \in 1 .. n |-> SpeedOf(PrimOf(Cell(u, i)))]))))
RAxpy(u, dt, c, ks) == Deep([v \in 1 .. 3 |-> [i \in 1 .. Len(u[v]) |->
                        Q(RAdd(u[v][i], RMul(dt, RSum([j \in 1 .. Len(c) |-> RMul(c[j], ks[j].k[v][i])]))))]])
RefStep(u, n, cfl, bc, solver, time, space) ==
  LET m  == Classical[time]
      dt == Dt(u, n, cfl)
      ks == StageValues(m, 0, u, dt, LAMBDA t, x : Rate(x, n, bc, solver, space), RAxpy, <<>>)
  IN [u |-> RAxpy(u, dt, B(m), ks), dt |-> dt, sure |-> \A j \in 1 .. Len(ks) : ks[j].sure]

Total(s) == RSum(s)
=============================================================================
