------------------------------ MODULE SchemeMC ------------------------------
(***************************************************************************)
(* The specified scheme as a state machine over small configurations: the  *)
(* cells are filled with states of a small lattice, then the solution is   *)
(* advanced by explicit Euler steps.  What the scheme exists to provide is *)
(* checked on every state: totals, uniform flow, symmetries, and passive   *)
(* scalars that do not act on the gas.                                     *)
(***************************************************************************)
EXTENDS Scheme, Symmetry

CONSTANTS Chosen,      \* configurations (indices of Cfgs)
          MaxSteps

Tiny == "1/1000000000000000000000000000"     \* the specification works with 140 bits
Res  == "1/1000000000"

\* density, velocities, pressure, two passive scalars
Lattice == <<
  <<"1", "1/2", "0", "-1/4", "1", "1", "3">>,
  <<"3/2", "-1", "1/2", "1", "5/4", "-2", "3">>,
  <<"4/5", "0", "3/4", "-3/2", "2/3", "1/2", "3">> >>

Side(ty) == [type |-> ty]
Both(ty) == [lo |-> Side(ty), hi |-> Side(ty)]
Opts == [eps |-> "1/100000", global |-> FALSE, relative |-> TRUE, sed |-> TRUE, sedeps |-> "1/10000000000",
         vars |-> {1, 2, 3, 4, 5}, pad |-> <<>>]
NoLimit == [on |-> FALSE]
Limit(l, cv, sed) == [on |-> TRUE, limiter |-> l, convex |-> cv, force |-> FALSE, opt |-> [Opts EXCEPT !.sed = sed]]
C(n, p, act, flux, bc, lim, sts) ==
  [n |-> n, p |-> p, act |-> act, dom |-> << <<"0", "1">>, <<"0", "3/2">>, <<"-1", "0">> >>,
   gamma |-> "7/5", floor |-> "1/10000000000", riemann |-> flux, cfl |-> "2/5", fixdt |-> "none",
   bc |-> bc, limit |-> lim, states |-> sts]
X == <<TRUE, FALSE, FALSE>>   Y == <<FALSE, TRUE, FALSE>>   Z == <<FALSE, FALSE, TRUE>>
XY == <<TRUE, TRUE, FALSE>>   YZ == <<FALSE, TRUE, TRUE>>
Per == Both("periodic")       Wall == Both("reflective")
Cfgs == <<
  (* 1 *) C(<<3, 1, 1>>, <<2, 0, 0>>, X, "hllc", <<Per, Per, Per>>, NoLimit, 3),
  (* 2 *) C(<<1, 4, 1>>, <<0, 3, 0>>, Y, "llf", <<Per, Wall, Per>>, NoLimit, 3),
  (* 3 *) C(<<1, 1, 4>>, <<0, 0, 1>>, Z, "hllc", <<Per, Per, Per>>, Limit("minmod", TRUE, TRUE), 3),
  (* 4 *) C(<<5, 1, 1>>, <<2, 0, 0>>, X, "llf", <<Wall, Per, Per>>, Limit("moncen", FALSE, FALSE), 2),
  (* 5 *) C(<<1, 6, 1>>, <<0, 1, 0>>, Y, "hllc", <<Per, Per, Per>>, Limit("minmod", TRUE, FALSE), 2),
  (* 6 *) C(<<2, 2, 1>>, <<2, 1, 0>>, XY, "hllc", <<Per, Wall, Per>>, NoLimit, 2),
  (* 7 *) C(<<1, 3, 2>>, <<0, 1, 2>>, YZ, "llf", <<Per, Per, Per>>, Limit("minmod", TRUE, TRUE), 2),
  (* 8 *) C(<<1, 1, 7>>, <<0, 0, 0>>, Z, "hllc", <<Per, Per, Both("free")>>, NoLimit, 2),
  (* 9 *) C(<<2, 1, 2>>, <<3, 0, 1>>, <<TRUE, FALSE, TRUE>>, "hllc", <<Wall, Per, Both("outflow")>>, Limit("moncen", FALSE, TRUE), 2) >>

VARIABLES conf,   \* index of the configuration
          cells,  \* the lattice states chosen so far
          u,      \* the solution, once all cells are chosen
          u0,     \* the initial solution
          k       \* steps taken
vars == <<conf, cells, u, u0, k>>
cfg == Cfgs[conf]
Count == cfg.n[1] * cfg.n[2] * cfg.n[3]
Ready == Len(cells) = Count

Fill(cs) ==
  LET m == cfg.n
      s(i, j, l) == Cons(Lattice[cs[((i - 1) * m[2] + (j - 1)) * m[3] + l]], cfg.gamma)
  IN MkField(7, m[1], m[2], m[3], LAMBDA v, i, j, l : s(i, j, l)[v])

Init == conf \in Chosen /\ cells = <<>> /\ u = <<>> /\ u0 = <<>> /\ k = 0
Choose1 ==
  /\ ~Ready
  /\ \E s \in 1 .. cfg.states : cells' = Append(cells, s)
  /\ IF Len(cells') = Count THEN u' = Fill(cells') /\ u0' = Fill(cells') ELSE UNCHANGED <<u, u0>>
  /\ UNCHANGED <<conf, k>>
R == RHS(cfg, u, 0, Res)
Add(q, dt, rate) == MkField(NV(q), Ext(q, 1), Ext(q, 2), Ext(q, 3), LAMBDA v, i, j, l : N(RAdd(q[v][i][j][l], RMul(dt, rate[v][i][j][l]))))
Step ==
  /\ Ready /\ k < MaxSteps
  /\ u' = LET r == R IN Add(u, r.dt, r.rate)
  /\ k' = k + 1
  /\ UNCHANGED <<conf, cells, u0>>
Next == Choose1 \/ Step
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Same(a, b) == Near(a, b, RMul(Tiny, RMax(1, RMax(AbsLeaf(a), AbsLeaf(b)))))
Closed(ax) == ~cfg.act[ax] \/ cfg.bc[ax].lo.type \in {"periodic", "reflective"}
Walled(v)  == v \in 2 .. 4 /\ cfg.act[v - 1] /\ cfg.bc[v - 1].lo.type = "reflective"

\* totals stay what they were
Conserved ==
  (k > 0 /\ \A ax \in 1 .. 3 : Closed(ax)) =>
    \A v \in 1 .. 7 : Walled(v) \/ Same(<<TotalOf(u, v)>>, <<TotalOf(u0, v)>>)

\* uniform flow stays uniform (unless it runs into a wall)
Uniform ==
  (Ready /\ \A i \in 1 .. Count : cells[i] = cells[1]) =>
    ((\A ax \in 1 .. 3 : cfg.act[ax] /\ cfg.bc[ax].lo.type = "reflective" => RSign(Lattice[cells[1]][1 + ax]) = 0)
      => Same(u, u0))

\* the right-hand side commutes with the symmetries of the problem
Commutes(m) ==
  LET a == R
      b == RHS(MapCfg(cfg, m), Transform(u, m), 0, Res)
  IN Same(b.rate, Transform(a.rate, m)) /\ Same(<<a.dt>>, <<b.dt>>)
MirrorOk == (Ready /\ k = 0) => \A ax \in 1 .. 3 : cfg.act[ax] => Commutes([op |-> "mirror", ax |-> ax, scalar |-> FALSE])
ShiftOk  == (Ready /\ k = 0) => \A ax \in 1 .. 3 : (cfg.act[ax] /\ cfg.bc[ax].lo.type = "periodic") => Commutes([op |-> "shift", ax |-> ax, by |-> 1])
SwapOk   == (Ready /\ k = 0) => \A ax \in {1, 2} : Commutes([op |-> "swap", ax |-> ax, with |-> ax + 1, scalar |-> FALSE])

\* without its scalars, or with others, the gas does the same; a uniform scalar
\* stays uniform; a scalar does not act on another one
Gas(q) == SubSeq(q, 1, 5)
Passive ==
  (Ready /\ k = 0) =>
    LET a == R
        b == RHS(cfg, Gas(u), 0, Res)
        c == RHS(cfg, Transform(u, [op |-> "pick", vars |-> <<1, 2, 3, 4, 5, 7, 6>>]), 0, Res)
        w == Add(u, a.dt, a.rate)
    IN /\ Same(Gas(a.rate), b.rate) /\ Same(<<a.dt>>, <<b.dt>>)
       /\ Same(c.rate, Transform(a.rate, [op |-> "pick", vars |-> <<1, 2, 3, 4, 5, 7, 6>>]))
       /\ Same(w[7], [i \in 1 .. Ext(w, 1) |-> [j \in 1 .. Ext(w, 2) |-> [l \in 1 .. Ext(w, 3) |-> RMul(3, w[1][i][j][l])]]])
\* blending never leaves the interval between both fluxes' results: flags are 0 or 1
FlagsOk == (Ready /\ k = 0 /\ cfg.limit.on) => \A i \in 1 .. cfg.n[1], j \in 1 .. cfg.n[2], l \in 1 .. cfg.n[3] : R.flags[i][j][l] \in {0, 1}
=============================================================================
