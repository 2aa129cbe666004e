------------------------------- MODULE Conform ------------------------------
(***************************************************************************)
(* Events recorded from the implementation, judged by the specification of *)
(* the numerical scheme.  Tolerances absorb the rounding of an             *)
(* implementation in double precision, in whatever order it associates.    *)
(***************************************************************************)
EXTENDS Lanes, Scheme, Mesh, Symmetry
RK == INSTANCE RungeKutta

Res == "1/1000000000"           \* resolution of the decisions of the detection
E10 == "1/10000000000"
E11 == "1/100000000000"
E12 == "1/1000000000000"
E13 == "1/10000000000000"

If(ok, label) == IF ok THEN {} ELSE {label}
AsSet(s) == {s[x] : x \in 1 .. Len(s)}
Opt(o)  == [o EXCEPT !.vars = AsSet(o.vars)]
Cfg(c)  == [c EXCEPT !.limit = IF c.limit.on THEN [c.limit EXCEPT !.opt = Opt(c.limit.opt)] ELSE c.limit]
FluxScale(cfg, F) ==
  MaxLeaf([ax \in 1 .. 3 |-> IF cfg.act[ax] THEN RDiv(AbsLeaf(F[ax]), H(cfg, ax)) ELSE RatOf(0)])
Names(S) == {ToString(x) : x \in S}
VarsOff(a, b, tol) == IF Len(a) # Len(b) THEN {"shape"}
                      ELSE Names({v \in 1 .. Len(b) : ~ Near(a[v], b[v], tol)})

(***************************************************************************)
(* rhs: one evaluation of the right-hand side                              *)
(***************************************************************************)
RhsVerdict(e) ==
  LET cfg == Cfg(e.cfg)
      r == RHS(cfg, DeepRat(e.u), e.t, Res)
      tol == RMul(E10, FluxScale(cfg, r.flux))
  IN IF ~r.sure THEN {"unsure"} ELSE
     If(RLe(RAbs(RSub(e.dt, r.dt)), RMul(E12, r.dt)), "dt") \cup VarsOff(e.rate, r.rate, tol)

(***************************************************************************)
(* step: one whole step of a Runge-Kutta method                            *)
(***************************************************************************)
LinComb(cfg, u, dt, c, rs) ==
  MkField(NV(u), cfg.n[1], cfg.n[2], cfg.n[3], LAMBDA v, i, j, k :
    N(RAdd(u[v][i][j][k], RMul(dt, RDot(c, [q \in 1 .. Len(c) |-> rs[q].rate[v][i][j][k]])))))
RECURSIVE StageRates(_, _, _, _, _, _)
StageRates(cfg, u, t, dt, m, rs) ==
  LET i == Len(rs) + 1
  IN IF i > RK!Stages(m) THEN rs
     ELSE StageRates(cfg, u, t, dt, m,
            Append(rs, RHS(cfg, LinComb(cfg, u, dt, RK!A(m)[i], rs), RAdd(t, RMul(RK!C(m, i), dt)), Res)))
MeanFlags(cfg, rs) ==
  Deep([i \in 1 .. cfg.n[1] |-> [j \in 1 .. cfg.n[2] |-> [k \in 1 .. cfg.n[3] |->
     RDiv(RSum([q \in 1 .. Len(rs) |-> rs[q].flags[i][j][k]]), Len(rs))]]])
Within(x, lo, hi, tol) == RLe(RSub(lo, tol), x) /\ RLe(x, RAdd(hi, tol))
\* the same for the reported excesses
MeanExcess(cfg, rs, which) ==
  Deep([i \in 1 .. cfg.n[1] |-> [j \in 1 .. cfg.n[2] |-> [k \in 1 .. cfg.n[3] |->
     RDiv(RSum([q \in 1 .. Len(rs) |-> rs[q].excess[i][j][k][which]]), Len(rs))]]])
ExcessOff(cfg, e, rs) ==
  LET nad == DeepRat(e.nad)  pad == DeepRat(e.pad)
      lo == MeanExcess(cfg, rs, "lo")  hi == MeanExcess(cfg, rs, "hi")  pd == MeanExcess(cfg, rs, "pad")
      tol == RMul(E10, MaxLeaf([q \in 1 .. Len(rs) |-> rs[q].size]))
      Cells == (1 .. cfg.n[1]) \X (1 .. cfg.n[2]) \X (1 .. cfg.n[3])
      got(a, x) == a[x[1]][x[2]][x[3]]
  IN IF Len(nad) # cfg.n[1] \/ Len(pad) # cfg.n[1] THEN {"excess shape"} ELSE
     If(\A x \in Cells : Within(got(nad, x), got(lo, x), got(hi, x), tol), "NAD excess")
     \cup If(\A x \in Cells : Within(got(pad, x), got(pd, x), got(pd, x), tol), "PAD excess")
StepVerdict(e) ==
  LET cfg == Cfg(e.cfg)
      u   == DeepRat(e.u)
      r1  == RHS(cfg, u, e.t, Res)
      dt  == IF e.target = "none" THEN r1.dt ELSE RMin(r1.dt, RSub(e.target, e.t))
      rs  == StageRates(cfg, u, e.t, dt, e.method, <<r1>>)
      sure == \A q \in 1 .. Len(rs) : rs[q].sure
      un  == LinComb(cfg, u, dt, RK!B(e.method), rs)
      fs  == MaxLeaf([q \in 1 .. Len(rs) |-> FluxScale(cfg, rs[q].flux)])
      tol == RAdd(RMul(RMul(10, E10), RMul(fs, dt)), RMul(E13, AbsLeaf(u)))
  IN IF ~sure THEN {"unsure"} ELSE
     If(Near(e.t2, RAdd(e.t, dt), RMul(E11, RAdd(dt, RAbs(e.t)))), "time")
     \cup VarsOff(e.after, un, tol)
     \cup If(~ ("trouble" \in DOMAIN e) \/ ~cfg.limit.on \/ Near(e.trouble, MeanFlags(cfg, rs), E12), "trouble")
     \cup (IF "nad" \in DOMAIN e /\ cfg.limit.on THEN ExcessOff(cfg, e, rs) ELSE {})
     \cup If(~ ("evals" \in DOMAIN e) \/ e.evals = RK!Stages(e.method), "evaluations")

(***************************************************************************)
(* snap: the primitive variables of a snapshot                             *)
(***************************************************************************)
SnapVerdict(e) ==
  LET cfg == Cfg(e.cfg)
      u == DeepRat(e.u)
      z == <<0, 0, 0>>
      w == IF e.averages THEN PrimAverages(cfg, u, e.t, cfg.p, z) ELSE PrimCenters(cfg, u, e.t, cfg.p, z)
  IN VarsOff(e.w, w, RMul(E11, RMax(AbsLeaf(w), AbsLeaf(u))))

(***************************************************************************)
(* totals: sums over the domain of the listed variables stay what they     *)
(* were in the first of the recorded states                                *)
(***************************************************************************)
TotalsVerdict(e) ==
  LET us == DeepRat(e.us)
      s  == [v \in 1 .. Len(us[1]) |-> RMul(AbsLeaf([q \in 1 .. Len(us) |-> us[q][v]]), Ext(us[1], 1) * Ext(us[1], 2) * Ext(us[1], 3))]
      S  == AbsLeaf(s)
  IN Names({v \in AsSet(e.vars) : \E q \in 2 .. Len(us) :
        ~ Near(TotalOf(us[q], v), TotalOf(us[1], v), RMul(RMul(E12, q), S))})

(***************************************************************************)
(* uniform: all cells of all recorded states equal the given state         *)
(***************************************************************************)
UniformVerdict(e) ==
  LET us == DeepRat(e.us)
      tol == RMul(E12, IF "scale" \in DOMAIN e THEN RatOf(e.scale) ELSE AbsLeaf(e.state))
  IN Names({<<q, v>> \in (1 .. Len(us)) \X (1 .. Len(e.state)) :
        ~ (Near(MaxLeaf(us[q][v]), e.state[v], RMul(q, tol)) /\ Near(MinLeaf(us[q][v]), e.state[v], RMul(q, tol)))})

(***************************************************************************)
(* ghosts: cell data extended beyond the domain                            *)
(***************************************************************************)
GhostVerdict(e) ==
  LET u == DeepRat(e.u)
      x == Extend(u, e.bc, e.dom, e.t, e.gw)
      tol == IF e.exact THEN "0" ELSE RMul(E12, AbsLeaf(x))
  IN VarsOff(e.out, x, tol)

\* names of conditions: two per direction, periodic only in pairs is not required
BCNames == {"periodic", "free", "outflow", "reflective"}  \* (those that need no data)
NameVerdict(e) == If(e.accepted = (Len(e.names) = 2 /\ \A q \in 1 .. Len(e.names) : e.names[q] \in BCNames), "name")

(***************************************************************************)
(* weights, sweep: interpolation                                           *)
(***************************************************************************)
WeightVerdict(e) ==
  LET w == IF e.what = "recon" THEN Recon(e.p) ELSE Interp(e.p, e.what)
  IN If(Near(e.w, w, "1/1000000000000000"), "weights") \cup If(e.total = Width(e.p) /\ e.right = Reach(e.p), "size")
SweepVerdict(e) ==
  LET q == DeepRat(e.q)
      W(p) == IF e.what = "recon" THEN Recon(p) ELSE Interp(p, e.what)
      x == IF e.ax > 0 THEN Sweep(q, W(e.p[e.ax]), e.ax)
           ELSE Sweep3(q, W(e.p[1]), W(e.p[2]), W(e.p[3]))
  IN VarsOff(e.out, x, RMul(E12, AbsLeaf(q)))
DiffVerdict(e) ==   \* second order central difference
  LET q == DeepRat(e.q)
      h == IF e.h = "none" THEN RatOf(1) ELSE RatOf(e.h)
      x == Sweep(q, <<RDiv("-1/2", h), RatOf(0), RDiv("1/2", h)>>, e.ax)
  IN VarsOff(e.out, x, RMul(E12, RDiv(AbsLeaf(q), h)))

(***************************************************************************)
(* mesh: cell centres, spacings; slabs of ghost cells; averages            *)
(***************************************************************************)
MeshTol(e) == RMul(E12, RMax(AbsLeaf(e.dom), MaxLeaf([ax \in 1 .. 3 |-> RMul(Spacing(e.dom[ax], e.n[ax]), e.n[ax] + 2 * e.slab[ax])])))
\* coordinates of an array of cells whose first cell is c0, m[ax] cells long
Coord(e, c0, m, ax) ==
  LET X(q) == Center(e.dom[ax], e.n[ax], c0[ax] + q - 1)
  IN Deep([i \in 1 .. m[1] |-> [j \in 1 .. m[2] |-> [k \in 1 .. m[3] |->
        X(CASE ax = 1 -> i [] ax = 2 -> j [] ax = 3 -> k)]]])
SlabVerdict(e) ==  \* e.where: <<ax, side>>, absent for the inner mesh
  LET m == [ax \in 1 .. 3 |-> IF ~ ("where" \in DOMAIN e) THEN e.n[ax] ELSE
              IF <<"x", "y", "z">>[ax] = e.where[1] THEN e.slab[ax] ELSE e.n[ax] + 2 * e.slab[ax]]
      c0 == [ax \in 1 .. 3 |-> IF ~ ("where" \in DOMAIN e) THEN 1 ELSE
              IF <<"x", "y", "z">>[ax] = e.where[1] THEN (IF e.where[2] = "l" THEN 1 - e.slab[ax] ELSE e.n[ax] + 1)
              ELSE 1 - e.slab[ax]]
  IN Names({ax \in 1 .. 3 : ~ Near(e.xyz[ax], Coord(e, c0, m, ax), MeshTol(e))})
AxesVerdict(e) ==  \* the solver's own mesh
  Names({ax \in 1 .. 3 : ~ (/\ Near(e.axes[ax], [q \in 1 .. e.n[ax] |-> Center(e.dom[ax], e.n[ax], q)], MeshTol(e))
                      /\ Near(e.h[ax], Spacing(e.dom[ax], e.n[ax]), RMul(E12, Spacing(e.dom[ax], e.n[ax])))
                      /\ e.act[ax] = ~ (e.n[ax] = 1 /\ e.p[ax] = 0))})
AverageVerdict(e) ==  \* of polynomials of at most the degree of the scheme
  LET P == IF e.mode = "primitive" THEN Deep(ConsPolys(e.polys, e.gamma)) ELSE e.polys
      val(v, i, j, k) ==
        IF e.mode = "given" THEN PolyVal(P[v], Center(e.dom[1], e.n[1], i), Center(e.dom[2], e.n[2], j), Center(e.dom[3], e.n[3], k))
        ELSE AvgOver(P[v], e.dom, e.n, <<i, j, k>>)
      x == MkField(Len(P), e.n[1], e.n[2], e.n[3], val)
  IN VarsOff(e.out, x, RMul(E11, e.scale))

(***************************************************************************)
(* pointwise functions of states                                           *)
(***************************************************************************)
StatesScale(e) == RMax(AbsLeaf(e.ins), 1)
PointVerdict(e) ==
  LET n == Len(e.ins)
      g == e.gamma
      want(q) ==
        LET w == DeepRat(e.ins[q]) IN
        CASE e.what = "prim"  -> Prim(w, g)
          [] e.what = "cons"  -> Cons(w, g)
          [] e.what = "round" -> w
          [] e.what = "flux"  -> Flux(w, g, e.d, e.withP)
          [] e.what = "sound" -> <<Sound(w, g, e.floor)>>
      \* rounding errors of a component are relative to the terms it is made of
      ke(w) == RMul(RDiv(w[1], 2), Dot3(w, w, 1))
      tot(w) == RAdd(RAbs(RDiv(w[5], RSub(g, 1))), ke(w))
      mag(q, n2) == LET w == DeepRat(e.ins[q])  x == RAbs(want(q)[n2]) IN
        CASE e.what = "prim" /\ n2 = 5 -> RMul(RSub(g, 1), RAdd(RAbs(w[5]), RDiv(Dot3(w, w, 1), w[1])))
          [] e.what = "cons" /\ n2 = 5 -> tot(w)
          [] e.what = "round" /\ n2 = 5 -> RAdd(RAbs(w[5]), RMul(RSub(g, 1), ke(w)))
          [] e.what = "flux" /\ n2 = 1 + e.d -> RAdd(RMul(w[1], RMul(w[1 + e.d], w[1 + e.d])), RAbs(w[5]))
          [] e.what = "flux" /\ n2 = 5 -> RMul(RAbs(w[1 + e.d]), RAdd(tot(w), RAbs(w[5])))
          [] OTHER -> x
      good(q) == LET x == want(q) IN Len(e.outs[q]) = Len(x) /\ \A c \in 1 .. Len(x) : RLe(RAbs(RSub(e.outs[q][c], x[c])), RMul(E12, mag(q, c)))
  IN Names({q \in 1 .. n : ~ good(q)})
RiemannVerdict(e) ==
  LET ok(q) ==
        LET wl == DeepRat(e.ins[q][1])
            wr == DeepRat(e.ins[q][2])
            x  == RFlux(e.solver, wl, wr, e.gamma, e.d, e.floor)
            ul == Cons(wl, e.gamma)
            ur == Cons(wr, e.gamma)
            s  == RAdd(RMax(RAbs(wl[1 + e.d]), RAbs(wr[1 + e.d])), RMax(Sound(wl, e.gamma, e.floor), Sound(wr, e.gamma, e.floor)))
            R  == RMax(wl[1], wr[1])
            big(c) == RMax(RAbs(wl[c]), RAbs(wr[c]))
            \* how large each component of a flux may be
            sc(c) == CASE c = 1 -> RMul(R, s)
                       [] c = 1 + e.d -> RAdd(RMul(R, RMul(s, s)), big(5))
                       [] c = 5 -> RMul(s, RAdd(RMul(R, RMul(s, s)), RAdd(big(5), RMax(RAbs(ul[5]), RAbs(ur[5])))))
                       [] OTHER -> RMul(RMul(R, s), big(c))
        IN Len(e.outs[q]) = Len(x) /\ \A c \in 1 .. Len(x) : RLe(RAbs(RSub(e.outs[q][c], x[c])), RMul(RMul(10, E10), RAdd(sc(c), RAbs(x[c]))))
  IN Names({q \in 1 .. Len(e.ins) : ~ ok(q)})
AdvectionVerdict(e) ==
  LET v == RAdd(e.v[1], RAdd(e.v[2], e.v[3]))
      x == RMul(e.cfl, RDiv(e.h, v))
  IN If(Near(e.dt, x, RMul(E12, x)), "dt")
DtVerdict(e) ==
  LET w == DeepRat(e.w)
      S == MkField(1, Ext(w, 1), Ext(w, 2), Ext(w, 3), LAMBDA v, i, j, k : Signal(At(w, i, j, k), e.gamma, e.floor, e.ndim))
      x == RDiv(RMul(e.cfl, e.h), MaxLeaf(S))
  IN If(Near(e.dt, x, RMul(E12, x)), "dt")
MusclVerdict(e) ==
  LET q == DeepRat(e.q)
      P(ax, F(_, _, _, _)) ==
        CASE ax = 1 -> MkField(NV(q), Ext(q, 1) - 2, Ext(q, 2), Ext(q, 3), LAMBDA v, i, j, k : F(e.limiter, q[v][i][j][k], q[v][i + 1][j][k], q[v][i + 2][j][k]))
          [] ax = 2 -> MkField(NV(q), Ext(q, 1), Ext(q, 2) - 2, Ext(q, 3), LAMBDA v, i, j, k : F(e.limiter, q[v][i][j][k], q[v][i][j + 1][k], q[v][i][j + 2][k]))
          [] ax = 3 -> MkField(NV(q), Ext(q, 1), Ext(q, 2), Ext(q, 3) - 2, LAMBDA v, i, j, k : F(e.limiter, q[v][i][j][k], q[v][i][j][k + 1], q[v][i][j][k + 2]))
      \* minmod divides by differences of at least 1e-16
      tol == RAdd(RMul(E13, AbsLeaf(q)), IF e.limiter = "minmod" THEN "1/1000000000000000" ELSE "0")
  IN If(Near(e.left, P(e.ax, MusclL), tol), "left") \cup If(Near(e.right, P(e.ax, MusclR), tol), "right")

(***************************************************************************)
(* detect: troubled cells                                                  *)
(***************************************************************************)
DetectVerdict(e) ==
  LET w == DeepRat(e.w)
      c == DeepRat(e.c)
      d == Detect(w, c, e.act, Opt(e.opt), Res)
      n1 == Len(d)  n2 == Len(d[1])  n3 == Len(d[1][1])
      m == Excess(w, c, e.act, Opt(e.opt), d, Res)
      tol == RMul(E12, AbsLeaf(c))
      Cells == (1 .. n1) \X (1 .. n2) \X (1 .. n3)
      flag(x) == d[x[1]][x[2]][x[3]]
      got(a, x) == a[x[1]][x[2]][x[3]]
  IN IF ~ (Len(e.trouble) = n1 /\ Len(e.trouble[1]) = n2 /\ Len(e.trouble[1][1]) = n3) THEN {"shape"} ELSE
     Names({<<"flag", x>> : x \in {x \in Cells : \/ flag(x).any = "T" /\ ~ REq(got(e.trouble, x), 1)
                                                 \/ flag(x).any = "F" /\ ~ REq(got(e.trouble, x), 0)}}
     \cup {<<"nad", x>> : x \in {x \in Cells : \/ flag(x).nad = "T" /\ ~ RLt(0, got(e.nad, x))
                                               \/ flag(x).nad = "F" /\ ~ REq(got(e.nad, x), 0)
                                               \/ ~ Within(got(e.nad, x), got(m, x).lo, got(m, x).hi, RMul(10, tol))}}
     \cup {<<"pad", x>> : x \in {x \in Cells : ~ Near(got(e.pad, x), got(m, x).pad, tol)}})

(***************************************************************************)
(* sed: the smooth extremum detector itself                                *)
(***************************************************************************)
SedVerdict(e) ==
  LET c == DeepRat(e.u)
      off(ax) == IF e.act[ax] THEN 3 ELSE 0
      n(ax) == Ext(c, ax) - 2 * off(ax)
      Line(v, x, ax) == Deep([m \in 1 .. 7 |->
         CASE ax = 1 -> c[v][x[1] + m - 1][off(2) + x[2]][off(3) + x[3]]
           [] ax = 2 -> c[v][off(1) + x[1]][x[2] + m - 1][off(3) + x[3]]
           [] ax = 3 -> c[v][off(1) + x[1]][off(2) + x[2]][x[3] + m - 1]])
      Both(v, x) == LET A == {ax \in 1 .. 3 : e.act[ax]}
                        I(ax) == Alpha1(Line(v, x, ax), e.eps, Res)
                        Lo(q) == IF q \in A THEN I(q)[1] ELSE RatOf(1)
                        Hi(q) == IF q \in A THEN I(q)[2] ELSE RatOf(1)
                    IN <<RMin(Lo(1), RMin(Lo(2), Lo(3))), RMin(Hi(1), RMin(Hi(2), Hi(3)))>>
      bad(v, x) == LET b == Both(v, x)  y == e.out[v][x[1]][x[2]][x[3]]
                   IN ~ (RLe(RSub(b[1], Res), y) /\ RLe(y, RAdd(b[2], Res)))
  IN IF ~ (Len(e.out) = Len(c) /\ \A ax \in 1 .. 3 : Ext(e.out, ax) = n(ax)) THEN {"shape"} ELSE
     Names({<<"alpha", x>> : x \in {x \in (1 .. Len(c)) \X (1 .. n(1)) \X (1 .. n(2)) \X (1 .. n(3)) : bad(x[1], <<x[2], x[3], x[4]>>)}})

(***************************************************************************)
(* blend: weights of the fallback flux                                     *)
(***************************************************************************)
BlendVerdict(e) ==
  Names({<<m, ax>> \in (1 .. Len(e.masks)) \X (1 .. 3) :
     ~ Near(e.outs[m][ax], Faces(e.masks[m], e.per, e.act, e.convex, ax), "0")})

MaxOf3(p) == CHOOSE m \in {p[1], p[2], p[3]} : \A q \in 1 .. 3 : p[q] <= m
(***************************************************************************)
(* rk: a step of an integrator for u' = a + b t + c u + d t u + e u u      *)
(***************************************************************************)
RkVerdict(e0) ==
  LET \* by default the method goes with the largest degree
      e == IF "p" \in DOMAIN e0 THEN [e0 EXCEPT !.method = RK!MethodFor(MaxOf3(e0.p))] ELSE e0
      u == DeepRat(e.u)
      c == DeepRat(e.coef)
      F(t, y) == [q \in 1 .. Len(y) |->
                    LET z == y[(q % Len(y)) + 1]      \* components are coupled
                    IN N(RAdd(RAdd(RAdd(c[q][1], RMul(c[q][2], t)), RAdd(RMul(c[q][3], y[q]), RMul(c[q][4], RMul(t, z)))),
                              RMul(c[q][5], RMul(y[q], z))))]
      Axpy(y, dt, a, ks) == Deep([q \in 1 .. Len(y) |-> N(RAdd(y[q], RMul(dt, RDot(a, [s \in 1 .. Len(a) |-> ks[s][q]]))))])
      x == RK!RKStep(e.method, e.t, u, e.dt, F, Axpy)
  IN If(Near(e.after, x, RMul(E12, RAdd(AbsLeaf(x), AbsLeaf(u)))), "step")
     \cup If(~ ("times" \in DOMAIN e) \/ (Len(e.times) = RK!Stages(e.method)
             /\ \A s \in 1 .. Len(e.times) : Near(e.times[s], RAdd(e.t, RMul(RK!C(e.method, s), e.dt)), RMul(E12, RAdd(RAbs(e.t), e.dt)))), "stages")

(***************************************************************************)
(* relate: two recordings of related problems.  e.map is a sequence of     *)
(* transformations applied to a; the result must be b.                     *)
(***************************************************************************)
RelateVerdict(e) ==
  LET a == DeepRat(e.a)
      x == TransformAll(a, e.map)
      sure == ~ ("cfg" \in DOMAIN e) \/ RHS(Cfg(e.cfg), DeepRat(e.u), e.t, Res).sure
      off == VarsOff(e.b, x, IF e.tol = "0" THEN "0" ELSE RMul(e.tol, e.scale))
      sd == IF ~ ("sa" \in DOMAIN e) THEN {} ELSE If(Near(e.sa, e.sb, IF e.tol = "0" THEN "0" ELSE RMul(E11, AbsLeaf(e.sa))), "scalars")
  IN IF off \cup sd # {} /\ ~sure THEN {"unsure"} ELSE off \cup sd
\* range: passive values stay within the bounds of the initial ones
RangeVerdict(e) ==
  LET tol == RMul(E11, RMax(RAbs(e.lo), RAbs(e.hi)))
  IN If(RLe(RSub(e.lo, tol), MinLeaf(e.q)) /\ RLe(MaxLeaf(e.q), RAdd(e.hi, tol)), "range")

\* flagged cells are exactly those with a violation
FlagVerdict(e) ==
  LET t == DeepRat(e.trouble)  a == DeepRat(e.nad)  b == DeepRat(e.pad)
  IN IF ~ (Len(a) = Len(t) /\ Len(b) = Len(t)) THEN {"shape"} ELSE
     If(\A i \in 1 .. Len(t) : \A j \in 1 .. Len(t[i]) : \A k \in 1 .. Len(t[i][j]) :
          /\ RLe(0, t[i][j][k]) /\ RLe(t[i][j][k], RAdd(1, E12)) /\ RLe(0, a[i][j][k]) /\ RLe(0, b[i][j][k])
          /\ IF e.force THEN REq(t[i][j][k], 1) ELSE RLt(0, t[i][j][k]) = (RLt(0, a[i][j][k]) \/ RLt(0, b[i][j][k])), "flags")
     \cup If(e.steps > 0 \/ REq(AbsLeaf(t), 0), "flags before any step")

Verdict(e) ==
  CASE e.kind = "rhs"     -> RhsVerdict(e)
    [] e.kind = "step"    -> StepVerdict(e)
    [] e.kind = "snap"    -> SnapVerdict(e)
    [] e.kind = "totals"  -> TotalsVerdict(e)
    [] e.kind = "uniform" -> UniformVerdict(e)
    [] e.kind = "ghosts"  -> GhostVerdict(e)
    [] e.kind = "bcname"  -> NameVerdict(e)
    [] e.kind = "weights" -> WeightVerdict(e)
    [] e.kind = "sweep"   -> SweepVerdict(e)
    [] e.kind = "diff"    -> DiffVerdict(e)
    [] e.kind = "slab"    -> SlabVerdict(e)
    [] e.kind = "axes"    -> AxesVerdict(e)
    [] e.kind = "average" -> AverageVerdict(e)
    [] e.kind = "point"   -> PointVerdict(e)
    [] e.kind = "riemann" -> RiemannVerdict(e)
    [] e.kind = "dt"      -> DtVerdict(e)
    [] e.kind = "advection" -> AdvectionVerdict(e)
    [] e.kind = "muscl"   -> MusclVerdict(e)
    [] e.kind = "detect"  -> DetectVerdict(e)
    [] e.kind = "sed"     -> SedVerdict(e)
    [] e.kind = "blend"   -> BlendVerdict(e)
    [] e.kind = "rk"      -> RkVerdict(e)
    [] e.kind = "relate"  -> RelateVerdict(e)
    [] e.kind = "range"   -> RangeVerdict(e)
    [] e.kind = "flags"   -> FlagVerdict(e)
Good == at > 0 => Report(Verdict(Log[at]))
=============================================================================
