------------------------------- MODULE Scheme -------------------------------
(***************************************************************************)
(* The semi-discrete scheme: from cell averages of the conserved variables *)
(* to the time-step size, the interface fluxes and the rate of change.     *)
(*                                                                         *)
(* A configuration cfg has the fields                                      *)
(*   n, dom       number of cells and <<lower, upper>> bound per direction *)
(*   p            polynomial degree per direction                          *)
(*   act          is the direction part of the problem                     *)
(*   gamma, floor ratio of specific heats, floor on the squared sound speed*)
(*   riemann      interface flux                                           *)
(*   bc           boundary conditions (module Ghost)                       *)
(*   cfl, fixdt   Courant number, or a fixed time-step size ("none")       *)
(*   limit        a posteriori limiting: [on, limiter, convex, force, opt] *)
(***************************************************************************)
EXTENDS Ghost, Stencil, Riemann, Limiter, Trouble, Blend

H(cfg, ax)    == Spacing(cfg.dom[ax], cfg.n[ax])
HMin(cfg)     == RMin(H(cfg, 1), RMin(H(cfg, 2), H(cfg, 3)))
NDim(cfg)     == Len(SelectSeq(<<cfg.act[1], cfg.act[2], cfg.act[3]>>, LAMBDA b : b))
Max3(a, b, c) == IF a >= b /\ a >= c THEN a ELSE IF b >= c THEN b ELSE c
Bigger(a, b)  == IF a >= b THEN a ELSE b

(***************************************************************************)
(* Cell averages of the primitive variables, with gw cells beyond the      *)
(* domain: averages -> centres, conserved -> primitive, centres ->         *)
(* averages.                                                               *)
(***************************************************************************)
Sweep3(q, w1, w2, w3) == Sweep(Sweep(Sweep(q, w1, 1), w2, 2), w3, 3)
PrimCenters(cfg, u, t, p, gw) ==
  LET ub == Extend(u, cfg.bc, cfg.dom, t, [ax \in 1 .. 3 |-> gw[ax] + Reach(p[ax])])
      uc == Sweep3(ub, Interp(p[1], "c"), Interp(p[2], "c"), Interp(p[3], "c"))
  IN MapCells(uc, LAMBDA x : Prim(x, cfg.gamma))
PrimAverages(cfg, u, t, p, gw) ==
  LET wc == PrimCenters(cfg, u, t, p, [ax \in 1 .. 3 |-> gw[ax] + Reach(p[ax])])
  IN Sweep3(wc, Recon(p[1]), Recon(p[2]), Recon(p[3]))

\* ghost cells of the primitive averages on which a degree p evaluation works
FluxGhosts(cfg, p) ==
  LET r == Reach(Max3(p[1], p[2], p[3]))
      g == Bigger(r + 1, 2 * r)
  IN [ax \in 1 .. 3 |-> IF cfg.act[ax] THEN g ELSE 0]

(***************************************************************************)
(* Time-step size.                                                         *)
(***************************************************************************)
TimeStep(cfg, w) ==
  IF cfg.fixdt # "none" THEN RatOf(cfg.fixdt)
  ELSE LET S == MkField(1, Ext(w, 1), Ext(w, 2), Ext(w, 3), LAMBDA v, i, j, k :
                  Signal(At(w, i, j, k), cfg.gamma, cfg.floor, NDim(cfg)))
       IN RDiv(RMul(cfg.cfl, HMin(cfg)), MaxLeaf(S))

(***************************************************************************)
(* Interface fluxes in direction ax from primitive averages w (which carry *)
(* gw ghost cells): face-centred states on both sides, one Riemann problem *)
(* per face, average over the face.                                        *)
(***************************************************************************)
CropTo(q, ax, want) == LET x == (Ext(q, ax) - want) \div 2 IN Crop(q, ax, x, x)
Others(ax) == CASE ax = 1 -> <<2, 3>> [] ax = 2 -> <<1, 3>> [] ax = 3 -> <<1, 2>>
FaceFluxes(cfg, w, p, limiter, ax) ==
  LET a  == Others(ax)[1]  b == Others(ax)[2]
      lim == limiter # "none" /\ p[ax] = 1
      \* the part of w that matters
      w0 == CropTo(CropTo(CropTo(w, ax, cfg.n[ax] + 2 + 2 * Reach(p[ax])),
                          a, cfg.n[a] + 4 * Reach(p[a])), b, cfg.n[b] + 4 * Reach(p[b]))
      wm == Sweep(Sweep(w0, Interp(p[a], "c"), a), Interp(p[b], "c"), b)
      Lim(F(_, _, _, _)) ==
        CASE ax = 1 -> MkField(NV(wm), Ext(wm, 1) - 2, Ext(wm, 2), Ext(wm, 3), LAMBDA v, i, j, k :
                         F(limiter, wm[v][i][j][k], wm[v][i + 1][j][k], wm[v][i + 2][j][k]))
          [] ax = 2 -> MkField(NV(wm), Ext(wm, 1), Ext(wm, 2) - 2, Ext(wm, 3), LAMBDA v, i, j, k :
                         F(limiter, wm[v][i][j][k], wm[v][i][j + 1][k], wm[v][i][j + 2][k]))
          [] ax = 3 -> MkField(NV(wm), Ext(wm, 1), Ext(wm, 2), Ext(wm, 3) - 2, LAMBDA v, i, j, k :
                         F(limiter, wm[v][i][j][k], wm[v][i][j][k + 1], wm[v][i][j][k + 2]))
      wl == IF lim THEN Lim(MusclL) ELSE Sweep(wm, Interp(p[ax], "l"), ax)
      wr == IF lim THEN Lim(MusclR) ELSE Sweep(wm, Interp(p[ax], "r"), ax)
      one(d) == IF ax = d THEN 1 ELSE 0
      f  == Deep([i \in 1 .. (Ext(wl, 1) - one(1)) |-> [j \in 1 .. (Ext(wl, 2) - one(2)) |->
                     [k \in 1 .. (Ext(wl, 3) - one(3)) |->
              RFlux(cfg.riemann, At(wr, i, j, k), At(wl, i + one(1), j + one(2), k + one(3)),
                    cfg.gamma, ax, cfg.floor)]]])
      ff == MkField(NV(w), Len(f), Len(f[1]), Len(f[1][1]), LAMBDA v, i, j, k : f[i][j][k][v])
  IN Sweep(Sweep(ff, Recon(p[a]), a), Recon(p[b]), b)

\* fluxes in all active directions ("none" in the others)
AllFluxes(cfg, w, p, limiter) ==
  Deep([ax \in 1 .. 3 |-> IF cfg.act[ax] THEN FaceFluxes(cfg, w, p, limiter, ax) ELSE "none"])

Divergence(cfg, F) ==
  LET D(v, i, j, k) ==
        RSum([ax \in 1 .. 3 |-> IF ~cfg.act[ax] THEN RatOf(0) ELSE
          LET hi == CASE ax = 1 -> F[1][v][i + 1][j][k] [] ax = 2 -> F[2][v][i][j + 1][k] [] ax = 3 -> F[3][v][i][j][k + 1]
          IN RDiv(RSub(F[ax][v][i][j][k], hi), H(cfg, ax))])
      a == CHOOSE ax \in 1 .. 3 : cfg.act[ax]
  IN MkField(NV(F[a]), cfg.n[1], cfg.n[2], cfg.n[3], D)

Periodic(cfg) == [ax \in 1 .. 3 |-> cfg.bc[ax].lo.type = "periodic" /\ cfg.bc[ax].hi.type = "periodic"]

(***************************************************************************)
(* One evaluation of the right-hand side at time t:                        *)
(*   [dt, rate, flags, sure] -- flags: troubled cells (or "none"); sure:   *)
(*   no decision of the detection was too close to call.                   *)
(***************************************************************************)
RHS(cfg, u, t, res) ==
  LET w  == PrimAverages(cfg, u, t, cfg.p, FluxGhosts(cfg, cfg.p))
      dt == N(TimeStep(cfg, w))
      F  == AllFluxes(cfg, w, cfg.p, "none")
      r0 == Divergence(cfg, F)
  IN IF ~cfg.limit.on THEN [dt |-> dt, rate |-> r0, flux |-> F, flags |-> "none", sure |-> TRUE]
     ELSE
     LET us == MkField(NV(u), cfg.n[1], cfg.n[2], cfg.n[3],
                       LAMBDA v, i, j, k : N(RAdd(u[v][i][j][k], RMul(dt, r0[v][i][j][k]))))
         g3 == [ax \in 1 .. 3 |-> IF cfg.act[ax] THEN 3 ELSE 0]
         wa == PrimAverages(cfg, u, t, cfg.p, g3)
         ws == PrimAverages(cfg, us, t, cfg.p, g3)
         d  == Detect(SubSeq(wa, 1, 5), SubSeq(ws, 1, 5), cfg.act, cfg.limit.opt, res)
         ex == Excess(SubSeq(wa, 1, 5), SubSeq(ws, 1, 5), cfg.act, cfg.limit.opt, d, res)
         tr == Deep([i \in 1 .. cfg.n[1] |-> [j \in 1 .. cfg.n[2] |-> [k \in 1 .. cfg.n[3] |->
                  IF cfg.limit.force \/ d[i][j][k].any # "F" THEN 1 ELSE 0]]])
         sure == cfg.limit.force \/ \A i \in 1 .. cfg.n[1], j \in 1 .. cfg.n[2], k \in 1 .. cfg.n[3] : d[i][j][k].any # "U"
         any == \E i \in 1 .. cfg.n[1], j \in 1 .. cfg.n[2], k \in 1 .. cfg.n[3] : tr[i][j][k] = 1
         p1 == [ax \in 1 .. 3 |-> IF cfg.p[ax] > 0 THEN 1 ELSE 0]
         wl == PrimAverages(cfg, u, t, p1, FluxGhosts(cfg, p1))
         L  == AllFluxes(cfg, wl, p1, cfg.limit.limiter)
         B  == Deep([ax \in 1 .. 3 |-> IF ~cfg.act[ax] THEN "none" ELSE
                 LET th == Faces(tr, Periodic(cfg), cfg.act, cfg.limit.convex, ax)
                 IN MkField(NV(u), Len(th), Len(th[1]), Len(th[1][1]), LAMBDA v, i, j, k :
                      N(RAdd(RMul(RSub(1, th[i][j][k]), F[ax][v][i][j][k]), RMul(th[i][j][k], L[ax][v][i][j][k]))))])
     IN IF any THEN [dt |-> dt, rate |-> Divergence(cfg, B), flux |-> B, flags |-> tr, sure |-> sure, excess |-> ex, size |-> RMax(AbsLeaf(wa), AbsLeaf(ws))]
        ELSE [dt |-> dt, rate |-> r0, flux |-> F, flags |-> tr, sure |-> sure, excess |-> ex, size |-> RMax(AbsLeaf(wa), AbsLeaf(ws))]

(***************************************************************************)
(* Totals, for conservation.                                               *)
(***************************************************************************)
TotalOf(q, v) == RSum([i \in 1 .. Ext(q, 1) |-> RSum([j \in 1 .. Ext(q, 2) |-> RSum(q[v][i][j])])])
=============================================================================
