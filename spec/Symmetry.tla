------------------------------ MODULE Symmetry ------------------------------
(***************************************************************************)
(* Transformations of fields.  A transformation m has a field op:          *)
(*   mirror [ax, scalar]       reflect a direction                         *)
(*   shift  [ax, by]           shift cyclically by whole cells             *)
(*   swap   [ax, with, scalar] exchange two directions                     *)
(*   pick   [vars]             select (and order) variables                *)
(*   repeat [ax, by]           extend along a direction of extent one      *)
(*   tile   [ax, by]           several periods side by side                *)
(*   unfold [ax, scalar]       a box with walls and its mirror image       *)
(*   embed  [ax, before, after, bg] a part of something larger, uniform    *)
(*                             elsewhere                                   *)
(*   affine [var, a, b]        a linear function of a passive scalar       *)
(* With scalar, the variables carry no direction (otherwise variables 2..4 *)
(* are the components of a vector).                                        *)
(***************************************************************************)
EXTENDS Field

Transform(q, m) ==
  LET n1 == Ext(q, 1)  n2 == Ext(q, 2)  n3 == Ext(q, 3)
      src(ax, i, n) == (* index read for output index i *)
        IF m.op = "mirror" /\ m.ax = ax THEN n + 1 - i
        ELSE IF m.op = "shift" /\ m.ax = ax THEN ((i - 1 + m.by) % n) + 1 ELSE i
      sv(v) == IF m.op = "mirror" /\ v = 1 + m.ax /\ ~m.scalar THEN -1 ELSE 1
      pv(v) == IF m.op = "swap" /\ ~m.scalar THEN (IF v = 1 + m.ax THEN 1 + m.with ELSE IF v = 1 + m.with THEN 1 + m.ax ELSE v)
               ELSE IF m.op = "pick" THEN m.vars[v] ELSE v
      Get(v, c) == q[v][c[1]][c[2]][c[3]]
  IN CASE m.op = "swap" ->
            LET N3 == <<n1, n2, n3>>
                M == [N3 EXCEPT ![m.ax] = N3[m.with], ![m.with] = N3[m.ax]]
            IN MkField(NV(q), M[1], M[2], M[3], LAMBDA v, i, j, k :
                 LET c == <<i, j, k>> IN Get(pv(v), [c EXCEPT ![m.ax] = c[m.with], ![m.with] = c[m.ax]]))
       [] m.op = "pick" ->   \* a selection of the variables
            MkField(Len(m.vars), n1, n2, n3, LAMBDA v, i, j, k : q[pv(v)][i][j][k])
       [] m.op = "repeat" -> \* the same in m.by cells along a direction of extent one
            MkField(NV(q), IF m.ax = 1 THEN m.by ELSE n1, IF m.ax = 2 THEN m.by ELSE n2, IF m.ax = 3 THEN m.by ELSE n3,
              LAMBDA v, i, j, k : q[v][IF m.ax = 1 THEN 1 ELSE i][IF m.ax = 2 THEN 1 ELSE j][IF m.ax = 3 THEN 1 ELSE k])
       [] m.op \in {"tile", "unfold"} ->
            LET N3 == <<n1, n2, n3>>
                by == IF m.op = "tile" THEN m.by ELSE 2
                M == [N3 EXCEPT ![m.ax] = by * @]
                back(c) == m.op = "unfold" /\ c[m.ax] > N3[m.ax]
                from(c) == [c EXCEPT ![m.ax] = IF back(c) THEN 2 * N3[m.ax] + 1 - @ ELSE ((@ - 1) % N3[m.ax]) + 1]
            IN MkField(NV(q), M[1], M[2], M[3], LAMBDA v, i, j, k :
                 LET c == <<i, j, k>> IN RMul(IF back(c) /\ v = 1 + m.ax /\ ~m.scalar THEN -1 ELSE 1, Get(v, from(c))))
       [] m.op = "embed" ->
            LET N3 == <<n1, n2, n3>>
                M == [N3 EXCEPT ![m.ax] = @ + m.before + m.after]
            IN MkField(NV(q), M[1], M[2], M[3], LAMBDA v, i, j, k :
                 LET c == <<i, j, k>>  s == c[m.ax] - m.before
                 IN IF s < 1 \/ s > N3[m.ax] THEN m.bg[v] ELSE Get(v, [c EXCEPT ![m.ax] = s]))
       [] m.op = "affine" -> \* variable m.var becomes m.a * itself + m.b * variable 1
            MkField(NV(q), n1, n2, n3, LAMBDA v, i, j, k :
              IF v = m.var THEN RAdd(RMul(m.a, q[v][i][j][k]), RMul(m.b, q[1][i][j][k])) ELSE RatOf(q[v][i][j][k]))
       [] OTHER ->
            MkField(NV(q), n1, n2, n3, LAMBDA v, i, j, k : RMul(sv(v), q[v][src(1, i, n1)][src(2, j, n2)][src(3, k, n3)]))
RECURSIVE TransformAll(_, _)
TransformAll(q, ms) == IF ms = <<>> THEN q ELSE TransformAll(Transform(q, Head(ms)), Tail(ms))

\* the transformation of the configuration that goes with m
MapCfg(cfg, m) ==
  CASE m.op = "mirror" ->
         [cfg EXCEPT !.bc = [@ EXCEPT ![m.ax] = [lo |-> @.hi, hi |-> @.lo]]]
    [] m.op = "swap" ->
         LET Sw(f) == [f EXCEPT ![m.ax] = f[m.with], ![m.with] = f[m.ax]]
         IN [cfg EXCEPT !.n = Sw(@), !.dom = Sw(@), !.p = Sw(@), !.act = Sw(@), !.bc = Sw(@)]
    [] OTHER -> cfg
=============================================================================
