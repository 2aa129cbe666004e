-------------------------------- MODULE Ghost -------------------------------
(***************************************************************************)
(* The uniform mesh and the extension of cell data beyond the domain.      *)
(*                                                                         *)
(* Cells of the domain are 1..n along each direction; ghost cells have     *)
(* indices <= 0 or > n and lie on the continuation of the mesh.            *)
(*                                                                         *)
(* bc[ax] = [lo |-> B, hi |-> B], B a record with field `type':            *)
(*   "periodic" | "free" | "outflow" | "reflective" | "dirichlet" | "ic"   *)
(*   | "dmr" (double Mach reflection wall: free where x < 1/6, reflective  *)
(*   elsewhere).                                                           *)
(* "dirichlet" and "ic" carry data: const |-> <<value per variable>>, or   *)
(* poly |-> <<per variable <<c0, cx, cy, cz, ct, cxy>> >>, the function    *)
(* c0 + cx x + cy y + cz z + ct t + cxy x y.                               *)
(*                                                                         *)
(* Directions are extended in the order x, y, z, each over the extension   *)
(* of the previous ones, so a corner belongs to the last direction that    *)
(* reaches it.                                                             *)
(***************************************************************************)
EXTENDS Field

Spacing(dom, n) == RDiv(RSub(dom[2], dom[1]), n)
Center(dom, n, i) == RAdd(dom[1], RMul(Spacing(dom, n), RSub(i, RDiv(1, 2))))

PolyAt(c, x, y, z, t) ==
  RAdd(RAdd(RAdd(c[1], RMul(c[2], x)), RAdd(RMul(c[3], y), RMul(c[4], z))),
       RAdd(RMul(c[5], t), RMul(c[6], RMul(x, y))))

\* mirror image of the k-th ghost layer (k = 0 next to the wall) in a domain
\* of n cells: offset from the wall and whether the number of reflections is odd
MirrorOff(k, n) == LET m == k % (2 * n) IN IF m < n THEN m ELSE 2 * n - 1 - m
MirrorOdd(k, n) == k % (2 * n) < n

Sym(c, n, side) ==   \* <<source index, odd?>>
  IF side = "lo" THEN LET k == 0 - c     IN <<1 + MirrorOff(k, n), MirrorOdd(k, n)>>
                 ELSE LET k == c - n - 1 IN <<n - MirrorOff(k, n), MirrorOdd(k, n)>>

\* the value of variable v in cell c = <<i, j, k>>, directions 1..ax extended
RECURSIVE Extended(_, _, _, _, _, _, _)
Extended(u, bc, dom, t, v, c, ax) ==
  IF ax = 0 THEN RatOf(u[v][c[1]][c[2]][c[3]])
  ELSE
  LET n    == Ext(u, ax)
      x    == c[ax]
      side == IF x < 1 THEN "lo" ELSE "hi"
      B    == bc[ax][side]
      Go(y) == Extended(u, bc, dom, t, v, [c EXCEPT ![ax] = y], ax - 1)
      Xc(a) == Center(dom[a], Ext(u, a), c[a])
      Refl == LET s == Sym(x, n, side)
              IN IF s[2] /\ v = 1 + ax THEN RNeg(Go(s[1])) ELSE Go(s[1])
      Free == Go(IF side = "lo" THEN 1 ELSE n)
  IN IF x \in 1 .. n THEN Extended(u, bc, dom, t, v, c, ax - 1) ELSE
     CASE B.type = "periodic"   -> Go(((x - 1) % n) + 1)
       [] B.type = "free"       -> Free
       [] B.type = "outflow"    -> Go(Sym(x, n, side)[1])
       [] B.type = "reflective" -> Refl
       [] B.type = "dmr"        -> IF RLt(Xc(1), RDiv(1, 6)) THEN Free ELSE Refl
       [] B.type \in {"dirichlet", "ic"} ->
            IF "const" \in DOMAIN B THEN RatOf(B.const[v])
            ELSE PolyAt(B.poly[v], Xc(1), Xc(2), Xc(3), t)

\* u with gw[ax] ghost cells on both sides of each direction
Extend(u, bc, dom, t, gw) ==
  MkField(NV(u), Ext(u, 1) + 2 * gw[1], Ext(u, 2) + 2 * gw[2], Ext(u, 3) + 2 * gw[3],
    LAMBDA v, i, j, k : Extended(u, bc, dom, t, v, <<i - gw[1], j - gw[2], k - gw[3]>>, 3))
=============================================================================
