-------------------------------- MODULE Field -------------------------------
(***************************************************************************)
(* Arrays of cell values.  A field is q[v][i][j][k]: variable, then the    *)
(* three cell indices, all counted from 1.  ax \in 1..3 names a direction. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Rat

NV(q)      == Len(q)
Ext(q, ax) == CASE ax = 1 -> Len(q[1]) [] ax = 2 -> Len(q[1][1]) [] ax = 3 -> Len(q[1][1][1])

\* the field of the given extents whose entries are Op(v, i, j, k)
MkField(nv, n1, n2, n3, Op(_, _, _, _)) ==
  Deep([v \in 1 .. nv |-> [i \in 1 .. n1 |-> [j \in 1 .. n2 |-> [k \in 1 .. n3 |-> Op(v, i, j, k)]]]])

\* working precision of the specification, in significant bits
Bits == 140
N(x) == RRound(x, Bits)

\* weights w slid along direction ax; the result is shorter by Len(w) - 1
Sweep(q, w, ax) ==
  LET L == Len(w)
      M == L - 1
  IN IF L = 1 /\ REq(w[1], 1) THEN q ELSE
     CASE ax = 1 -> MkField(NV(q), Ext(q, 1) - M, Ext(q, 2), Ext(q, 3),
                      LAMBDA v, i, j, k : N(RDot(w, [m \in 1 .. L |-> q[v][i + m - 1][j][k]])))
       [] ax = 2 -> MkField(NV(q), Ext(q, 1), Ext(q, 2) - M, Ext(q, 3),
                      LAMBDA v, i, j, k : N(RDot(w, [m \in 1 .. L |-> q[v][i][j + m - 1][k]])))
       [] ax = 3 -> MkField(NV(q), Ext(q, 1), Ext(q, 2), Ext(q, 3) - M,
                      LAMBDA v, i, j, k : N(RDot(w, [m \in 1 .. L |-> q[v][i][j][k + m - 1]])))

\* a cellwise map of the vector of variables
MapCells(q, Op(_)) ==
  LET n1 == Ext(q, 1)  n2 == Ext(q, 2)  n3 == Ext(q, 3)
      c == Deep([i \in 1 .. n1 |-> [j \in 1 .. n2 |-> [k \in 1 .. n3 |->
              Op(Deep([v \in 1 .. NV(q) |-> q[v][i][j][k]]))]]])
  IN MkField(Len(c[1][1][1]), n1, n2, n3, LAMBDA v, i, j, k : c[i][j][k][v])

At(q, i, j, k) == Deep([v \in 1 .. NV(q) |-> q[v][i][j][k]])

\* cut `lo' entries from the low end and `hi' from the high end along ax
Crop(q, ax, lo, hi) ==
  IF lo = 0 /\ hi = 0 THEN q ELSE
  CASE ax = 1 -> MkField(NV(q), Ext(q, 1) - lo - hi, Ext(q, 2), Ext(q, 3), LAMBDA v, i, j, k : q[v][i + lo][j][k])
    [] ax = 2 -> MkField(NV(q), Ext(q, 1), Ext(q, 2) - lo - hi, Ext(q, 3), LAMBDA v, i, j, k : q[v][i][j + lo][k])
    [] ax = 3 -> MkField(NV(q), Ext(q, 1), Ext(q, 2), Ext(q, 3) - lo - hi, LAMBDA v, i, j, k : q[v][i][j][k + lo])
=============================================================================
