-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* Averages of polynomials over the cells of the uniform mesh.  A          *)
(* polynomial is a sequence of monomials <<c, a, b, d>>: c x^a y^b z^d.    *)
(***************************************************************************)
EXTENDS Ghost, Stencil

MonoAt(m, x, y, z) == RMul(m[1], RMul(RPow(x, m[2]), RMul(RPow(y, m[3]), RPow(z, m[4]))))
PolyVal(P, x, y, z) == RSum([n \in 1 .. Len(P) |-> MonoAt(P[n], x, y, z)])

\* average of x^a over the cell [lo, hi]
MonoAvg(a, lo, hi) == RDiv(RSub(RPow(hi, a + 1), RPow(lo, a + 1)), RMul(a + 1, RSub(hi, lo)))
EdgeL(dom, n, i) == RAdd(dom[1], RMul(Spacing(dom, n), i - 1))
EdgeR(dom, n, i) == RAdd(dom[1], RMul(Spacing(dom, n), i))
AvgOver(P, dom, n, c) ==
  RSum([q \in 1 .. Len(P) |->
    RMul(P[q][1], RMul(MonoAvg(P[q][2], EdgeL(dom[1], n[1], c[1]), EdgeR(dom[1], n[1], c[1])),
                  RMul(MonoAvg(P[q][3], EdgeL(dom[2], n[2], c[2]), EdgeR(dom[2], n[2], c[2])),
                       MonoAvg(P[q][4], EdgeL(dom[3], n[3], c[3]), EdgeR(dom[3], n[3], c[3])))))])

\* polynomials: sum, product, multiple
PAdd(P, Q) == P \o Q
PMul(P, Q) ==
  [m \in 1 .. (Len(P) * Len(Q)) |->
     LET a == P[((m - 1) \div Len(Q)) + 1]
         b == Q[((m - 1) % Len(Q)) + 1]
     IN <<RMul(a[1], b[1]), a[2] + b[2], a[3] + b[3], a[4] + b[4]>>]
PScale(c, P) == [m \in 1 .. Len(P) |-> <<RMul(c, P[m][1]), P[m][2], P[m][3], P[m][4]>>]
\* conserved variables of primitive variables that are polynomials
ConsPolys(w, g) ==
  [v \in 1 .. Len(w) |->
     IF v = 1 THEN w[1]
     ELSE IF v = 5 THEN PAdd(PScale(RDiv(1, RSub(g, 1)), w[5]),
            PScale("1/2", PMul(w[1], PAdd(PMul(w[2], w[2]), PAdd(PMul(w[3], w[3]), PMul(w[4], w[4]))))))
     ELSE PMul(w[1], w[v])]
=============================================================================
