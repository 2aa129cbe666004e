------------------------------- MODULE Trouble ------------------------------
(***************************************************************************)
(* Detection of troubled cells: numerical admissibility (NAD) against the  *)
(* neighbourhood of the previous solution, softened at smooth extrema      *)
(* (SED), and physical admissibility (PAD).                                *)
(*                                                                         *)
(* w and c are fields of the previous and the candidate solution with 3    *)
(* extra cells at both ends of every active direction (act[ax] = TRUE).    *)
(*                                                                         *)
(* Decisions are three-valued so that rounding in an implementation is not *)
(* judged: "T", "F", or "U" when the compared quantities are closer than   *)
(* the resolution `res' (relative to the magnitudes involved).             *)
(***************************************************************************)
EXTENDS Field

T3(b) == IF b THEN "T" ELSE "F"
And3(a, b) == IF a = "F" \/ b = "F" THEN "F" ELSE IF a = "T" /\ b = "T" THEN "T" ELSE "U"
Or3(a, b)  == IF a = "T" \/ b = "T" THEN "T" ELSE IF a = "F" /\ b = "F" THEN "F" ELSE "U"
Not3(a)    == IF a = "T" THEN "F" ELSE IF a = "F" THEN "T" ELSE "U"
Any3(S)    == IF "T" \in S THEN "T" ELSE IF "U" \in S THEN "U" ELSE "F"
\* is x < 0, x being known up to m
Neg3(x, m) == IF RLt(x, RNeg(m)) THEN "T" ELSE IF RLt(x, m) THEN "U" ELSE "F"

Off(act, ax) == IF act[ax] THEN 3 ELSE 0
Nbr(act, ax) == IF act[ax] THEN 3 ELSE 1      \* cells of the neighbourhood
Beg(act, ax) == IF act[ax] THEN 1 ELSE -1     \* where it begins, from the cell index

\* one-dimensional smoothness of the candidate around the cell whose seven
\* values along a direction are s: is the extremum detector below one?
\* (the minimum over the cell and its two neighbours)
Rough1(s, eps, res) ==
  LET dU == Deep([m \in 2 .. 6 |-> RDiv(RSub(s[m + 1], s[m - 1]), 2)])
      scale == AbsLeaf(s)
      Cell(m) ==
        LET dv   == RDiv(RSub(dU[m + 1], dU[m - 1]), 4)
            flat == \* is |dv| <= eps
              LET x == RSub(RAbs(dv), eps) IN Not3(Neg3(RNeg(x), RMul(res, RAdd(scale, eps))))
            vL == RSub(dU[m - 1], dU[m])
            vR == RSub(dU[m + 1], dU[m])
            \* the one-sided jumps count when they have the sign of the curvature
            jL == IF RSign(dv) < 0 THEN RMax(vL, 0) ELSE RMin(vL, 0)
            jR == IF RSign(dv) > 0 THEN RMax(vR, 0) ELSE RMin(vR, 0)
            below == Or3(Neg3(RSub(RAbs(jL), RAbs(dv)), RMul(res, scale)),
                         Neg3(RSub(RAbs(jR), RAbs(dv)), RMul(res, scale)))
        IN And3(Not3(flat), below)
  IN Any3({Cell(3), Cell(4), Cell(5)})

\* the detector itself, as an interval: the share of the curvature that the
\* weaker side accounts for, at most one, and one where there is hardly any
Alpha1(s, eps, res) ==
  LET dU == Deep([m \in 2 .. 6 |-> RDiv(RSub(s[m + 1], s[m - 1]), 2)])
      scale == AbsLeaf(s)
      Cell(m) ==
        LET dv == RDiv(RSub(dU[m + 1], dU[m - 1]), 4)
            sg == RSign(dv)
            mar == RMul(res, RAdd(scale, eps))
            jL == RMax(0, RMul(sg, RSub(dU[m], dU[m - 1])))
            jR == RMax(0, RMul(sg, RSub(dU[m + 1], dU[m])))
            a  == IF sg = 0 THEN RatOf(1) ELSE RDiv(RMin(jL, jR), RAbs(dv))
            er == IF sg = 0 THEN RatOf(1) ELSE RMin(1, RDiv(RMul(4, mar), RAbs(dv)))
            lo == RMax(0, RMin(1, RSub(a, er)))
            hi == RMin(1, RAdd(a, er))
        IN CASE RLt(RAdd(RAbs(dv), mar), eps) \/ (sg = 0 /\ RLt(0, eps)) -> <<RatOf(1), RatOf(1)>>
             [] RLe(RAbs(RSub(RAbs(dv), eps)), mar) -> <<IF RLt(RAbs(dv), RMul(8, mar)) THEN RatOf(0) ELSE lo, RatOf(1)>>
             [] OTHER -> <<lo, hi>>
      A == Cell(3)  M == Cell(4)  Z == Cell(5)
  IN <<RMin(A[1], RMin(M[1], Z[1])), RMin(A[2], RMin(M[2], Z[2]))>>

(***************************************************************************)
(* opt: [eps, global, relative, sed, sedeps, vars (set of variables under  *)
(* NAD), pad (sequence of <<variable, lower, upper>>, a bound is a number  *)
(* or "none")].                                                            *)
(***************************************************************************)
Detect(w, c, act, opt, res) ==
  LET ox == Off(act, 1)  oy == Off(act, 2)  oz == Off(act, 3)
      nx == Ext(w, 1) - 2 * ox  ny == Ext(w, 2) - 2 * oy  nz == Ext(w, 3) - 2 * oz
      glob == Deep([v \in 1 .. NV(w) |->
                <<MinLeaf(w[v]), MaxLeaf(w[v])>>])
      NadVar(v, i, j, k) ==
        LET S == Deep([a \in 1 .. Nbr(act, 1) |-> [b \in 1 .. Nbr(act, 2) |-> [d \in 1 .. Nbr(act, 3) |->
                   w[v][i + Beg(act, 1) + a][j + Beg(act, 2) + b][k + Beg(act, 3) + d]]]])
            m == MinLeaf(S)  M == MaxLeaf(S)
            x == c[v][ox + i][oy + j][oz + k]
            lo == IF opt.global THEN glob[v][1] ELSE m
            hi == IF opt.global THEN glob[v][2] ELSE M
            mar == RMul(res, RMax(RMax(RAbs(lo), RAbs(hi)), RAbs(x)))
        IN IF opt.relative
           THEN Neg3(RAdd(RMin(RSub(x, m), RSub(M, x)), RMul(opt.eps, RSub(hi, lo))), mar)
           ELSE Neg3(RMin(RSub(x, RMul(RSub(1, opt.eps), lo)), RSub(RMul(RAdd(1, opt.eps), hi), x)), mar)
      RoughVar(v, i, j, k) ==
        Any3({IF ~act[ax] THEN "F" ELSE
              Rough1(Deep([m \in 1 .. 7 |->
                        CASE ax = 1 -> c[v][i + m - 1][oy + j][oz + k]
                          [] ax = 2 -> c[v][ox + i][j + m - 1][oz + k]
                          [] ax = 3 -> c[v][ox + i][oy + j][k + m - 1]]), opt.sedeps, res) : ax \in 1 .. 3})
      NadOne(v, i, j, k) ==
        LET f == NadVar(v, i, j, k)
        IN IF ~opt.sed \/ f = "F" THEN f ELSE And3(f, RoughVar(v, i, j, k))
      Nads(i, j, k) == [v \in opt.vars |-> NadOne(v, i, j, k)]
      PadOne(b, i, j, k) ==
        LET x == c[b[1]][ox + i][oy + j][oz + k]
        IN Or3(IF b[2] = "none" THEN "F" ELSE T3(RLt(x, b[2])), IF b[3] = "none" THEN "F" ELSE T3(RLt(b[3], x)))
      Pad(i, j, k) == Any3({PadOne(opt.pad[q], i, j, k) : q \in 1 .. Len(opt.pad)})
  IN Deep([i \in 1 .. nx |-> [j \in 1 .. ny |-> [k \in 1 .. nz |->
       LET q == Nads(i, j, k)
           a == Any3({q[v] : v \in opt.vars})
           b == Pad(i, j, k)
       IN [nad |-> a, pad |-> b, any |-> Or3(a, b), out |-> {v \in opt.vars : q[v] = "T"}]]]])

(***************************************************************************)
(* By how much: nad in [lo, hi] -- at least the worst excess of a variable *)
(* that is sure to be out of range, at most the worst excess of all --     *)
(* and pad, the worst excess over the physical bounds.  d: what Detect     *)
(* decided.                                                                *)
(***************************************************************************)
Excess(w, c, act, opt, d, res) ==
  LET ox == Off(act, 1)  oy == Off(act, 2)  oz == Off(act, 3)
      glob == Deep([v \in 1 .. NV(w) |-> <<MinLeaf(w[v]), MaxLeaf(w[v])>>])
      Over(v, i, j, k) ==
        LET S == Deep([a \in 1 .. Nbr(act, 1) |-> [b \in 1 .. Nbr(act, 2) |-> [e \in 1 .. Nbr(act, 3) |->
                   w[v][i + Beg(act, 1) + a][j + Beg(act, 2) + b][k + Beg(act, 3) + e]]]])
            m == MinLeaf(S)  M == MaxLeaf(S)
            x == c[v][ox + i][oy + j][oz + k]
            lo == IF opt.global THEN glob[v][1] ELSE m
            hi == IF opt.global THEN glob[v][2] ELSE M
        IN IF opt.relative THEN RMax(RSub(m, x), RSub(x, M))
           ELSE RMax(RSub(RMul(RSub(1, opt.eps), lo), x), RSub(x, RMul(RAdd(1, opt.eps), hi)))
      Pads(i, j, k) == MaxLeaf(<<RatOf(0)>> \o [q \in 1 .. (2 * Len(opt.pad)) |->
          LET b == opt.pad[(q + 1) \div 2]
              x == c[b[1]][ox + i][oy + j][oz + k]
          IN IF q % 2 = 1 THEN (IF b[2] = "none" THEN RatOf(0) ELSE RSub(b[2], x))
                          ELSE (IF b[3] = "none" THEN RatOf(0) ELSE RSub(x, b[3]))])
      Cell(i, j, k) ==
        LET f == d[i][j][k]
            o == Deep([v \in 1 .. NV(w) |-> IF f.nad = "F" THEN RatOf(0) ELSE Over(v, i, j, k)])
        IN [lo |-> IF f.nad # "T" THEN RatOf(0) ELSE MaxLeaf(<<RatOf(0)>> \o [v \in 1 .. NV(w) |-> IF v \in f.out THEN o[v] ELSE RatOf(0)]),
            hi |-> IF f.nad = "F" THEN RatOf(0) ELSE RMax(0, MaxLeaf(o)),
            pad |-> Pads(i, j, k)]
  IN Deep([i \in 1 .. Len(d) |-> [j \in 1 .. Len(d[1]) |-> [k \in 1 .. Len(d[1][1]) |-> Cell(i, j, k)]]])
=============================================================================
