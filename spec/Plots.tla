------------------------------- MODULE Plots --------------------------------
(***************************************************************************)
(* Pictures of snapshots.  A recording holds the snapshots, the request    *)
(* and what was drawn; the snapshot closest to the requested time and the  *)
(* cells closest to the requested coordinates decide what has to be drawn. *)
(* Among equally close ones (up to rounding) any is right.                 *)
(***************************************************************************)
EXTENDS Lanes
LOCAL INSTANCE Rat

E12 == "1/1000000000000"
AsSet(s) == {s[x] : x \in 1 .. Len(s)}
Dist(a, b) == RAbs(RSub(a, b))
\* positions in s closest to v
Nearest(s, v) ==
  LET m == MinLeaf([q \in 1 .. Len(s) |-> Dist(s[q], v)])
  IN {q \in 1 .. Len(s) : RLe(Dist(s[q], v), RAdd(m, RMul(E12, RAdd(RAbs(v), 1))))}
Shots(e) == IF e.t = "none" THEN {Len(e.shots)} ELSE Nearest([q \in 1 .. Len(e.shots) |-> e.shots[q].t], e.t)
RECURSIVE SetToSeqOf(_)
SetToSeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeqOf(S \ {x})
Axes(e) == e.axes                         \* the three coordinates of the cells
None(e, ax) == e.at[ax] = "none"
\* the cells along a direction that are addressed
Rows(e, ax) == IF None(e, ax) THEN 1 .. Len(Axes(e)[ax]) ELSE Nearest(Axes(e)[ax], e.at[ax])

Speed(w, c) == LET s(v) == RMul(w[v][c[1]][c[2]][c[3]], w[v][c[1]][c[2]][c[3]])
               IN RSqrt(RSum(<<s(2), s(3), s(4)>>), 100)
Pick(a, c) == a[c[1]][c[2]][c[3]]
\* what the criterion marks
Marked(shot, mode, tol, c) ==
  LET nad == RLt(tol, Pick(shot.nad, c))  pad == RLt(0, Pick(shot.pad, c))
  IN CASE mode = "all" -> nad \/ pad [] mode = "NAD" -> nad [] mode = "PAD" -> pad
Value(e, shot, c) ==
  CASE e.param = "speed"   -> Speed(shot.w, c)
    [] e.param = "marks"   -> IF Marked(shot, e.mode, e.tol, c) THEN RatOf(1) ELSE RatOf(0)
    [] e.param = "trouble" -> RatOf(Pick(shot.trouble, c))
    [] e.param = "NAD"     -> RatOf(Pick(shot.nad, c))
    [] e.param = "PAD"     -> RatOf(Pick(shot.pad, c))
    [] OTHER               -> RatOf(Pick(shot.w[e.var], c))
Close(a, b) == RLe(Dist(a, b), RMul(E12, RAdd(RAbs(b), 1)))
Line(e) == CHOOSE ax \in 1 .. 3 : None(e, ax)
Cell(base, ax, q) == [base EXCEPT ![ax] = q]

(***************************************************************************)
(* line: values over the coordinate that was left open                     *)
(***************************************************************************)
LineVerdict(e) ==
  LET ax == Line(e)
      n == Len(Axes(e)[ax])
      ok == \E s \in Shots(e), i \in (IF ax = 1 THEN {1} ELSE Rows(e, 1)), j \in (IF ax = 2 THEN {1} ELSE Rows(e, 2)),
                 k \in (IF ax = 3 THEN {1} ELSE Rows(e, 3)) :
              \A q \in 1 .. n : Close(e.ys[q], Value(e, e.shots[s], Cell(<<i, j, k>>, ax, q)))
  IN IF ~ (Len(e.xs) = n /\ Len(e.ys) = n) THEN {"length"} ELSE
     (IF \A q \in 1 .. n : Close(e.xs[q], Axes(e)[ax][q]) THEN {} ELSE {"coordinates"})
     \cup (IF ok THEN {} ELSE {"values"})

(***************************************************************************)
(* image: first row at the top; marked cells carry no value                *)
(***************************************************************************)
Hor(e) == CHOOSE ax \in 1 .. 3 : None(e, ax) /\ \A b \in 1 .. (ax - 1) : ~ None(e, b)
Ver(e) == CHOOSE ax \in 1 .. 3 : None(e, ax) /\ \A b \in (ax + 1) .. 3 : ~ None(e, b)
Fixed(e) == CHOOSE ax \in 1 .. 3 : ~ None(e, ax)
CellAt(e, f, i, j) == [ax \in 1 .. 3 |-> IF ax = Hor(e) THEN i ELSE IF ax = Ver(e) THEN j ELSE f]
ImageVerdict(e) ==
  LET h == Axes(e)[Hor(e)]  v == Axes(e)[Ver(e)]
      nh == Len(h)  nv == Len(v)
      blank(s, c) == e.overlay # "none" /\ Marked(s, e.overlay, e.tol, c)
      ok == \E s \in Shots(e), f \in Rows(e, Fixed(e)) : \A i \in 1 .. nh : \A j \in 1 .. nv :
              LET c == CellAt(e, f, i, j)  x == e.rows[nv + 1 - j][i]
              IN IF blank(e.shots[s], c) THEN x = "blank" ELSE x # "blank" /\ Close(x, Value(e, e.shots[s], c))
  IN IF ~ (Len(e.rows) = nv /\ \A q \in 1 .. nv : Len(e.rows[q]) = nh) THEN {"shape"} ELSE
     (IF ok THEN {} ELSE {"values"})
     \cup (IF /\ Close(e.extent[1], h[1]) /\ Close(e.extent[2], h[nh])
              /\ Close(e.extent[3], v[1]) /\ Close(e.extent[4], v[nv]) THEN {} ELSE {"extent"})
     \cup (IF e.log = e.logged THEN {} ELSE {"scale"})
     \cup (IF \A q \in 1 .. Len(e.lims) : e.lims[q][1] = "none" \/ Close(e.lims[q][2], e.lims[q][1]) THEN {} ELSE {"limits"})
     \cup (IF e.overlay = "none" \/ e.badcolor = e.color THEN {} ELSE {"color"})

(***************************************************************************)
(* contour: points <<x, y, value>> of a mesh                               *)
(***************************************************************************)
ContourVerdict(e) ==
  LET h == Axes(e)[Hor(e)]  v == Axes(e)[Ver(e)]
      all == (1 .. Len(h)) \X (1 .. Len(v))
      is(ij, q) == Close(e.points[q][1], h[ij[1]]) /\ Close(e.points[q][2], v[ij[2]])
      ok == \E s \in Shots(e), f \in Rows(e, Fixed(e)) :
              \A ij \in all : \E q \in 1 .. Len(e.points) : is(ij, q) /\ Close(e.points[q][3], Value(e, e.shots[s], CellAt(e, f, ij[1], ij[2])))
      zs == [q \in 1 .. Len(e.points) |-> e.points[q][3]]
      lo == MinLeaf(zs)  hi == MaxLeaf(zs)
      n == e.nlevels
  IN (IF Len(e.points) = Len(h) * Len(v) /\ ok THEN {} ELSE {"values"})
     \cup (IF n = 0 THEN (IF Len(e.levels) = Len(e.given) /\ \A q \in 1 .. Len(e.given) : Close(e.levels[q], e.given[q]) THEN {} ELSE {"levels"})
           ELSE (IF Len(e.levels) = n /\ \A q \in 1 .. n : Close(e.levels[q], RAdd(lo, RMul(RSub(hi, lo), RDiv(q - 1, n - 1)))) THEN {} ELSE {"levels"}))

(***************************************************************************)
(* circular averages: bin q holds the cells with r[q] < distance <= r[q+1] *)
(***************************************************************************)
RadialVerdict(e) ==
  LET X == Axes(e)
      cells == (1 .. Len(X[1])) \X (1 .. Len(X[2])) \X (1 .. Len(X[3]))
      R2(c) == RSum([ax \in 1 .. 3 |-> RMul(RSub(X[ax][c[ax]], e.center[ax]), RSub(X[ax][c[ax]], e.center[ax]))])
      R(c) == RSqrt(R2(c), 100)
      S == SetToSeqOf(cells)
      r == [q \in 1 .. Len(S) |-> R(S[q])]
      unsure(q) == \E i \in 1 .. Len(S) : \E b \in {q, q + 1} : RLe(Dist(r[i], e.radii[b]), E12) /\ ~ (REq(R2(S[i]), 0) /\ REq(e.radii[b], 0))
      in(q) == SelectSeq([i \in 1 .. Len(S) |-> i], LAMBDA i : RLt(e.radii[q], r[i]) /\ RLe(r[i], e.radii[q + 1]))
      avg(sq, f) == RDiv(RSum([i \in 1 .. Len(sq) |-> f[sq[i]]]), Len(sq))
      ok(q, s) == unsure(q) \/ LET m == in(q) IN
                    IF m = <<>> THEN e.avgs[q] = "blank" /\ e.rs[q] = "blank"
                    ELSE /\ e.avgs[q] # "blank" /\ e.rs[q] # "blank"
                         /\ Close(e.avgs[q], avg(m, [i \in 1 .. Len(S) |-> Value(e, e.shots[s], S[i])]))
                         /\ Close(e.rs[q], avg(m, r))
  IN IF ~ (Len(e.avgs) = Len(e.radii) - 1 /\ Len(e.rs) = Len(e.radii) - 1) THEN {"length"} ELSE
     IF \E s \in Shots(e) : \A q \in 1 .. (Len(e.radii) - 1) : ok(q, s) THEN {} ELSE {"averages"}

\* a request needs exactly the coordinates of the directions that are not drawn
CountVerdict(e) == IF e.given <= 3 - e.drawn \/ ~e.accepted THEN {} ELSE {"accepted"}

Verdict(e) == CASE e.kind = "line" -> LineVerdict(e)
                [] e.kind = "image" -> ImageVerdict(e)
                [] e.kind = "contour" -> ContourVerdict(e)
                [] e.kind = "radial" -> RadialVerdict(e)
                [] e.kind = "count" -> CountVerdict(e)
Good == at > 0 => Report(Verdict(Log[at]))
=============================================================================
