-------------------------------- MODULE Blend -------------------------------
(***************************************************************************)
(* How much of the fallback flux each interface takes.  tr is the array of *)
(* troubled cells tr[i][j][k] (values in [0, 1]); per[ax]: the direction   *)
(* is periodic.                                                            *)
(*   simple: an interface takes the fallback flux when one of its two      *)
(*           cells is troubled.                                            *)
(*   convex: the weight fades over two cells, 1, 3/4, 1/4 in one direction *)
(*           and 1, 3/4 (side), 1/2 (diagonal), 1/4 (second ring) in two.  *)
(* Beyond a non-periodic boundary there is no trouble.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Rat

LOCAL Abs(a) == IF a < 0 THEN -a ELSE a
LOCAL Size(tr, ax) == CASE ax = 1 -> Len(tr) [] ax = 2 -> Len(tr[1]) [] ax = 3 -> Len(tr[1][1])

\* trouble of cell c, which may lie outside
TroubleAt(tr, per, c) ==
  LET In(ax)  == c[ax] \in 1 .. Size(tr, ax)
      W(ax)   == ((c[ax] - 1) % Size(tr, ax)) + 1
  IN IF \E ax \in 1 .. 3 : ~In(ax) /\ ~per[ax] THEN RatOf(0)
     ELSE RatOf(tr[W(1)][W(2)][W(3)])

RECURSIVE RMaxSet(_)
RMaxSet(S) == IF S = {} THEN RatOf(0) ELSE LET x == CHOOSE x \in S : TRUE IN RMax(x, RMaxSet(S \ {x}))

\* influence of a troubled cell at distance o = <<o1, o2, o3>>
Fade(o) ==
  LET a == Abs(o[1])  b == Abs(o[2])  d == Abs(o[3])
      far == IF a >= b /\ a >= d THEN a ELSE IF b >= d THEN b ELSE d
  IN CASE far = 0 -> RatOf(1)
       [] far = 1 /\ a + b + d = 1 -> RDiv(3, 4)
       [] far = 1 /\ a + b + d = 2 -> RDiv(1, 2)
       [] OTHER -> RDiv(1, 4)

\* the fading is made for 0/1 flags
Theta(tr, per, act, c) ==
  LET R(ax) == IF act[ax] THEN -2 .. 2 ELSE {0}
  IN RMaxSet({IF RSign(TroubleAt(tr, per, <<c[1] + a, c[2] + b, c[3] + d>>)) > 0 THEN Fade(<<a, b, d>>) ELSE RatOf(0)
                : a \in R(1), b \in R(2), d \in R(3)})

\* weight of the interface between cells c and c + e_ax
FaceWeight(tr, per, act, convex, ax, c) ==
  LET c2 == [c EXCEPT ![ax] = @ + 1]
  IN IF convex THEN RMax(Theta(tr, per, act, c), Theta(tr, per, act, c2))
     ELSE RMax(TroubleAt(tr, per, c), TroubleAt(tr, per, c2))

\* faces[i][j][k] along ax; face number f lies between cells f - 1 and f
Faces(tr, per, act, convex, ax) ==
  LET n(a) == Size(tr, a) + (IF a = ax THEN 1 ELSE 0)
  IN Deep([i \in 1 .. n(1) |-> [j \in 1 .. n(2) |-> [k \in 1 .. n(3) |->
       IF ~act[ax] THEN RatOf(0)
       ELSE LET c == <<i, j, k>> IN FaceWeight(tr, per, act, convex, ax, [c EXCEPT ![ax] = @ - 1])]]])
=============================================================================
