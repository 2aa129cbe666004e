------------------------------ MODULE BlendMC -------------------------------
(***************************************************************************)
(* All patterns of troubled cells on small meshes: every interface of a    *)
(* troubled cell takes the fallback flux completely, interfaces away from  *)
(* trouble not at all, and the copies of a periodic interface agree.       *)
(***************************************************************************)
EXTENDS Blend, FiniteSets
CONSTANTS NX, NY, NZ
VARIABLES tr, per, act, convex
Cells == (1 .. NX) \X (1 .. NY) \X (1 .. NZ)
Blank == [i \in 1 .. NX |-> [j \in 1 .. NY |-> [k \in 1 .. NZ |-> 0]]]
Init ==
  /\ tr = Blank
  /\ act = <<NX > 1, NY > 1, NZ > 1>>
  /\ per \in {x \in BOOLEAN \X BOOLEAN \X BOOLEAN : \A ax \in 1 .. 3 : x[ax] => act[ax]}
  /\ convex \in (IF NX > 1 /\ NY > 1 /\ NZ > 1 THEN {FALSE} ELSE BOOLEAN)
Next == \E c \in Cells : tr[c[1]][c[2]][c[3]] = 0 /\ tr' = [tr EXCEPT ![c[1]][c[2]][c[3]] = 1]
                         /\ UNCHANGED <<per, act, convex>>
T(ax) == Faces(tr, per, act, convex, ax)
Ax == {ax \in 1 .. 3 : act[ax]}
E(c, ax) == [c EXCEPT ![ax] = @ + 1]
Get(f, c) == f[c[1]][c[2]][c[3]]
Complete ==
  \A ax \in Ax : LET f == T(ax) IN
    \A c \in Cells : Get(tr, c) = 1 => REq(Get(f, c), 1) /\ REq(Get(f, E(c, ax)), 1)
Range01 == \A ax \in Ax : LET f == T(ax) IN RLe(0, MinLeaf(f)) /\ RLe(MaxLeaf(f), 1)
PeriodicCopies ==
  \A ax \in Ax : per[ax] => LET f == T(ax) IN
    \A c \in Cells : c[ax] = 1 => REq(Get(f, c), Get(f, [c EXCEPT ![ax] = <<NX, NY, NZ>>[ax] + 1]))
Untroubled == tr = Blank => \A ax \in Ax : REq(MaxLeaf(T(ax)), 0)
\* without blending an interface is affected by its two cells only
Local ==
  ~convex => \A ax \in Ax : LET f == T(ax) IN
    \A c \in Cells : (c[ax] > 1 /\ Get(tr, c) = 0 /\ Get(tr, [c EXCEPT ![ax] = @ - 1]) = 0) => REq(Get(f, c), 0)
=============================================================================
