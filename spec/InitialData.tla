---------------------------- MODULE InitialData -----------------------------
(***************************************************************************)
(* The catalogue of initial conditions: density, velocities and pressure   *)
(* at a point <<x, y, z>> for given parameters, and recordings of the      *)
(* implementation judged by it.  Trigonometric and exponential functions   *)
(* are those of module Trig.                                               *)
(***************************************************************************)
EXTENDS Lanes
LOCAL INSTANCE Rat
LOCAL INSTANCE Trig

Sq(x) == RMul(x, x)
Half == RatOf("1/2")
Has(c, S) == \E q \in 1 .. Len(S) : S[q] = c
AxisNo(d) == CASE d = "x" -> 1 [] d = "y" -> 2 [] d = "z" -> 3
Pos(pt, d) == pt[AxisNo(d)]
SumOver(pt, dims) == RSum([q \in 1 .. Len(dims) |-> Pos(pt, dims[q])])
\* closer to a border than rounding can tell
Close(a, b) == RLt(RAbs(RSub(a, b)), "1/1000000000000")
\* velocity v along axis d
Along(v, d) == [q \in 1 .. 3 |-> IF q = AxisNo(d) THEN RatOf(v) ELSE RatOf(0)]
State(rho, v, P) == <<RatOf(rho), RatOf(v[1]), RatOf(v[2]), RatOf(v[3]), RatOf(P)>>
Zero3 == <<0, 0, 0>>
Sel(ok, pair) == IF ok THEN pair[1] ELSE pair[2]

Sinus(p, pt) == State(RAdd(p.rho[1], RMul(RSub(p.rho[2], p.rho[1]), RAdd(RMul(Half, SinTurn(SumOver(pt, p.dims))), Half))), p.v, p.P)
InSquare(p, pt) == \A q \in 1 .. Len(p.dims) : RLt("1/4", Pos(pt, p.dims[q])) /\ RLt(Pos(pt, p.dims[q]), "3/4")
Square(p, pt) == State(IF InSquare(p, pt) THEN p.rho[2] ELSE p.rho[1], p.v, p.P)

DiskR(pt) == RAdd(Sq(RSub(pt[1], Half)), Sq(RSub(pt[2], "3/4")))
InDisk(pt) == RLt(DiskR(pt), "9/400") /\ ~ (RLt(RAbs(RSub(pt[1], Half)), "1/40") /\ RLt(pt[2], "17/20"))
DiskUnsure(pt) == Close(DiskR(pt), "9/400") \/ Close(RAbs(RSub(pt[1], Half)), "1/40") \/ Close(pt[2], "17/20")
SlottedDisk(p, pt) == State(IF InDisk(pt) THEN p.rho[2] ELSE p.rho[1], <<RSub(Half, pt[2]), RSub(pt[1], Half), 0>>, p.P)

Shock1D(p, pt) == LET left == RLt(Pos(pt, p.dim), p.position)
                  IN State(Sel(left, p.rho), Along(Sel(left, p.v), p.dim), Sel(left, p.P))
Third(p, pt) == IF RLt(Pos(pt, p.dim), p.positions[1]) THEN 1 ELSE IF RLt(Pos(pt, p.dim), p.positions[2]) THEN 2 ELSE 3
DoubleShock1D(p, pt) == LET q == Third(p, pt) IN State(p.rho[q], Along(p.v[q], p.dim), p.P[q])

ShuOsher1D(p, pt) == LET r == RSub(Pos(pt, p.dim), 5) IN
  IF RLt(r, -4) THEN State("3857143/1000000", Along("2629369/1000000", p.dim), "1033333/100000")
  ELSE State(RAdd(1, RMul("1/5", Sin(RMul(5, r)))), Zero3, 1)
ShuOsherUnsure(p, pt) == Close(Pos(pt, p.dim), 1)

Gauss(y, y0, s) == ExpNeg(N(RDiv(Sq(RSub(y, y0)), RMul(2, Sq(s)))))
KelvinHelmholtz2D(p, pt) ==
  LET in == RLt("1/4", pt[2]) /\ RLt(pt[2], "3/4")
      vy == RMul(RMul(p.w0, SinTurn(RMul(2, pt[1]))), RAdd(Gauss(pt[2], "1/4", p.sigma), Gauss(pt[2], "3/4", p.sigma)))
  IN State(IF in THEN 2 ELSE 1, <<IF in THEN "1/2" ELSE "-1/2", vy, 0>>, "5/2")

\* the shock meets the wall y = 0 at x = 1/6 under 60 degrees
Front(pt) == RSub(pt[1], RDiv(pt[2], RSqrt(3, 120)))
DoubleMachReflection2D(p, pt) ==
  IF RLt(Front(pt), "1/6") THEN State(8, <<"7145/1000", "-4125/1000", 0>>, "1165/10") ELSE State(p.gamma, Zero3, 1)
FrontUnsure(pt) == Close(Front(pt), "1/6")

TubeR(p, pt) == RSum([q \in 1 .. Len(p.dims) |-> Sq(RSub(Pos(pt, p.dims[q]), p.center[q]))])
InTube(p, pt) == RLe(TubeR(p, pt), Sq(p.radius))
InCube(p, pt) == \A q \in 1 .. 3 : Len(p.cube[q]) = 0 \/ (RLe(p.cube[q][1], pt[q]) /\ RLe(pt[q], p.cube[q][2]))
ShockTube(p, pt) ==
  LET in == IF p.mode = "tube" THEN InTube(p, pt) ELSE InCube(p, pt)
  IN State(Sel(in, p.rho), [q \in 1 .. 3 |-> Sel(in, p.v[q])], Sel(in, p.P))
TubeUnsure(p, pt) == p.mode = "tube" /\ ~p.exact /\ Close(TubeR(p, pt), Sq(p.radius))

AthenaR(pt) == RAdd(Sq(pt[1]), Sq(pt[2]))
AthenaBlast(p, pt) == State(1, Zero3, IF RLt(AthenaR(pt), "1/100") THEN 10 ELSE "1/10")
AthenaUnsure(pt) == Close(AthenaR(pt), "1/100")

Value(what, p, pt) ==
  CASE what = "Sinus" -> Sinus(p, pt)
    [] what = "Square" -> Square(p, pt)
    [] what = "SlottedDisk" -> SlottedDisk(p, pt)
    [] what = "Shock1D" -> Shock1D(p, pt)
    [] what = "DoubleShock1D" -> DoubleShock1D(p, pt)
    [] what = "ShuOsher1D" -> ShuOsher1D(p, pt)
    [] what = "KelvinHelmholtz2D" -> KelvinHelmholtz2D(p, pt)
    [] what = "DoubleMachReflection2D" -> DoubleMachReflection2D(p, pt)
    [] what = "ShockTube" -> ShockTube(p, pt)
    [] what = "AthenaBlast" -> AthenaBlast(p, pt)
Unsure(what, p, pt) ==
  CASE what = "SlottedDisk" -> DiskUnsure(pt)
    [] what = "ShuOsher1D" -> ShuOsherUnsure(p, pt)
    [] what = "DoubleMachReflection2D" -> FrontUnsure(pt)
    [] what = "ShockTube" -> TubeUnsure(p, pt)
    [] what = "AthenaBlast" -> AthenaUnsure(pt)
    [] OTHER -> FALSE

(***************************************************************************)
(* The Sedov blast is given on a mesh: the energy E1 is spread over the    *)
(* cells next to the centre (two in each of its directions; the corner     *)
(* cell represents all of them by symmetry), E0 elsewhere.                 *)
(***************************************************************************)
Peak(e, c) ==
  IF e.par.mode = "corner" THEN c = <<1, 1, 1>>
  ELSE \A d \in 1 .. 3 : Has(<<"x", "y", "z">>[d], e.par.dims) => c[d] \in {e.n[d] \div 2, e.n[d] \div 2 + 1}
RECURSIVE Spread(_, _, _)
Spread(E, dims, h) == IF dims = <<>> THEN E ELSE Spread(RDiv(E, RMul(2, h[AxisNo(Head(dims))])), Tail(dims), h)
SedovVerdict(e) ==
  LET Emax == Spread(RatOf(e.par.E1), e.par.dims, e.h)
      ok(c, x) == Near(x, State(e.par.rho0, Zero3, IF Peak(e, c) THEN Emax ELSE e.par.E0),
                       RMul("1/1000000000000", IF Peak(e, c) THEN RMax(Emax, 1) ELSE 1))
  IN {ToString(c) : c \in {c \in (1 .. e.n[1]) \X (1 .. e.n[2]) \X (1 .. e.n[3]) : ~ ok(c, e.out[c[1]][c[2]][c[3]])}}

(***************************************************************************)
(* Recordings                                                              *)
(***************************************************************************)
PointsVerdict(e) ==
  LET want(q) == Value(e.what, e.par, e.pts[q]) \o [k \in 1 .. Len(e.passives) |-> RatOf(e.passives[k][q])]
      bad(q) == ~ Unsure(e.what, e.par, e.pts[q])
                /\ LET w == want(q) IN ~ Near(e.outs[q], w, RMul("1/1000000000000", RMax(1, AbsLeaf(w))))
  IN {ToString(<<q, e.pts[q]>>) : q \in {q \in 1 .. Len(e.pts) : bad(q)}}
\* what cannot be meant is refused
Sensible(e) ==
  CASE e.what \in {"Shock1D", "DoubleShock1D", "ShuOsher1D"} -> e.dim \in {"x", "y", "z"}
    [] e.what = "ShockTube" -> \/ e.mode = "tube" /\ e.ncenter = e.ndims
                               \/ e.mode = "cube" /\ e.ncubes > 0
    [] e.what = "SedovBlast" -> e.mode \in {"corner", "center"}
    [] e.what = "passives" -> \A q \in 1 .. Len(e.names) : Has(e.names[q], e.given)
RefuseVerdict(e) == IF e.accepted = Sensible(e) THEN {} ELSE {"refused: " \o ToString(~e.accepted)}

Verdict(e) == CASE e.kind = "points" -> PointsVerdict(e)
                [] e.kind = "sedov" -> SedovVerdict(e)
                [] e.kind = "refuse" -> RefuseVerdict(e)
Good == at > 0 => Report(Verdict(Log[at]))
=============================================================================
