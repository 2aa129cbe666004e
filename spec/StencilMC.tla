----------------------------- MODULE StencilMC ------------------------------
\* The derived weights have the properties they are derived for (all degrees).
EXTENDS Stencil, TLC
VARIABLES deg, pos
Init == deg \in 0 .. PMax /\ pos \in {"l", "c", "r"}
Next == FALSE /\ UNCHANGED <<deg, pos>>
PolynomialExactness == InterpExact(deg, pos) /\ ReconExact(deg)
MirrorImages        == InterpMirror(deg) /\ ReconMirror(deg)
Consistent          == REq(RSum(Interp(deg, pos)), 1) /\ REq(RSum(Recon(deg)), 1)
\* one degree more is not reproduced: the stencils are not accidentally longer than needed
Sharp == (deg % 2 = 0 /\ pos # "c") => ~ REq(RDot(Interp(deg, pos), [m \in 1 .. Width(deg) |-> CellMoment(m - 1 - Reach(deg), deg + 1)]), RPow(XiOf(pos), deg + 1))
=============================================================================
