----------------------------- MODULE ReferenceMC ----------------------------
(***************************************************************************)
(* The reference scheme as a state machine on a few cells.                 *)
(***************************************************************************)
EXTENDS Reference
CONSTANTS N, Depth, Spaces, Times, Kinds
VARIABLES u, par, k, u0
vars == <<u, par, k, u0>>

P1 == <<1, "1/2", 1>>
P2 == <<2, "-1/4", "3/2">>
P3 == <<"1/2", 0, "1/4">>
Of(S) == ByCells(N, LAMBDA i : ConsOf(S[i]))
Start(kind) ==
  CASE kind = "uniform" -> Of([i \in 1 .. N |-> P1])
    [] kind = "jump"    -> Of([i \in 1 .. N |-> IF 2 * i <= N THEN P1 ELSE P2])
    [] kind = "spike"   -> Of([i \in 1 .. N |-> IF i = 2 THEN P2 ELSE P3])
    [] kind = "wave"    -> Of([i \in 1 .. N |-> IF i % 3 = 0 THEN P2 ELSE IF i % 3 = 1 THEN P1 ELSE P3])
Init == /\ par \in [bc : {"periodic", "free"}, solver : {"llf", "hllc"}, space : Spaces, time : Times, kind : Kinds]
        /\ u = Start(par.kind) /\ u0 = u /\ k = 0
Next == /\ k < Depth /\ k' = k + 1
        /\ u' = RefStep(u, N, "2/5", par.bc, par.solver, par.time, par.space).u
        /\ UNCHANGED <<par, u0>>

Positive == \A i \in 1 .. N : RLt(0, u[1][i]) /\ RLt(0, PrimOf(Cell(u, i))[3])
Conserved == par.bc = "periodic" => \A v \in 1 .. 3 : REq(Total(u[v]), Total(u[v])) /\ RLe(RAbs(RSub(Total(u[v]), Total(u0[v]))), "1/1000000000000000000000000000000")
Steady == par.kind = "uniform" => DiffLeaf(u, u0) = RatOf(0) \/ RLe(DiffLeaf(u, u0), "1/1000000000000000000000000000000")
\* what is reconstructed is the polynomial with the cells' averages: exact for averages of x^q, q < space
RECURSIVE Pow(_, _)
Pow(x, q) == IF q = 0 THEN RatOf(1) ELSE RMul(x, Pow(x, q - 1))
Avg(q, i) == RDiv(RSub(Pow(RAdd(i, "1/2"), q + 1), Pow(RSub(i, "1/2"), q + 1)), q + 1)
Dot5(w, q) == RDot(w, [j \in 1 .. 5 |-> Avg(q, j - 3)])
Exact == k = 0 => /\ \A space \in 1 .. 5 : \A q \in 0 .. space - 1 : REq(Dot5(FaceW(space), q), Pow("1/2", q))
                  /\ \A space \in 3 .. 5 : \A q \in 0 .. (IF space = 5 THEN 5 ELSE 3) : REq(Dot5(MidW(space), q), Pow(0, q))
=============================================================================
