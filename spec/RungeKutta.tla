----------------------------- MODULE RungeKutta -----------------------------
(***************************************************************************)
(* Explicit Runge-Kutta steps for u' = f(t, u).                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat

Integrators == {"euler", "ssprk2", "ssprk3", "rk4"}
\* the methods of the one-dimensional reference solver (module Reference)
Classical == <<"euler", "midpoint", "heun3", "rk4">>
Order(m) == CASE m = "euler" -> 1 [] m \in {"ssprk2", "midpoint"} -> 2 [] m \in {"ssprk3", "heun3"} -> 3 [] m = "rk4" -> 4

\* rows of coefficients: stage i is evaluated at u + dt * sum_j A[i][j] k_j
A(m) == CASE m = "euler"  -> << <<>> >>
          [] m = "ssprk2" -> << <<>>, <<"1">> >>
          [] m = "ssprk3" -> << <<>>, <<"1">>, <<"1/4", "1/4">> >>
          [] m = "midpoint" -> << <<>>, <<"1/2">> >>
          [] m = "heun3"  -> << <<>>, <<"1/3">>, <<"0", "2/3">> >>
          [] m = "rk4"    -> << <<>>, <<"1/2">>, <<"0", "1/2">>, <<"0", "0", "1">> >>
B(m) == CASE m = "euler"  -> <<"1">>
          [] m = "ssprk2" -> <<"1/2", "1/2">>
          [] m = "ssprk3" -> <<"1/6", "1/6", "2/3">>
          [] m = "midpoint" -> <<"0", "1">>
          [] m = "heun3"  -> <<"1/4", "0", "3/4">>
          [] m = "rk4"    -> <<"1/6", "1/3", "1/3", "1/6">>
Stages(m) == Len(B(m))
C(m, i)   == RSum(A(m)[i])       \* the stage time is t + C dt

\* the method that goes with a spatial polynomial degree
MethodFor(p) == CASE p = 0 -> "euler" [] p = 1 -> "ssprk2" [] p = 2 -> "ssprk3" [] OTHER -> "rk4"

(***************************************************************************)
(* One step, f given as an operator on (t, u); Axpy(u, dt, c, ks) is       *)
(* u + dt * sum c[j] ks[j].                                                *)
(***************************************************************************)
RECURSIVE StageValues(_, _, _, _, _, _, _)
StageValues(m, t, u, dt, F(_, _), Axpy(_, _, _, _), ks) ==
  LET i == Len(ks) + 1
  IN IF i > Stages(m) THEN ks
     ELSE StageValues(m, t, u, dt, F, Axpy,
            Append(ks, Deep(F(RAdd(t, RMul(C(m, i), dt)), IF i = 1 THEN u ELSE Axpy(u, dt, A(m)[i], ks)))))

RKStep(m, t, u, dt, F(_, _), Axpy(_, _, _, _)) ==
  Axpy(u, dt, B(m), StageValues(m, t, u, dt, F, Axpy, <<>>))

(***************************************************************************)
(* Order conditions (rooted trees up to order four).                       *)
(***************************************************************************)
Aij(m, i, j) == IF j <= Len(A(m)[i]) THEN A(m)[i][j] ELSE "0"
SumS(m, G(_)) == RSum([i \in 1 .. Stages(m) |-> G(i)])
SqC(m, i) == RMul(C(m, i), C(m, i))
OrderHolds(m) ==
  LET q == Order(m)
      b(i) == B(m)[i]
      c(i) == C(m, i)
      Ac(i) == SumS(m, LAMBDA j : RMul(Aij(m, i, j), c(j)))
      Acc(i) == SumS(m, LAMBDA j : RMul(Aij(m, i, j), SqC(m, j)))
      AAc(i) == SumS(m, LAMBDA j : RMul(Aij(m, i, j), Ac(j)))
      Is(G(_), x) == REq(SumS(m, G), x)
  IN /\ Is(b, 1)
     /\ q >= 2 => Is(LAMBDA i : RMul(b(i), c(i)), "1/2")
     /\ q >= 3 => /\ Is(LAMBDA i : RMul(b(i), SqC(m, i)), "1/3")
                  /\ Is(LAMBDA i : RMul(b(i), Ac(i)), "1/6")
     /\ q >= 4 => /\ Is(LAMBDA i : RMul(b(i), RMul(c(i), SqC(m, i))), "1/4")
                  /\ Is(LAMBDA i : RMul(b(i), RMul(c(i), Ac(i))), "1/8")
                  /\ Is(LAMBDA i : RMul(b(i), Acc(i)), "1/12")
                  /\ Is(LAMBDA i : RMul(b(i), AAc(i)), "1/24")
\* one order more fails: the order is exact
NotHigher(m) ==
  LET q == Order(m)  b(i) == B(m)[i]  c(i) == C(m, i)
  IN CASE q = 1 -> ~ REq(SumS(m, LAMBDA i : RMul(b(i), c(i))), "1/2")
       [] q = 2 -> ~ REq(SumS(m, LAMBDA i : RMul(b(i), SqC(m, i))), "1/3")
       [] q = 3 -> ~ (REq(SumS(m, LAMBDA i : RMul(b(i), RMul(c(i), SqC(m, i)))), "1/4")
                      /\ REq(SumS(m, LAMBDA i : RMul(b(i), SumS(m, LAMBDA j : RMul(Aij(m, i, j), SqC(m, j))))), "1/12"))
       [] q = 4 -> TRUE
=============================================================================
