---------------------------- MODULE RungeKuttaMC ----------------------------
EXTENDS RungeKutta
VARIABLE m
Init == m \in Integrators \cup {Classical[i] : i \in 1 .. 4}
Next == FALSE /\ m' = m
Orders == OrderHolds(m) /\ NotHigher(m)
\* a step is exact for u' = t^k, k < order, from any t and dt of a small grid
Quadrature ==
  \A k \in 0 .. Order(m) - 1, t \in {"0", "1/3", "-2"}, dt \in {"1/2", "3", "1/7"} :
    LET P(x, n) == RMul(RMul(IF n > 0 THEN x ELSE "1", IF n > 1 THEN x ELSE "1"), RMul(IF n > 2 THEN x ELSE "1", IF n > 3 THEN x ELSE "1"))
        ax(u, d, c, ks) == RAdd(u, RMul(d, RDot(c, [j \in 1 .. Len(c) |-> ks[j]])))
        e == RAdd(t, dt)
    IN REq(RKStep(m, t, "1", dt, LAMBDA s, u : P(s, k), ax),
           RAdd(1, RDiv(RSub(P(e, k + 1), P(t, k + 1)), k + 1)))
=============================================================================
