------------------------------ MODULE Timeline ------------------------------
(***************************************************************************)
(* Recorded runs in floating point, against the rules of TimeLoop.  A step *)
(* that is not shortened may differ from the proposal by rounding only; a  *)
(* target is always hit exactly.                                           *)
(***************************************************************************)
EXTENDS Lanes, FiniteSets
LOCAL INSTANCE Rat

Ulp == "1/4000000000000000"   \* relative rounding error of adding up a time
Slack(a, b) == RMul(Ulp, RAdd(RAbs(a), RAbs(b)))

Targets(c, now) == IF c.kind = "to" /\ c.exact
                   THEN {d \in {c.D[q] : q \in 1 .. Len(c.D)} \cup {c.T} : RLt(now, d) /\ RLe(d, c.T)} ELSE {}
Least(S) == CHOOSE x \in S : \A y \in S : RLe(x, y)
Next1(c, now, dt, t2) ==   \* is t2 an allowed time after a step from now with proposal dt?
  LET tg == Targets(c, now)
      x == RAdd(now, dt)
      sl == Slack(now, dt)
      free == RLe(RAbs(RSub(t2, x)), sl)
  IN IF tg = {} THEN free
     ELSE LET m == Least(tg) IN
          IF RLt(RAdd(m, sl), x) THEN REq(t2, m)
          ELSE IF RLt(RAdd(x, sl), m) THEN free
          ELSE REq(t2, m) \/ (free /\ RLe(t2, m))

CallOK(c) ==
  LET n == Len(c.stamps)
      at0(q) == IF q = 0 THEN c.start ELSE c.stamps[q]
      want == IF c.kind = "count" THEN <<c.start, at0(n)>>
              ELSE <<c.start>> \o SelectSeq(c.stamps, LAMBDA x :
                     c.every \/ RLe(c.T, x) \/ (c.exact /\ \E q \in 1 .. Len(c.D) : REq(c.D[q], x)))
  IN (IF \A q \in 1 .. n : Next1(c, at0(q - 1), c.props[q], c.stamps[q]) THEN {} ELSE {"step"})
     \cup (IF \A q \in 1 .. n : RLt(at0(q - 1), c.stamps[q]) THEN {} ELSE {"order"})
     \cup (IF c.kind = "to" => RLe(c.T, at0(n)) /\ (\A q \in 0 .. (n - 1) : RLt(at0(q), c.T))
                               /\ (c.exact /\ RLt(c.start, c.T) => REq(at0(n), c.T)) THEN {} ELSE {"end"})
     \cup (IF c.kind = "count" => n = c.n THEN {} ELSE {"count"})
     \cup (IF Len(want) = Len(c.shots) /\ \A q \in 1 .. Len(want) : REq(want[q], c.shots[q]) THEN {} ELSE {"snapshots"})
     \cup (IF REq(c.now, at0(n)) /\ c.count = c.total /\ c.kept THEN {} ELSE {"bookkeeping"})
Good == at > 0 => Report(CallOK(Log[at]))
=============================================================================
