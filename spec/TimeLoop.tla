------------------------------ MODULE TimeLoop ------------------------------
(***************************************************************************)
(* Runs of an initial value problem: when steps are taken, how long they   *)
(* are, and when snapshots are logged (ode.py).  Times are integers here;  *)
(* the size proposed for each step is arbitrary.                           *)
(*                                                                         *)
(* A run is started by a call, either to a time T (with requested times D, *)
(* exact or not, logging every step or not) or for a number of steps.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxT,      \* times lie in 0 .. MaxT (the run may overshoot it)
          MaxDt,     \* proposed steps lie in 1 .. MaxDt
          MaxN,      \* number of steps of a run by count
          MaxD,      \* requested times per run
          MaxCalls,
          PastTargets \* whether requested times may have passed, or lie beyond T

VARIABLES t,        \* the time
          stamps,   \* times after every step, beginning with 0
          shots,    \* times of snapshots
          call,     \* the run going on, or Idle
          hist,     \* finished runs
          dts       \* proposed steps of the run going on

vars == <<t, stamps, shots, call, hist, dts>>
Idle == [kind |-> "idle"]

\* the next time the run must land on
Targets(c, now) == IF c.kind = "to" /\ c.exact THEN {d \in c.D \cup {c.T} : d > now /\ d <= c.T} ELSE {}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Init == /\ t = 0 /\ stamps = <<0>> /\ shots = <<>>
        /\ call = Idle /\ hist = <<>> /\ dts = <<>>

Begin(c) == /\ call = Idle /\ Len(hist) < MaxCalls
            /\ call' = c /\ dts' = <<>>
            /\ shots' = Append(shots, t)
            /\ UNCHANGED <<t, stamps, hist>>

RequestedSets(T) ==
  {D \in SUBSET (IF PastTargets THEN 0 .. (MaxT + 1) ELSE (t + 1) .. (T - 1)) : Cardinality(D) <= MaxD}
BeginTo == \E T \in (IF PastTargets THEN 0 ELSE t + 1) .. MaxT : \E D \in RequestedSets(T) : \E ex, ev \in BOOLEAN :
             /\ (~ex => D = {} \/ PastTargets)
             /\ Begin([kind |-> "to", T |-> T, D |-> D, exact |-> ex, every |-> ev, from |-> t, n |-> 0])
BeginCount == \E n \in 0 .. MaxN : t < MaxT /\
             Begin([kind |-> "count", T |-> 0, D |-> {}, exact |-> FALSE, every |-> FALSE, from |-> t, n |-> n])

Unfinished == \/ call.kind = "to" /\ t < call.T
              \/ call.kind = "count" /\ Len(dts) < call.n

Step(dt) ==
  LET tg == Targets(call, t)
      t2 == IF tg # {} /\ Min(tg) <= t + dt THEN Min(tg) ELSE t + dt
      log == call.kind = "to" /\ (call.every \/ t2 \in tg \/ t2 >= call.T)
  IN /\ Unfinished
     /\ t' = t2
     /\ stamps' = Append(stamps, t2)
     /\ shots' = IF log THEN Append(shots, t2) ELSE shots
     /\ dts' = Append(dts, <<t, dt>>)
     /\ UNCHANGED <<call, hist>>

Finish == /\ call # Idle /\ ~Unfinished
          /\ shots' = IF call.kind = "count" THEN Append(shots, t) ELSE shots
          /\ call' = Idle
          /\ hist' = Append(hist, [call |-> call, dts |-> dts, stamps |-> stamps, shots |-> shots'])
          /\ dts' = <<>>
          /\ UNCHANGED <<t, stamps>>

Next == BeginTo \/ BeginCount \/ (call # Idle /\ \E dt \in 1 .. MaxDt : Step(dt)) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Finish) /\ WF_vars(\E dt \in 1 .. MaxDt : Step(dt))

(***************************************************************************)
(* What the runs guarantee                                                 *)
(***************************************************************************)
Range(s) == {s[i] : i \in 1 .. Len(s)}
Increasing(s) == \A i \in 1 .. (Len(s) - 1) : s[i] < s[i + 1]

TimesAgree == /\ t = stamps[Len(stamps)] /\ Increasing(stamps)
              /\ Range(shots) \subseteq Range(stamps)
              /\ \A i \in 1 .. (Len(shots) - 1) : shots[i] <= shots[i + 1]
NeverLarger == \A i \in 1 .. Len(dts) :
                 LET k == Len(stamps) - Len(dts) + i IN stamps[k - 1] = dts[i][1] /\ stamps[k] - stamps[k - 1] <= dts[i][2]
NeverOver == (call.kind = "to" /\ call.exact) =>
               \A d \in call.D \cup {call.T} : (call.from < d /\ d <= t /\ d <= call.T) => d \in Range(stamps) /\ d \in Range(shots)
Landed == \A i \in 1 .. Len(hist) :
  LET h == hist[i]
      c == h.call
      end == h.stamps[Len(h.stamps)]
      prev == IF i = 1 THEN 0 ELSE Len(hist[i - 1].shots)
      mine == SubSeq(h.shots, prev + 1, Len(h.shots))
      steps == IF i = 1 THEN Len(h.stamps) - 1 ELSE Len(h.stamps) - Len(hist[i - 1].stamps)
  IN /\ c.kind = "to" => /\ end >= c.T
                         /\ (c.exact /\ c.from < c.T) => end = c.T
                         /\ c.from < c.T => (h.stamps[Len(h.stamps) - 1] < c.T /\ mine[Len(mine)] = end)
                         /\ mine[1] = c.from
                         /\ c.every => Len(mine) = steps + 1
                         /\ Increasing(mine)
                         /\ (~c.every /\ c.from < c.T) => Len(mine) = 1 + Cardinality((IF c.exact THEN {d \in c.D : d > c.from /\ d < c.T} ELSE {}) \cup {end})
     /\ c.kind = "count" => steps = c.n /\ mine = <<c.from, end>>
Finishes == (call # Idle) ~> (call = Idle)

Bounded == Len(stamps) <= 40
Done == Len(hist) = MaxCalls
=============================================================================
