-------------------------------- MODULE Timer -------------------------------
(***************************************************************************)
(* A stop watch with categories (timer.py).  Before the k-th operation the *)
(* clock advances by 2^k, so that every sum of intervals is recognisable.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Cats,      \* names used in operations
          Initially, \* categories of a new timer
          MaxOps

VARIABLES clock, known, started, total, hist
vars == <<clock, known, started, total, hist>>
Idle == -1

Init == /\ clock = 0 /\ known = Initially
        /\ started = [c \in Cats |-> Idle]
        /\ total = [c \in Cats |-> 0]
        /\ hist = <<>>

Now == clock + 2 ^ Len(hist)
Log(op, c, ok) == hist' = Append(hist, [op |-> op, cat |-> c, ok |-> ok, known |-> known', total |-> total'])
Open == Len(hist) < MaxOps
Refused(op, c) == UNCHANGED <<known, started, total>> /\ Log(op, c, FALSE)

Start(c) == /\ Open /\ clock' = Now
            /\ IF c \in known /\ started[c] = Idle
               THEN started' = [started EXCEPT ![c] = Now] /\ UNCHANGED <<known, total>> /\ Log("start", c, TRUE)
               ELSE Refused("start", c)
Stop(c) == /\ Open /\ clock' = Now
           /\ IF c \in known /\ started[c] # Idle
              THEN /\ total' = [total EXCEPT ![c] = @ + Now - started[c]]
                   /\ started' = [started EXCEPT ![c] = Idle]
                   /\ UNCHANGED known /\ Log("stop", c, TRUE)
              ELSE Refused("stop", c)
Add(c) == /\ Open /\ clock' = Now
          /\ IF c \notin known
             THEN known' = known \cup {c} /\ UNCHANGED <<started, total>> /\ Log("add", c, TRUE)
             ELSE Refused("add", c)
Next == \E c \in Cats : Start(c) \/ Stop(c) \/ Add(c)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* A total is the time between the accepted starts and stops               *)
(***************************************************************************)
RECURSIVE Sum(_, _)
Sum(c, k) == IF k = 0 THEN 0 ELSE Sum(c, k - 1) +
               (IF hist[k].cat = c /\ hist[k].ok /\ hist[k].op = "start" THEN -(2 ^ k - 1)
                ELSE IF hist[k].cat = c /\ hist[k].ok /\ hist[k].op = "stop" THEN 2 ^ k - 1 ELSE 0)
TotalsAddUp == \A c \in Cats : total[c] = Sum(c, Len(hist)) + (IF started[c] = Idle THEN 0 ELSE started[c])
OnlyKnown == \A c \in Cats : c \notin known => started[c] = Idle /\ total[c] = 0
Alternate == \A c \in Cats : \A i, j \in 1 .. Len(hist) :
   (i < j /\ hist[i].cat = c /\ hist[j].cat = c /\ hist[i].ok /\ hist[j].ok /\ hist[i].op = "start" /\ hist[j].op = "start")
     => \E k \in (i + 1) .. (j - 1) : hist[k].cat = c /\ hist[k].ok /\ hist[k].op = "stop"
Monotone == [][\A c \in Cats : total'[c] >= total[c]]_vars

Emit == Len(hist) = MaxOps => PrintT(<<"RUN", ToJson(hist)>>)
=============================================================================
