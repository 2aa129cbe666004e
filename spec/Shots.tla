-------------------------------- MODULE Shots -------------------------------
(***************************************************************************)
(* Snapshots of a run: each shows the state it was taken of, for ever.     *)
(* States are numbered by the steps taken; a second solver and evaluations *)
(* of the right-hand side interleave.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps, MaxN
VARIABLES count,  \* steps taken by each of two solvers
          shots,  \* states shown by their snapshots
          hist
vars == <<count, shots, hist>>
S == {1, 2}
Init == count = [s \in S |-> 0] /\ shots = [s \in S |-> <<>>] /\ hist = <<>>
Log(op, s, n) == hist' = Append(hist, [op |-> op, s |-> s, n |-> n, count |-> count', shots |-> shots'])
Run(s, n) == /\ count' = [count EXCEPT ![s] = @ + n]
             /\ shots' = [shots EXCEPT ![s] = @ \o <<count[s], count[s] + n>>]
             /\ Log("run", s, n)
\* a run to a time that takes n steps, logging each of them
Every(s, n) == /\ count' = [count EXCEPT ![s] = @ + n]
               /\ shots' = [shots EXCEPT ![s] = @ \o [i \in 1 .. (n + 1) |-> count[s] + i - 1]]
               /\ Log("every", s, n)
Snap(s) == /\ shots' = [shots EXCEPT ![s] = Append(@, count[s])]
           /\ UNCHANGED count /\ Log("snap", s, 0)
Eval(s) == UNCHANGED <<count, shots>> /\ Log("eval", s, 0)
Next == Len(hist) < MaxOps /\ \E s \in S : Snap(s) \/ Eval(s) \/ \E n \in 1 .. MaxN : Run(s, n) \/ (n = 2 /\ Every(s, n))
Spec == Init /\ [][Next]_vars

Kept == [][\A s \in S : Len(shots'[s]) >= Len(shots[s]) /\ SubSeq(shots'[s], 1, Len(shots[s])) = shots[s]]_vars
Ordered == \A s \in S : \A i \in 1 .. (Len(shots[s]) - 1) : shots[s][i] <= shots[s][i + 1]
Current == \A s \in S : shots[s] = <<>> \/ shots[s][Len(shots[s])] <= count[s]
Emit == Len(hist) = MaxOps => PrintT(<<"RUN", ToJson(hist)>>)
=============================================================================
