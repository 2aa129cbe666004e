----------------------------- MODULE Interleave -----------------------------
(***************************************************************************)
(* Several solvers in one process: creating, advancing, discarding them,   *)
(* and attempts that fail, in any order.  What a solver shows depends on   *)
(* nothing but the number of legs it has gone itself.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Legs, MaxFail, MaxDrop
Solvers == 1 .. K
VARIABLES made, gone, failures, drops, hist
vars == <<made, gone, failures, drops, hist>>
Init == made = {} /\ gone = [s \in Solvers |-> 0] /\ failures = 0 /\ drops = 0 /\ hist = <<>>
Log(op, s) == hist' = Append(hist, [op |-> op, s |-> s, gone |-> gone'])
Create(s) == /\ s \notin made /\ gone[s] = 0
             /\ \A r \in Solvers : r < s => r \in made \/ gone[r] > 0     \* in order of their numbers
             /\ made' = made \cup {s} /\ UNCHANGED <<gone, failures, drops>> /\ Log("create", s)
Leg(s) == /\ s \in made /\ gone[s] < Legs
          /\ gone' = [gone EXCEPT ![s] = @ + 1] /\ UNCHANGED <<made, failures, drops>> /\ Log("leg", s)
\* start the same problem afresh
Again(s) == /\ s \in made /\ gone[s] > 0 /\ drops < MaxDrop
            /\ gone' = [gone EXCEPT ![s] = 0] /\ drops' = drops + 1
            /\ UNCHANGED <<made, failures>> /\ Log("again", s)
Fail == /\ failures < MaxFail
        /\ failures' = failures + 1 /\ UNCHANGED <<made, gone, drops>> /\ Log("fail", 0)
Next == Fail \/ \E s \in Solvers : Create(s) \/ Leg(s) \/ Again(s)
Spec == Init /\ [][Next]_vars
Finished == \A s \in Solvers : gone[s] = Legs
Own == [][\A s \in Solvers : gone'[s] # gone[s] => (Len(hist') > 0 /\ hist'[Len(hist')].s = s)]_vars
InBounds == \A s \in Solvers : gone[s] \in 0 .. Legs /\ (gone[s] > 0 => s \in made)
Emit == Finished => PrintT(<<"RUN", ToJson(hist)>>)
=============================================================================
