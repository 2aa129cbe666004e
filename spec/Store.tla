-------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* Named arrays (array_management.py).  The k-th operation writes the      *)
(* value k, so that every value tells where it came from.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Stores, Names, Ops, MaxOps

VARIABLES held,   \* store -> name -> identity of the array, 0 if none
          value,  \* identity -> content
          copies, \* contents of the copies taken, in order
          stale,  \* store -> name -> the array held before, 0 if none
          hist
vars == <<held, value, copies, stale, hist>>
None == 0

Init == /\ held = [s \in Stores |-> [n \in Names |-> None]]
        /\ stale = held
        /\ value = <<>>
        /\ copies = <<>>
        /\ hist = <<>>

k == Len(hist) + 1
Log(op, s, n, ok) == hist' = Append(hist,
  [op |-> op, store |-> s, name |-> n, ok |-> ok, copies |-> copies',
   content |-> [x \in Stores |-> [y \in Names |-> IF held'[x][y] = None THEN -1 ELSE value'[held'[x][y]]]]])
Has(s, n) == held[s][n] # None
Nothing == UNCHANGED <<held, value, copies, stale>>

Add(s, n) == IF Has(s, n) THEN Nothing /\ Log("add", s, n, FALSE)
             ELSE /\ value' = Append(value, k)
                  /\ held' = [held EXCEPT ![s][n] = Len(value) + 1]
                  /\ UNCHANGED <<copies, stale>> /\ Log("add", s, n, TRUE)
AddBad(s, n) == Nothing /\ Log("addbad", s, n, FALSE)
Remove(s, n) == IF ~Has(s, n) THEN Nothing /\ Log("remove", s, n, FALSE)
                ELSE /\ held' = [held EXCEPT ![s][n] = None]
                     /\ stale' = [stale EXCEPT ![s][n] = held[s][n]]
                     /\ UNCHANGED <<value, copies>> /\ Log("remove", s, n, TRUE)
Write(s, n) == IF ~Has(s, n) THEN Nothing /\ Log("write", s, n, FALSE)
               ELSE /\ value' = [value EXCEPT ![held[s][n]] = k]
                    /\ UNCHANGED <<held, copies, stale>> /\ Log("write", s, n, TRUE)
Copy(s, n) == IF ~Has(s, n) THEN Nothing /\ Log("copy", s, n, FALSE)
              ELSE /\ copies' = Append(copies, value[held[s][n]])
                   /\ UNCHANGED <<held, value, stale>> /\ Log("copy", s, n, TRUE)
\* change the copy taken last
Scribble(s, n) == /\ copies # <<>>
                  /\ copies' = [copies EXCEPT ![Len(copies)] = k]
                  /\ UNCHANGED <<held, value, stale>> /\ Log("scribble", s, n, TRUE)
\* change an array that is no longer in the store
Late(s, n) == /\ stale[s][n] # None
              /\ value' = [value EXCEPT ![stale[s][n]] = k]
              /\ UNCHANGED <<held, copies, stale>> /\ Log("late", s, n, TRUE)
Gpu(s, n) == Nothing /\ Log("gpu", s, n, TRUE)

Next == /\ Len(hist) < MaxOps
        /\ \E s \in Stores, n \in Names :
             \/ "add" \in Ops /\ Add(s, n)
             \/ "addbad" \in Ops /\ AddBad(s, n)
             \/ "remove" \in Ops /\ Remove(s, n)
             \/ "write" \in Ops /\ Write(s, n)
             \/ "copy" \in Ops /\ Copy(s, n)
             \/ "scribble" \in Ops /\ Scribble(s, n)
             \/ "late" \in Ops /\ Late(s, n)
             \/ "gpu" \in Ops /\ Gpu(s, n)
Spec == Init /\ [][Next]_vars

Separate == \A s1, s2 \in Stores, n1, n2 \in Names :
              (held[s1][n1] # None /\ held[s1][n1] = held[s2][n2]) => s1 = s2 /\ n1 = n2
\* the content of a name is that of the last accepted operation writing to it
LastWriter == \A s \in Stores, n \in Names : Has(s, n) =>
  LET W == {i \in 1 .. Len(hist) : hist[i].store = s /\ hist[i].name = n /\ hist[i].ok /\ hist[i].op \in {"add", "write"}}
  IN value[held[s][n]] = CHOOSE i \in W : \A j \in W : j <= i
RefusedChangesNothing == \A i \in 2 .. Len(hist) : ~ hist[i].ok =>
  hist[i].content = hist[i - 1].content /\ hist[i].copies = hist[i - 1].copies

Emit == Len(hist) = MaxOps => PrintT(<<"RUN", ToJson(hist)>>)
=============================================================================
