-------------------------------- MODULE Lanes -------------------------------
(***************************************************************************)
(* Walking through a recorded log.  Every event of the log is a state; the *)
(* lanes (one per event) only spread the events over TLC's workers.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE at
Init == at = 0
Next == \/ at = 0 /\ \E w \in 1 .. Len(Log) : at' = -w
        \/ at < 0 /\ at' = -at

\* a verdict is the set of what is wrong with an event; {"unsure"}: undecided
Report(f) == IF f = {} THEN TRUE
             ELSE IF f = {"unsure"} THEN PrintT(<<"UNSURE", at>>)
             ELSE (PrintT(<<"FAIL", at, f>>) /\ FALSE)
=============================================================================
