-------------------------------- MODULE Save --------------------------------
(***************************************************************************)
(* Saving runs to a directory, loading them again, and crashing in between *)
(* (solver.py, ode.py).  Two levels:                                       *)
(*                                                                         *)
(*  - After(d, e): what a run may leave behind and return, given what the  *)
(*    directory held.  Recorded histories of the code are judged with it.  *)
(*  - a state machine of the file operations of a save, which may crash    *)
(*    between any two of them; TLC checks that it stays within After.      *)
(*                                                                         *)
(* Directory: <<"absent">>, <<"broken">> (nothing loadable) or             *)
(* <<"good", v>> (the complete snapshots of run v).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Absent == <<"absent">>
Broken == <<"broken">>
Good(v) == <<"good", v>>

(***************************************************************************)
(* e.cmd: "plain", "over" (overwrite), "foreign" (somebody else puts other *)
(* data there); e.v: the number of the run; e.res: "computed", "loaded",   *)
(* "raised" or "crashed"; e.data: the run whose snapshots were returned;   *)
(* e.fault: whether a fault was injected; e.during: the number of another  *)
(* run that saved to the same directory while this one was computing, or 0 *)
(***************************************************************************)
After(d, e) ==
  CASE e.cmd = "foreign" -> {Broken}
    [] e.cmd = "plain" /\ d = Absent ->
         IF e.during # 0 THEN (IF e.res = "raised" \/ (e.res = "crashed" /\ e.fault) THEN {Good(e.during)} ELSE {})
         ELSE IF e.res = "computed" THEN (IF e.data = e.v THEN {Good(e.v)} ELSE {})
         ELSE IF e.res \in {"crashed", "raised"} /\ e.fault THEN {Absent, Broken, Good(e.v)} ELSE {}
    [] e.cmd = "plain" /\ d = Broken -> IF e.res = "raised" THEN {Broken} ELSE {}
    [] e.cmd = "plain" /\ d[1] = "good" -> IF e.res = "loaded" /\ e.data = d[2] THEN {d} ELSE {}
    [] e.cmd = "over" ->
         IF e.res = "computed" THEN (IF e.data = e.v THEN {Good(e.v)} ELSE {})
         ELSE IF e.res \in {"crashed", "raised"} /\ e.fault
              THEN {IF e.during # 0 THEN Good(e.during) ELSE d, Absent, Broken, Good(e.v)} ELSE {}

\* the states a history may have led to; empty if it is not allowed
RECURSIVE Fold(_, _)
Fold(S, es) == IF es = <<>> \/ S = {} THEN S
               ELSE Fold(UNION {After(d, Head(es)) : d \in S}, Tail(es))

(***************************************************************************)
(* The state machine                                                       *)
(***************************************************************************)
CONSTANTS MaxRuns
Files == {"arrs", "attrs", "timing"}
None == 0

VARIABLES exists,   \* is there a directory?
          content,  \* file -> 0, run number, or -1 if cut short or foreign
          proc,     \* the run going on: [pc, cmd, v, during], pc = "idle" if none
          log,      \* finished runs
          cmds      \* commands so far
vars == <<exists, content, proc, log, cmds>>
NoFiles == [f \in Files |-> None]
IdleProc == [pc |-> "idle", cmd |-> "", v |-> 0, during |-> 0]
Rival(v) == 100 + v   \* the run of somebody else during run v

\* what a reader makes of the directory
Abs == IF ~exists THEN Absent ELSE IF content["arrs"] > 0 THEN Good(content["arrs"]) ELSE Broken

Init == exists = FALSE /\ content = NoFiles /\ proc = IdleProc /\ log = <<>> /\ cmds = <<>>
Runs == Len(cmds)

Foreign == /\ proc = IdleProc /\ Runs < MaxRuns
           /\ exists' = TRUE /\ content' = [NoFiles EXCEPT !["arrs"] = -1]
           /\ log' = Append(log, [cmd |-> "foreign", v |-> Runs + 1, res |-> "computed", data |-> 0, fault |-> FALSE, during |-> 0])
           /\ cmds' = Append(cmds, "foreign") /\ UNCHANGED proc
Begin(cmd) == /\ proc = IdleProc /\ Runs < MaxRuns
              /\ proc' = [pc |-> "look", cmd |-> cmd, v |-> Runs + 1, during |-> 0]
              /\ cmds' = Append(cmds, cmd)
              /\ UNCHANGED <<exists, content, log>>
End(res, data, fault) ==
  /\ log' = Append(log, [cmd |-> proc.cmd, v |-> proc.v, res |-> res, data |-> data, fault |-> fault, during |-> proc.during])
  /\ proc' = IdleProc /\ UNCHANGED cmds
Look == /\ proc.pc = "look"
        /\ UNCHANGED <<exists, content>>
        /\ IF proc.cmd = "plain" /\ exists
           THEN IF content["arrs"] > 0 THEN End("loaded", content["arrs"], FALSE) ELSE End("raised", 0, FALSE)
           ELSE proc' = [proc EXCEPT !.pc = "compute"] /\ UNCHANGED <<log, cmds>>
Arrive == /\ proc.pc = "compute" /\ proc.during = 0   \* another run ends first
          /\ exists' = TRUE /\ content' = [f \in Files |-> Rival(proc.v)]
          /\ proc' = [proc EXCEPT !.during = Rival(proc.v)] /\ UNCHANGED <<log, cmds>>
Computed == /\ proc.pc = "compute" /\ UNCHANGED <<exists, content>>
            /\ IF proc.cmd = "plain" /\ exists THEN End("raised", 0, FALSE)
               ELSE proc' = [proc EXCEPT !.pc = "clear"] /\ UNCHANGED <<log, cmds>>
Clear == /\ proc.pc = "clear"    \* files disappear one by one, then the directory
         /\ IF ~exists THEN proc' = [proc EXCEPT !.pc = "mkdir"] /\ UNCHANGED <<exists, content, log, cmds>>
            ELSE IF \E f \in Files : content[f] # None
                 THEN \E f \in {g \in Files : content[g] # None} :
                        content' = [content EXCEPT ![f] = None] /\ UNCHANGED <<exists, proc, log, cmds>>
                 ELSE exists' = FALSE /\ UNCHANGED <<content, proc, log, cmds>>
Mkdir == /\ proc.pc = "mkdir" /\ exists' = TRUE
         /\ proc' = [proc EXCEPT !.pc = "arrs"] /\ UNCHANGED <<content, log, cmds>>
Write(f, next) == /\ proc.pc = f   \* first cut short, then complete
                  /\ IF content[f] = None THEN content' = [content EXCEPT ![f] = -1] /\ UNCHANGED <<exists, proc, log, cmds>>
                     ELSE /\ content' = [content EXCEPT ![f] = proc.v]
                          /\ UNCHANGED exists
                          /\ IF next = "end" THEN End("computed", proc.v, FALSE)
                             ELSE proc' = [proc EXCEPT !.pc = next] /\ UNCHANGED <<log, cmds>>
Crash == /\ proc # IdleProc /\ proc.pc # "look"
         /\ End("crashed", 0, TRUE) /\ UNCHANGED <<exists, content>>
Next == \/ Foreign \/ Begin("plain") \/ Begin("over") \/ Look \/ Arrive \/ Computed \/ Clear \/ Mkdir
        \/ Write("arrs", "attrs") \/ Write("attrs", "timing") \/ Write("timing", "end") \/ Crash
Spec == Init /\ [][Next]_vars

\* every history of the state machine is allowed, and what a reader would
\* find is among what the history allows
Allowed == proc = IdleProc => Abs \in Fold({Absent}, log)
\* nothing but a complete set of snapshots of one of the runs is ever returned
NeverMixed == \A i \in 1 .. Len(log) : log[i].res = "loaded" =>
   log[i].data \in UNION {{log[j].v, log[j].during} : j \in {j \in 1 .. (i - 1) : log[j].res # "loaded" /\ log[j].cmd # "foreign"}} \ {0}
\* ... and of the last run that was completed, unless a later one crashed
LastOne == \A i \in 1 .. Len(log) : log[i].res = "loaded" =>
   LET d == log[i].data  rival == d > 100
   IN \A j \in (IF rival THEN d - 100 ELSE d + 1) .. (i - 1) : log[j].res # "computed"
\* a run that was not told to overwrite leaves what others saved
Respect == \A i \in 1 .. Len(log) : log[i].cmd = "plain" /\ log[i].during # 0 => log[i].res # "computed"
Emit == (proc = IdleProc /\ Runs = MaxRuns) => PrintT(<<"RUN", ToJson(log)>>)
=============================================================================
