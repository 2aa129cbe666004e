----------------------------- MODULE TimeLoopMC -----------------------------
(***************************************************************************)
(* Behaviours of TimeLoop, printed for replay in the code.                 *)
(***************************************************************************)
EXTENDS TimeLoop, Json
Emit == Done => PrintT(<<"RUN", ToJson(hist)>>)
=============================================================================
