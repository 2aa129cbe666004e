----------------------------- MODULE SaveTrace ------------------------------
(* recorded histories of saving, loading and crashing, against Save!After *)
EXTENDS Lanes
SV == INSTANCE Save WITH MaxRuns <- 0, exists <- FALSE, content <- <<>>, proc <- <<>>, log <- <<>>, cmds <- <<>>
Good == at > 0 => Report(IF SV!Fold({SV!Absent}, Log[at].hist) = {} THEN {"history"} ELSE {})
=============================================================================
