CONSTANTS K = 2 Legs = 2 MaxFail = 0 MaxDrop = 1
INIT Init
NEXT Next
INVARIANTS InBounds Emit
PROPERTY Own
CHECK_DEADLOCK FALSE
