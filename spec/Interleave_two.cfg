CONSTANTS K = 2 Legs = 3 MaxFail = 1 MaxDrop = 0
INIT Init
NEXT Next
INVARIANTS InBounds Emit
PROPERTY Own
CHECK_DEADLOCK FALSE
