CONSTANTS K = 3 Legs = 2 MaxFail = 0 MaxDrop = 0
INIT Init
NEXT Next
INVARIANTS InBounds Emit
PROPERTY Own
CHECK_DEADLOCK FALSE
