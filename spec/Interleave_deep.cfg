CONSTANTS K = 3 Legs = 2 MaxFail = 1 MaxDrop = 1
INIT Init
NEXT Next
INVARIANTS InBounds Emit
PROPERTY Own
CHECK_DEADLOCK FALSE
