CONSTANTS MaxOps = 4 MaxN = 2
INIT Init
NEXT Next
INVARIANTS Ordered Current Emit
PROPERTY Kept
CHECK_DEADLOCK FALSE
