CONSTANT Family = "ranges"
INIT Init
NEXT Next
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
