CONSTANT Family = "names"
INIT Init
NEXT Next
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
