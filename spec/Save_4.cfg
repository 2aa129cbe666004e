CONSTANT MaxRuns = 4
INIT Init
NEXT Next
INVARIANTS Allowed NeverMixed LastOne Respect Emit
CHECK_DEADLOCK FALSE
