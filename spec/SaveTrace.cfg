INIT Init
NEXT Next
INVARIANTS Good
