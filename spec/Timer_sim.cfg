CONSTANTS Cats = {"a", "b", "c"} Initially = {"a", "b"} MaxOps = 14
INIT Init
NEXT Next
INVARIANTS TotalsAddUp OnlyKnown Alternate Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
