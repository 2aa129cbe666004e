CONSTANTS
 NX = 5
 NY = 1
 NZ = 1
INIT Init
NEXT Next
INVARIANTS Complete Range01 PeriodicCopies Untroubled Local
