CONSTANTS
 NX = 1
 NY = 2
 NZ = 3
INIT Init
NEXT Next
INVARIANTS Complete Range01 PeriodicCopies Untroubled Local
