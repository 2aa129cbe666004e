CONSTANTS
 NX = 3
 NY = 2
 NZ = 1
INIT Init
NEXT Next
INVARIANTS Complete Range01 PeriodicCopies Untroubled Local
