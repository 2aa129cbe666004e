CONSTANTS
 NX = 2
 NY = 2
 NZ = 2
INIT Init
NEXT Next
INVARIANTS Complete Range01 PeriodicCopies Untroubled Local
