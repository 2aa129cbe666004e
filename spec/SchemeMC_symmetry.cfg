SPECIFICATION Spec
CONSTANTS
  Chosen = {1, 3, 4, 6}
  MaxSteps = 0
INVARIANTS MirrorOk ShiftOk SwapOk
