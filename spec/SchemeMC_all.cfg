SPECIFICATION Spec
CONSTANTS
  Chosen = {1, 2, 3, 4, 5, 6, 7, 8, 9}
  MaxSteps = 2
INVARIANTS Conserved Uniform MirrorOk ShiftOk SwapOk Passive FlagsOk
