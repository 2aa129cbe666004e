SPECIFICATION Spec
CONSTANTS
  Chosen = {1, 2, 3, 4, 6}
  MaxSteps = 1
INVARIANTS Conserved
