SPECIFICATION Spec
CONSTANTS
  Chosen = {1, 2, 3, 4, 5, 6, 7, 8, 9}
  MaxSteps = 1
INVARIANTS Uniform
