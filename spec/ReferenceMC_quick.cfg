CONSTANTS
  N = 6
  Depth = 2
  Spaces = {1, 2, 3, 5}
  Times = {1, 3}
  Kinds = {"uniform", "jump", "spike", "wave"}
INIT Init
NEXT Next
INVARIANTS Positive Conserved Steady Exact
