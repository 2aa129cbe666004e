CONSTANTS
  N = 9
  Depth = 4
  Spaces = {1, 2, 3, 4, 5}
  Times = {1, 2, 3, 4}
  Kinds = {"uniform", "jump", "spike", "wave"}
INIT Init
NEXT Next
INVARIANTS Positive Conserved Steady Exact
