CONSTANTS
  Depth = 2
  Bases = {"plain", "limited", "deflt", "choosy", "forced", "fixed", "walls", "inflow", "dyed", "loose", "cons", "cold", "thin", "ripple"}
  Changing = FALSE
  Breaking = TRUE
INIT Init
NEXT Next
INVARIANTS KnownBases Same Show
