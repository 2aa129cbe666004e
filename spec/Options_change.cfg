CONSTANTS
  Depth = 1
  Bases = {"plain", "limited", "deflt", "choosy", "forced", "fixed", "walls", "inflow", "dyed", "loose", "cons", "cold", "thin", "ripple"}
  Changing = TRUE
  Breaking = FALSE
INIT Init
NEXT Next
INVARIANTS KnownBases Differs Show
