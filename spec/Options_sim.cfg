CONSTANTS
  Depth = 14
  Bases = {"plain", "limited", "deflt", "choosy", "forced", "fixed", "walls", "inflow", "dyed", "loose", "cons", "cold", "thin", "ripple"}
  Changing = FALSE
  Breaking = FALSE
INIT Init
NEXT Next
INVARIANTS KnownBases Same Show
