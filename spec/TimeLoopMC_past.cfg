CONSTANTS MaxT = 3 MaxDt = 2 MaxN = 1 MaxD = 2 MaxCalls = 2 PastTargets = TRUE
INIT Init
NEXT Next
INVARIANTS TimesAgree NeverLarger NeverOver Landed Emit
CHECK_DEADLOCK FALSE
