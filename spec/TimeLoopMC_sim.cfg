CONSTANTS MaxT = 6 MaxDt = 4 MaxN = 3 MaxD = 2 MaxCalls = 4 PastTargets = TRUE
INIT Init
NEXT Next
INVARIANTS TimesAgree NeverLarger NeverOver Landed Emit
CHECK_DEADLOCK FALSE
