CONSTANTS MaxT = 4 MaxDt = 3 MaxN = 3 MaxD = 6 MaxCalls = 1 PastTargets = TRUE
INIT Init
NEXT Next
INVARIANTS TimesAgree NeverLarger NeverOver Landed Emit
CHECK_DEADLOCK FALSE
