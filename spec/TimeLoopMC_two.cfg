CONSTANTS MaxT = 3 MaxDt = 2 MaxN = 2 MaxD = 1 MaxCalls = 2 PastTargets = FALSE
INIT Init
NEXT Next
INVARIANTS TimesAgree NeverLarger NeverOver Landed Emit
CHECK_DEADLOCK FALSE
