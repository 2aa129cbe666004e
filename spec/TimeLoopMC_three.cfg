CONSTANTS MaxT = 3 MaxDt = 2 MaxN = 1 MaxD = 1 MaxCalls = 3 PastTargets = FALSE
INIT Init
NEXT Next
INVARIANTS TimesAgree NeverLarger NeverOver Landed Emit
CHECK_DEADLOCK FALSE
