CONSTANTS MaxT = 3 MaxDt = 2 MaxN = 1 MaxD = 1 MaxCalls = 2 PastTargets = TRUE
SPECIFICATION Spec
INVARIANTS TimesAgree NeverLarger NeverOver Landed
PROPERTY Finishes
CHECK_DEADLOCK FALSE
