CONSTANT K = 5
INIT Init
NEXT Next
INVARIANTS Bounded Extremum Conservative Linear MirrorImage Negation Shift Ordered
