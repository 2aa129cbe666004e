INIT Init
NEXT Next
INVARIANTS PolynomialExactness MirrorImages Consistent Sharp
