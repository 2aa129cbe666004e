INIT Init
NEXT Next
INVARIANTS Orders Quadrature
