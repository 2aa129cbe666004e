INIT Init
NEXT Next
CONSTANT M = 6
INVARIANTS Integers1 Unary Binary Notation
