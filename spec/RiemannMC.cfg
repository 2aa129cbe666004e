INIT Init
NEXT Next
INVARIANTS Consistency MirrorImage Upwinding Wall Contact Passives
