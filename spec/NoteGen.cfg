SPECIFICATION Spec
CONSTANTS MaxN = 2
 MaxA = 2
 Len0 = 5
 GEN = TRUE
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
