SPECIFICATION Spec
CONSTANTS MaxN = 4
 MaxA = 5
 Len0 = 14
 GEN = TRUE
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
