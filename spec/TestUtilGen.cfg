SPECIFICATION Spec
CONSTANTS MaxN = 3
 Len0 = 5
 GEN = TRUE
 MaxT = 4
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
