SPECIFICATION Spec
CONSTANTS MaxPush = 7
 Len0 = 14
 GEN = TRUE
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
