SPECIFICATION Spec
CONSTANTS MaxPush = 4
 Len0 = 8
 GEN = TRUE
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
