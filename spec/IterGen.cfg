SPECIFICATION Spec
CONSTANTS MaxPush = 5
 MaxNext = 5
 Len0 = 9
 GEN = TRUE
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
