SPECIFICATION Spec
CONSTANTS MaxPush = 10
 MaxNext = 10
 Len0 = 18
 GEN = TRUE
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
