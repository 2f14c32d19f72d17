SPECIFICATION Spec
CONSTANTS MaxCb = 8
 Len0 = 16
 GEN = TRUE
 MaxT = 3
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
