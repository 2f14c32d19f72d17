SPECIFICATION Spec
CONSTANTS MaxCb = 4
 Len0 = 6
 GEN = TRUE
 MaxT = 2
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
