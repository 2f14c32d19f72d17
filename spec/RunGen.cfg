SPECIFICATION Spec
CONSTANTS MaxPush = 4
 Len0 = 6
 GEN = TRUE
 Limit = 2
INVARIANTS Inv InTime Emit
CHECK_DEADLOCK FALSE
