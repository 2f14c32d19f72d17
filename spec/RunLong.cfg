SPECIFICATION Spec
CONSTANTS MaxPush = 7
 Len0 = 11
 GEN = TRUE
 Limit = 4
INVARIANTS Inv InTime Emit
CHECK_DEADLOCK FALSE
