SPECIFICATION Live
CONSTANTS MaxPush = 4
 Len0 = 0
 GEN = FALSE
 Limit = 2
INVARIANTS Inv InTime
PROPERTIES Returns
CHECK_DEADLOCK FALSE
