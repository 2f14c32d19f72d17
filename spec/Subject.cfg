SPECIFICATION Live
CONSTANTS MaxSub = 2
 MaxPush = 2
 Len0 = 0
 GEN = FALSE
INVARIANTS Inv
PROPERTIES Returns
CHECK_DEADLOCK FALSE
