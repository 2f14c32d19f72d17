SPECIFICATION Fair
CONSTANTS MaxPush = 4
 Len0 = 0
 GEN = FALSE
INVARIANTS Inv
PROPERTIES Silent Gone
CHECK_DEADLOCK FALSE
