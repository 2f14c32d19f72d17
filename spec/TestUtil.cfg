SPECIFICATION Fair
CONSTANTS MaxN = 2
 Len0 = 0
 GEN = FALSE
 MaxT = 4
INVARIANTS Inv
PROPERTIES AllArrive
CHECK_DEADLOCK FALSE
