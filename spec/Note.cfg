SPECIFICATION Fair
CONSTANTS MaxN = 2
 MaxA = 2
 Len0 = 0
 GEN = FALSE
INVARIANT Inv
PROPERTY Returns
CHECK_DEADLOCK FALSE
