SPECIFICATION Live
CONSTANTS MaxPush = 4
 MaxNext = 5
 Len0 = 0
 GEN = FALSE
INVARIANTS Inv
PROPERTIES NoHang
CHECK_DEADLOCK FALSE
