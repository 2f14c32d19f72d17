SPECIFICATION Live
CONSTANTS MaxSrc = 3
 MaxPush = 1
 Len0 = 0
 GEN = FALSE
 Rounds = 1
 Modes = {"merge", "bound1", "bound2", "switch", "combine", "latest", "until", "mergeP", "concatP", "one"}
INVARIANTS Inv
PROPERTIES NoHang
CHECK_DEADLOCK FALSE
