SPECIFICATION Spec
CONSTANTS MaxSrc = 4
 MaxPush = 2
 Len0 = 8
 GEN = TRUE
 Rounds = 1
 Modes = {"merge", "bound1", "bound2", "switch"}
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
