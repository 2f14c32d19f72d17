SPECIFICATION Spec
CONSTANTS MaxSrc = 4
 MaxPush = 2
 Len0 = 8
 GEN = TRUE
 Rounds = 60
 Modes = {"combine", "latest", "until", "mergeP", "concatP", "one"}
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
