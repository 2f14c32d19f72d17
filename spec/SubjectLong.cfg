SPECIFICATION Spec
CONSTANTS MaxSub = 5
 MaxPush = 6
 Len0 = 16
 GEN = TRUE
INVARIANTS AtMostOnce OnlySnapshot Complete SubOrder DeadSilent OneTerminal Emit
CHECK_DEADLOCK FALSE
