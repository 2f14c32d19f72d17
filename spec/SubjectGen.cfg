SPECIFICATION Spec
CONSTANTS MaxSub = 3
 MaxPush = 3
 Len0 = 7
 GEN = TRUE
INVARIANTS AtMostOnce OnlySnapshot Complete SubOrder DeadSilent OneTerminal Emit
CHECK_DEADLOCK FALSE
