SPECIFICATION Fair
CONSTANTS MaxCb = 4
 Len0 = 0
 GEN = FALSE
 MaxT = 2
INVARIANTS Inv
PROPERTIES Forward OnlyWhenIdle AllRun
CHECK_DEADLOCK FALSE
