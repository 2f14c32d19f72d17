SPECIFICATION Spec
CONSTANTS L = 6
 EAGER = FALSE
 EMIT = FALSE
 FULL = TRUE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
