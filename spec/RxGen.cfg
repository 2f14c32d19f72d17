SPECIFICATION Spec
CONSTANTS L = 6
 EAGER = TRUE
 EMIT = TRUE
 FULL = TRUE
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
