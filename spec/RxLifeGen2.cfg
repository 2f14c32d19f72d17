SPECIFICATION Spec
CONSTANTS NS = 2 L = 6 MAXV = 3 LEAKY = TRUE EAGER = TRUE EMIT = TRUE
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
