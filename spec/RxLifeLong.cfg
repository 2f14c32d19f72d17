SPECIFICATION Spec
CONSTANTS NS = 2 L = 16 MAXV = 6 LEAKY = TRUE EAGER = TRUE EMIT = TRUE
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
