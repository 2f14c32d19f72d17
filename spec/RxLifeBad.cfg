SPECIFICATION LiveSpec
CONSTANTS NS = 2 L = 6 MAXV = 1 LEAKY = TRUE EAGER = FALSE EMIT = FALSE
INVARIANT Inv
PROPERTY Silence Settles
CHECK_DEADLOCK FALSE
