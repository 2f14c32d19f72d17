SPECIFICATION LiveSpec
CONSTANTS NS = 2 L = 8 MAXV = 2 LEAKY = TRUE EAGER = FALSE EMIT = FALSE
INVARIANT Inv
PROPERTY Silence Settles
CHECK_DEADLOCK FALSE
