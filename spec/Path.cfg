SPECIFICATION Spec
CONSTANT Max = 3
INVARIANT Monotone
CHECK_DEADLOCK FALSE
