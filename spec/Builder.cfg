SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Allowed Commutes
PROPERTIES Sticky Answered
CHECK_DEADLOCK FALSE
