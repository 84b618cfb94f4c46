SPECIFICATION Spec
CONSTANTS
  Points = {0, 1}
  Heights = {0, 1, 2}
  Caps = {0, 1, 3}
  Tols = {0, 1}
  Failures = {{}, {0}, {1}}
INVARIANTS Improves Result Counted Justified Optimal Prefixes Truncated Kept
PROPERTIES Ends
CHECK_DEADLOCK FALSE
