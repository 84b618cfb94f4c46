SPECIFICATION Spec
CONSTANTS
  Points = {0, 1, 2}
  Heights = {0, 1, 2}
  Caps = {1, 2}
  Tols = {0, 1}
  Failures = {{}}
INVARIANTS Improves Result Counted Justified Optimal Prefixes Truncated Kept
CHECK_DEADLOCK FALSE
