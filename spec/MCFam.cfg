SPECIFICATION Spec
INVARIANTS Inverse Partition Natural Spread Written Gradient Saturated AtMean Domain
CHECK_DEADLOCK FALSE
