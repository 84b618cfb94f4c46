SPECIFICATION Spec
INVARIANTS Replicated Permuted PerRow OnesW ScaleW ConstOff Unscaled Rescaled Levers NonNegative Gradient Curvature
CHECK_DEADLOCK FALSE
