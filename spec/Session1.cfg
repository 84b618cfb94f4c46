SPECIFICATION Spec
CONSTANTS
  Fits = {1}
  Free = TRUE
  Queries = {"deviance", "dispersion", "resid_pear", "covariance", "hat", "infl_coef", "cooks", "resid_dev_std", "resid_student", "null_like", "p_lr", "r_sq"}
INVARIANTS Explored Pure Owned
PROPERTIES GrowOnly Constant
