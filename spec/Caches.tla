------------------------------- MODULE Caches -------------------------------
(***************************************************************************)
(* The lazily filled caches of a fit, and which of them answering a query  *)
(* fills.  free: the family's dispersion is estimated from the data.  The  *)
(* table drives the exploration of cache states; judgements never use it.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CacheNames == {"phi", "dev_terms", "resid_pear", "covariance", "fisher_inv", "fisher_std_inv", "hat", "null_model"}
Phi(free) == IF free THEN {"phi", "dev_terms"} ELSE {"phi"}
Hat == {"hat", "fisher_std_inv"}
Fills(free, q) ==
  CASE q \in {"deviance", "aic", "bic", "resid_dev"} -> {"dev_terms"}
    [] q \in {"dispersion", "resid_quantile"} -> Phi(free)
    [] q = "resid_pear" -> {"resid_pear"}
    [] q \in {"covariance", "wald_z", "p_wald"} -> {"covariance", "fisher_inv"} \cup Phi(free)
    [] q \in {"hat", "leverage"} -> Hat
    [] q \in {"infl_coef", "loo_exact"} -> Hat \cup {"fisher_inv"}
    [] q = "cooks" -> Hat \cup {"resid_pear"} \cup Phi(free)
    [] q = "resid_pear_std" -> Hat \cup {"resid_pear"} \cup Phi(free)
    [] q = "resid_dev_std" -> Hat \cup {"dev_terms"} \cup Phi(free)
    [] q = "resid_student" -> Hat \cup {"dev_terms", "resid_pear"}
    [] q \in {"null_like", "lr_test", "score_test", "wald_test"} -> {"null_model"}
    [] q = "p_lr" -> {"null_model"} \cup (IF free THEN Phi(free) ELSE {})
    [] q = "r_sq" -> {"null_model", "dev_terms"}
    [] q = "p_exact" -> {"dev_terms"} \cup Phi(free)
    [] OTHER -> {}

(* reachable cache states, each with a shortest sequence of queries leading to it *)
RECURSIVE Grow(_, _, _, _)
Grow(free, Q, frontier, known) ==
  LET next == {[st |-> r.st \cup Fills(free, q), by |-> Append(r.by, q)] : r \in frontier, q \in Q}
      fresh == {r \in next : \A k \in known : k.st # r.st}
      pick == {CHOOSE r \in fresh : r.st = t : t \in {r.st : r \in fresh}}
  IN IF pick = {} THEN known ELSE Grow(free, Q, pick, known \cup pick)
Reach(free, Q) == LET r0 == {[st |-> {}, by |-> <<>>]} IN Grow(free, Q, r0, r0)
=============================================================================
