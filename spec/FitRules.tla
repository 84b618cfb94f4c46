------------------------------ MODULE FitRules ------------------------------
(* Rules about the bookkeeping of an iterative fit, shared by the model of *)
(* the iteration (Irls) and by the judgement of recorded fits (CkFit).     *)
EXTENDS Integers

(* what an answer tells about the number of iterations *)
Counts(out, err, n_iter, hn, cap) ==
  /\ out = "ok" => n_iter = hn /\ hn <= cap
  /\ (out = "err" /\ err = "MaxIter") => n_iter = cap /\ hn \in {cap, cap + 1}

(* Two runs on the same model from the same start.  order is the order of their tolerances: -1, 0 or 1. *)
(* p and e carry out, hn, max_iter; the run with the looser tolerance stops no later, and a run is the  *)
(* same with any cap it does not reach.                                                                 *)
Truncates(p, e, order) ==
  /\ (p.out = "ok" /\ e.out = "ok" /\ order = -1) => e.hn <= p.hn
  /\ (p.out = "ok" /\ e.out = "ok" /\ order = 1) => p.hn <= e.hn
  /\ (p.out = "ok" /\ order = 0) => IF e.max_iter >= p.hn THEN e.out = "ok" /\ e.hn = p.hn ELSE e.out = "err"
  /\ (p.out = "err" /\ order = 0 /\ e.max_iter <= p.max_iter) => e.out = "err"
=============================================================================
