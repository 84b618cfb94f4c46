-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* Why the penalised solution must move monotonically with its penalties:  *)
(* any set of candidate coefficients, each with a log-likelihood and two   *)
(* norms, and best candidates for penalties (l1, l2).  Checked for every   *)
(* pair of candidates and every pair of penalties of a grid: the rules     *)
(* Falls by which recorded fits are judged (C20) hold for any two optima.  *)
(* No convexity is needed, only optimality.                                *)
(***************************************************************************)
EXTENDS PathRules, Integers
CONSTANT Max
VARIABLES a, c, p, q
vars == <<a, c, p, q>>

Cand == [ll : 0..Max, n1 : 0..Max, n2 : 0..Max]
Pens == [l1 : 0..Max, l2 : 0..Max]
(* a likelihood unit is worth two of the grid, so that half the squared norm is whole *)
Worth(x, r) == 2 * x.ll - 2 * r.l1 * x.n1 - r.l2 * x.n2

Init == a \in Cand /\ c \in Cand /\ p \in Pens /\ q \in Pens
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* a is at least as good as c for p, c as good as a for q *)
Optima == Worth(c, p) <= Worth(a, p) /\ Worth(a, q) <= Worth(c, q)
More1 == p.l1 < q.l1 /\ p.l2 = q.l2
More2 == p.l2 < q.l2 /\ p.l1 = q.l1
Monotone == Optima => Falls(More1, More2, IF More1 THEN p.l2 = 0 ELSE p.l1 = 0, c.n1 <= a.n1, c.n2 <= a.n2, c.ll <= a.ll)
=============================================================================
