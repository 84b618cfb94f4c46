-------------------------------- MODULE Irls --------------------------------
(***************************************************************************)
(* The iteration of a fit without L1 as a state machine, on every finite   *)
(* landscape: points, an objective, the full step from each point and the  *)
(* best fraction of it that the line search finds.  Two runs from the same *)
(* start, with their own caps and tolerances, advance independently.       *)
(* Checked exhaustively: the objective only improves, the answer is the    *)
(* last point recorded, stopping is justified, the histories of two runs   *)
(* are prefixes of one another, every run ends.                            *)
(***************************************************************************)
EXTENDS FitRules, Sequences, TLC
CONSTANTS Points, Heights, Caps, Tols, Failures   \* Heights contains 0: no likelihood at all there

VARIABLES F,     \* objective
          T,     \* full step
          H,     \* where the line search along the step ends up
          bad,   \* points where the step cannot be computed
          run    \* run[1], run[2]
vars == <<F, T, H, bad, run>>
Runs == {1, 2}

Start(p, cap, tol) == [at |-> p, from |-> p, hist |-> <<>>, done |-> FALSE, out |-> "none", err |-> "", n_iter |-> 0, hn |-> 0, max_iter |-> cap, tol |-> tol]
Init == /\ F \in [Points -> Heights]
        /\ T \in [Points -> Points]
        /\ H \in [Points -> Points]
        /\ bad \in Failures
        /\ \E p \in Points, c1 \in Caps, c2 \in Caps, t1 \in Tols, t2 \in Tols : run = <<Start(p, c1, t1), Start(p, c2, t2)>>

Abs(x) == IF x < 0 THEN -x ELSE x
Close(tol, p, q) == Abs(F[p] - F[q]) <= tol /\ Abs(p - q) <= tol
Accept(r, q, done) ==
  LET h == Append(r.hist, q) IN
  IF Len(h) > r.max_iter THEN [r EXCEPT !.hist = h, !.at = q, !.out = "err", !.err = "MaxIter", !.n_iter = r.max_iter, !.hn = Len(h)]
  ELSE [r EXCEPT !.hist = h, !.at = q, !.done = done]
Finish(r) == [r EXCEPT !.out = "ok", !.n_iter = Len(r.hist), !.hn = Len(r.hist)]
Advance(r) ==
  IF r.done THEN Finish(r)
  ELSE IF r.at \in bad THEN [r EXCEPT !.out = "err", !.err = "Linalg", !.hn = Len(r.hist)]
  ELSE LET q == T[r.at]
           done == Close(r.tol, q, r.at)
       IN IF q = r.at THEN Finish(r)
          ELSE IF F[q] > F[r.at] THEN Accept(r, q, done)
          ELSE IF F[H[r.at]] > F[r.at] THEN Accept(r, H[r.at], done)
          ELSE Finish(r)
Step(i) == /\ run[i].out = "none"
           /\ run' = [run EXCEPT ![i] = Advance(run[i])]
           /\ UNCHANGED <<F, T, H, bad>>
Next == \E i \in Runs : Step(i)
Spec == Init /\ [][Next]_vars /\ \A i \in Runs : WF_vars(Step(i))

Over(i) == run[i].out # "none"
Path(i) == <<run[i].from>> \o run[i].hist
Improves == \A i \in Runs : \A t \in 1..(Len(Path(i)) - 1) : F[Path(i)[t]] < F[Path(i)[t + 1]]
Result == \A i \in Runs : run[i].at = Path(i)[Len(Path(i))]
Counted == \A i \in Runs : Over(i) => Counts(run[i].out, run[i].err, run[i].n_iter, run[i].hn, run[i].max_iter)
(* a run ends well at a fixed point, after a step within tolerance, or where no part of the step improves *)
Justified == \A i \in Runs : run[i].out = "ok" =>
   LET n == Len(Path(i)) p == run[i].at IN
   \/ T[p] = p
   \/ n > 1 /\ Close(run[i].tol, T[Path(i)[n - 1]], Path(i)[n - 1])
   \/ F[T[p]] <= F[p] /\ F[H[p]] <= F[p]
(* if every point but the optimum improves along its step, a tolerance of zero ends at the optimum *)
Ascent == \A p \in Points : T[p] # p => F[T[p]] > F[p] \/ F[H[p]] > F[p]
Optimal == \A i \in Runs : (run[i].out = "ok" /\ Ascent /\ run[i].tol = 0) => T[run[i].at] = run[i].at
Prefixes == LET a == run[1].hist b == run[2].hist
                n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
            IN SubSeq(a, 1, n) = SubSeq(b, 1, n)
Order == IF run[2].tol < run[1].tol THEN 1 ELSE IF run[2].tol > run[1].tol THEN -1 ELSE 0
Truncated == (Over(1) /\ Over(2) /\ "Linalg" \notin {run[1].err, run[2].err}) => Truncates(run[1], run[2], Order)
(* starting where a run without tolerance ended changes nothing *)
Kept == \A i \in Runs : (run[i].out = "ok" /\ ~run[i].done) => Advance(Start(run[i].at, 9, run[i].tol)).hist = <<>>
Ends == \A i \in Runs : <>Over(i)
=============================================================================
