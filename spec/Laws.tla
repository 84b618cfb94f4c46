-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The definitions of the specification (likelihood, score, information,   *)
(* statistics), checked exhaustively on small data sets against the laws   *)
(* the listed properties demand of the implementation: what frequency and  *)
(* variance weights, offsets, permutations and changes of scale mean.      *)
(* Each state is a data set, a penalty and coefficients; the invariants    *)
(* relate its statistics to those of transformed ones.                     *)
(***************************************************************************)
EXTENDS Stats

VARIABLES me,  \* description of a model, as recorded by the harness
          o,   \* penalties
          b    \* coefficients
vars == <<me, o, b>>

R3(u) == [i \in 1..Len(u) |-> RDec(u[i])]
Xs == { << <<"-1">>, <<"0.5">>, <<"2">>, <<"1.25">> >>, << <<"0">>, <<"1">>, <<"1">>, <<"3">> >> }
Fams == { <<"linear", "id", 1>>, <<"linear", "cube", 1>>, <<"logistic", "logit", 1>>, <<"logistic", "cloglog", 1>>, <<"binomial", "logit", 3>>, <<"poisson", "log", 1>>,
          <<"poisson", "sqrt", 1>>, <<"exponential", "log", 1>>, <<"gamma", "negrec", 1>>, <<"gamma", "log", 1>>, <<"invgaussian", "negrecsq", 1>>, <<"invgaussian", "log", 1>> }
Ys(f) == CASE f = "logistic" -> <<"0", "1", "0", "1">> [] f \in {"binomial", "poisson"} -> <<"0", "2", "1", "3">> [] f = "linear" -> <<"-1", "2", "0.5", "3">> [] OTHER -> <<"0.5", "2", "1", "3">>
Fs == { <<>>, <<"1", "2", "1", "3">>, <<"2", "1", "0", "1">> }
Ws == { <<>>, <<"1", "0.5", "2", "1.5">> }
Offs == { <<>>, <<"-0.1", "0.2", "0", "-0.3">> }
Bs(icpt, link) ==
  LET neg == link \in {"negrec", "negrecsq"} IN
  IF icpt THEN (IF neg THEN {<<"-2", "0.1">>} ELSE IF link = "sqrt" THEN {<<"2", "0.3">>} ELSE {<<"0.4", "-0.7">>, <<"0.2", "0.5">>})
  ELSE (IF neg \/ link = "sqrt" THEN {} ELSE {<<"0.6">>})

(* first the design and the family, then everything else *)
Init == \E x \in Xs, fl \in Fams : me = [x |-> x, fl |-> fl] /\ o = <<>> /\ b = <<>>
Next == /\ o = <<>>
        /\ \E f \in Fs, w \in Ws, of \in Offs, icpt \in BOOLEAN, std \in BOOLEAN, l2 \in {"0", "0.7"} :
          /\ me' = [fam |-> me.fl[1], link |-> me.fl[2], N |-> me.fl[3], n |-> 4, k |-> 1, y |-> R3(Ys(me.fl[1])), x |-> [i \in 1..4 |-> R3(me.x[i])],
                   hasoff |-> of # <<>>, off |-> R3(of), hasw |-> w # <<>>, w |-> R3(w), hasf |-> f # <<>>, f |-> R3(f), icpt |-> icpt, std |-> std, dtype |-> "f64"]
          /\ o' = [l1 |-> Zero, l2 |-> RDec(l2)]
          /\ \E c \in Bs(icpt, me.fl[2]) : b' = R3(c)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Eq(u, v) == RClose(u, v, RDec("1e-9"), RDec("1e-9"))
EqV(u, v) == Len(u) = Len(v) /\ \A i \in DOMAIN u : Eq(u[i], v[i])
EqM(A, B) == Len(A) = Len(B) /\ \A i \in DOMAIN A : EqV(A[i], B[i])
D0 == DataOf(me)
S0 == StatsOf(D0, o, b)
(* everything that is not per observation, for coefficients c of description q *)
Whole(q, c) == LET D == DataOf(q) S == StatsOf(D, o, c) IN
  <<S.obj, S.dev, S.phi, D.sumf, D.neff, Aic(D, S), Bic(D, S), LogLike(D, c)>> \o Diag(S.cov) \o Score(D, o, c) \o WaldZ2(D, S, c)
Defined == o # <<>> /\ S0.valid /\ RFinite(S0.cond) /\ \A i \in D0.live : Zero \prec S0.V[i]
(* descriptions transformed *)
Pick4(s, ix) == [t \in 1..Len(ix) |-> IF s = <<>> THEN <<>> ELSE s[ix[t]]]
Take(q, ix) == [q EXCEPT !.n = Len(ix), !.y = Pick4(q.y, ix), !.x = Pick4(q.x, ix), !.off = IF q.hasoff THEN Pick4(q.off, ix) ELSE <<>>,
                         !.w = IF q.hasw THEN Pick4(q.w, ix) ELSE <<>>, !.f = IF q.hasf THEN Pick4(q.f, ix) ELSE <<>>]
Copies(q) == LET c(i) == IF REq(q.f[i], Zero) THEN 0 ELSE IF REq(q.f[i], One) THEN 1 ELSE IF REq(q.f[i], Two) THEN 2 ELSE 3
                 RECURSIVE go(_)
                 go(i) == IF i > q.n THEN <<>> ELSE [t \in 1..c(i) |-> i] \o go(i + 1)
             IN go(1)
Unweighted(q) == [q EXCEPT !.hasf = FALSE, !.f = <<>>]

(* C07: a frequency is that many copies *)
Replicated == (Defined /\ me.hasf) => EqV(Whole(me, b), Whole(Unweighted(Take(me, Copies(me))), b))
(* C10: rows in another order *)
Permuted == Defined => EqV(Whole(me, b), Whole(Take(me, <<3, 1, 4, 2>>), b))
PerRow == Defined => LET ix == <<3, 1, 4, 2>> D == DataOf(Take(me, ix)) S == StatsOf(D, o, b) IN
  \A t \in 1..4 : Eq(S.h[t], S0.h[ix[t]]) /\ Eq(S.pear[t], S0.pear[ix[t]]) /\ Eq(S.dt[t], S0.dt[ix[t]]) /\ Eq(Cooks(D, S)[t], Cooks(D0, S0)[ix[t]])
(* C08: weights of one are no weights, as far as anything but the count of observations goes *)
OnesW == (Defined /\ ~me.hasw) => EqV(Whole(me, b), Whole([me EXCEPT !.hasw = TRUE, !.w = VConst(4, One)], b))
(* scaling all weights scales likelihoods and information and leaves the dispersion and the effective number of observations alone *)
ScaleW == (Defined /\ me.hasw /\ REq(o.l2, Zero)) =>
  LET q == [me EXCEPT !.w = VScale(RInt(3), me.w)] D == DataOf(q) S == StatsOf(D, o, b) IN
  /\ Eq(S.obj, RInt(3) ** S0.obj) /\ Eq(D.neff, D0.neff)
  /\ Eq(S.phi, S0.phi) /\ EqM(S.fr, MScale(RInt(3), S0.fr)) /\ EqV(S.h, S0.h)
(* C09: an offset in the direction of a coefficient *)
ConstOff == (Defined /\ me.icpt) =>
  LET q == [me EXCEPT !.hasoff = TRUE, !.off = [i \in 1..4 |-> D0.off[i] ++ RDec("0.3")]] IN
  EqV(Whole(q, <<b[1] -- RDec("0.3"), b[2]>>) \o <<>>, LET v == Whole(me, b) IN
      \* (the z-score of the shifted coefficient is its own)
      [t \in DOMAIN v |-> IF t = Len(v) - 1 THEN Whole(q, <<b[1] -- RDec("0.3"), b[2]>>)[t] ELSE v[t]])
(* C06: without penalties the internal scale does not matter; with them columns can be rescaled if standardised *)
Unscaled == (Defined /\ REq(o.l2, Zero)) => EqV(Whole(me, b), Whole([me EXCEPT !.std = ~me.std], b))
Rescaled == (Defined /\ (REq(o.l2, Zero) \/ me.std)) =>
  LET q == [me EXCEPT !.x = [i \in 1..4 |-> <<RInt(10) ** me.x[i][1]>>]]
      c == [b EXCEPT ![Len(b)] = b[Len(b)] // RInt(10)]
      S == StatsOf(DataOf(q), o, c)
  IN Eq(S.obj, S0.obj) /\ Eq(S.dev, S0.dev) /\ EqV(S.h, S0.h) /\ EqV(WaldZ2(DataOf(q), S, c), WaldZ2(D0, S0, b))
(* C13, C14, C16: traces, ranges, gradients *)
Levers == Defined => /\ \A i \in 1..4 : (Zero -- RDec("1e-9")) \preceq S0.h[i] /\ S0.h[i] \preceq (One ++ RDec("1e-9"))
                     /\ REq(o.l2, Zero) => Eq(FSum([D0 EXCEPT !.f = VConst(4, One), !.wf = VConst(4, One)], S0.h), RInt(D0.p))
NonNegative == Defined => \A i \in 1..4 : Zero \preceq S0.dt[i]
e == RDec("0.00001")
Gradient == Defined => \A j \in 1..D0.p :
  LET at(t) == Obj(D0, o, [b EXCEPT ![j] = b[j] ++ t]) IN
  RClose((at(e) -- at(RNeg(e))) // (Two ** e), Score(D0, o, b)[j], RDec("1e-6"), RDec("1e-6"))
(* for canonical links the information is the curvature *)
Curvature == (Defined /\ IsCanonical(me.fam, me.link)) => \A j \in 1..D0.p, t \in 1..D0.p :
  LET at(u) == Score(D0, o, [b EXCEPT ![j] = b[j] ++ u])[t] IN
  RClose((at(RNeg(e)) -- at(e)) // (Two ** e), Fisher(D0, o, b)[j][t], RDec("1e-6"), RDec("1e-6"))
=============================================================================
