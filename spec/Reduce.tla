------------------------------- MODULE Reduce -------------------------------
(***************************************************************************)
(* Models with something taken out - an observation (C13), a parameter     *)
(* (C16, C17) - and their optimum, found by the specification itself.      *)
(***************************************************************************)
EXTENDS Rel

(* descriptions of reduced models *)
WithoutRow(me, i) == [me EXCEPT !.hasf = TRUE, !.f = [t \in 1..me.n |-> IF t = i THEN Zero ELSE IF me.hasf THEN me.f[t] ELSE One]]
Cut(v, j) == [t \in 1..(Len(v) - 1) |-> IF t < j THEN v[t] ELSE v[t + 1]]
(* parameter j of data D *)
WithoutPar(me, j) ==
  IF me.icpt /\ j = 1 THEN [me EXCEPT !.icpt = FALSE]
  ELSE LET c == IF me.icpt THEN j - 1 ELSE j IN [me EXCEPT !.k = me.k - 1, !.x = [t \in 1..me.n |-> Cut(me.x[t], c)]]

----------------------------------------------------------------------------
(* Damped Fisher scoring: the maximum of the ridge-penalised likelihood.    *)
RECURSIVE LineTo(_, _, _, _, _, _), Climb(_, _, _, _)
LineTo(D, o, b, d, f0, t) ==
  LET c == VAdd(b, d) IN
  IF t = 0 THEN b
  ELSE IF Feasible(D, c) /\ Tame(D, Omega(D, c)) /\ (f0 \preceq Obj(D, o, c)) THEN c
  ELSE LineTo(D, o, b, VScale(Half, d), f0, t - 1)
Climb(D, o, b, t) ==
  LET d == IrlsStepFrom(D, o, b)
      c == TLCEval(LineTo(D, o, b, d, Obj(D, o, b), 30))
  IN IF t = 0 \/ ~AllFinite(d) \/ c = b THEN b ELSE Climb(D, o, c, t - 1)
SolveFrom(D, o, b0) ==
  IF Len(b0) # D.p \/ ~Feasible(D, b0) \/ ~Tame(D, Omega(D, b0)) THEN [ok |-> FALSE, b |-> b0] ELSE
  LET b == IF D.p = 0 THEN b0 ELSE TLCEval(Climb(D, o, b0, 60))
      F == Fisher(D, o, b)
      c == CondEq(F)
  IN [ok |-> D.p = 0 \/ (/\ RFinite(c) /\ (c \prec RDec(IF D.sgl THEN "1e4" ELSE "1e9"))
                         /\ Decrement2(D, o, b) \preceq (RDec("1e-17") ** (One ++ LogLikeMag(D, Omega(D, b))))),
      b |-> b]
(* from the coefficients at hand, or else from the null model *)
Solve(D, o, b0) == LET s1 == SolveFrom(D, o, b0) IN IF s1.ok \/ ~NullDefined(D) \/ D.p = 0 THEN s1 ELSE SolveFrom(D, o, NullCoef(D))
DevAt(D, b) == LET om == Omega(D, b) IN
  FSum(D, [i \in 1..D.n |-> RMax(Zero, Two ** (D.w[i] ** (LogLikeSat(D.fam, D.N, D.y[i]) -- LogLike1(D.fam, D.N, D.link, D.y[i], om[i]))))])

----------------------------------------------------------------------------
(* C13: each row of the exact leave-one-out coefficients is a fit of the model without that observation *)
AsFit(fe, b) == [fe EXCEPT !.res = b, !.hasinit = TRUE, !.init = b, !.hn = 0, !.hb = <<>>, !.hl = <<>>]
RowFit(me, fe, i, b) == LET D == DataOf(WithoutRow(me, i)) IN C01(<<AsFit(fe, b)>>, 1, D) \cup C02(<<AsFit(fe, b)>>, 1, D)
(* unpenalised linear models: the one-step formula is exact *)
Exact(D, o) == D.fam = "linear" /\ D.link = "id" /\ REq(o.l1, Zero) /\ REq(o.l2, Zero)
ChkLoo(me, fe, D, o, b, S, en) ==
  LET rows(B, name) == UNION {LET c == RowFit(me, fe, i, B[i]) IN {name \o "." \o x : x \in c} : i \in {t \in 1..D.n : LevOk(D, S, t)}}
      v == en.v
  IN CASE en.q = "loo_exact" -> Chk("C13.loo_size", Len(v) = D.n /\ \A i \in 1..D.n : Len(v[i]) = D.p) \cup rows(v, "C13.loo")
       [] en.q = "infl_coef" /\ Exact(D, o) -> rows([i \in 1..D.n |-> VSub(b, v[i])], "C13.infl_exact")
       [] OTHER -> {}

----------------------------------------------------------------------------
(* C17: the exact p-value of a parameter compares with the best model without it *)
(* deviance of the model without parameter j: [ok, v] *)
Unknown == [ok |-> FALSE, v |-> Zero]
(* without L1 the specification finds it; with L1 a refit of the reduced model itself is the reference *)
RefitDev(ev, l, m, fe, j, mdl) ==
  LET D == mdl[m]
      c == {i \in 1..(l-1) : /\ ev[i].e = "fit" /\ OkRes(ev[i]) /\ SameOptions(ev[i], fe)
                              /\ LET q == ModelAt(ev, i, ev[i].m) IN
                                 q.from = m /\ (IF D.icpt /\ j = 1 THEN q.how = "noicpt" ELSE q.how = "dropcol" /\ q.perm = <<j - Pad(D)>>)}
  IN IF c = {} THEN Unknown ELSE
     LET i == CHOOSE t \in c : \A u \in c : u <= t
         R == DataOf(ModelAt(ev, i, ev[i].m))
     IN IF Concave(R) /\ Feasible(R, ev[i].res) /\ Tame(R, Omega(R, ev[i].res)) THEN [ok |-> TRUE, v |-> DevAt(R, ev[i].res)] ELSE Unknown
BestDev(me, D, o, b, j) ==
  LET R == DataOf(WithoutPar(me, j))
      s == Solve(R, o, Cut(b, j))
  IN IF Concave(R) /\ s.ok /\ Informative(R, s.b) /\ ~AtEdge(R, Omega(R, s.b)) THEN [ok |-> TRUE, v |-> DevAt(R, s.b)] ELSE Unknown
ChkExact(ev, l, me, mdl, fe, D, o, b, S, en) ==
  IF en.q # "p_exact" THEN {} ELSE
  LET r == TolF(D, S)
      dl == IF NoL1(fe) THEN Sd(D, "5e-4", "1e-8") ** (One ++ S.llmag) ELSE Sd(D, "1e-2", "2e-5") ** (One ++ S.llmag)
      v == en.v
      pv(j) == LET red == IF NoL1(fe) THEN BestDev(me, D, o, b, j) ELSE RefitDev(ev, l, fe.m, fe, j, mdl)
                   up == PExact(D, S, RMax(S.dev, red.v -- (dl ++ (r ** red.v))))
                   dn == PExact(D, S, RMax(S.dev, red.v ++ (dl ++ (r ** red.v))))
                   t == Sd(D, "1e-3", "1e-7") ++ (Sd(D, "1e-2", "1e-6") ++ r) ** up
               IN red.ok /\ RFinite(red.v) /\ RFinite(up) /\ RFinite(dn) => ((dn -- t) \preceq v[j] /\ v[j] \preceq (up ++ t))
  IN IF Dispersed(D.fam) /\ Ndf(D) \preceq Zero THEN {} ELSE
     Chk("C17.p_exact_size", Len(v) = D.p)
     \cup Chk("C17.p_exact_range", \A j \in 1..Len(v) : RNeg(Sd(D, "1e-6", "1e-12")) \preceq v[j] /\ v[j] \preceq (One ++ Sd(D, "1e-6", "1e-12")))
     \cup UNION {Chk("C17.p_exact", pv(j)) : j \in 1..D.p}

----------------------------------------------------------------------------
(* C16: without penalties, taking a covariate out never lowers the deviance *)
ChkNested(ev, l, D, e) ==
  LET me == ModelAt(ev, l, e.m) IN
  IF me.how \notin {"dropcol", "addcol"} \/ ~FitOk(e) \/ ~Unpen(e) THEN {} ELSE
  LET t == TwinFit(ev, l, me.from, e) IN
  IF t = 0 THEN {} ELSE
  LET D1 == DataOf(ModelAt(ev, t, ev[t].m))
      e1 == ev[t]
      big == IF me.how = "addcol" THEN e ELSE e1
      small == IF me.how = "addcol" THEN e1 ELSE e
      DB == IF me.how = "addcol" THEN D ELSE D1
      DS == IF me.how = "addcol" THEN D1 ELSE D
  IN IF ~(FitOk(e1) /\ Concave(D) /\ DefaultTol(D, e) /\ DefaultTol(D1, e1) /\ Feasible(DB, big.res) /\ Feasible(DS, small.res)) THEN {} ELSE
     IF ~Tame(DB, Omega(DB, big.res)) \/ ~Tame(DS, Omega(DS, small.res)) \/ AtEdge(DB, Omega(DB, big.res)) THEN {} ELSE
     LET lb == DevAt(DB, big.res)
         ls == DevAt(DS, small.res)
     IN Chk("C16.nested", lb \preceq (ls ++ (Sd(D, "1e-3", "1e-8") ** (One ++ LogLikeMag(DS, Omega(DS, small.res))))))
(* the answers themselves, of the model and the one it is derived from *)
ChkNestedDev(ev, l, fl, D, en) ==
  LET e == ev[fl]
      me == ModelAt(ev, fl, e.m) IN
  IF en.q # "deviance" \/ me.how \notin {"dropcol", "addcol"} \/ ~Unpen(e) \/ ~Concave(D) THEN {} ELSE
  LET t == TwinFit(ev, fl, me.from, e) IN
  IF t = 0 \/ ~DefaultTol(D, e) \/ ~DefaultTol(D, ev[t]) THEN {} ELSE
  LET olds == {a \in AnswersOf(ev, t, l) : a.q = "deviance" /\ a.st = "ok"}
      om == Omega(D, e.res)
      tl == Sd(D, "1e-3", "1e-8") ** (One ++ LogLikeMag(D, om))
  IN IF ~Tame(D, om) \/ AtEdge(D, om) THEN {} ELSE
     Chk("C16.nested_dev", \A a \in olds : IF me.how = "addcol" THEN en.v \preceq (a.v ++ tl) ELSE a.v \preceq (en.v ++ tl))
=============================================================================
