-------------------------------- MODULE Rel --------------------------------
(***************************************************************************)
(* Relations between executions: a model derived from another one (row and *)
(* column permutations, replication, weights, offsets, rescaled columns,   *)
(* precision, response type, layout, link type) must answer what the       *)
(* original answered, transformed.  C06-C10, C18, C22; refits of reduced   *)
(* models for C13, C16, C17.                                               *)
(***************************************************************************)
EXTENDS CkStats, CkFit

(* the description of model slot m at event l *)
ModelAt(ev, l, m) == LET c == {i \in 1..l : ev[i].e = "model" /\ ev[i].m = m}
                     IN ev[CHOOSE i \in c : \A j \in c : j <= i]
SameOptions(a, b) == /\ REq(a.l1, b.l1) /\ REq(a.l2, b.l2) /\ a.max_iter = b.max_iter /\ a.initkind = b.initkind
(* latest fit of model m with the options of e; 0 if none *)
TwinFit(ev, l, m, e) ==
  LET c == {i \in 1..(l-1) : ev[i].e = "fit" /\ ev[i].m = m /\ SameOptions(ev[i], e)}
  IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : j <= i
(* answers given for the fit at event fl until event l *)
AnswersOf(ev, fl, l) ==
  UNION {{ev[i].q[t] : t \in DOMAIN ev[i].q} : i \in {j \in (fl+1)..(l-1) : ev[j].e = "obs" /\ ev[j].f = ev[fl].f
             /\ \A h \in (fl+1)..j : ~(ev[h].e = "fit" /\ ev[h].f = ev[fl].f)}}

----------------------------------------------------------------------------
(* coefficients of the derived model: M b + t *)
Ident(p) == MDiag(VConst(p, One))
ParM(me, D) ==
  LET P == Pad(D) IN
  CASE me.how = "colperm" -> TLCEval([a \in 1..D.p |-> [b \in 1..D.p |->
            IF a <= P THEN (IF a = b THEN One ELSE Zero) ELSE IF b = P + me.perm[a - P] THEN One ELSE Zero]])
    [] me.how = "xscale" -> MDiag([j \in 1..D.p |-> IF j <= P THEN One ELSE One // me.arg[j - P]])
    [] me.how = "xshift" -> TLCEval([a \in 1..D.p |-> [b \in 1..D.p |->
            IF a = b THEN One ELSE IF a = 1 THEN RNeg(me.arg[b - 1]) ELSE Zero]])
    [] OTHER -> Ident(D.p)
ParT(me, D) ==
  LET P == Pad(D) IN
  CASE me.how = "const_off" -> TLCEval([j \in 1..D.p |-> IF j = 1 THEN RNeg(me.arg[1]) ELSE Zero])
    [] me.how = "lin_off" -> TLCEval([j \in 1..D.p |-> IF j <= P THEN Zero ELSE RNeg(me.arg[j - P])])
    [] OTHER -> VConst(D.p, Zero)
(* row i of the derived model is this row of the original *)
RowOf(me, i) == IF me.how \in {"rowperm", "rowrev", "replicate", "dropzero", "droprow"} THEN me.perm[i] ELSE i
(* factor by which likelihood-type quantities grow *)
Fac(me) == IF me.how = "scale_w" THEN me.arg[1] ELSE One

(* does the relation hold for fits with these penalties? *)
Applies(me, D, e) ==
  CASE me.how \in {"xshift"} -> D.icpt /\ (Unpen(e) \/ D.std)
    [] me.how = "xscale" -> Unpen(e) \/ D.std
    [] me.how \in {"std", "scale_w", "lin_off"} -> Unpen(e)
    [] me.how = "const_off" -> D.icpt
    [] me.how \in {"same", "rowperm", "rowrev", "colperm", "replicate", "dropzero", "ones_f", "ones_w", "zero_off", "dtype", "ytype", "layout", "link"} -> TRUE
    [] OTHER -> FALSE
Either(D1, D2) == [D2 EXCEPT !.sgl = D1.sgl \/ D2.sgl]

(* squared distance of the derived result from the transformed original one, in likelihood units *)
Moved(me, D1, D2, e1, e2) ==
  LET x == VAdd(MatVec(ParM(me, D1), e1.res), ParT(me, D1))
      d == VSub(e2.res, x)
  IN RAbs(QuadForm(Fisher(D2, OptOf(e2), e2.res), d))

WellDet(D, e) == /\ OkRes(e) /\ Feasible(D, e.res) /\ ~AtEdge(D, Omega(D, e.res)) /\ Tame(D, Omega(D, e.res))
                 /\ Informative(D, e.res)
                 /\ LET c == CondEq(Fisher(D, OptOf(e), e.res)) IN RFinite(c) /\ (c \prec RDec(IF D.sgl THEN "1e4" ELSE "1e10"))
(* fits compared: at event l, the fit e2 of a derived model *)
RelFit(s, ev, l, mdl) ==
  LET e2 == ev[l]
      me == ModelAt(ev, l, e2.m)
  IN IF me.how = "new" \/ me.from = 0 THEN {} ELSE
     LET t  == TwinFit(ev, l, me.from, e2)
         D1 == mdl[me.from]
         D2 == mdl[e2.m]
     IN IF t = 0 \/ D1 = <<>> \/ D2 = <<>> THEN {} ELSE
        IF ~Applies(me, D1, e2) THEN {} ELSE
        LET e1 == ev[t]
            D  == Either(D1, D2)
            c  == Fac(me)
            P  == Prop \o "." \o me.how
        IN Chk(P \o ".outcome", (WellPosed(s) /\ NoL1(e2) /\ UsualLink(D1) /\ (me.how = "dtype" => IsCanonical(D1.fam, D1.link)) /\ DefaultTol(D1, e1) /\ e1.out \in {"ok", "err"}) => e2.out = e1.out)
           \cup (IF ~(OkRes(e1) /\ OkRes(e2) /\ DefaultTol(D1, e1) /\ DefaultTol(D2, e2)) THEN {} ELSE
                 IF ~WellDet(D1, e1) \/ ~WellDet(D2, e2) THEN {} ELSE
                 LET om == Omega(D2, e2.res)
                     mag == One ++ (LogLikeMag(D2, om) ++ Penalty(D2, OptOf(e2), e2.res))
                     ltol == Sd(D, "1e-4", IF NoL1(e2) THEN "1e-9" ELSE "1e-7") ** mag
                     o1 == c ** e1.like
                     \* where the objective is not concave two optima may be found
                     far == ~Concave(D2) /\ ~RClose(o1, e2.like, Zero, ltol)
                 IN IF far /\ (D2.link \in {"cube", "slinh"} \/ me.how \in {"const_off", "lin_off", "zero_off", "dtype"}) THEN {} ELSE
                    Chk(P \o ".like", RClose(o1, e2.like, Sd(D, "1e-4", "1e-10"), ltol))
                    \cup Chk(P \o ".coef", Moved(me, D1, D2, e1, e2) \preceq (Sd(D, IF NoL1(e2) THEN "3e-3" ELSE "3e-2", IF NoL1(e2) THEN "1e-9" ELSE "1e-5") ** mag)))

----------------------------------------------------------------------------
(* answers compared: entry en of fit 2 (with D2, S2 and results b2) against entry e1 of its twin *)
ScalarQ == {"deviance", "dispersion", "aic", "bic", "ndf", "test_ndf", "rss", "r_sq", "lr_test", "null_like", "score_test", "wald_test", "p_lr",
            "lr_against", "wald_against", "score_against"}
RowQ    == {"resid_resp", "resid_pear", "resid_dev", "resid_work", "resid_pear_std", "resid_dev_std", "resid_student", "leverage", "cooks", "resid_quantile"}
ParQ    == {"wald_z", "p_wald", "p_exact"}
NullQ   == {"lr_test", "null_like", "score_test", "wald_test", "p_lr", "r_sq"}
(* queries about which the relation says nothing *)
SkipQ(me, D, q) ==
  CASE me.how = "replicate" -> q \in {"resid_pear_std", "resid_dev_std", "resid_student", "cooks", "infl_coef", "loo_exact", "hat"}
    [] me.how = "scale_w" -> q \in {"aic", "bic", "p_lr", "p_wald", "p_exact", "resid_quantile"}
    [] me.how = "lin_off" -> q \in NullQ \cup ParQ \cup {"resid_part", "score_against", "wald_against", "lr_against"}
    [] OTHER -> FALSE
(* first parameters of shifted models mean something else *)
SkipPar(me, j) == j = 1 /\ me.how \in {"xshift", "const_off"}
(* exponent of the weight factor, in halves *)
Halves(me, D, q) ==
  IF me.how # "scale_w" THEN 0 ELSE
  CASE q \in {"deviance", "rss", "lr_test", "null_like", "score_test", "wald_test", "score", "fisher", "lr_against", "wald_against", "score_against"} -> 2
    [] q \in {"resid_pear", "resid_dev", "resid_pear_std", "resid_dev_std", "resid_student", "wald_z"} -> 1
    [] q = "cooks" -> 2
    [] q = "covariance" -> -2
    [] OTHER -> 0
FacQ(me, D, q) == LET h == Halves(me, D, q) c == Fac(me)
   IN CASE h = 0 -> One [] h = 1 -> RSqrt(c) [] h = 2 -> c [] h = -2 -> One // c

(* some mean next to the end of its range: a problem that hardly has a finite solution *)
Saturated(D, b) ==
  LET om == Omega(D, b)
      top == IF D.fam = "binomial" THEN RInt(D.N) ELSE One
      mu == MeanAt(D, om)
  IN \E i \in D.live : mu[i] \prec (RDec("3e-3") ** top) \/ (RDec("0.997") ** top) \prec mu[i]

RelEntry(me, D1, D2, o, b1, b2, S, dist2, e1, en) ==
  LET D  == Either(D1, D2)
      M  == ParM(me, D1)
      MI == MInv(M)
      g  == FacQ(me, D2, en.q)
      \* perturbation by the distance of the two results, in standard errors
      \* and in linear predictors, where these are poorly determined
      mo == VMaxAbs([i \in 1..D2.n |-> IF i \in D2.live /\ ~REq(S.d1[i], Zero)
                THEN RSqrt(RAbs(S.h[i]) // (D2.wf[i] ** (S.V[i] ** (S.d1[i] ** S.d1[i])))) ** (IF D2.link \in {"cube", "sqrt", "negrec", "negrecsq"} THEN One ++ (One // RAbs(S.om[i])) ELSE One)
                ELSE Zero])
      mv == RSqrt(dist2 // RMin(One, S.phi)) ++ (IF RFinite(mo) THEN RSqrt(dist2) ** mo ELSE One)
      \* what rounding of the likelihood does to an optimum, in standard errors
      blur == RSqrt(RInt(100) ** (Eps(D) ** (One ++ S.llmag)))
      r  == RMin(RDec("0.3"), Sd(D, "1e-3", "1e-8") ++ ((RInt(10) ** TolF(D, S)) ++ (RInt(30) ** mv)))
      rn == IF en.q \in NullQ /\ (D1.hasoff \/ D2.hasoff) THEN r ++ Sd(D, "1e-2", "1e-6") ELSE r
      v1 == e1.v
      v2 == en.v
      amp(i) == Amp(S, i)
      rowok(i) == i \in D2.live /\ (r ** (amp(i) ** amp(i))) \prec RDec("0.1")
      ptl(i) == RSqrt(D2.w[i] // S.V[i])
      wtl(i) == RAbs(One // (S.d1[i] ** S.V[i])) ** (IF D2.link \in {"cube", "sqrt", "negrec", "negrecsq"} THEN One ++ (Two // RAbs(S.om[i])) ELSE One)
      es(i)  == EScale(D2, S, i)
      pe(i)  == RAbs(S.pear[i]) ++ (r ** (ptl(i) ** es(i)))
      dm(i)  == S.dt[i] ++ (D2.w[i] ** (One ++ (RAbs(S.ll[i]) ++ RAbs(S.lsat[i]))))
      x(i)   == g ** v1[RowOf(me, i)]
      close(i, tol) == RAbs(x(i) -- v2[i]) \preceq ((r ** RAbs(x(i))) ++ tol)
      sq(i, tol) == RAbs((x(i) ** x(i)) -- (v2[i] ** v2[i])) \preceq tol
      row(i) ==
        CASE en.q = "resid_resp" -> close(i, r ** es(i))
          [] en.q = "resid_pear" -> close(i, r ** (ptl(i) ** es(i)))
          [] en.q = "resid_work" -> REq(S.d1[i], Zero) \/ close(i, r ** (es(i) ** wtl(i)))
          [] en.q = "resid_dev"  -> sq(i, r ** dm(i)) /\ ((r ** (ptl(i) ** es(i)) \prec pe(i) ** RDec("0.1")) => Zero \preceq x(i) ** v2[i])
          [] en.q = "resid_pear_std" -> close(i, (r ** (amp(i) ** (amp(i) ** ((ptl(i) ** es(i)) ++ pe(i))))) // RSqrt(S.phi))
          [] en.q = "resid_dev_std" -> sq(i, (r ** (amp(i) ** (amp(i) ** dm(i)))) // S.phi)
          [] en.q = "resid_student" ->
               LET dl == DispLoo(D2, S)[i] IN (RDec("1e-4") ** S.phi) \preceq dl =>
               sq(i, (RInt(10) ** (r ** (amp(i) ** (amp(i) ** (((One ++ (S.phi // dl)) ** (One ++ (S.phi // dl))) ** (dm(i) ++ (pe(i) ** pe(i)))))))) // dl)
          [] en.q = "leverage" -> close(i, r)
          [] en.q = "cooks" -> close(i, (RInt(10) ** (r ** (amp(i) ** (amp(i) ** (((ptl(i) ** es(i)) ++ pe(i)) ** ((ptl(i) ** es(i)) ++ pe(i))))))) // S.phi)
          [] en.q = "resid_quantile" -> (RAbs(x(i)) \prec RDec("4.5") /\ RAbs(v2[i]) \prec RDec("4.5")) => close(i, RInt(3000) ** r)
      se == SqrtDiag(S.cov)
      fs == SqrtDiag(S.fr)
      P == Prop \o "." \o me.how \o "." \o en.q
      \* points at which curves were probed must correspond
      atok == en.a = <<>> \/ (Len(e1.a) = D1.p /\ Len(en.a) = D2.p /\
                LET da == VSub(en.a, VAdd(MatVec(M, e1.a), ParT(me, D1))) IN RAbs(QuadForm(S.fr, da)) \preceq (RInt(4) ** (dist2 ++ Sd(D, "1e-8", "1e-20"))))
      \* probed nearer to the end of the domain than the optimum is
      oma == Omega(D2, en.a)
      ra == r ** (LET q == IF en.a # <<>> /\ en.q # "predict" /\ D2.link \in {"negrec", "negrecsq", "sqrt"}
                            THEN RMax(One, VMaxAbs([i \in 1..D2.n |-> IF i \in D2.live THEN S.om[i] // oma[i] ELSE One])) ELSE One
                  IN IF RFinite(q) THEN q ** (q ** q) ELSE RInt(1000))
      mapm(A) == MatMul(MatMul(M, A), [i \in 1..D1.p |-> [j \in 1..D1.p |-> M[j][i]]])
      mapc(A) == LET T == [i \in 1..D1.p |-> [j \in 1..D1.p |-> MI[j][i]]] IN MatMul(MatMul(T, A), MI)
      k2 == D2.k
      \* the sign of a coefficient that L1 holds at zero is noise
      kink == Zero \prec o.l1 /\ en.a # <<>> /\ \E j \in 1..D2.p : LET c == PenCoef(D2, en.a)[j] IN ~(D2.icpt /\ j = 1) /\ ~REq(c, Zero) /\ RAbs(c) \prec Sd(D, "1e-2", "1e-4")
  IN IF SkipQ(me, D2, en.q) \/ ~atok \/ (kink /\ en.q \in {"score", "score_against"})
        \* without concavity, refits from different starts may find different optima
        \/ (en.q \in {"p_exact", "loo_exact"} /\ ~Concave(D2) /\ me.how \in {"std", "xshift", "xscale", "const_off", "lin_off", "dtype"})
        \/ (en.a # <<>> /\ en.q # "predict" /\ ~MuValid(D2, Omega(D2, en.a)))
        \/ (en.q \in NullQ /\ ~(NullDefined(D1) /\ NullDefined(D2))) THEN {} ELSE
     CASE en.q \in ScalarQ ->
            LET y == g ** v1
                sc == CASE en.q \in {"ndf", "test_ndf"} -> Zero
                        [] en.q \in {"r_sq", "p_lr"} -> One
                        [] en.q = "dispersion" -> (RAbs(S.phi) ** (D2.neff // RMax(RDec("1e-3"), D2.neff -- RInt(D2.p))))
                        [] en.q = "rss" -> WSum(D2, [i \in 1..D2.n |-> es(i) ** (RAbs(S.e[i]) ++ (r ** es(i)))])
                        [] OTHER -> One ++ (S.llmag ++ RAbs(y))
                \* far from the optimum, differences of likelihoods follow the point, not the square of its error
            IN Chk(P, RClose(y, v2, rn, RMax(rn, IF en.a = <<>> THEN rn ELSE ra) ** sc) \/ (RIsNaN(v1) /\ RIsNaN(v2)) \/ (en.q = "p_lr" /\ RDec("0.97") \prec v1 /\ RDec("0.97") \prec v2))
       [] en.q \in RowQ ->
            IF me.how = "replicate" /\ en.q = "leverage"
            THEN Chk(P, Len(v1) = D1.n /\ \A i \in 1..D1.n : RClose(v1[i], Sum([t \in 1..D2.n |-> IF RowOf(me, t) = i THEN v2[t] ELSE Zero]), Zero, r))
            ELSE Chk(P, Len(v2) = D2.n /\ Len(v1) = D1.n /\ \A i \in 1..D2.n : rowok(i) => row(i))
       [] en.q = "resid_part" ->
            Chk(P, Len(v2) = D2.n /\ \A i \in 1..D2.n : i \in D2.live => Len(v2[i]) = k2 /\ \A j \in 1..k2 :
               LET c1 == IF me.how = "colperm" THEN me.perm[j] ELSE j
                   y == v1[RowOf(me, i)][c1] IN
               REq(S.d1[i], Zero) \/ RClose(y, v2[i][j], r, r ** ((es(i) ** wtl(i)) ++ RAbs((RAbs(D2.x[i][j]) ++ RAbs(D2.xmean[j])) ** b2[j + Pad(D2)]))))
       [] en.q = "hat" ->
            Chk(P, Len(v2) = D2.n /\ \A i, j \in D2.live : RClose(v1[RowOf(me, i)][RowOf(me, j)], v2[i][j], r, r ** (RSqrt(S.V[i] // D2.wf[i]) ** RSqrt(D2.wf[j] // S.V[j]))))
       [] en.q = "predict" ->
            IF ~(e1.x = D1.x /\ en.x = D2.x /\ (e1.ho <=> D1.hasoff) /\ (en.ho <=> D2.hasoff) /\ (e1.ho => e1.a = D1.off) /\ (en.ho => en.a = D2.off)) THEN {} ELSE
            Chk(P, \A i \in D2.live : LET m == v1[RowOf(me, i)] IN RClose(m, v2[i], r, r ** RAbs(S.V[i] ** (S.d1[i] ** (One ++ RAbs(S.om[i]))))))
       [] en.q = "infl_coef" ->
            Chk(P, Len(v2) = D2.n /\ \A i \in 1..D2.n : rowok(i) =>
               LET y == MatVec(M, v1[RowOf(me, i)]) IN
               \A j \in 1..D2.p : RClose(y[j], v2[i][j], r, RInt(10) ** (r ** (amp(i) ** (amp(i) ** ((RSqrt(S.fri[j][j])) ** (pe(i) ++ (RSqrt(S.h[i]) ** (ptl(i) ** es(i))))))))))
       [] en.q = "loo_exact" ->
            Chk(P, Len(v2) = D2.n /\ \A i \in 1..D2.n : rowok(i) =>
               LET y == VAdd(MatVec(M, v1[RowOf(me, i)]), ParT(me, D1)) IN
               \* deletion may leave a problem without a finite solution
               (D2.fam \in {"logistic", "binomial"} /\ Saturated(D2, v2[i])) \/
               \A j \in 1..D2.p : RClose(y[j], v2[i][j], r ** amp(i), amp(i) ** (((RInt(100) ** r) ++ blur) ** (se[j] ++ RSqrt(S.fri[j][j])))))
       [] en.q \in ParQ ->
            LET pp == [j \in 1..D2.p |-> IF me.how = "colperm" /\ j > Pad(D1) THEN Pad(D1) + me.perm[j - Pad(D1)] ELSE j]
                sg(j) == IF me.how = "xscale" /\ en.q = "wald_z" /\ j > Pad(D1) THEN RSign(me.arg[j - Pad(D1)]) ELSE One
            IN Chk(P, Len(v2) = D2.p /\ \A j \in 1..D2.p : SkipPar(me, j) \/
                 \* differences of deviances within rounding of zero
                 (en.q = "p_exact" /\ RDec("0.97") \prec v1[pp[j]] /\ RDec("0.97") \prec v2[j]) \/
                 RClose(g ** (sg(j) ** v1[pp[j]]), v2[j], r, r ** (IF en.q = "wald_z" THEN One ++ ((RSqrt(RAbs(S.cond)) ** Eps(D)) // (r)) ELSE RInt(20) ** (One ++ (IF en.q = "p_exact" THEN S.llmag ELSE Zero)))))
       [] en.q = "score" ->
            LET y == VScale(g, MatVec([i \in 1..D1.p |-> [j \in 1..D1.p |-> MI[j][i]]], v1))
                om == Omega(D2, en.a)
                mg(j) == WSum(D2, [i \in 1..D2.n |-> LET m == MeanOf(D2.fam, D2.N, D2.link, om[i]) IN RAbs(D2.X[i][j] ** (DNatOf(D2.fam, D2.link, om[i]) ** (RAbs(D2.y[i]) ++ RAbs(m))))])
            IN IF ~MuValid(D2, om) THEN {} ELSE Chk(P, Len(v2) = D2.p /\ \A j \in 1..D2.p : RClose(y[j], v2[j], ra, ra ** (fs[j] ++ (mg(j) ++ RAbs(o.l2 ** (D2.scale[j] ** (D2.scale[j] ** en.a[j])))))))
       [] en.q = "fisher" ->
            LET A == MScale(g, mapc(v1))
                sc == SqrtDiag(A)
            IN Chk(P, MatScaled(A, v2, sc, sc, RInt(3) ** ra))
       [] en.q = "covariance" ->
            LET A == MScale(g, mapm(v1))
                sc == VMap2(LAMBDA a, c : RMax(a, c), SqrtDiag(A), se)
            IN Chk(P, MatScaled(A, v2, sc, sc, RInt(3) ** r))
       [] OTHER -> {}

(* all comparisons of the answers at event l (fit at event fl) *)
RelObs(s, ev, l, fl, mdl, S, fine) ==
  LET e2 == ev[fl]
      me == ModelAt(ev, fl, e2.m)
  IN IF me.how = "new" \/ me.from = 0 THEN {} ELSE
     LET t  == TwinFit(ev, fl, me.from, e2)
         D1 == mdl[me.from]
         D2 == mdl[e2.m]
     IN IF t = 0 \/ D1 = <<>> THEN {} ELSE
        LET e1 == ev[t] IN
        IF ~(Applies(me, D1, e2) /\ OkRes(e1) /\ DefaultTol(D1, e1) /\ DefaultTol(D2, e2)) THEN {} ELSE
        IF ~WellDet(D1, e1) \/ ~WellDet(D2, e2) THEN {} ELSE
        LET d2 == TLCEval(Moved(me, D1, D2, e1, e2))
            big == (RDec(IF D1.sgl \/ D2.sgl THEN "1e-2" ELSE "1e-5") ** (One ++ S.llmag)) \prec d2
            olds == AnswersOf(ev, t, l)
            twin(en) == {a \in olds : a.q = en.q /\ a.at = en.at /\ a.st = "ok" /\ (a.q = "predict" => a.x = D1.x /\ (a.ho <=> D1.hasoff))}
            good == {i \in DOMAIN ev[l].q : ev[l].q[i].st = "ok"}
            \* refits of reduced models may be refused
            lost == {i \in DOMAIN ev[l].q : /\ ev[l].q[i].st # "ok"
                                            /\ ev[l].q[i].q = "loo_exact" => (Unpen(e2) /\ D2.fam = "linear" /\ D2.link = "id")
                                            /\ ev[l].q[i].q = "p_exact" => (Unpen(e2) /\ D2.fam \in {"linear", "poisson"} /\ UsualLink(D2) /\ S.cond \prec RDec(IF D2.sgl THEN "1e3" ELSE "1e6"))}
            name(i) == {a.st : a \in {c \in olds : c.q = ev[l].q[i].q}}
        IN UNION {Chk(Prop \o "." \o me.how \o ".answered." \o ev[l].q[i].q, ~("ok" \in name(i))) : i \in lost}
           \cup (IF big \/ ~fine THEN {} ELSE
           UNION {IF twin(ev[l].q[i]) = {} THEN {} ELSE LET en == ev[l].q[i] IN RelEntry(me, D1, D2, OptOf(e2), e1.res, e2.res, S, d2, CHOOSE a \in twin(en) : TRUE, en) : i \in good})
=============================================================================
