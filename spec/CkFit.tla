------------------------------- MODULE CkFit -------------------------------
(***************************************************************************)
(* C01-C05, C20: what a fit must be.                                       *)
(* ev = the session's events, l = index of the fit event, D = data.        *)
(***************************************************************************)
EXTENDS Base, FitRules, PathRules

Concave(D) == \/ IsCanonical(D.fam, D.link)
              \/ D.link \in {"sqrt"}
              \/ D.fam \in {"gamma", "exponential"} /\ D.link = "log"
              \/ D.link = "cloglog"
(* Fisher scoring converges quickly only where expected and observed information are close *)
(* (a start that keeps every mean valid is only certain without offsets where the domain is limited) *)
UsualLink(D) == (D.link = "log" /\ D.fam /= "invgaussian") \/ (IsCanonical(D.fam, D.link) /\ (D.link \in {"negrec", "negrecsq"} => D.icpt /\ ~D.hasoff))

EarlierFits(ev, l) == {i \in 1..(l-1) : ev[i].e = "fit"}
SameModel(ev, l) == {i \in EarlierFits(ev, l) : ev[i].m = ev[l].m}
OkRes(e) == e.out = "ok" /\ AllFinite(e.res)

(* the reported coefficients keep every mean valid *)
Feasible(D, b) == AllFinite(b) /\ LET om == Omega(D, b) IN AllFinite(om) /\ MuValid(D, om)
(* under a square-root link a maximum may lie on the edge of the domain, where no gradient vanishes *)
AtEdge(D, om) == D.link = "sqrt" /\ \E i \in D.live : om[i] \preceq RDec("0.03")
ObjTol(D, om) == Sd(D, "1e-4", "2e-12") ** (One ++ LogLikeMag(D, om))
----------------------------------------------------------------------------
(* C01 *)
(* a start where some mean carries no information at all need not be left *)
Informative(D, a) == Feasible(D, a) => LET om == Omega(D, a)
                                           mu == MeanAt(D, om)
                                           d1 == DNatAt(D, om)
                                           V  == VarAt(D, mu)
                                       IN \A i \in D.live : Sd(D, "1e-3", "1e-9") \preceq (V[i] ** (d1[i] ** d1[i]))
C01(ev, l, D) ==
  LET e == ev[l]
      o == OptOf(e)
      b == e.res
  IN IF ~(FitOk(e) /\ NoL1(e) /\ DefaultTol(D, e)) THEN {} ELSE
     IF e.hasinit /\ (~Informative(D, e.init) \/ (AllFinite(b) /\ ~Tame(D, Omega(D, b)))) THEN {} ELSE
     IF AllFinite(b) /\ AtEdge(D, Omega(D, b)) THEN {} ELSE
     IF ~Feasible(D, b) THEN Chk("C01.feasible", FALSE) ELSE
     LET om == Omega(D, b)
         F  == Fisher(D, o, b)
         c  == CondEq(F)
         g  == Score(D, o, b)
         mag == One ++ (LogLikeMag(D, om) ++ Penalty(D, o, b))
         dec == RAbs(Dot(g, MSolve(F, g)))
         obj == Obj(D, o, b)
         others == {i \in SameModel(ev, l) : OkRes(ev[i]) /\ NoL1(ev[i]) /\ REq(ev[i].l2, e.l2)}
         cand == {ev[i].res : i \in others} \cup {ev[i].init : i \in {j \in SameModel(ev, l) \cup {l} : ev[j].hasinit}}
                 \cup (IF NullDefined(D) THEN {NullCoef(D)} ELSE {}) \cup {VConst(D.p, Zero)}
     IN (IF RFinite(c) /\ (c \prec RDec(IF D.sgl THEN "1e4" ELSE "1e10"))
         THEN Chk("C01.gradient", dec \preceq (Sd(D, "1e-3", "1e-11") ** mag))
         ELSE {})
        \cup (IF D.link \in {"cube", "slinh"} \/ (~Concave(D) /\ e.hasinit) THEN {} ELSE
              Chk("C01.max", \A a \in cand : (Len(a) = D.p /\ Feasible(D, a)) =>
                   LET oa == Obj(D, o, a) IN RFinite(oa) => (oa \preceq (obj ++ ((Sd(D, "1e-4", "1e-10") ** mag) ++ ObjTol(D, Omega(D, a)))))))
----------------------------------------------------------------------------
(* C02: on the internal scale, with gradient G_j = score_j / scale_j           *)
C02(ev, l, D) ==
  LET e == ev[l]
      o == OptOf(e)
      b == e.res
  IN IF ~(FitOk(e) /\ Zero \prec e.l1 /\ DefaultTol(D, e)) THEN {} ELSE
     \* without concavity the search may leave for a worse region, of which the best step passed is reported
     IF ~Concave(D) /\ Len(e.hl) > 0 /\ (e.hl[Len(e.hl)] \prec (e.like -- (Sd(D, "1e-4", "1e-7") ** (One ++ RAbs(e.like))))) THEN {} ELSE
     IF AllFinite(b) /\ AtEdge(D, Omega(D, b)) THEN {} ELSE
     IF ~Feasible(D, b) THEN Chk("C02.feasible", FALSE) ELSE
     LET om == Omega(D, b)
         sc == ScoreDataOm(D, om)
         c  == PenCoef(D, b)
         F  == FisherDataOm(D, om)
         mu == MeanAt(D, om)
         d1 == DNatAt(D, om)
         \* gradient of the likelihood minus the quadratic penalty, internal scale; for an intercept the
         \* columns are centred: subtracting xmean_j times the intercept component
         gi(j) == IF D.icpt THEN (IF j = 1 THEN sc[1] ELSE
                     IF D.std THEN (sc[j] -- (D.xmean[j-1] ** sc[1])) // D.scale[j] ELSE sc[j])
                  ELSE sc[j] // D.scale[j]
         hs(j) == F[j][j] // (D.scale[j] ** D.scale[j])
         \* what rounding of the likelihood does to an optimum, in standard errors
         blur == RSqrt(RInt(100) ** (Eps(D) ** LogLikeMag(D, om)))
         tl(j) == (RMax(blur, Sd(D, "3e-2", "2e-5")) ** ((One ++ o.l1) ++ RSqrt(hs(j)))) ++ (Sd(D, "1e-4", "1e-9") ** hs(j))
         small == Sd(D, "2e-3", "1e-5")
         kkt(j) == LET r == gi(j) -- (o.l2 ** c[j]) IN
           IF D.icpt /\ j = 1 THEN RAbs(sc[1]) \preceq tl(1)
           ELSE IF RAbs(c[j]) \preceq small THEN RAbs(r) \preceq (o.l1 ++ tl(j))
           ELSE RAbs(r -- (o.l1 ** RSign(c[j]))) \preceq tl(j)
         \* null-model gradients
         nc == NullCoef(D)
         nsc == ScoreDataOm(D, Omega(D, nc))
         ngi(j) == nsc[j] // D.scale[j]
         allbig == D.icpt /\ NullDefined(D) /\ \A j \in 2..D.p : (RAbs(ngi(j)) ** RDec("1.02")) \prec o.l1
         \* (the cube link is flat at zero, where a fit may remain)
         se0 == RSqrt(RAbs(FisherDataOm(D, Omega(D, nc))[1][1]))
         others == {i \in SameModel(ev, l) : OkRes(ev[i]) /\ REq(ev[i].l1, e.l1) /\ REq(ev[i].l2, e.l2)}
         obj == Obj(D, o, b)
         mag == One ++ (LogLikeMag(D, om) ++ Penalty(D, o, b))
     IN Chk("C02.kkt", \A j \in 1..D.p : kkt(j))
        \cup Chk("C02.alone", (allbig /\ D.link # "cube") => /\ \A j \in 2..D.p : RAbs(c[j]) \preceq small
                                       /\ RAbs(b[1] ++ Sum([j \in 1..D.k |-> D.xmean[j] ** b[j+1]]) -- nc[1]) ** se0 \preceq Sd(D, "5e-2", "1e-3"))
        \cup Chk("C02.max", Concave(D) => \A a \in ({ev[i].res : i \in others} \cup (IF NullDefined(D) THEN {nc} ELSE {})) :
              Feasible(D, a) => (Obj(D, o, a) \preceq (obj ++ ((Sd(D, "1e-3", "1e-7") ** mag) ++ (o.l1 ** Sd(D, "1e-4", "1e-8"))))))
----------------------------------------------------------------------------
(* C03 *)
LikeAt(D, o, b, v) == LET om == Omega(D, b) IN
   IF AllFinite(om) /\ MuValid(D, om) /\ Tame(D, om) THEN
     LET x == LogLikeOm(D, om) -- Penalty(D, o, b) IN
     RFinite(x) => RClose(x, v, Sd(D, "1e-5", "1e-10"), TolL(D, LogLikeMag(D, om) ++ Penalty(D, o, b)))
   ELSE TRUE
(* rounding of the transformation between scales also perturbs the coefficients *)
C03(ev, l, D) ==
  LET e == ev[l]
      o == OptOf(e)
  IN CASE e.out = "ok" ->
       Chk("C03.like", AllFinite(e.res) => LikeAt(D, o, e.res, e.like))
       \cup Chk("C03.n_iter", Counts(e.out, e.err, e.n_iter, e.hn, e.max_iter))
       \cup Chk("C03.options", e.echo)
       \cup Chk("C03.history", \A t \in DOMAIN e.hb : AllFinite(e.hb[t]) => LikeAt(D, o, e.hb[t], e.hl[t]))
       \cup Chk("C03.in_history", IF e.hn = 0 THEN (e.hasinit => VCloseN(e.init, e.res, Sd(D, "1e-3", "1e-9"), Zero))
                                  ELSE (Len(e.hb) < e.hn) \/ \E t \in DOMAIN e.hb : REq(e.hl[t], e.like) /\ VCloseN(e.hb[t], e.res, Sd(D, "1e-5", "1e-12"), Zero))
       \cup Chk("C03.best", (AllFinite(e.hl) /\ RFinite(e.like)) => \A t \in DOMAIN e.hl : e.hl[t] \preceq e.like)
       [] e.out = "err" /\ e.err = "MaxIter" ->
       Chk("C03.maxiter", Counts(e.out, e.err, e.n_iter, e.hn, e.max_iter))
       \cup Chk("C03.max_history", \A t \in DOMAIN e.hb : AllFinite(e.hb[t]) => LikeAt(D, o, e.hb[t], e.hl[t]))
       [] OTHER -> {}
----------------------------------------------------------------------------
(* C04 *)
(* internal-scale norm used by the stopping rule *)
Internal(D, b) == TLCEval([j \in 1..D.p |->
    IF D.icpt /\ j = 1 THEN (IF D.std THEN b[1] ++ Sum([t \in 1..D.k |-> D.xmean[t] ** b[t+1]]) ELSE b[1]) ELSE D.scale[j] ** b[j]])
Golden(t) == RPow(RDec("0.618033988749894"), RInt(t))
C04Step(D, o, prev, lp, nxt, ln) ==
  LET om  == Omega(D, prev)
      F   == Fisher(D, o, prev)
      c   == CondEq(F)
      d   == IrlsStepFrom(D, o, prev)
      \* the step when every variance is off by a rounding error of one (the implementation keeps
      \* variances away from zero by as much)
      d2  == MSolve(MAdd(F, Gram(D.X, VScale(Eps(D), D.wf), D.p)), Score(D, o, prev))
      dl  == VSub(nxt, prev)
      nd  == RAbs(QuadForm(F, d))
      al  == Dot(dl, MatVec(F, d)) // nd
      mag == One ++ (LogLikeMag(D, om) ++ Penalty(D, o, prev))
      bm  == Sum([j \in 1..D.p |-> F[j][j] ** ((prev[j] ** prev[j]) ++ (nxt[j] ** nxt[j]))])
      \* squared rounding noise of a step in the metric F
      e2  == Eps(D) ** Eps(D)
      nz  == (e2 ** (RInt(1000000) ** (c ** (One ++ (bm ++ mag)))))
      rs  == Sd(D, "1e-3", "1e-5")
      near(a) == LET r == VSub(dl, VScale(a, d)) IN RAbs(QuadForm(F, r)) \preceq (nz ++ ((rs ** rs) ** (nd ** RMax(One, a ** a))))
      ltol == Sd(D, "1e-5", "1e-13") ** mag
      full == VAdd(prev, d)
      lfull == IF Feasible(D, full) /\ Tame(D, Omega(D, full)) THEN Obj(D, o, full) ELSE RDec("-Infinity")
      steady == Tame(D, om) /\ AllFinite(d2) /\ (RAbs(QuadForm(F, VSub(d, d2))) \preceq (RDec("0.01") ** ((rs ** rs) ** nd)))
  IN IF ~RFinite(c) \/ ~(c \prec RDec(IF D.sgl THEN "3e3" ELSE "1e9")) \/ ~RFinite(nd) \/ ~steady THEN TRUE
     ELSE \/ near(One)
          \/ /\ near(al)
             \* a fraction (or extrapolation) of the step: a strict improvement, and the full step was none
             /\ (lp -- ltol) \prec ln
             /\ RFinite(lfull) => (lfull \preceq (lp ++ ltol))
          \/ \* indistinguishable from no step at all within rounding
             RAbs(QuadForm(F, dl)) \preceq nz
C04Stop(D, e, o, hist, hl) ==
  LET b    == e.res
      om   == Omega(D, b)
      mag  == One ++ (LogLikeMag(D, om) ++ Penalty(D, o, b))
      obj  == Obj(D, o, b)
      n    == Len(hist)
      tol  == e.tol
      bi   == Internal(D, hist[n])
      small == IF n < 2 THEN ~e.hasinit   \* the default start is not recorded
               ELSE
               LET pi == Internal(D, hist[n-1])
                   df == VSub(bi, pi)
               IN /\ RAbs(hl[n] -- hl[n-1]) \preceq ((RDec("1.000001") ** (tol ** RInt(D.n))) ++ (RInt(100) ** (Eps(D) ** mag)))
                  \* the rule tests the full step; an accepted fraction of it is smaller
                  /\ Norm2Sq(df) \preceq ((RDec("1.001") ** ((RInt(D.p) ++ Norm2Sq(bi)) ** (tol ** tol))) ++
                                          ((Eps(D) ** Eps(D)) ** (RInt(10000) ** (One ++ Sum([j \in 1..D.p |-> LET z == IF D.icpt /\ j > 1 THEN (RAbs(D.xmean[j-1]) ++ D.scale[j]) ** b[j] ELSE b[j] IN z ** z])))))
      d    == IrlsStepFrom(D, o, b)
      F    == Fisher(D, o, b)
      \* no multiple of the step that still moves the coefficients beyond the tolerance improves
      di   == VSub(Internal(D, VAdd(b, d)), bi)
      moves(x) == ((RDec("1.2") ** (tol ** tol)) ** (RInt(D.p) ++ Norm2Sq(bi))) \prec ((x ** x) ** Norm2Sq(di))
      flat == \A t \in 0..25 : LET a == VAdd(b, VScale(Golden(t), d)) IN
                 (moves(Golden(t)) /\ Feasible(D, a)) => (Obj(D, o, a) \preceq (obj ++ (Sd(D, "1e-5", "1e-13") ** mag)))
      d2   == MSolve(MAdd(F, Gram(D.X, VScale(Eps(D), D.wf), D.p)), Score(D, o, b))
      steady == Tame(D, om) /\ AllFinite(d2) /\ (RAbs(QuadForm(F, VSub(d, d2))) \preceq (RDec("1e-4") ** RAbs(QuadForm(F, d))))
  IN small \/ flat \/ ~AllFinite(d) \/ ~steady
(* the step taken from prev was within the tolerance, with room to spare *)
C04Done(D, e, o, prev, lp) ==
  LET d  == IrlsStepFrom(D, o, prev)
      full == VAdd(prev, d)
      bi == Internal(D, prev)
      di == VSub(Internal(D, full), bi)
      mag == One ++ (LogLikeMag(D, Omega(D, prev)) ++ Penalty(D, o, prev))
      room == RDec("0.3") ** e.tol
  IN /\ AllFinite(d) /\ Feasible(D, full) /\ Tame(D, Omega(D, full))
     /\ (RAbs(Obj(D, o, full) -- lp) ++ (RInt(1000) ** (Eps(D) ** mag))) \preceq (room ** RInt(D.n))
     /\ Norm2Sq(di) \preceq ((room ** room) ** (RInt(D.p) ++ (Half ** Norm2Sq(bi))))
C04(ev, l, D) ==
  LET e == ev[l]
      o == OptOf(e)
      full == Len(e.hb) = e.hn
      hist == (IF e.hasinit THEN <<e.init>> ELSE <<>>) \o e.hb
      li   == IF e.hasinit /\ Feasible(D, e.init) THEN <<Obj(D, o, e.init)>> ELSE IF e.hasinit THEN <<RDec("-Infinity")>> ELSE <<>>
      hl   == li \o e.hl
      usable(t) == Feasible(D, hist[t]) /\ RFinite(hl[t])
      mono(t) == LET mag == One ++ (LogLikeMag(D, Omega(D, hist[t])) ++ Penalty(D, o, hist[t])) IN
                 (hl[t] -- (Sd(D, "2e-5", "2e-13") ** mag)) \preceq hl[t + 1]
      \* earlier fits of the same model from the same start: one history is a prefix of the other
      peers == {i \in SameModel(ev, l) : /\ NoL1(ev[i]) /\ REq(ev[i].l2, e.l2) /\ ev[i].hasinit = e.hasinit /\ ev[i].init = e.init
                                         /\ Len(ev[i].hb) = ev[i].hn /\ ev[i].out \in {"ok", "err"} /\ (ev[i].out = "err" => ev[i].err = "MaxIter")}
      min(a, c) == IF a < c THEN a ELSE c
  IN IF ~(NoL1(e) /\ full /\ (e.out = "ok" \/ (e.out = "err" /\ e.err = "MaxIter"))) THEN {} ELSE
     Chk("C04.step", \A t \in 1..(Len(hist) - 1) : (usable(t) /\ usable(t+1)) => C04Step(D, o, hist[t], hl[t], hist[t+1], hl[t+1]))
     \cup Chk("C04.monotone", \A t \in 1..(Len(hist) - 1) : (usable(t) /\ usable(t+1)) => mono(t))
     \cup Chk("C04.start", (Len(hist) > 0 /\ e.out = "ok" /\ usable(1) /\ RFinite(e.like)) => (hl[1] -- (Sd(D, "2e-5", "2e-13") ** (One ++ LogLikeMag(D, Omega(D, hist[1]))))) \preceq e.like)
     \cup Chk("C04.stop", (e.out = "ok" /\ Feasible(D, e.res) /\ Len(hist) > 0 /\ RFinite(CondEq(Fisher(D, o, e.res))) /\ (CondEq(Fisher(D, o, e.res)) \prec RDec(IF D.sgl THEN "3e3" ELSE "1e9"))) => C04Stop(D, e, o, hist, hl))
     \cup Chk("C04.prompt", (Sd(D, "3e-4", "1e-7") \preceq e.tol) => \A t \in 1..(Len(hist) - 2) : usable(t) => ~C04Done(D, e, o, hist[t], hl[t]))
     \cup Chk("C04.prefix", \A i \in peers : LET p == ev[i] IN
            \A t \in 1..min(p.hn, e.hn) :
              /\ RClose(p.hl[t], e.hl[t], Sd(D, "1e-4", "1e-10"), Sd(D, "1e-4", "1e-10"))
              /\ \/ VCloseN(p.hb[t], e.hb[t], Sd(D, "1e-2", "1e-8"), Zero)
                 \/ ~Feasible(D, p.hb[t])
                 \* along a direction without information only the likelihood is determined
                 \/ RAbs(QuadForm(Fisher(D, o, p.hb[t]), VSub(p.hb[t], e.hb[t]))) \preceq Sd(D, "1e-4", "1e-9"))
     \cup Chk("C04.truncates", \A i \in peers : LET p == ev[i] IN
            Truncates(p, e, IF p.tol \prec e.tol THEN -1 ELSE IF e.tol \prec p.tol THEN 1 ELSE 0))
----------------------------------------------------------------------------
(* C05 *)
C05(s, ev, l, D) ==
  LET e == ev[l]
      o == OptOf(e)
      starts == {i \in SameModel(ev, l) : OkRes(ev[i]) /\ e.hasinit /\ ev[i].res = e.init /\ REq(ev[i].l1, e.l1) /\ REq(ev[i].l2, e.l2) /\ DefaultTol(D, ev[i])}
  IN Chk("C05.returns", e.out \in {"ok", "err"})
     \cup Chk("C05.error_kind", e.out = "err" => e.err \in {"MaxIter", "Linalg", "BadInput"})
     \cup Chk("C05.iterations", /\ e.out = "ok" => e.n_iter <= e.max_iter /\ e.hn <= e.max_iter
                               /\ (e.out = "err" /\ e.err = "MaxIter") => e.hn <= e.max_iter + 1)
     \cup Chk("C05.finite", e.out = "ok" => AllFinite(e.res) /\ RFinite(e.like))
     \cup Chk("C05.succeeds", (WellPosed(s) /\ UsualLink(D) /\ NoL1(e) /\ ~e.hasinit /\ DefaultTol(D, e) /\ e.max_iter >= 128) => e.out = "ok")
     \cup (IF e.out = "ok" /\ NoL1(e) /\ starts # {} /\ Feasible(D, e.init) THEN
             LET b == e.init
                 dd == VSub(e.res, b)
                 F == Fisher(D, o, b)
                 mag == One ++ LogLikeMag(D, Omega(D, b))
                 near(v) == LET dv == VSub(v, b) IN RAbs(QuadForm(F, dv)) \preceq (Sd(D, "1e-2", "1e-9") ** mag)
             IN Chk("C05.optimum_kept", near(e.res) /\ ((Len(e.hb) = e.hn /\ e.hn > 0) => near(e.hb[1])))
           ELSE {})
----------------------------------------------------------------------------
(* C20: against every earlier fit of the same model *)
C20(ev, l, D) ==
  LET e == ev[l]
      pc(x) == PenCoef(D, x.res)
      n1(x) == Norm1(pc(x))
      n2(x) == Norm2Sq(pc(x))
      ll(x) == LogLike(D, x.res)
      mag(x) == One ++ LogLikeMag(D, Omega(D, x.res))
      okf(x) == OkRes(x) /\ DefaultTol(D, x) /\ Feasible(D, x.res) /\ ~AtEdge(D, Omega(D, x.res))
      peers == {i \in SameModel(ev, l) : okf(ev[i])}
      eN(x) == Sd(D, "2e-2", "2e-5")
      \* a fit with penalties (l1,l2) maximises ll - l1*n1 - l2/2*n2
      le1(a, c) == REq(a.l1, c.l1) /\ (a.l2 \prec c.l2)      \* only l2 grows from a to c
      le2(a, c) == REq(a.l2, c.l2) /\ (a.l1 \prec c.l1)
      lltol(a, c) == Sd(D, "1e-3", "1e-7") ** (mag(a) ++ mag(c))
      mono(a, c) == Falls(le2(a, c), le1(a, c), IF le1(a, c) THEN REq(a.l1, Zero) ELSE REq(a.l2, Zero),
                          n1(c) \preceq ((n1(a) ** (One ++ eN(a))) ++ eN(a)),
                          n2(c) \preceq ((n2(a) ** (One ++ eN(a))) ++ (eN(a) ** eN(a))),
                          ll(c) \preceq (ll(a) ++ lltol(a, c)))
      same(a, c) == (REq(a.l1, c.l1) /\ REq(a.l2, c.l2)) =>
             LET F == Fisher(D, OptOf(a), a.res)
                 dd == VSub(a.res, c.res) IN
             RAbs(QuadForm(F, dd)) \preceq (Sd(D, "3e-2", IF NoL1(e) THEN "1e-9" ELSE "1e-5") ** mag(a))
      F0 == FisherDataOm(D, Omega(D, NullCoef(D)))
      \* a penalty that dwarfs what the data have to say about the coefficients
      vast == /\ NullDefined(D) /\ RDec("1e8") \preceq (e.l1 ++ e.l2)
              /\ LET g == ScoreDataOm(D, Omega(D, NullCoef(D)))
                 IN (RDec("1e5") ** (One ++ VMaxAbs([j \in 1..D.p |-> g[j] // D.scale[j]]))) \preceq (e.l1 ++ e.l2)
      limit == D.icpt /\ vast
      \* differences of likelihoods below this are lost in rounding
      lost == RSqrt(RInt(100) ** (Eps(D) ** mag(e)))
      bi == Internal(D, e.res)
  IN IF ~okf(e) \/ ~Concave(D) THEN {} ELSE
     Chk("C20.monotone", \A i \in peers : mono(ev[i], e) /\ mono(e, ev[i]))
     \cup Chk("C20.same", \A i \in peers : same(ev[i], e))
     \cup Chk("C20.limit", vast => \A j \in 1..D.p : (D.icpt /\ j = 1) \/ RAbs(PenCoef(D, e.res)[j]) \preceq Sd(D, "1e-3", "1e-4"))
     \cup Chk("C20.null_intercept", limit => LET nc == NullCoef(D) IN
          RAbs(e.res[1] ++ Sum([j \in 1..D.k |-> D.xmean[j] ** e.res[j+1]]) -- nc[1]) ** RSqrt(F0[1][1]) \preceq Sd(D, "5e-2", "2e-3"))
     \cup Chk("C20.intercept_free", (D.icpt /\ NoL1(e)) => RAbs(Score(D, NoPen, e.res)[1]) \preceq (RMax(lost, Sd(D, "1e-2", "1e-5")) ** RSqrt(One ++ FisherData(D, e.res)[1][1])))
=============================================================================
