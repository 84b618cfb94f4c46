------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* Everything a fit reports, as documented, as a function of the data D,   *)
(* the penalties o, and the coefficients b (external scale).               *)
(***************************************************************************)
EXTENDS Glm

(* how much rounding of a mean near its upper bound is amplified in the variance *)
Satur(D, mu) ==
  LET top  == CASE D.fam = "logistic" -> One [] D.fam = "binomial" -> RInt(D.N) [] OTHER -> Zero
  IN VMaxAbs([i \in 1..D.n |-> IF i \in D.live /\ Zero \prec top THEN top // RAbs(top -- mu[i]) ELSE One])
StatsOf(D, o, b) ==
  LET om   == TLCEval(Omega(D, b))
      mu   == MeanAt(D, om)
      d1   == DNatAt(D, om)
      V    == VarAt(D, mu)
      e    == TLCEval(VSub(D.y, mu))
      ll   == LLTerms(D, om)
      lsat == VMap(LAMBDA y : LogLikeSat(D.fam, D.N, y), D.y)
      dt   == TLCEval([i \in 1..D.n |-> RMax(Zero, Two ** (D.w[i] ** (lsat[i] -- ll[i])))])
      dev  == FSum(D, dt)
      p    == RInt(D.p)
      phi  == IF Dispersed(D.fam) THEN dev // ((One -- (p // D.neff)) ** D.sumw) ELSE One
      fd   == FisherDataOm(D, om)
      fr   == MAdd(fd, PenHess(D, o))
      fri  == MInv(fr)
      lft  == TLCEval([i \in 1..D.n |-> VScale(V[i] ** d1[i], D.X[i])])
      rgt  == TLCEval([i \in 1..D.n |-> VScale(IF i \in D.live THEN d1[i] ** D.wf[i] ELSE Zero, D.X[i])])
      lf   == MatMul(lft, fri)
      hat  == TLCEval([i \in 1..D.n |-> MatVec(rgt, lf[i])])
      h    == Diag(hat)
      pear == TLCEval([i \in 1..D.n |-> e[i] ** RSqrt(D.w[i] // V[i])])
      cov  == MScale(phi, MatMul(MatMul(fri, fd), fri))
      xb   == TLCEval([i \in 1..D.n |-> RAbs(D.off[i]) ++ Sum(VMap(RAbs, VMul(D.X[i], b)))])
      \* links whose derivatives run to zero or infinity where the linear predictor vanishes
      sat  == Satur(D, mu) ++ (IF D.link \in {"sqrt", "cube", "negrec", "negrecsq"} THEN VMaxAbs([i \in 1..D.n |-> IF i \in D.live /\ Zero \prec xb[i] THEN xb[i] // RAbs(om[i]) ELSE Zero]) ELSE Zero)
      \* how much rounding of the means (and of the sums behind them) is amplified in the deviance
      mag  == TLCEval([i \in 1..D.n |-> RAbs(D.y[i]) ++ (RAbs(mu[i]) ++ RAbs((V[i] ** d1[i]) ** xb[i]))])
      derr == IF Dispersed(D.fam) /\ Zero \prec dev THEN (WSum(D, [i \in 1..D.n |-> RAbs(e[i]) ** (mag[i] // V[i])]) ++ (RDec("0.2") ** (LogLikeMag(D, om) ++ WSum(D, VMap(RAbs, lsat))))) // dev ELSE Zero
  IN [ om |-> om, mu |-> mu, d1 |-> d1, V |-> V, e |-> e, ll |-> ll, lsat |-> lsat, dt |-> dt, dev |-> dev,
       like |-> WSum(D, ll), obj |-> WSum(D, ll) -- Penalty(D, o, b),
       llmag |-> LogLikeMag(D, om) ++ WSum(D, VMap(RAbs, lsat)), phi |-> phi, fd |-> fd, fr |-> fr, fri |-> fri, cond |-> CondEq(fr), satur |-> sat, derr |-> derr, mag |-> mag,
       hat |-> hat, h |-> h, pear |-> pear, cov |-> cov,
       valid |-> MuValid(D, om) ]

Ndf(D) == D.sumf -- RInt(D.p)
TestNdf(D) == D.p - Pad(D)
SumLogW(D) == IF D.hasw THEN FSum(D, VMap(RLn, D.w)) ELSE Zero
Aic(D, S) == (S.dev ++ (Two ** RInt(D.p))) -- (Two ** SumLogW(D))
Bic(D, S) == ((RInt(D.p) ** RLn(D.sumf)) -- (Two ** S.obj)) -- (Two ** SumLogW(D))
ResidWork(D, S) == TLCEval([i \in 1..D.n |-> S.e[i] // (S.d1[i] ** S.V[i])])
ResidPart(D, S, b) ==
  LET rw == ResidWork(D, S)
      c(j) == IF D.icpt THEN D.xmean[j] ELSE Zero
  IN TLCEval([i \in 1..D.n |-> [j \in 1..D.k |-> rw[i] ++ ((D.x[i][j] -- c(j)) ** b[j + Pad(D)])]])
Standardised(D, S, v) == TLCEval([i \in 1..D.n |-> v[i] // RSqrt(S.phi ** (One -- S.h[i]))])
InflCoef(D, S) == TLCEval([i \in 1..D.n |->
     VScale(IF i \in D.live THEN (S.d1[i] ** (S.e[i] ** D.wf[i])) // (One -- S.h[i]) ELSE Zero, MatVec(S.fri, D.X[i]))])
Cooks(D, S) == TLCEval([i \in 1..D.n |->
     (S.pear[i] ** (S.pear[i] ** S.h[i])) // ((RInt(D.p) ** S.phi) ** ((One -- S.h[i]) ** (One -- S.h[i])))])
(* one-step leave-one-out deviance term and dispersion *)
DevLoo(D, S) == TLCEval([i \in 1..D.n |->
     LET r == S.h[i] // (One -- S.h[i]) IN S.dt[i] ++ ((r ** (r ++ Two)) ** (S.pear[i] ** S.pear[i]))])
DispLoo(D, S) == TLCEval([i \in 1..D.n |->
     LET r   == S.h[i] // (One -- S.h[i])
         t   == IF i \in D.live THEN D.f[i] ** (S.dt[i] ++ (r ** (S.pear[i] ** S.pear[i]))) ELSE Zero
         v1  == D.sumw -- D.wf[i]
         v2  == Dot(D.f, VMul(D.w, D.w)) -- (D.f[i] ** (D.w[i] ** D.w[i]))
         den == IF D.hasw THEN v1 -- ((v2 // v1) ** RInt(D.p))
                ELSE IF D.hasf THEN Ndf(D) -- D.f[i] ELSE Ndf(D) -- One
     IN IF Dispersed(D.fam) THEN (S.dev -- t) // den ELSE One])
(* squares of the studentised residuals *)
Student2(D, S) == VDiv(DevLoo(D, S), DispLoo(D, S))
WaldZ2(D, S, b) == TLCEval([j \in 1..D.p |-> (b[j] ** b[j]) // S.cov[j][j]])
Rss(D, S) == WSum(D, VMul(S.e, S.e))

QuadForm(A, v) == Dot(v, MatVec(A, v))
NullLike(D) == LogLike(D, NullCoef(D))
LrTest(D, S) == Two ** (S.obj -- NullLike(D))
LrAgainst(D, o, S, a) == Two ** (S.obj -- Obj(D, o, a))
WaldAgainst(D, o, b, a) == QuadForm(Fisher(D, o, a), VSub(b, a))
ScoreAgainst(D, o, a) == LET g == Score(D, o, a) IN Dot(g, MSolve(Fisher(D, o, a), g))
NullDeviance(D) == Two ** (WSum(D, VMap(LAMBDA y : LogLikeSat(D.fam, D.N, y), D.y)) -- NullLike(D))
RSq(D, S) == One -- (S.dev // NullDeviance(D))

PWald(D, z) == IF Dispersed(D.fam) THEN TSf2(z, Ndf(D)) ELSE Two ** NormSf(RAbs(z))
PLr(D, lr) == IF TestNdf(D) = 0 THEN One ELSE ChiSqSf(lr, RInt(TestNdf(D)))
PExact(D, S, devred) == LET d == devred -- S.dev
   IN IF Dispersed(D.fam) THEN FSf(d // S.phi, One, Ndf(D)) ELSE ChiSqSf(d, One)
Quantile(D, S, i) == NormQuantile(ResponseCdf(D.fam, D.y[i], S.mu[i], S.phi // D.w[i]))
PredictAt(D, b, X, ho, off) ==
  TLCEval([i \in DOMAIN X |-> MeanOf(D.fam, D.N, D.link,
     Dot((IF D.icpt THEN <<One>> ELSE <<>>) \o X[i], b) ++ (IF ho THEN off[i] ELSE Zero))])
=============================================================================
