-------------------------------- MODULE Glm --------------------------------
(***************************************************************************)
(* Generalised linear models as mathematics: what a data set, a model and  *)
(* a penalised objective mean, on the user's (external) scale.             *)
(***************************************************************************)
EXTENDS Families, FiniteSets

SetMin(S) == CHOOSE a \in S : \A c \in S : a <= c

(* ev: the raw description of a model (as given by the user).  The result    *)
(* carries the design with the ones column, total weights, and the scale of  *)
(* every coefficient: penalties act on scale[j]*b[j].                        *)
DataOf(ev) ==
  LET n     == ev.n
      k     == ev.k
      ones  == VConst(n, One)
      w     == IF ev.hasw THEN ev.w ELSE ones
      f     == IF ev.hasf THEN ev.f ELSE ones
      wf    == TLCEval(VMul(w, f))
      sumw  == Sum(wf)
      sumf  == Sum(f)
      neff  == IF ev.hasw THEN (sumw ** sumw) // Dot(f, VMul(w, w)) ELSE sumf
      live  == {i \in 1..n : Zero \prec wf[i]}
      col(j)  == TLCEval([i \in 1..n |-> ev.x[i][j]])
      mean(j) == Dot(wf, col(j)) // sumw
      var(j)  == LET c == col(j)
                     m == mean(j)
                 IN (Dot(wf, VMap(LAMBDA a : (a -- m) ** (a -- m), c)) // sumw) ** (neff // (neff -- One))
      const(j) == \A i \in live : REq(ev.x[i][j], ev.x[SetMin(live)][j])
      scale(j) == IF ~ev.std \/ n <= 1 \/ const(j) \/ ~(One \prec neff) THEN One ELSE RSqrt(var(j))
      pad   == IF ev.icpt THEN <<One>> ELSE <<>>
  IN [ fam |-> ev.fam, link |-> ev.link, N |-> ev.N, n |-> n, k |-> k, p |-> k + Len(pad),
       icpt |-> ev.icpt, std |-> ev.std, y |-> ev.y, x |-> ev.x,
       X |-> TLCEval([i \in 1..n |-> pad \o ev.x[i]]),
       off |-> IF ev.hasoff THEN ev.off ELSE VConst(n, Zero), hasoff |-> ev.hasoff,
       w |-> w, hasw |-> ev.hasw, f |-> f, hasf |-> ev.hasf, wf |-> wf, live |-> live,
       sumw |-> sumw, sumf |-> sumf, neff |-> neff,
       scale |-> TLCEval(pad \o [j \in 1..k |-> scale(j)]),
       xmean |-> TLCEval([j \in 1..k |-> mean(j)]),
       sgl |-> ev.dtype = "f32" ]

Pad(D) == IF D.icpt THEN 1 ELSE 0
(* machine precision of the model's floating type *)
Eps(D) == IF D.sgl THEN RDec("1.2e-7") ELSE RDec("2.3e-16")

Omega(D, b) == VAdd(MatVec(D.X, b), D.off)
MeanAt(D, om) == VMap(LAMBDA o : MeanOf(D.fam, D.N, D.link, o), om)
DNatAt(D, om) == VMap(LAMBDA o : DNatOf(D.fam, D.link, o), om)
VarAt(D, mu)  == VMap(LAMBDA m : Variance(D.fam, D.N, m), mu)
LLTerms(D, om) == VMap2(LAMBDA y, o : LogLike1(D.fam, D.N, D.link, y, o), D.y, om)
(* rows of zero total weight do not count, whatever their value *)
WSum(D, t) == Sum([i \in 1..D.n |-> IF i \in D.live THEN D.wf[i] ** t[i] ELSE Zero])
FSum(D, t) == Sum([i \in 1..D.n |-> IF i \in D.live THEN D.f[i] ** t[i] ELSE Zero])
MuValid(D, om) == \A i \in D.live : OmegaValid(D.fam, D.link, om[i])

LogLikeOm(D, om) == WSum(D, LLTerms(D, om))
LogLike(D, b) == LogLikeOm(D, Omega(D, b))
(* magnitude of the summed terms, for rounding allowances *)
LogLikeMag(D, om) == WSum(D, VMap(RAbs, LLTerms(D, om)))

(* penalised coefficients on the internal scale, zero at the intercept *)
PenCoef(D, b) == TLCEval([j \in 1..D.p |-> IF D.icpt /\ j = 1 THEN Zero ELSE D.scale[j] ** b[j]])
Norm1(v) == Sum(VMap(RAbs, v))
Norm2Sq(v) == Dot(v, v)
Penalty(D, o, b) == LET c == PenCoef(D, b) IN (o.l1 ** Norm1(c)) ++ (o.l2 ** (Half ** Norm2Sq(c)))
Obj(D, o, b) == LogLike(D, b) -- Penalty(D, o, b)

(* gradient of the log-likelihood, of the penalised one, and curvatures (external scale) *)
ScoreDataOm(D, om) ==
  LET mu == MeanAt(D, om)
      d1 == DNatAt(D, om)
      t  == [i \in 1..D.n |-> IF i \in D.live THEN D.wf[i] ** (d1[i] ** (D.y[i] -- mu[i])) ELSE Zero]
  IN TMatVec(D.X, t, D.p)
PenGrad(D, o, b) ==
  LET c == PenCoef(D, b)
  IN TLCEval([j \in 1..D.p |-> IF D.icpt /\ j = 1 THEN Zero
        ELSE D.scale[j] ** ((o.l1 ** RSign(c[j])) ++ (o.l2 ** c[j]))])
Score(D, o, b) == VSub(ScoreDataOm(D, Omega(D, b)), PenGrad(D, o, b))
FisherDataOm(D, om) ==
  LET mu == MeanAt(D, om)
      d1 == DNatAt(D, om)
      V  == VarAt(D, mu)
      t  == [i \in 1..D.n |-> IF i \in D.live THEN D.wf[i] ** (V[i] ** (d1[i] ** d1[i])) ELSE Zero]
  IN Gram(D.X, t, D.p)
PenHess(D, o) == MDiag([j \in 1..D.p |-> IF D.icpt /\ j = 1 THEN Zero ELSE o.l2 ** (D.scale[j] ** D.scale[j])])
FisherData(D, b) == FisherDataOm(D, Omega(D, b))
Fisher(D, o, b) == MAdd(FisherData(D, b), PenHess(D, o))

(* squared Newton decrement g' F^-1 g: twice the attainable gain of a locally quadratic objective *)
Decrement2(D, o, b) ==
  LET g == Score(D, o, b)
  IN RAbs(Dot(g, MSolve(Fisher(D, o, b), g)))

(* Fisher-scoring step from b *)
IrlsStepFrom(D, o, b) == MSolve(Fisher(D, o, b), Score(D, o, b))

NoPen == [l1 |-> Zero, l2 |-> Zero]

----------------------------------------------------------------------------
(* Null model: all but the intercept zero, intercept unpenalised.            *)
Unit1(D, c) == TLCEval([j \in 1..D.p |-> IF j = 1 THEN c ELSE Zero])
YBar(D) == WSum(D, D.y) // D.sumw
InteriorMean(D, m) ==
  CASE D.fam = "linear" -> TRUE
    [] D.fam = "logistic" -> Zero \prec m /\ m \prec One
    [] D.fam = "binomial" -> Zero \prec m /\ m \prec RInt(D.N)
    [] OTHER -> Zero \prec m
RECURSIVE NullIter(_, _, _), Halve(_, _, _, _, _)
(* largest halved step that stays valid and does not decrease the likelihood *)
Halve(D, c, d, l0, t) ==
  LET om == VMap(LAMBDA o : o ++ (c ++ d), D.off)
  IN IF t = 0 THEN Zero
     ELSE IF MuValid(D, om) /\ l0 \preceq LogLikeOm(D, om) THEN d
     ELSE Halve(D, c, Half ** d, l0, t - 1)
NullIter(D, c, t) ==
  LET om == VMap(LAMBDA o : o ++ c, D.off)
      mu == MeanAt(D, om)
      d1 == DNatAt(D, om)
      V  == VarAt(D, mu)
      g  == WSum(D, VMul(d1, VSub(D.y, mu)))
      h  == WSum(D, VMul(V, VMul(d1, d1)))
      d  == Halve(D, c, g // h, LogLikeOm(D, om), 30)
  IN IF t = 0 \/ ~RFinite(d) \/ RAbs(d) \preceq (RDec("1e-14") ** (One ++ RAbs(c))) THEN c ELSE NullIter(D, c ++ d, t - 1)
(* a starting intercept with every mean valid *)
NullStart(D) ==
  LET g0 == LinkOf(D.fam, D.N, D.link, YBar(D))
      mxo == -1
      offs == {D.off[i] : i \in D.live}
      big == CHOOSE a \in offs : \A c \in offs : c \preceq a
      sml == CHOOSE a \in offs : \A c \in offs : a \preceq c
  IN IF MuValid(D, VMap(LAMBDA o : o ++ g0, D.off)) THEN g0
     ELSE IF D.link = "sqrt" THEN g0 -- sml ELSE g0 -- big
NullDefined(D) ==
  /\ D.live # {}
  /\ IF D.icpt THEN InteriorMean(D, YBar(D)) /\ (D.hasoff => MuValid(D, VMap(LAMBDA o : o ++ NullStart(D), D.off)))
     ELSE MuValid(D, D.off)
(* with an offset, these links give the null model several optima *)
NullUnique(D) == NullDefined(D) /\ ~(D.icpt /\ D.hasoff /\ D.link \in {"cube", "slinh"})
(* with offsets, the best of several starting intercepts: in flat regions the iteration would not move *)
NullBest(D) ==
  LET g0 == LinkOf(D.fam, D.N, D.link, YBar(D))
      at(c) == VMap(LAMBDA o : o ++ c, D.off)
      cand == {c \in ({NullStart(D), g0} \cup {g0 -- D.off[i] : i \in D.live}) : MuValid(D, at(c)) /\ RFinite(LogLikeOm(D, at(c)))}
  IN IF cand = {} THEN NullStart(D) ELSE CHOOSE c \in cand : \A a \in cand : LogLikeOm(D, at(a)) \preceq LogLikeOm(D, at(c))
NullCoef(D) == IF ~D.icpt THEN VConst(D.p, Zero)
               ELSE IF ~D.hasoff THEN Unit1(D, LinkOf(D.fam, D.N, D.link, YBar(D)))
               ELSE Unit1(D, NullIter(D, NullBest(D), 60))
=============================================================================
