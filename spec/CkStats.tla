------------------------------ MODULE CkStats ------------------------------
(***************************************************************************)
(* C12-C18, C21: what queries of a fit must answer, given the data and the *)
(* reported coefficients.                                                  *)
(***************************************************************************)
EXTENDS Base

(* one query entry en against the specification; D, o, b, S describe the fit.  *)
(* every operator yields the set of violated clauses                           *)
Finite(v) == RFinite(v)
SClose(a, b, r, t) == RClose(a, b, r, t)
Live(D, i) == i \in D.live
(* vector of per-observation values, relative to each entry with absolute slack at *)
ObsClose(D, u, v, r, at) == /\ Len(v) = D.n
                            /\ \A i \in 1..D.n : Live(D, i) => RClose(u[i], v[i], r, at)
ObsVal(D, v) == Len(v) = D.n
(* amplification of rounding in 1 - h *)
Amp(S, i) == RMax(One, One // RMax(RDec("1e-12"), One -- S.h[i]))
LevOk(D, S, i) == TolF(D, S) ** (Amp(S, i) ** Amp(S, i)) \prec RDec("0.02")

(* size of the operands of y - mu, and what rounding of the linear predictor adds to it *)
EScale(D, S, i) == RAbs(D.y[i]) ++ (RAbs(S.mu[i]) ++ (RDec("1e-300") ++ (Sd(D, "0.05", "2e-5") ** S.mag[i])))

ChkC12(D, o, b, S, en, unpen, tight) ==
  LET r == TolF(D, S)
      v == en.v
      \* rounding of y - mu relative to the operands
      et(i) == r ** EScale(D, S, i)
      wt(i) == RAbs(One // (S.d1[i] ** S.V[i]))
      pt(i) == RSqrt(D.w[i] // S.V[i])
      dtol(i) == (r ** S.dt[i]) ++ (Sd(D, "2e-5", "1e-12") ** (D.w[i] ** (One ++ (RAbs(S.ll[i]) ++ RAbs(S.lsat[i])))))
      all(P(_)) == Len(v) = D.n /\ \A i \in D.live : P(i)
  IN
  CASE en.q = "resid_resp" -> Chk("C12.resp", all(LAMBDA i : RClose(S.e[i], v[i], r, et(i))))
    [] en.q = "resid_pear" -> Chk("C12.pear", all(LAMBDA i : RClose(S.pear[i], v[i], r, et(i) ** pt(i))))
    [] en.q = "resid_work" -> Chk("C12.work", all(LAMBDA i : REq(S.d1[i], Zero) \/ RClose(ResidWork(D, S)[i], v[i], r, et(i) ** wt(i))))
    [] en.q = "resid_dev" ->
         Chk("C12.dev", all(LAMBDA i : RAbs((v[i] ** v[i]) -- S.dt[i]) \preceq dtol(i)))
         \cup Chk("C12.dev_sign", all(LAMBDA i : (et(i) \prec RAbs(S.e[i])) => (Zero \preceq (v[i] ** S.e[i]))))
         \cup Chk("C12.dev_sum", RAbs(FSum(D, VMul(v, v)) -- S.dev) \preceq ((r ** S.dev) ++ TolL(D, S.llmag)))
    [] en.q = "resid_part" ->
         LET rp == ResidPart(D, S, b)
             sc(i, j) == (et(i) ** wt(i)) ++ (r ** ((RAbs(D.x[i][j]) ++ (IF D.icpt THEN RAbs(D.xmean[j]) ELSE Zero)) ** RAbs(b[j + Pad(D)])))
         IN Chk("C12.part", Len(v) = D.n /\ \A i \in D.live : Len(v[i]) = D.k /\ \A j \in 1..D.k : REq(S.d1[i], Zero) \/ RClose(rp[i][j], v[i][j], r, sc(i, j)))
            \cup Chk("C12.part_mean", (D.icpt /\ unpen /\ tight /\ D.fam = "linear" /\ D.link = "id") =>
                 \A j \in 1..D.k : LET c == [i \in 1..D.n |-> v[i][j]] IN
                    RAbs(WSum(D, c)) \preceq (Sd(D, "1e-3", "1e-7") ** (RDec("1e-300") ++ WSum(D, [i \in 1..D.n |-> RAbs(c[i]) ++ (EScale(D, S, i) ++ RAbs(D.xmean[j] ** b[j + 1]))]))))
    [] en.q \in {"resid_pear_std", "resid_dev_std"} ->
         LET raw == IF en.q = "resid_pear_std" THEN S.pear ELSE VMap(RSqrt, S.dt)
         IN Chk("C12." \o en.q, all(LAMBDA i : LevOk(D, S, i) =>
              LET q2 == v[i] ** v[i]
                  den == S.phi ** (One -- S.h[i])
                  t == IF en.q = "resid_dev_std" THEN dtol(i) ELSE (r ** (raw[i] ** raw[i])) ++ (Two ** ((et(i) ** pt(i)) ** (RAbs(raw[i]) ++ (et(i) ** pt(i)))))
              IN /\ RAbs((q2 ** den) -- (raw[i] ** raw[i])) \preceq (t ++ (RInt(4) ** (r ** (Amp(S, i) ** (raw[i] ** raw[i])))))
                 /\ (et(i) \prec RAbs(S.e[i])) => (Zero \preceq (v[i] ** S.e[i]))))
    [] en.q = "resid_student" ->
         LET dl == DispLoo(D, S)
             num == DevLoo(D, S)
         IN Chk("C12.student", all(LAMBDA i : (LevOk(D, S, i) /\ (RDec("1e-6") ** S.phi) \prec RAbs(dl[i])) =>
              IF dl[i] \prec Zero THEN TRUE ELSE
              LET amp == Amp(S, i) ** (One ++ (S.phi // dl[i])) IN
              /\ RAbs(((v[i] ** v[i]) ** dl[i]) -- num[i]) \preceq
                   (RInt(6) ** (amp ** (amp ** (dtol(i) ++ (r ** (num[i] ++ S.pear[i] ** S.pear[i]))))))
              /\ (et(i) \prec RAbs(S.e[i])) => (Zero \preceq (v[i] ** S.e[i]))))
    [] OTHER -> {}

(* entries relative to products of scales *)
MatScaled(u, v, sc1, sc2, tol) ==
  /\ Len(u) = Len(v)
  /\ \A i \in DOMAIN u : Len(u[i]) = Len(v[i]) /\ \A j \in DOMAIN u[i] : RAbs(u[i][j] -- v[i][j]) \preceq (tol ** (sc1[i] ** sc2[j]))
SqrtDiag(A) == VMap(LAMBDA a : RSqrt(RAbs(a)), Diag(A))

ChkC13(D, o, b, S, en, unpen, tight) ==
  LET r == TolF(D, S)
      v == en.v
  IN
  CASE en.q = "leverage" ->
         Chk("C13.leverage", ObsClose(D, S.h, v, r, RInt(10) ** r))
         \cup Chk("C13.lev_range", \A i \in 1..D.n : (RNeg(RInt(10) ** r) \preceq v[i]) /\ (v[i] \preceq (One ++ (RInt(10) ** r))))
         \cup Chk("C13.lev_sum", IF unpen THEN RClose(Sum(v), RInt(D.p), RInt(10) ** r, Zero) ELSE Sum(v) \preceq (RInt(D.p) ++ (RInt(100) ** r)))
    [] en.q = "hat" ->
         LET a == VMap(LAMBDA q : RMax(q, RDec("1e-300")), VMap2(LAMBDA V, h : RSqrt(V), S.V, S.h))
             ri == [i \in 1..D.n |-> RSqrt(RMax(S.h[i], r) ** S.V[i])]
             cj == [i \in 1..D.n |-> RSqrt(RMax(S.h[i], r) // S.V[i]) ** RSqrt(RMax(D.wf[i], RDec("1e-12")))]
             wr == [i \in 1..D.n |-> RSqrt(S.V[i])]
             rowsc == [i \in 1..D.n |-> RSqrt(S.V[i] // RMax(D.wf[i], RDec("1e-3")))]
         IN Chk("C13.hat", Len(v) = D.n /\ \A i, j \in D.live : RClose(S.hat[i][j], v[i][j], r,
                   (RInt(20) ** r) ** (RSqrt(S.V[i] // D.wf[i]) ** RSqrt(D.wf[j] // S.V[j]))))
            \cup Chk("C13.hat_resid", (unpen /\ tight /\ ~(D.link = "sqrt" /\ \E i \in D.live : S.om[i] \preceq RDec("0.03"))) =>
                 LET pe == MatVec(v, S.e) IN \A i \in D.live :
                    RAbs(pe[i]) \preceq (RMax(RSqrt(RInt(100) ** (Eps(D) ** S.llmag)), Sd(D, "1e-2", "1e-6")) ** (RSqrt(S.V[i] // D.wf[i]) ** (One ++ RSqrt(WSum(D, VMul(S.pear, S.pear)))))))
    [] en.q = "infl_coef" ->
         LET ic == InflCoef(D, S)
             se == SqrtDiag(S.fri)
         IN Chk("C13.infl", Len(v) = D.n /\ \A i \in D.live : LevOk(D, S, i) => \A j \in 1..D.p :
              RClose(ic[i][j], v[i][j], r, RInt(20) ** (r ** (Amp(S, i) ** (Amp(S, i) ** (se[j] ** ((One ++ RSqrt(S.h[i])) ** (RAbs(S.pear[i]) ++ (RDec("1e-3") ** RSqrt(D.w[i] // S.V[i]) ** EScale(D, S, i))))))))))
    [] en.q = "cooks" ->
         LET ck == Cooks(D, S)
         IN Chk("C13.cooks", Len(v) = D.n /\ \A i \in D.live : LevOk(D, S, i) =>
              RClose(ck[i], v[i], RInt(20) ** (r ** (Amp(S, i) ** Amp(S, i))),
                RInt(20) ** (r ** (Amp(S, i) ** (Amp(S, i) ** ((RSqrt(D.w[i] // S.V[i]) ** EScale(D, S, i)) ** ((RAbs(S.pear[i]) ++ (r ** RSqrt(D.w[i] // S.V[i]) ** EScale(D, S, i))) // S.phi)))))))
    [] OTHER -> {}

ChkC14(D, o, b, S, en, unpen, tight) ==
  LET r == TolF(D, S)
      v == en.v
      a == en.a
  IN
  CASE en.q = "score" ->
         LET om == Omega(D, a)
             g == VSub(ScoreDataOm(D, om), PenGrad(D, o, a))
             mu == MeanAt(D, om)
             d1 == DNatAt(D, om)
             mag(j) == WSum(D, [i \in 1..D.n |-> RAbs((d1[i] ** D.X[i][j]) ** (RAbs(D.y[i]) ++ RAbs(mu[i])))])
             pen == PenGrad(D, o, a)
             \* a penalised coefficient within rounding of zero has either sign
             kink(j) == LET c == PenCoef(D, a)[j] IN RAbs(c) \preceq (RInt(10) ** (Eps(D) ** (One ++ RAbs(c)))) /\ ~REq(c, Zero)
         IN IF ~MuValid(D, om) \/ ~AllFinite(g) THEN {} ELSE
            Chk("C14.score", Len(v) = D.p /\ \A j \in 1..D.p : kink(j) \/
               RClose(g[j], v[j], r, (Sd(D, "2e-5", "1e-11") ** (mag(j) ++ RAbs(pen[j]))) ++ (IF D.icpt /\ j > 1 THEN Sd(D, "2e-5", "1e-11") ** (RAbs(D.xmean[j-1]) ** mag(1)) ELSE Zero)))
    [] en.q = "fisher" ->
         LET om == Omega(D, a)
             F == Fisher(D, o, a)
             sd == SqrtDiag(F)
             st == Satur(D, MeanAt(D, om))
             tf == (RInt(10) ** Sd(D, "2e-5", "1e-11")) ++ (Slack ** (RInt(60) ** (Eps(D) ** st)))
             sc == [j \in 1..D.p |-> RMax(sd[j], IF D.icpt /\ j > 1 THEN RAbs(D.xmean[j-1]) ** sd[1] ELSE Zero)]
         IN IF ~MuValid(D, om) \/ ~AllFinite(sd) \/ ~(tf \prec RDec("0.05")) THEN {} ELSE
            Chk("C14.fisher", MatScaled(F, v, sc, sc, tf))
    [] en.q = "covariance" ->
         LET sd == SqrtDiag(S.cov) IN
         Chk("C14.cov", MatScaled(S.cov, v, sd, sd, RInt(10) ** r))
         \cup Chk("C14.cov_sym", \A i, j \in 1..D.p : RAbs(v[i][j] -- v[j][i]) \preceq (RInt(20) ** (r ** (sd[i] ** sd[j]))))
         \cup Chk("C14.cov_psd", LET sc == [i \in 1..D.p |-> [j \in 1..D.p |-> v[i][j] // (sd[i] ** sd[j])]]
                                IN (\A i \in 1..D.p : Zero \prec sd[i]) => RNeg(RInt(100) ** r) \preceq MinEig(sc))
    [] en.q = "wald_z" ->
         Chk("C14.wald_z", Len(v) = D.p /\ \A j \in 1..D.p :
             RClose(b[j], v[j] ** RSqrt(S.cov[j][j]), RInt(10) ** r, Zero))
    [] OTHER -> {}

Grad(D, o, a) == Score(D, o, a)
ChkC15(D, o, b, S, en, unpen, tight) ==
  LET r == TolF(D, S)
      v == en.v
      nd == NullUnique(D)
      nc == NullCoef(D)
      nl == LogLike(D, nc)
      lt == TolL(D, S.llmag ++ RAbs(nl))
      nt == IF D.hasoff THEN Sd(D, "1e-3", "1e-8") ** (One ++ S.llmag) ELSE lt
      \* the null fit with offsets is only a converged optimum
      stat(A(_), name) == LET x == A(nc) IN
            LET c == CondEq(Fisher(D, o, nc)) IN
            IF ~nd \/ ~RFinite(x) \/ ~(c \prec (RDec("1e-4") // Eps(D))) THEN {}
            ELSE Chk(name, RClose(x, v, (IF D.hasoff THEN Sd(D, "1e-2", "1e-6") ELSE r) ++ (RInt(60) ** (Eps(D) ** c)), (IF D.hasoff THEN Sd(D, "1e-2", "1e-6") ELSE r) ** (One ++ RAbs(S.dev))))
  IN
  CASE en.q = "lr_test" ->
         IF ~nd THEN {} ELSE Chk("C15.lr", RClose(Two ** (S.obj -- nl), v, r, Two ** nt))
           \cup Chk("C15.lr_nonneg", tight => RNeg((Two ** nt) ++ (IF Zero \prec o.l1 THEN Sd(D, "1e-3", "1e-7") ** (One ++ S.llmag) ELSE Zero)) \preceq v)
    [] en.q = "null_like" -> IF ~nd THEN {} ELSE Chk("C15.null_like", RClose(nl, v, Sd(D, "1e-4", "1e-10"), nt))
    [] en.q = "test_ndf" -> Chk("C15.test_ndf", REq(v, RInt(TestNdf(D))))
    [] en.q = "score_test" -> stat(LAMBDA c : ScoreAgainst(D, o, c), "C15.score_test")
    [] en.q = "wald_test" -> stat(LAMBDA c : WaldAgainst(D, o, b, c), "C15.wald_test")
    [] en.q = "lr_against" ->
         LET om == Omega(D, en.a)
             x == LrAgainst(D, o, S, en.a)
         IN IF ~MuValid(D, om) \/ ~RFinite(x) THEN {} ELSE
            Chk("C15.lr_against", RClose(x, v, Sd(D, "1e-4", "1e-10"), Two ** TolL(D, S.llmag ++ LogLikeMag(D, om))))
    [] en.q = "wald_against" ->
         LET x == WaldAgainst(D, o, b, en.a)
             F == Fisher(D, o, en.a)
             db == VSub(b, en.a)
             mag == Sum([j \in 1..D.p |-> F[j][j] ** ((b[j] ** b[j]) ++ (en.a[j] ** en.a[j]))])
         IN IF ~MuValid(D, Omega(D, en.a)) \/ ~RFinite(x) THEN {} ELSE
            Chk("C15.wald_against", RClose(x, v, r, (Eps(D) ** (RInt(200) ** RSqrt(RAbs(x) ** mag))) ++ (Slack ** ((Eps(D) ** (Eps(D) ** RInt(10000))) ** mag))))
    [] en.q = "score_against" ->
         LET x == ScoreAgainst(D, o, en.a)
             c == CondEq(Fisher(D, o, en.a))
         IN IF ~MuValid(D, Omega(D, en.a)) \/ ~RFinite(x) \/ ~(c \prec (RDec("1e-4") // Eps(D))) THEN {} ELSE
            Chk("C15.score_against", RClose(x, v, r ++ (RInt(60) ** (Eps(D) ** c)), Sd(D, "1e-2", "1e-9") ** (One ++ S.dev)))
    [] OTHER -> {}

ChkC16(D, o, b, S, en, unpen, tight) ==
  LET r == TolF(D, S)
      v == en.v
      \* (a logarithm of a mean next to the end of its range is absolutely, not relatively, accurate)
      lt == (Two ** TolL(D, S.llmag)) ++ (RInt(100) ** (Eps(D) ** D.sumw))
  IN
  CASE en.q = "deviance" -> Chk("C16.deviance", RClose(S.dev, v, r, lt)) \cup Chk("C16.dev_nonneg", RNeg(lt) \preceq v)
    [] en.q = "dispersion" -> IF Dispersed(D.fam) /\ D.neff \preceq (RInt(D.p) ++ RDec("1e-3")) THEN {} ELSE
                Chk("C16.dispersion", RClose(S.phi, v, RInt(4) ** (r ** (D.neff // (D.neff -- RInt(D.p)))), IF Dispersed(D.fam) THEN lt // ((One -- (RInt(D.p) // D.neff)) ** D.sumw) ELSE Zero))
    [] en.q = "aic" -> Chk("C16.aic", RClose(Aic(D, S), v, r, lt ++ (r ** RAbs(SumLogW(D)))))
    [] en.q = "bic" -> Chk("C16.bic", RClose(Bic(D, S), v, r, lt ++ (r ** RAbs(SumLogW(D)))))
    [] en.q = "ndf" -> Chk("C16.ndf", REq(v, Ndf(D)))
    [] en.q = "test_ndf" -> Chk("C16.test_ndf", REq(v, RInt(TestNdf(D))))
    [] en.q = "rss" -> Chk("C16.rss", RClose(Rss(D, S), v, r, r ** WSum(D, [i \in 1..D.n |-> EScale(D, S, i) ** (RAbs(S.e[i]) ++ (r ** EScale(D, S, i)))])))
    [] en.q = "r_sq" ->
         LET d0 == NullDeviance(D)
             t == (lt ++ (r ** d0)) // d0
         IN IF ~NullDefined(D) \/ d0 \preceq (RInt(1000) ** lt) THEN {} ELSE
            Chk("C16.r_sq", RClose(RSq(D, S), v, r, (RInt(4) ** t) ++ (IF D.hasoff THEN Sd(D, "1e-3", "1e-8") ELSE Zero)))
            \cup Chk("C16.r_sq_range", (unpen /\ tight /\ D.icpt) => (RNeg(Sd(D, "1e-3", "1e-8")) \preceq v /\ v \preceq (One ++ Sd(D, "1e-3", "1e-8"))))
    [] OTHER -> {}

PClose(D, p, v, r) == /\ RNeg(Sd(D, "1e-6", "1e-12")) \preceq v /\ v \preceq (One ++ Sd(D, "1e-6", "1e-12"))
                      /\ RAbs(p -- v) \preceq (Sd(D, "1e-3", "1e-7") ++ r)
(* relative closeness too, where the library computes an upper tail directly *)
PRel(D, p, v) == (RDec("1e-30") \prec p /\ ~D.sgl) => RClose(p, v, Sd(D, "1e-1", "1e-5"), IF D.sgl THEN RDec("1e-6") ELSE RDec("1e-14"))
ChkC17(D, o, b, S, en, unpen, tight) ==
  LET r == TolF(D, S)
      v == en.v
  IN
  CASE en.q = "p_lr" ->
         LET lr == LrTest(D, S) IN
         IF ~NullUnique(D) \/ ~RFinite(lr) THEN {} ELSE
           LET t == TolL(D, S.llmag) IN
           Chk("C17.p_lr", (PClose(D, PLr(D, RMax(Zero, lr)), v, r) \/ (PLr(D, RMax(Zero, lr ++ t)) \preceq v /\ v \preceq PLr(D, RMax(Zero, lr -- t)))) /\ (D.hasoff \/ (RDec("1e-3") ** (One ++ S.llmag)) \prec lr => PRel(D, PLr(D, lr), v)))
    [] en.q = "p_wald" ->
         IF Dispersed(D.fam) /\ Ndf(D) \preceq Zero THEN {} ELSE
           LET z2 == WaldZ2(D, S, b) IN
           Chk("C17.p_wald", Len(v) = D.p /\ \A j \in 1..D.p : LET p == PWald(D, RSqrt(z2[j])) IN PClose(D, p, v[j], r) /\ ((r \prec RDec("1e-8")) => PRel(D, p, v[j])))
    [] en.q = "resid_quantile" ->
         Chk("C17.quantile", Len(v) = D.n /\ \A i \in D.live :
            LET c == ResponseCdf(D.fam, D.y[i], S.mu[i], S.phi // D.w[i]) IN
            (RDec("1e-6") \prec c /\ c \prec RDec("0.999999") /\ RDec("1e-8") \prec S.phi) =>
              LET q == NormQuantile(c) IN RClose(q, v[i], Sd(D, "1e-2", "1e-6"), Sd(D, "2e-2", "1e-6")))
    [] OTHER -> {}

PredDomain(D, v) ==
  CASE D.link \in {"logit", "logit_u", "cloglog"} -> LET N == IF D.fam = "binomial" THEN RInt(D.N) ELSE One IN \A i \in DOMAIN v : Zero \preceq v[i] /\ v[i] \preceq N
    [] D.link \in {"log", "log_u", "sqrt"} -> \A i \in DOMAIN v : Zero \preceq v[i]
    [] OTHER -> TRUE
ChkC21(D, o, b, S, en, unpen, tight) ==
  CASE en.q = "predict" ->
         LET p == PredictAt(D, b, en.x, en.ho, en.a)
             v == en.v
             lin(i) == Dot((IF D.icpt THEN <<One>> ELSE <<>>) \o en.x[i], b) ++ (IF en.ho THEN en.a[i] ELSE Zero)
             mag(i) == Sum(VMap(RAbs, VMul((IF D.icpt THEN <<One>> ELSE <<>>) \o en.x[i], b))) ++ (IF en.ho THEN RAbs(en.a[i]) ELSE Zero)
             ok(i) == OmegaValid(D.fam, D.link, lin(i))
             \* d mu / d omega times the rounding of omega
             t(i) == LET m == p[i]
                         d == RAbs(Variance(D.fam, D.N, m) ** DNatOf(D.fam, D.link, lin(i)))
                     IN ((IF RFinite(d) /\ Zero \prec d THEN d ELSE RAbs(m)) ** (Sd(D, "2e-6", "1e-13") ** mag(i))) ++ RDec(IF D.sgl THEN "1e-37" ELSE "1e-300")
             big(i) == D.sgl /\ ~(RAbs(p[i]) \prec RDec("1e37"))
         IN Chk("C21.predict", Len(v) = Len(en.x) /\ \A i \in DOMAIN p : ok(i) /\ RFinite(p[i]) /\ ~big(i) => RClose(p[i], v[i], Sd(D, "2e-5", "1e-10"), t(i)))
            \cup Chk("C21.domain", \A i \in DOMAIN p : ok(i) => PredDomain(D, <<v[i]>>))
            \cup Chk("C21.train", (en.x = D.x /\ (en.ho <=> D.hasoff) /\ (en.ho => en.a = D.off) /\ S.valid) =>
                  \A i \in D.live : RClose(S.mu[i], v[i], Sd(D, "1e-3", "1e-9"), RInt(100) ** t(i)))
    [] OTHER -> {}

(* C18 through the queries that expose the family functions at any coefficients *)
ChkC18(D, o, b, S, en, unpen, tight) ==
  LET om == Omega(D, en.a)
      in == en.a # <<>> /\ MuValid(D, om) /\ Tame(D, om) IN
  CASE en.q = "predict" -> {c \in ChkC21(D, o, b, S, en, unpen, tight) : TRUE}
    [] en.q = "score" /\ in -> ChkC14(D, o, b, S, en, unpen, tight)
    [] en.q = "fisher" /\ in -> ChkC14(D, o, b, S, en, unpen, tight)
    [] en.q = "lr_against" /\ in ->
         LET x == LrAgainst(D, o, S, en.a) IN
         Chk("C18.like_finite", RFinite(x) => RFinite(en.v)) \cup ChkC15(D, o, b, S, en, unpen, tight)
    [] en.q = "deviance" -> ChkC16(D, o, b, S, en, unpen, tight) \cup Chk("C18.dev_finite", RFinite(S.dev) => RFinite(en.v))
    [] en.q = "null_like" -> ChkC15(D, o, b, S, en, unpen, tight)
    [] en.q = "resid_dev" -> ChkC12(D, o, b, S, en, unpen, tight)
    [] OTHER -> {}

(* direct use of the public link types *)
LinkArgOk(e, a) == CASE e.which = "g" -> CASE e.fam = "logistic" -> Zero \prec a /\ a \prec One
                                          [] OTHER -> Zero \prec a
                     [] OTHER -> OmegaValid(e.fam, e.link, a)
LinkVal(e, a) ==
  CASE e.which = "g" -> LinkOf(e.fam, 1, e.link, a)
    [] e.which = "ginv" -> MeanOf(e.fam, 1, e.link, a)
    [] e.which = "nat" -> NatOf(e.fam, e.link, a)
    [] e.which = "dnat" -> DNatOf(e.fam, e.link, a)
    [] e.which = "adj" -> LET d == DNatOf(e.fam, e.link, a) IN d ** d
    [] e.which = "adje" -> DNatOf(e.fam, e.link, a)
(* error allowed: relative, plus what rounding of the argument does *)
LinkTol(e, a) == LET q(t) == RDec(t) IN
  IF e.dtype = "f32" THEN RDec("1e-4") ELSE RDec("1e-11")
ChkLink(e) ==
  Chk("C18.link_" \o e.which, e.out = "ok" /\ Len(e.v) = Len(e.a) /\ \A i \in DOMAIN e.a :
     LET x == LinkVal(e, e.a[i])
         x1 == LinkVal(e, e.a[i] ** (One ++ LinkTol(e, e.a[i])))
         x2 == LinkVal(e, e.a[i] ** (One -- LinkTol(e, e.a[i])))
         big == e.dtype = "f32" /\ ~(RAbs(x) \prec RDec("3e38"))
     IN (LinkArgOk(e, e.a[i]) /\ RFinite(x) /\ ~big) =>
          RClose(x, e.v[i], LinkTol(e, e.a[i]),
             (IF RFinite(x1) /\ RFinite(x2) THEN RAbs(x1 -- x2) ELSE Zero) ++ (IF e.dtype = "f32" THEN RDec("1e-37") ELSE RDec("1e-300"))))
=============================================================================
