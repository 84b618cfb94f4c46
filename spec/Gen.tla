--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* The scenarios replayed against the implementation: programs of API      *)
(* calls over abstract data descriptions, written to GLM_OUT.  Every       *)
(* (family, link, precision) is enumerated; the remaining axes are drawn   *)
(* from the sets below as a function of the seed.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, TLCExt, IOUtils, Json, SequencesExt, FiniteSetsExt, BuildRules, Caches

Prop == IOEnv.GLM_PROP
Seed == IOEnv.VERIF_SEED
Tier == IOEnv.GLM_TIER
Draw(path, n) == CHOOSE i \in 0..(n-1) : TRUE   \* overridden: a hash of path
Pick(path, seq) == seq[1 + Draw(<<Seed, Prop>> \o path, Len(seq))]
Chance(path, num, den) == Draw(<<Seed, Prop>> \o path, den) < num
(* how much of the time a check may take its sessions use *)
Boost == IF Prop \in {"C01", "C02", "C03", "C04", "C05", "C12", "C14", "C15", "C16", "C20", "C21"} THEN 3 ELSE 2
Reps(quick, thorough) == LET q == IF Prop = "C11" THEN quick ELSE Boost * quick IN IF Tier = "thorough" /\ thorough > q THEN thorough ELSE q

Kinds == <<
  [fam |-> "linear", link |-> "id", N |-> 1, y |-> "f64"],
  [fam |-> "linear", link |-> "cube", N |-> 1, y |-> "f64"],
  [fam |-> "linear", link |-> "slinh", N |-> 1, y |-> "f64"],
  [fam |-> "logistic", link |-> "logit", N |-> 1, y |-> "f64"],
  [fam |-> "logistic", link |-> "cloglog", N |-> 1, y |-> "f64"],
  [fam |-> "logistic", link |-> "logit_u", N |-> 1, y |-> "bool"],
  [fam |-> "poisson", link |-> "log", N |-> 1, y |-> "u32"],
  [fam |-> "poisson", link |-> "sqrt", N |-> 1, y |-> "u32"],
  [fam |-> "poisson", link |-> "log_u", N |-> 1, y |-> "u32"],
  [fam |-> "binomial", link |-> "logit", N |-> 1, y |-> "u16"],
  [fam |-> "binomial", link |-> "logit", N |-> 6, y |-> "u16"],
  [fam |-> "binomial", link |-> "logit", N |-> 20, y |-> "u16"],
  [fam |-> "exponential", link |-> "negrec", N |-> 1, y |-> "f64"],
  [fam |-> "exponential", link |-> "log", N |-> 1, y |-> "f64"],
  [fam |-> "gamma", link |-> "negrec", N |-> 1, y |-> "f64"],
  [fam |-> "gamma", link |-> "log", N |-> 1, y |-> "f64"],
  [fam |-> "invgaussian", link |-> "negrecsq", N |-> 1, y |-> "f64"],
  [fam |-> "invgaussian", link |-> "log", N |-> 1, y |-> "f64"] >>
PosOnly(F) == F.link \in {"negrec", "negrecsq", "sqrt"}
Builtin(F) == F.link \notin {"cube", "slinh", "logit_u", "log_u", "sqrt"}

T == <<TRUE>>   FF == <<FALSE>>   TF == <<TRUE, FALSE>>   TTF == <<TRUE, TRUE, FALSE>>
Usual == <<"", "", "", "", "", "", "", "", "", "", "", "">>
Rares == <<"k0", "k1", "k5", "n40", "fbig", "wbig", "wtiny", "off", "far", "count", "all", "yfrac", "wdom">>
(* the axes of a data description; a profile may narrow some of them *)
Profile == [ n |-> <<9, 12, 15, 18, 22>>, k |-> <<1, 2, 2, 3>>, icpt |-> <<TRUE, TRUE, TRUE, FALSE>>, std |-> TTF,
             design |-> <<"norm", "norm", "corr", "shift", "scaled", "bin", "int", "unif">>,
             f |-> <<"none", "none", "pos", "some">>, w |-> <<"none", "none", "rand", "wide">>,
             off |-> <<"none", "none", "rand", "const">>, layout |-> <<"C", "F", "strided", "rev">>,
             noise |-> <<"1", "0.5">>, yscale |-> <<"0", "0", "0", "0", "0", "0", "7", "-7">>, ykind |-> <<"rand">>, rare |-> Usual \o Rares ]
Data0(p, P) ==
  [ n |-> Pick(p \o <<"n">>, P.n), k |-> Pick(p \o <<"k">>, P.k), icpt |-> Pick(p \o <<"icpt">>, P.icpt),
    std |-> Pick(p \o <<"std">>, P.std), design |-> Pick(p \o <<"design">>, P.design), f |-> Pick(p \o <<"f">>, P.f),
    w |-> Pick(p \o <<"w">>, P.w), off |-> Pick(p \o <<"off">>, P.off), layout |-> Pick(p \o <<"layout">>, P.layout),
    noise |-> Pick(p \o <<"noise">>, P.noise), yscale |-> Pick(p \o <<"ysc">>, P.yscale), ykind |-> Pick(p \o <<"ykind">>, P.ykind) ]
(* one axis out of its ordinary range *)
Rare(p, P, d, r) ==
  LET free(axis) == Len(P[axis]) > 1 IN   \* an axis the profile fixes stays as it is
  CASE r = "" -> d
    [] r = "k0" -> [d EXCEPT !.k = 0]
    [] r = "k1" -> [d EXCEPT !.k = 1]
    [] r = "k5" -> [d EXCEPT !.k = 5, !.n = IF @ < 16 THEN 18 ELSE @]
    [] r = "n40" -> [d EXCEPT !.n = Pick(p \o <<"n40">>, <<33, 40, 65>>)]
    [] r = "fbig" /\ free("f") -> [d EXCEPT !.f = "big"]
    [] r = "wbig" /\ free("w") -> [d EXCEPT !.w = "huge"]
    [] r = "wtiny" /\ free("w") -> [d EXCEPT !.w = "tiny"]
    [] r = "off" /\ free("off") -> [d EXCEPT !.off = "large"]
    [] r = "far" /\ free("design") -> [d EXCEPT !.design = "far"]
    [] r = "count" -> [d EXCEPT !.ykind = "big"]
    [] r = "yfrac" -> [d EXCEPT !.ykind = "frac"]   \* (matters to logistic models only)
    [] r = "wdom" /\ free("w") -> [d EXCEPT !.w = "dom"]
    [] r = "all" /\ free("f") /\ free("w") /\ free("off") -> [d EXCEPT !.f = "some", !.w = "wide", !.off = "rand"]
    [] OTHER -> d
(* a model has at least one parameter *)
Data(p, P) == LET d == Rare(p, P, Data0(p, P), Pick(p \o <<"rare">>, P.rare)) IN IF d.k = 0 THEN [d EXCEPT !.icpt = TRUE] ELSE d

Model(d) == [op |-> "model", m |-> 1, data |-> d]
Derive(m, from, how) == [op |-> "model", m |-> m, from |-> from] @@ how
How(h) == [how |-> h]
Fit(m, f, l1, l2) == [op |-> "fit", m |-> m, f |-> f, l1 |-> l1, l2 |-> l2]
FitX(m, f, l1, l2, x) == Fit(m, f, l1, l2) @@ x
Obs(f, q) == [op |-> "obs", f |-> f, q |-> q]
At(q, at, salt) == [q |-> q, at |-> at, salt |-> salt]
Pred(x, off, salt) == [q |-> "predict", x |-> x, off |-> off, salt |-> salt]

Pens == << <<"0", "0">>, <<"0", "0.3">>, <<"0", "4">>, <<"0", "0.02">>, <<"0", "60">>, <<"0.4", "0">>, <<"3", "0">>, <<"0.2", "1.5">>, <<"0.9", "0.15">> >>
Vias == <<"chain", "with">>

(* parameters at which curves are probed: zero makes the mean invalid or the curvature singular for some links *)
Ats(F) == IF PosOnly(F) \/ F.link = "cube" THEN <<"result", "near">> ELSE <<"result", "near", "zero", "rand">>
QResid == <<"resid_resp", "resid_pear", "resid_dev", "resid_work", "resid_part", "resid_pear_std", "resid_dev_std", "resid_student">>
QLev   == <<"leverage", "hat", "infl_coef", "cooks">>
QInfo(F) == [i \in 1..Len(Ats(F)) |-> At("score", Ats(F)[i], i)] \o [i \in 1..Len(Ats(F)) |-> At("fisher", Ats(F)[i], i + 7)] \o <<"covariance", "wald_z">>
QTest(F) == <<"lr_test", "null_like", "test_ndf", "score_test", "wald_test">>
            \o [i \in 1..Len(Ats(F)) |-> At("lr_against", Ats(F)[i], i)] \o [i \in 1..Len(Ats(F)) |-> At("wald_against", Ats(F)[i], i)]
            \o [i \in 1..Len(Ats(F)) |-> At("score_against", Ats(F)[i], i)]
QSumm  == <<"deviance", "dispersion", "aic", "bic", "ndf", "test_ndf", "rss", "r_sq">>
QPval  == <<"p_lr", "p_wald", "p_exact", "resid_quantile">>
QPred  == <<Pred("train", "train", 1), Pred("train", "none", 2), Pred("new", "none", 3), Pred("new", "rand", 4),
            Pred("one", "none", 5), Pred("one", "rand", 8), Pred("far", "rand", 9), Pred("same", "rand", 10),  Pred("zero", "zero", 6), Pred("empty", "none", 7)>>

----------------------------------------------------------------------------
(* Session := [sid, prop, kind, wp, fam, link, N, dtype, ytype, prog]       *)
Session(p, kind, wp, F, dt, prog) ==
  [ sid |-> Prop \o "-" \o kind \o "-" \o F.fam \o ToString(F.N) \o F.link \o "-" \o dt \o "-" \o ToString(p[Len(p)]),
    prop |-> Prop, kind |-> kind, wp |-> wp, fam |-> F.fam, link |-> F.link, N |-> F.N, dtype |-> dt,
    ytype |-> IF F.y = "f64" THEN dt ELSE F.y, prog |-> prog ]
(* all kinds x precisions x repetitions *)
Over(name, Body(_, _, _), rq, rt) ==
  FlattenSeq([i \in 1..Len(Kinds) |-> FlattenSeq([j \in 1..2 |->
     LET dt == <<"f64", "f32">>[j] IN
     [r \in 1..(IF dt = "f32" THEN (rq + 2) \div 3 ELSE rq) |-> Body(<<name, Kinds[i].fam, Kinds[i].link, Kinds[i].N, dt, r>>, Kinds[i], dt)]])])

(* the order drawn for path *)
Shuffle(p, seq) == LET key == TLCEval([i \in 1..Len(seq) |-> Draw(<<Seed, Prop>> \o p \o <<i>>, 1000003)])
                       idx == TLCEval(SortSeq([j \in 1..Len(seq) |-> j], LAMBDA a, b : key[a] < key[b] \/ (key[a] = key[b] /\ a < b)))
                   IN TLCEval([i \in 1..Len(seq) |-> seq[idx[i]]])
(* questions asked beforehand: answers must not depend on what is already stored *)
Warms == << <<>>, <<>>, <<"covariance">>, <<"leverage">>, <<"deviance", "p_wald">>, <<"resid_student">>, <<"infl_coef", "lr_test">>, <<"hat", "wald_z", "dispersion">>, <<At("score_against", "near", 31), "cooks">> >>
(* one model, an ordinary fit and a penalised one, every query of interest *)
StatSession(p, F, dt, q) ==
  LET d == Data(p, Profile)
      pen == Pick(p \o <<"pen">>, Pens)
      \* coefficients that need not be an optimum: the definitions hold all the same
      pen3 == Pick(p \o <<"pen3">>, Pens)
      warm(i) == Pick(p \o <<"warm", i>>, Warms)
      o3 == Pick(p \o <<"o3">>, << [tol |-> "1e-2"], [tol |-> "1e-3", init |-> "near", of |-> 1, salt |-> 3], [max_iter |-> 3000, init |-> "near", of |-> 1, salt |-> 3], [tol |-> "0.3", max_iter |-> 4], [init |-> "result", of |-> 2, max_iter |-> 500] >>)
  IN Session(p, "stat", TRUE, F, dt,
       << Model(d), Fit(1, 1, "0", "0"), Obs(1, warm(1) \o q), FitX(1, 2, pen[1], pen[2], [via |-> Pick(p \o <<"via">>, Vias)]), Obs(2, warm(2) \o q),
          FitX(1, 3, pen3[1], pen3[2], o3), Obs(3, warm(3) \o Shuffle(p, q)) >>)
Stat(Q(_), rq, rt) == Over("stat", LAMBDA p, F, dt : StatSession(p, F, dt, Q(F)), Reps(rq, rt), 0)

(* C13: leave one out; C17: drop one parameter (refits with L1 are the reference there); C16: nested models *)
SmallProf == [Profile EXCEPT !.n = <<6, 7, 8, 10>>, !.k = <<1, 1, 2>>, !.f = <<"none", "pos", "some">>,
              !.rare = <<"", "", "", "", "", "", "k0", "k1", "wbig", "wtiny", "off", "far", "all">>]
Loo(rq, rt) == Over("loo", LAMBDA p, F, dt :
  LET d == Data(p, SmallProf)
      pen == Pick(p \o <<"pen">>, Pens)
  IN Session(p, "loo", TRUE, F, dt, << Model(d), Fit(1, 1, "0", "0"), Obs(1, <<"infl_coef", "loo_exact">>),
        FitX(1, 2, pen[1], pen[2], [via |-> Pick(p \o <<"via">>, Vias)]), Obs(2, <<"infl_coef", "loo_exact">>) >>), Reps(rq, rt), 0)
DropProg(k, m1, f1, l1, l2) == FlattenSeq([i \in 1..k |-> <<Derive(m1 + i, 1, [how |-> "dropcol", i |-> i - 1]), Fit(m1 + i, f1 + i, l1, l2)>>])
Drop1(rq, rt) == Over("drop1", LAMBDA p, F, dt :
  LET d == Data(p, [Profile EXCEPT !.noise = <<"1", "4">>])
      l1 == Pick(p \o <<"l1">>, <<"0.1", "0.4", "2">>)   l2 == Pick(p \o <<"l2">>, <<"0", "0.3">>)
  IN Session(p, "drop1", TRUE, F, dt, << Model(d), Fit(1, 1, l1, l2) >> \o DropProg(d.k, 1, 2, l1, l2)
        \o (IF d.icpt /\ d.k > 0 THEN <<Derive(9, 1, How("noicpt")), Fit(9, 9, l1, l2)>> ELSE <<>>)
        \o << Obs(1, <<"p_exact">>), Fit(1, 10, "0", Pick(p \o <<"l2b">>, <<"0", "1", "8">>)), Obs(10, <<"p_exact">>) >>), Reps(rq, rt), 0)
Nested(rq, rt) == Over("nested", LAMBDA p, F, dt :
  LET d == Data(p, [Profile EXCEPT !.k = <<2, 3>>])
  IN Session(p, "nested", TRUE, F, dt, << Model(d), Fit(1, 1, "0", "0"), Obs(1, <<"deviance", "r_sq">>) >>
       \o FlattenSeq([i \in 1..d.k |-> <<Derive(1 + i, 1, [how |-> "dropcol", i |-> i - 1]), Fit(1 + i, 1 + i, "0", "0"), Obs(1 + i, <<"deviance", "r_sq">>)>>])
       \o << Derive(8, 1, How("addcol")), Fit(8, 8, "0", "0"), Obs(8, <<"deviance", "r_sq">>) >>), Reps(rq, rt), 0)

----------------------------------------------------------------------------
(* C01: unpenalised and ridge fits from several starting points *)
InitKinds(F) == IF PosOnly(F) THEN <<"near", "rand", "fit:1">> ELSE <<"near", "rand", "zero", "far", "fit:1">>
L2s == <<"0.01", "0.3", "2", "20", "500">>
OptProfile == [Profile EXCEPT !.off = <<"none", "none", "rand", "const", "zero">>, !.design = <<"norm", "corr", "shift", "scaled", "bin", "int", "unif", "badscale", "dyadic">>]
(* in single precision, scales 1e8 apart cannot be resolved without standardisation *)
OptProf(dt) == IF dt = "f32" THEN [OptProfile EXCEPT !.design = <<"norm", "corr", "shift", "scaled", "bin", "int", "unif", "dyadic">>] ELSE OptProfile
OptBody(p, F, dt, yk) ==
  LET d == Data(p, IF yk = "rand" THEN OptProf(dt) ELSE [OptProf(dt) EXCEPT !.ykind = <<yk>>])
      l2 == Pick(p \o <<"l2">>, L2s)
      ini(i) == [init |-> Pick(p \o <<"init", i>>, InitKinds(F)), of |-> 1, salt |-> i]
  IN Session(p, IF yk = "rand" THEN "opt" ELSE "opt" \o yk, TRUE, F, dt,
       << Model(d), Fit(1, 1, "0", "0"), FitX(1, 2, "0", "0", ini(2)), FitX(1, 3, "0", l2, [via |-> Pick(p \o <<"via">>, Vias)]),
          FitX(1, 4, "0", l2, ini(4)), FitX(1, 5, "0", Pick(p \o <<"l2b">>, L2s), [via |-> "with"]), FitX(1, 6, "0", "0", ini(6)) >>)
(* fewer observations than parameters: only penalties determine the fit *)
WideProf == [OptProfile EXCEPT !.n = <<2, 3, 4, 5>>, !.k = <<4, 5, 6>>, !.design = <<"norm", "corr", "shift", "scaled", "unif">>, !.rare = <<"">>]
Wide(rq, rt, l1s) == Over("wide", LAMBDA p, F, dt :
  LET d == Data(p, WideProf)
      pen(i) == << Pick(p \o <<"wl1", i>>, l1s), Pick(p \o <<"wl2", i>>, <<"0.3", "2", "20">>) >>
  IN Session(p, "wide", FALSE, F, dt,
       << Model(d), Fit(1, 1, pen(1)[1], pen(1)[2]), FitX(1, 2, pen(2)[1], pen(2)[2], [via |-> "with"]), FitX(1, 3, pen(1)[1], pen(1)[2], [init |-> "near", of |-> 1, salt |-> 3]) >>), Reps(rq, rt), 0)
Opt(rq, rt) == Over("opt", LAMBDA p, F, dt : OptBody(p, F, dt, "rand"), Reps(rq, rt), 0)

(* C02: L1 and elastic net *)
(* (single precision cannot resolve the coefficients under an enormous penalty) *)
L1s(dt) == IF dt = "f32" THEN <<"0.02", "0.1", "0.4", "1.5", "6", "40">> ELSE <<"0.02", "0.1", "0.4", "1.5", "6", "40", "3000">>
Sparse(rq, rt) == Over("l1", LAMBDA p, F, dt :
  LET d == Data(p, [Profile EXCEPT !.k = <<1, 2, 3, 4>>, !.n = <<12, 16, 20, 24>>])
      l1(i) == Pick(p \o <<"l1", i>>, L1s(dt))
      l2 == Pick(p \o <<"l2">>, <<"0.05", "0.7", "5", "150">>)
  IN Session(p, "l1", TRUE, F, dt,
       << Model(d), Fit(1, 1, l1(1), "0"), FitX(1, 2, l1(2), l2, [via |-> "with"]), Fit(1, 3, l1(3), "0"),
          FitX(1, 4, l1(2), l2, [init |-> "near", of |-> 2, salt |-> 4]), Fit(1, 5, "0.4", "0") >>), Reps(rq, rt), 0)

(* C03: every option at once, truncated fits included *)
Truth(rq, rt) == Over("truth", LAMBDA p, F, dt :
  LET d == Data(p, OptProf(dt))
      pick(i, a) == Pick(p \o <<i, a>>, CASE a = "l1" -> <<"0", "0", "0", "0.3", "2">> [] a = "l2" -> <<"0", "0", "0.5", "3">>
                          [] a = "tol" -> <<"", "", "1e-2", "1e-4", "1e-8">> [] a = "init" -> <<"none", "none">> \o InitKinds(F))
      fit(i, it) == FitX(1, i, pick(i, "l1"), pick(i, "l2"), [tol |-> pick(i, "tol"), init |-> pick(i, "init"), of |-> 1, salt |-> i, max_iter |-> it])
  IN Session(p, "truth", FALSE, F, dt,
       << Model(d), Fit(1, 1, "0", "0"), fit(2, 0), fit(3, 1), fit(4, 2), fit(5, 3), fit(6, 5), fit(7, 60), fit(8, 128), fit(9, 300) >>
          \* starting at the optimum: hardly a step, or none, is left to take
          \o FlattenSeq([i \in 1..3 |-> LET o == [l1 |-> <<"0", "0", "0.7">>[i], l2 |-> <<Pick(p \o <<"z">>, <<"0.3", "2", "30">>), "0", "0.2">>[i]]
                         again(f, of) == FitX(1, f, o.l1, o.l2, [init |-> "result", of |-> of, salt |-> f])
                     IN <<Fit(1, 10, o.l1, o.l2), again(11, 10), again(12, 11), again(13, 12)>>])), Reps(rq, rt), 0)

(* C04: histories, with links and starts that overshoot *)
Hist(rq, rt) == Over("hist", LAMBDA p, F, dt :
  LET d == Data(p, [OptProf(dt) EXCEPT !.k = <<1, 1, 2, 3>>])
      l2 == Pick(p \o <<"l2">>, <<"0", "0", "0", "0.5", "5">>)
      i0 == Pick(p \o <<"init">>, IF PosOnly(F) THEN <<"near", "rand", "none">> ELSE <<"far", "rand", "zero", "none", "const:1.5">>)
      x(o) == [init |-> i0, of |-> 1, salt |-> 5] @@ o
      f(i, o) == FitX(1, i, "0", l2, x(o))
  IN Session(p, "hist", FALSE, F, dt,
       << Model(d), Fit(1, 1, "0", l2), f(2, [via |-> "chain"]), f(3, [tol |-> "1e-2"]), f(4, [tol |-> "1e-5"]), f(5, [max_iter |-> 1]), f(6, [max_iter |-> 2]),
          f(7, [max_iter |-> 4]), f(8, [max_iter |-> 12]), FitX(1, 9, "0", l2, [tol |-> "1e-3"]), FitX(1, 10, "0", l2, [max_iter |-> 3]),
          FitX(1, 11, "0", "0", [init |-> "far", salt |-> 11]) >>), Reps(rq, rt), 0)

(* C05: well-posed problems must succeed; anything at all must come back *)
Posed(rq, rt) == Over("posed", LAMBDA p, F, dt :
  LET d == Data(p, OptProf(dt))
      l2 == Pick(p \o <<"l2">>, L2s)
  IN Session(p, "posed", TRUE, F, dt,
       << Model(d), FitX(1, 1, "0", "0", [via |-> "plain"]), FitX(1, 2, "0", "0", [init |-> "result", of |-> 1]), Fit(1, 3, "0", l2),
          FitX(1, 4, "0", l2, [init |-> "result", of |-> 3]), FitX(1, 5, "0", "0", [init |-> "result", of |-> 1, max_iter |-> 300]) >>), Reps(rq, rt), 0)
(* few iterations allowed, from starts that overshoot *)
Limit(rq, rt) == Over("limit", LAMBDA p, F, dt :
  LET d == Data(p, OptProf(dt))
      l2 == Pick(p \o <<"l2">>, <<"0", "0", "0.3">>)
      fit(i) == FitX(1, i + 1, IF i > 8 THEN "0.3" ELSE "0", l2, [max_iter |-> i, init |-> Pick(p \o <<"init", i>>, IF PosOnly(F) THEN <<"near", "rand">> ELSE <<"far", "rand", "zero", "const:1.5", "const:-2", "none">>), salt |-> i])
  IN Session(p, "limit", FALSE, F, dt, << Model(d), Fit(1, 1, "0", "0") >> \o [i \in 1..10 |-> fit(i)]), Reps(rq, rt), 0)
IllProfile == [OptProfile EXCEPT !.n = <<1, 2, 3, 5, 8, 14>>, !.k = <<0, 1, 2, 3, 5>>, !.design = <<"dup", "const", "zero", "allzero", "norm", "const01", "badscale", "orth", "bin">>,
    !.ykind = <<"rand", "rand", "zero", "perfect", "frac", "full", "true", "false">>]
Ill(rq, rt) == Over("ill", LAMBDA p, F, dt :
  LET d == Data0(p, IllProfile)
      pick(i, a) == Pick(p \o <<i, a>>, CASE a = "l1" -> <<"0", "0", "0.5", "20", "1e9">> [] a = "l2" -> <<"0", "0", "1e-3", "4", "1e9">>
                          [] a = "tol" -> <<"", "", "1e-2", "0">> [] a = "init" -> <<"none", "none", "none", "zero", "far", "const:30", "const:-30">>
                          [] a = "it" -> <<0, 1, 2, 128, 128>>)
      fit(i) == FitX(1, i, pick(i, "l1"), pick(i, "l2"), [tol |-> pick(i, "tol"), init |-> pick(i, "init"), salt |-> i, max_iter |-> pick(i, "it")])
  IN Session(p, "ill", FALSE, F, dt, << Model(d), Fit(1, 1, "0", "0"), fit(2), fit(3), fit(4), Fit(1, 5, "0.5", "0"), Fit(1, 6, "0", "0.5") >>), Reps(rq, rt), 0)

(* input that makes no sense: anything but a panic or a hang will do *)
Garbage(rq, rt) == Over("garbage", LAMBDA p, F, dt :
  LET d == Data(p, OptProf(dt))
      bad(i) == Pick(p \o <<"bad", i>>, <<"NaN", "inf", "-inf", "1e300", "-1e300", "1e-310", "1e20", "-1", "0">>)
      what(i) == Pick(p \o <<"what", i>>, <<"x", "x", "col", "off", "w", "f", "ws", "fs">>)
      fit(i) == FitX(1, i, Pick(p \o <<"l1", i>>, <<"0", "0", "0.3">>), Pick(p \o <<"l2", i>>, <<"0", "0.3">>),
                     [init |-> Pick(p \o <<"init", i>>, <<"none", "none", "const:NaN", "const:inf", "const:1e30", "zero">>), tol |-> Pick(p \o <<"tol", i>>, <<"", "", "NaN", "-1", "inf">>), salt |-> i])
  IN Session(p, "garbage", FALSE, F, dt,
       << Model(d @@ [poke |-> [i \in 1..Pick(p \o <<"np">>, <<1, 1, 2>>) |-> <<what(i), Pick(p \o <<"at", i>>, <<0, 3, 7, 11>>), bad(i)>>]]),
          Fit(1, 1, "0", "0"), fit(2), fit(3), fit(4) >>), Reps(rq, rt), 0)

(* C20: penalty paths *)
Path(rq, rt) == Over("path", LAMBDA p, F, dt :
  LET d == Data(p, [Profile EXCEPT !.n = <<14, 18, 22>>])
      l1a == Pick(p \o <<"a">>, <<"0.05", "0.2">>)   l1b == Pick(p \o <<"b">>, <<"0.6", "1.2">>)   l1c == Pick(p \o <<"c">>, <<"4", "15">>)
      l2a == Pick(p \o <<"d">>, <<"0.02", "0.1">>)   l2b == Pick(p \o <<"e">>, <<"0.5", "2">>)     l2c == Pick(p \o <<"f">>, <<"20", "300">>)
  IN Session(p, "path", TRUE, F, dt,
       << Model(d), FitX(1, 1, "0", "0", [via |-> "plain"]), FitX(1, 2, "0", "0", [via |-> "with"]), Fit(1, 3, "0", l2a), Fit(1, 4, "0", l2b), Fit(1, 5, "0", l2c), Fit(1, 6, "0", "1e9"),
          Fit(1, 7, l1a, "0"), Fit(1, 8, l1b, "0"), Fit(1, 9, l1c, "0"), Fit(1, 10, l1a, l2b), Fit(1, 11, l1b, l2b), FitX(1, 12, l1b, "0", [via |-> "with"]), Fit(1, 13, "1e5", "0"),
          Fit(1, 14, l1b, l2c), Fit(1, 15, l1a, "1e9") >>), Reps(rq, rt), 0)

(* C18: the link types themselves, and the families through fits *)
LinkVals == [ g |-> <<"1e-300", "1e-30", "1e-12", "1e-6", "0.001", "0.02", "0.1", "0.3", "0.5", "0.75", "0.9", "0.99", "0.999999", "1.5", "7", "300", "1e6", "1e20">>,
              ginv |-> <<"-1e6", "-800", "-200", "-90", "-40", "-20", "-7", "-3", "-1", "-0.3", "-0.01", "-1e-6", "-1e-30", "0", "1e-20", "1e-5", "0.02", "0.5", "1", "2", "3.5", "5", "8", "15", "36", "60", "90", "300", "700", "800", "1e5">> ]
DirectLinks == << <<"logistic", "logit">>, <<"logistic", "cloglog">>, <<"exponential", "negrec">>, <<"exponential", "log">>, <<"gamma", "negrec">>, <<"gamma", "log">>, <<"invgaussian", "negrecsq">>, <<"invgaussian", "log">> >>
LinkSessions == FlattenSeq([i \in 1..Len(DirectLinks) |-> [j \in 1..2 |->
   LET dt == <<"f64", "f32">>[j]
       \* single precision: only arguments whose means are representable
       cut(v) == IF dt = "f64" THEN v ELSE SelectSeq(v, LAMBDA a : a \notin {"1e-300", "-1e6", "-800", "-200", "-90", "90", "300", "700", "800", "1e5"})
       op(w) == [op |-> "link", which |-> w, v |-> cut(IF w = "g" THEN LinkVals.g ELSE LinkVals.ginv)]
   IN [sid |-> "C18-link-" \o DirectLinks[i][1] \o DirectLinks[i][2] \o "-" \o dt, prop |-> Prop, kind |-> "link", wp |-> TRUE,
       fam |-> DirectLinks[i][1], link |-> DirectLinks[i][2], N |-> 1, dtype |-> dt, ytype |-> dt,
       prog |-> <<op("g"), op("ginv"), op("nat"), op("dnat"), op("adj"), op("adje")>>]]])
Grid(lo, hi) == [q |-> "predict", x |-> "train", off |-> "grid", lo |-> lo, hi |-> hi]
ExtremeAts(F, dt) == IF PosOnly(F) THEN <<At("lr_against", "near", 3), At("lr_against", "scale:0.6", 3), At("lr_against", "scale:1.7", 3), At("lr_against", "scale:40", 3)>>
                 ELSE (IF dt = "f32" THEN <<At("lr_against", "icpt:-25", 3), At("lr_against", "icpt:20", 3)>> ELSE
                       <<At("lr_against", "icpt:-40", 3), At("lr_against", "icpt:45", 3), At("lr_against", "icpt:100", 3), At("lr_against", "icpt:400", 3), At("lr_against", "icpt:800", 3)>>)
                      \o <<At("lr_against", "icpt:-12", 3), At("lr_against", "icpt:-3", 3), At("lr_against", "icpt:2", 3), At("lr_against", "icpt:4", 3),
                        At("lr_against", "icpt:9", 3), At("score", "icpt:4", 3), At("score", "icpt:-12", 3), At("fisher", "icpt:3", 3)>>
MathSession(rq, rt) == Over("math", LAMBDA p, F, dt :
  LET d == Data(p, [Profile EXCEPT !.ykind = <<"rand", "rand", "frac", "zero", "full">>, !.icpt = TF, !.off = <<"none", "rand">>])
      grids == IF PosOnly(F) THEN <<Grid("0.01", "3")>> ELSE <<Grid("-40", "40"), Grid("-4", "4"), IF dt = "f32" THEN Grid("-70", "70") ELSE Grid("-650", "650")>>
  IN Session(p, "math", FALSE, F, dt, << Model(d), Fit(1, 1, "0", "0.2"), Obs(1, grids \o ExtremeAts(F, dt) \o <<"deviance", "resid_dev", "null_like">>) >>), Reps(rq, rt), 0)
(* the same function as a user-defined link *)
SameLink(rq, rt) ==
  LET pairs == << <<"logistic", "logit", "logit_u", "f64">>, <<"poisson", "log", "log_u", "u32">> >> IN
  FlattenSeq([i \in 1..2 |-> FlattenSeq([j \in 1..2 |-> [r \in 1..Reps(rq, rt) |->
     LET dt == <<"f64", "f32">>[j]
         p == <<"samelink", i, dt, r>>
         F == [fam |-> pairs[i][1], link |-> pairs[i][2], N |-> 1, y |-> pairs[i][4]]
         l1 == Pick(p \o <<"l1">>, <<"0", "0", "0.3">>)
         q == <<"deviance", "resid_work", "leverage", "covariance", "score_test", "wald_test", "resid_part", "lr_test", At("fisher", "near", 3), At("score", "near", 4)>>
     IN Session(p, "samelink", TRUE, F, dt, << Model(Data(p, Profile)), Derive(2, 1, [how |-> "link", link |-> pairs[i][3]]),
           Fit(1, 1, l1, "0"), Obs(1, q), Fit(2, 2, l1, "0"), Obs(2, q) >>)]])])

----------------------------------------------------------------------------
(* C06-C10, C22: a model, and models derived from it, fitted and queried alike *)
QAll(F) == QResid \o QLev \o <<"loo_exact">> \o QInfo(F) \o QTest(F) \o QSumm \o QPval \o <<Pred("train", "train", 1)>>
RelProg(p, d, hows, pens, q) ==
  <<Model(d)>>
  \o FlattenSeq([i \in 1..Len(pens) |-> <<Fit(1, i, pens[i][1], pens[i][2]), Obs(i, q)>>])
  \o FlattenSeq([h \in 1..Len(hows) |-> <<Derive(1 + h, 1, hows[h])>>
       \o FlattenSeq([i \in 1..Len(pens) |-> <<Fit(1 + h, 10 + i, pens[i][1], pens[i][2]), Obs(10 + i, q)>>])])
RelPens(p) == << <<"0", "0">>, Pick(p \o <<"rpen">>, << <<"0", "0.3">>, <<"0", "4">>, <<"0.4", "0">>, <<"0.2", "1.5">> >>) >>
Hx(h, x) == [how |-> h] @@ x
RelS(name, rq, rt, P(_), H(_, _, _)) == Over(name, LAMBDA p, F, dt :
  Session(p, name, TRUE, F, dt, RelProg(p, Data(p, P(dt)), H(p, F, dt), RelPens(p), QAll(F))), Reps(rq, rt), 0)
RelProf == [Profile EXCEPT !.n = <<10, 13, 16>>, !.k = <<1, 2, 2, 3>>]

RelC06(rq, rt) == RelS("scale", rq, rt, LAMBDA dt : [RelProf EXCEPT !.icpt = <<TRUE, TRUE, TRUE, FALSE>>, !.std = TTF], LAMBDA p, F, dt :
                    <<How("std"), How("xscale")>> \o (IF PosOnly(F) THEN <<>> ELSE <<How("xshift")>>))
(* columns far smaller or larger than one, standardised, in exact powers of two *)
Sizes(rq, rt) == RelS("size", rq, rt, LAMBDA dt : [RelProf EXCEPT !.std = <<TRUE>>, !.design = <<"norm", "corr", "shift", "int", "unif">>], LAMBDA p, F, dt :
                    [i \in 1..2 |-> Hx("xscale", [all |-> IF dt = "f32" THEN <<"7.62939453125e-06", "65536">>[i] ELSE Pick(p \o <<i>>, << <<"5.820766091346741e-11", "1.8189894035458565e-12", "7.450580596923828e-09">>, <<"17179869184", "1048576">> >>[i])])])
(* columns without variance are left alone; penalised so that the fit is determined *)
Flat(rq, rt) == Over("flat", LAMBDA p, F, dt :
  LET d == Data(p, [RelProf EXCEPT !.design = <<"const", "const01", "zero", "const01">>, !.std = <<TRUE>>, !.icpt = <<TRUE, TRUE, FALSE>>, !.w = <<"none", "rand", "wide">>, !.f = <<"none", "pos", "some">>])
  IN Session(p, "flat", FALSE, F, dt, << Model(d), Fit(1, 1, "0", "0.3"), Fit(1, 2, "0", "5"), Fit(1, 3, "0.3", "0.1"), Derive(2, 1, How("std")), Fit(2, 4, "0", "0.3") >>), Reps(rq, rt), 0)
RelC07(rq, rt) == RelS("freq", rq, rt, LAMBDA dt : [RelProf EXCEPT !.n = <<9, 11>>, !.f = <<"some", "some", "pos">>,
                       !.rare = <<"", "", "", "", "", "", "k0", "k1", "wbig", "wtiny", "off", "far", "count">>], LAMBDA p, F, dt : <<How("replicate"), How("dropzero")>>)
                  \o Over("freqbig", LAMBDA p, F, dt :
                       LET pen == Pick(p \o <<"pen">>, Pens) IN
                       Session(p, "freqbig", TRUE, F, dt, << Model(Data(p, [RelProf EXCEPT !.f = <<"big">>, !.rare = <<"">>])), Fit(1, 1, "0", "0"), Obs(1, QAll(F)), Fit(1, 2, pen[1], pen[2]), Obs(2, QAll(F)) >>), Reps(2, 6), 0)
                  \o RelS("freq1", 1, 8, LAMBDA dt : [RelProf EXCEPT !.f = <<"none">>], LAMBDA p, F, dt : <<How("ones_f")>>)
RelC08(rq, rt) == RelS("varw", rq, rt, LAMBDA dt : RelProf, LAMBDA p, F, dt : <<Hx("scale_w", [c |-> Pick(p \o <<"c">>, <<"0.25", "3", "10", "0.01">>)])>>)
                  \o RelS("varw1", 1, 8, LAMBDA dt : [RelProf EXCEPT !.w = <<"none">>], LAMBDA p, F, dt : <<How("ones_w")>>)
RelC09(rq, rt) == RelS("off", rq, rt, LAMBDA dt : [RelProf EXCEPT !.off = <<"none", "rand", "const">>], LAMBDA p, F, dt :
                       <<Hx("const_off", [c |-> IF PosOnly(F) THEN "0.1" ELSE Pick(p \o <<"c">>, <<"0.6", "-1.2">>)]), Hx("lin_off", [c |-> IF PosOnly(F) THEN "0.2" ELSE "1"])>>)
                  \o RelS("off0", 1, 8, LAMBDA dt : [RelProf EXCEPT !.off = <<"none">>], LAMBDA p, F, dt : <<How("zero_off")>>)
RelC10(rq, rt) == RelS("order", rq, rt, LAMBDA dt : RelProf, LAMBDA p, F, dt :
                       <<How("rowperm"), How("colperm"), How("rowrev") @@ [layout |-> "rev"]>>)
                  \o RelS("layout", 1, 8, LAMBDA dt : [RelProf EXCEPT !.layout = <<"C">>], LAMBDA p, F, dt :
                       [i \in 1..3 |-> Hx("layout", [layout |-> <<"F", "strided", "rev">>[i]])])
SmallCounts == [RelProf EXCEPT !.rare = Usual \o SelectSeq(Rares, LAMBDA r : r # "count")]
YTypes(F) == CASE F.fam = "logistic" -> <<"f64", "bool">> [] F.fam = "poisson" /\ F.link = "log" -> <<"u8", "u16", "u64", "usize">> [] OTHER -> <<>>
RelC22(rq, rt) ==
  FlattenSeq([i \in 1..Len(Kinds) |-> [r \in 1..Reps(rq, rt) |->
     LET F == Kinds[i]
         p == <<"prec", F.fam, F.link, F.N, r>>
     IN Session(p, "prec", TRUE, F, "f32", RelProg(p, Data(p, SmallCounts), <<How("dtype")>> \o [j \in 1..Len(YTypes(F)) |-> Hx("ytype", [ytype |-> YTypes(F)[j]])], RelPens(p), QAll(F)))]])
  \o FlattenSeq([j \in 1..2 |-> [r \in 1..Reps(3, 16) |-> LET p == <<"counts", j, r>> F == Kinds[7] IN
       Session(p, "counts", TRUE, F, <<"f32", "f64">>[j], RelProg(p, Data(p, [RelProf EXCEPT !.ykind = <<"big">>, !.rare = <<"">>]),
               <<How("dtype"), Hx("ytype", [ytype |-> "u64"]), Hx("ytype", [ytype |-> "usize"])>>, RelPens(p), QAll(F)))]])
  \o RelS("ytype", 1, 8, LAMBDA dt : SmallCounts, LAMBDA p, F, dt : [j \in 1..Len(YTypes(F)) |-> Hx("ytype", [ytype |-> YTypes(F)[j]])])

(* C19: words of setters (all of them; one word per model), argument lengths, response values *)
(* words over the setters, grouped by the set of setters called *)
Order(S) == SetToSeq(S)
WordOp(m, w) == [op |-> "model", m |-> m, from |-> 1, how |-> "same", order |-> w]
AllSet == [off |-> "rand", w |-> "rand", f |-> "pos", icpt |-> FALSE, std |-> FALSE]
BuildProf == [Profile EXCEPT !.n = <<8, 9>>, !.k = <<1, 2>>]
With(d, x) == x @@ d
Chunk(seq, n) == [i \in 1..((Len(seq) + n - 1) \div n) |-> SubSeq(seq, (i - 1) * n + 1, IF i * n < Len(seq) THEN i * n ELSE Len(seq))]
BKind(p) == IF Tier = "thorough" THEN 1..Len(Kinds) ELSE {Draw(<<Seed, "bk">> \o p, Len(Kinds)) + 1}
DtOf(p) == Pick(p \o <<"dt">>, <<"f64", "f32">>)
(* every permutation of every subset: the models must be the same one *)
CommuteSessions ==
  FlattenSeq([i \in 1..32 |-> LET S == Order(SUBSET Setters)[i] IN
    FlattenSeq([j \in 1..Len(Order(BKind(<<"perm", i>>))) |->
    LET F == Kinds[Order(BKind(<<"perm", i>>))[j]]
        ws == Order(Perms(S))
        p == <<"perm", i, j>>
        d == With(Data0(p, BuildProf), AllSet)
        pen == Pick(p \o <<"pen">>, Pens)
    IN <<Session(p, "perm" \o ToString(i), TRUE, F, DtOf(p),
         <<[op |-> "model", m |-> 1, data |-> d, order |-> ws[1]], Fit(1, 1, pen[1], pen[2])>>
         \o FlattenSeq([t \in 1..(Len(ws) - 1) |-> <<WordOp(2 + (t % 12), ws[t + 1]), Fit(2 + (t % 12), 2 + (t % 12), pen[1], pen[2])>>]))>>])])
(* words with repetitions *)
WordSessions ==
  LET ws == Order({w \in WordsOf(Setters, Reps(3, 4)) : \E a \in Setters : Count(w, a) > 1})
              \o [t \in 1..Reps(60, 400) |-> [i \in 1..(4 + Draw(<<Seed, "wl", t>>, 4)) |-> Pick(<<"w", t, i>>, <<"off", "w", "f", "icpt", "std">>)]]
      cs == Chunk(ws, 40)
  IN FlattenSeq([c \in 1..Len(cs) |-> FlattenSeq([j \in 1..Len(Order(BKind(<<"word", c>>))) |->
       LET F == Kinds[Order(BKind(<<"word", c>>))[j]]
           p == <<"word", c, j>>
           d == With(Data0(p, BuildProf), AllSet)
       IN <<Session(p, "word" \o ToString(c), TRUE, F, DtOf(p),
              <<[op |-> "model", m |-> 1, data |-> d]>> \o [t \in 1..Len(cs[c]) |-> WordOp(2 + (t % 12), cs[c][t])])>>])])
(* lengths of the arguments; 5 rows *)
LenDeltas == <<99, 0, -1, 1, -4, -5, 5>>
LenOp(m, c) ==
  LET set(key, dkey, v) == IF v = 99 THEN [x \in {key} |-> "none"] ELSE (key :> "rand") @@ (dkey :> v)
  IN [op |-> "model", m |-> m, order |-> c.order,
      data |-> [n |-> 5, k |-> c.k, icpt |-> c.icpt, std |-> c.std, ykind |-> "rand", dy |-> c.y, layout |-> c.layout]
               @@ set("off", "doff", c.off) @@ set("w", "dw", c.w) @@ set("f", "df", c.f)]
LenSessions ==
  LET y5 == <<0, -1, 1, -4, -5, 5>>
      combo(t) == [y |-> y5[1 + (t % 6)], off |-> LenDeltas[1 + ((t \div 6) % 7)], w |-> LenDeltas[1 + ((t \div 42) % 7)], f |-> LenDeltas[1 + (t \div 294)],
                   order |-> Pick(<<"lo", t>>, << <<"off", "w", "f", "icpt", "std">>, <<"std", "icpt", "f", "w", "off">>, <<"w", "f", "off", "std", "icpt">>, <<"f", "off", "icpt", "w", "std">> >>),
                   k |-> Pick(<<"lk", t>>, <<0, 1, 2, 5, 6>>), icpt |-> Pick(<<"li", t>>, TTF), std |-> Pick(<<"ls", t>>, TF), layout |-> Pick(<<"ll", t>>, <<"C", "F", "strided", "rev">>)]
      all == [t \in 1..2058 |-> t - 1]
      few == SelectSeq(all, LAMBDA t : LET c == combo(t)
                 bads == (IF c.y # 0 THEN 1 ELSE 0) + (IF c.off \notin {0, 99} THEN 1 ELSE 0) + (IF c.w \notin {0, 99} THEN 1 ELSE 0) + (IF c.f \notin {0, 99} THEN 1 ELSE 0)
                 IN bads <= 1 \/ Draw(<<Seed, "lsel", t>>, 8) = 0)
      cs == Chunk(IF Tier = "thorough" THEN all ELSE few, 40)
  IN [c \in 1..Len(cs) |-> LET p == <<"len", c>> IN
        Session(p, "len" \o ToString(c), TRUE, Pick(p \o <<"F">>, Kinds), DtOf(p), [t \in 1..Len(cs[c]) |-> LenOp(1 + (t % 12), combo(cs[c][t]))])]
(* responses at and beyond the ends of every family's domain *)
YVals(F, yt) ==
  CASE yt \in {"bool"} -> <<"0", "1">>
    [] F.fam = "binomial" -> <<"0", "1", ToString(F.N), ToString(F.N + 1), "2", "21", "255", "65535">>
    [] yt = "u8" -> <<"0", "1", "200", "255">>
    [] yt = "u16" -> <<"0", "1", "255", "256", "40000", "65535">>
    [] yt = "u32" -> <<"0", "1", "255", "256", "65535", "65536", "70001", "2147483648", "4294967295">>
    [] yt \in {"u64", "usize"} -> <<"0", "1", "255", "65536", "4294967295", "4294967296", "281474976710656", "18446744073709549568">>
    [] OTHER -> <<"NaN", "-NaN", "0", "-0", "1", "-1", "0.5", "-1e-300", "1.0000002", "0.9999999", "1.0000000000000002", "1e-30", "-1e-30", "2", "1e30", "-1e30", "-inf", "inf", "0.3">>
YSessions ==
  FlattenSeq([i \in 1..Len(Kinds) |-> LET F == Kinds[i] IN
    FlattenSeq([j \in 1..2 |-> LET dt == <<"f64", "f32">>[j]
        yts == CASE F.link = "sqrt" \/ F.link = "log_u" -> <<"u32">>
                 [] F.fam = "poisson" -> <<"u8", "u16", "u32", "u64", "usize">> [] F.fam = "binomial" -> <<"u16">>
                 [] F.fam = "logistic" -> <<"f64", "f32", "bool">> [] OTHER -> <<"f64", "f32">>
     IN [t \in 1..Len(yts) |->
          LET vs == YVals(F, yts[t])
              p == <<"y", i, j, t>>
              op(u, at) == [op |-> "model", m |-> 1, data |-> [n |-> Pick(p \o <<u, at>>, <<1, 2, 5, 6>>), k |-> 1, ykind |-> "rand", ytype |-> yts[t], ybad |-> vs[u], yat |-> at,
                                 w |-> Pick(p \o <<u, at, "w">>, <<"none", "rand">>), f |-> Pick(p \o <<u, at, "f">>, <<"none", "some">>), layout |-> Pick(p \o <<u, at, "l">>, <<"C", "strided", "rev">>)]]
          IN Session(p, "y-" \o yts[t], TRUE, F, dt,
               FlattenSeq([u \in 1..Len(vs) |-> <<op(u, "first"), op(u, "mid"), op(u, "last")>>]))]])])
(* sizes *)
SizeSessions == Over("size", LAMBDA p, F, dt :
  Session(p, "size", TRUE, F, dt,
    FlattenSeq([n \in 1..5 |-> [kk \in 1..6 |->
      LET q == p \o <<n, kk>> IN
      [op |-> "model", m |-> 1, data |-> [n |-> n - 1, k |-> kk - 1, ykind |-> "rand", icpt |-> Pick(q \o <<"i">>, TF), std |-> Pick(q \o <<"s">>, TF),
         off |-> Pick(q \o <<"o">>, <<"none", "rand">>), w |-> Pick(q \o <<"w">>, <<"none", "rand">>), f |-> Pick(q \o <<"f">>, <<"none", "pos">>), layout |-> Pick(q \o <<"l">>, Profile.layout)]]]])), 1, 0)

(* C11: every query first on a fresh fit, then in every reachable state of the caches, on fits alive side by side *)
Free(F) == F.fam \in {"linear", "gamma", "invgaussian"}
Fields == <<"result", "model_like", "n_iter", "hist_like", "hist_last", "options">>
QPlain(F) == QResid \o QLev \o <<"loo_exact", "covariance", "wald_z", "lr_test", "null_like", "test_ndf", "score_test", "wald_test">> \o QSumm \o QPval
Ask(n) == [q |-> n]
Asks(ns) == [i \in 1..Len(ns) |-> Ask(ns[i])]
Fields6 == Asks(Fields)
QPure(F) == Asks(QPlain(F)) \o SubSeq(QInfo(F), 1, 2 * Len(Ats(F))) \o SubSeq(QTest(F), 6, Len(QTest(F))) \o <<Pred("train", "train", 1), At("score_against", "near", 21), At("wald_against", "near", 21), At("lr_against", "near", 21), At("fisher", "near", 22), At("score", "near", 22),
                        Pred("new", "rand", 23), Pred("empty", "none", 24)>>
(* (r_sq and rss exist for the identity link only and are not needed to reach a state) *)
Witnesses == {QPlain(Kinds[1])[i] : i \in 1..Len(QPlain(Kinds[1]))} \ {"r_sq", "rss"}
ReachFree == SetToSeq(Reach(TRUE, Witnesses))
ReachFixed == SetToSeq(Reach(FALSE, Witnesses))
PureOpts(p) == Pick(p \o <<"po">>, << [l1 |-> "0", l2 |-> "0"], [l1 |-> "0", l2 |-> "0.3"], [l1 |-> "0.4", l2 |-> "0"], [l1 |-> "0.2", l2 |-> "1.5"] >>)
PureSession(p, F, dt, states) ==
  LET d == Data(p, [Profile EXCEPT !.n = <<7, 8>>, !.k = <<1, 1, 2>>, !.layout = <<"C">>, !.rare = <<"", "", "", "", "k0">>])
      o == PureOpts(p)
      o2 == PureOpts(p \o <<"other">>)
      ft(f) == FitX(1, f, o.l1, o.l2, [via |-> Pick(p \o <<"via", f>>, Vias)])
      other(i) == FitX(1, 3, o2.l1, o2.l2, [max_iter |-> Pick(p \o <<"mi", i>>, <<128, 2, 1, 0>>), tol |-> Pick(p \o <<"tol", i>>, <<"", "1e-2">>)])
      Q == QPure(F)
      \* first of all on a fresh fit
      first == FlattenSeq([i \in 1..Len(Q) |-> <<ft(2), Obs(2, <<Q[i]>>)>>])
      \* in a state of the caches: everything that leaves the state alone, then the fields again
      calm(r, i) == <<ft(4), Obs(4, Asks(r.by) \o Fields6),
                      Obs(4, Shuffle(p \o <<"calm", i>>, SelectSeq(Q, LAMBDA q : Fills(Free(F), q.q) \subseteq r.st)) \o Fields6)>>
      grow(r, i) == LET g == Shuffle(p \o <<"grow", i>>, SelectSeq(Q, LAMBDA q : ~(Fills(Free(F), q.q) \subseteq r.st)))
                    IN FlattenSeq([t \in 1..(IF Len(g) < Reps(2, 6) THEN Len(g) ELSE Reps(2, 6)) |-> <<ft(5), Obs(5, Asks(r.by) \o <<g[t], g[t]>>)>>])
      seq == [i \in 1..Len(states) |-> <<other(i)>> \o calm(states[i], i) \o grow(states[i], i)
                \o <<Obs(3, Shuffle(p \o <<"o", i>>, Q)), Obs(4, Shuffle(p \o <<"all", i>>, Q) \o Fields6), Obs(3, Shuffle(p \o <<"o2", i>>, Q) \o Fields6), [op |-> "peek", m |-> 1]>>]
  IN Session(p, "pure", TRUE, F, dt,
       <<Model(d), [op |-> "peek", m |-> 1], ft(1), Obs(1, Fields6)>> \o first \o FlattenSeq(seq)
       \o <<FitX(1, 6, o.l1, o.l2, [init |-> "near", of |-> 1, salt |-> 6]), Obs(6, Shuffle(p \o <<"six">>, Q)), FitX(1, 7, o.l1, o.l2, [init |-> "near", of |-> 1, salt |-> 6]),
             Obs(7, Shuffle(p \o <<"seven">>, Q) \o Fields6), ft(8), Obs(8, Shuffle(p \o <<"eight">>, Q)), Obs(1, Shuffle(p \o <<"one">>, Q) \o Fields6), [op |-> "peek", m |-> 1]>>)
PureSessions ==
  FlattenSeq([i \in 1..Len(Kinds) |-> LET F == Kinds[i]
      rs == IF Free(F) THEN ReachFree ELSE ReachFixed
      take(p) == IF Tier = "thorough" THEN Chunk(Shuffle(p, rs), 8) ELSE SubSeq(Chunk(Shuffle(p, rs), 8), 1, 2)
    IN FlattenSeq([j \in 1..2 |-> LET dt == <<"f64", "f32">>[j]
         cs == TLCEval(take(<<"pure", i, j>>))
       IN [c \in 1..( IF dt = "f32" /\ Len(cs) > 4 THEN 4 ELSE Len(cs)) |-> PureSession(<<"pure", F.fam, F.link, F.N, dt, c>>, F, dt, cs[c])]])])

Scenarios ==
  CASE Prop = "C01" -> Opt(24, 60) \o Wide(6, 30, <<"0">>)
               \o FlattenSeq([j \in 1..2 |-> [r \in 1..Reps(6, 12) |-> LET p == <<"counts", j, r>> F == Kinds[7 + (r % 3)] IN
                    OptBody(p, F, <<"f64", "f32">>[j], "big")]])
    [] Prop = "C02" -> Sparse(24, 60) \o Wide(6, 30, <<"0.1", "0.5", "2">>)
    [] Prop = "C03" -> Truth(20, 50)
    [] Prop = "C04" -> Hist(20, 50)
    [] Prop = "C05" -> Posed(20, 50) \o Limit(12, 30) \o Ill(32, 80) \o Garbage(24, 60)
    [] Prop = "C18" -> LinkSessions \o MathSession(20, 50) \o SameLink(32, 40)
    [] Prop = "C11" -> PureSessions
    [] Prop = "C19" -> CommuteSessions \o WordSessions \o LenSessions \o YSessions \o SizeSessions
    [] Prop = "C20" -> Path(16, 40)
    [] Prop = "C06" -> RelC06(8, 12) \o Sizes(4, 6) \o Flat(8, 12)
    [] Prop = "C07" -> RelC07(8, 12)
    [] Prop = "C08" -> RelC08(8, 12)
    [] Prop = "C09" -> RelC09(8, 12)
    [] Prop = "C10" -> RelC10(8, 12)
    [] Prop = "C22" -> RelC22(12, 16) \o YSessions
    [] Prop = "C12" -> Stat(LAMBDA F : QResid, 24, 60)
    [] Prop = "C13" -> Stat(LAMBDA F : QLev, 12, 40) \o Loo(16, 40)
    [] Prop = "C14" -> Stat(QInfo, 24, 60)
    [] Prop = "C15" -> Stat(QTest, 24, 60)
    [] Prop = "C16" -> Stat(LAMBDA F : QSumm, 24, 60) \o Nested(8, 20)
    [] Prop = "C17" -> Stat(LAMBDA F : QPval, 16, 40) \o Drop1(12, 30)
    [] Prop = "C21" -> Stat(LAMBDA F : QPred, 24, 60)

ASSUME LET sc == Scenarios IN ndJsonSerialize(IOEnv.GLM_OUT, sc) /\ PrintT(<<"SCENARIOS", Len(sc)>>)
=============================================================================
