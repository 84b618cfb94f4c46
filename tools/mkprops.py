#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"),s)) for s in (state or [])],
            mechanism=[dict(zip(("name","where"),m)) for m in mech], observe_at=observe, hook_needed=None)))
S="src/"
p("C01","A fit without L1 is the maximum of the ridge-penalised likelihood",
  "When a fit without L1 succeeds on a well-posed problem, the returned coefficients maximise the documented (frequency- and variance-weighted) log-likelihood minus (l2/2)*sum of squared coefficients, where the penalty acts on the internally standardised coefficients (raw ones with no_standardize) and never on the intercept. Equivalently, the gradient of that objective vanishes at the result and no other coefficient vector has a noticeably larger objective.",
  ["inputs","configurations"],"all families, links, float types, designs, weights, offsets, intercept/standardisation switches, l2>=0, tolerances and initial guesses",
  "The tests compare about two dozen hand-picked data sets (some against R); the optimality claim is over every data set and every combination of options.",
  [S+"irls.rs",S+"glm.rs",S+"regularization.rs",S+"fit.rs",S+"data.rs"],
  [("IRLS normal equations",S+"irls.rs irls_mat_vec"),("ridge diagonal",S+"regularization.rs Ridge"),("best of history",S+"glm.rs regression")],
  ["Fit::result","Fit::model_like"])
p("C02","L1 and elastic-net fits satisfy the sparse optimality conditions",
  "When a fit with l1_reg>0 succeeds, the result maximises log-likelihood - l1*sum|b_k| - (l2/2)*sum b_k^2 over the (standardised, unless disabled) coefficients with the intercept unpenalised: at each nonzero coefficient the likelihood gradient balances the penalty, at each (numerically) zero coefficient it is at most l1 in magnitude. An l1 larger than every null-model gradient drives all penalised coefficients to zero, leaving the intercept-only fit.",
  ["inputs","configurations"],"all families/links, designs, weights, offsets, l1>0, l2>=0, with and without intercept and standardisation",
  "Two or three glmnet comparisons exist; ADMM convergence to the subgradient conditions has to hold on every data set and penalty.",
  [S+"regularization.rs",S+"irls.rs"],
  [("ADMM prepare/soft threshold/rho update",S+"regularization.rs Lasso, ElasticNet"),("terminate_ok",S+"regularization.rs")],
  ["Fit::result","Fit::model_like"])
p("C03","The reported likelihood, history and iteration count tell the truth",
  "model_like equals the documented penalised log-likelihood at result, every history entry pairs external-scale coefficients with the penalised log-likelihood at those coefficients, n_iter is the number of history entries, and result is a history entry of maximal likelihood (the initial guess only if the history is empty). A fit that runs out of iterations reports MaxIter with the configured limit and the history of the steps that were taken.",
  ["inputs","configurations","histories"],"every fit: all families, options, iteration limits (including 0 and 1), tolerances and initial guesses",
  "Tests check final coefficients; no test relates history, n_iter, model_like and result to one another.",
  [S+"irls.rs",S+"glm.rs",S+"fit.rs"],
  [("step_with",S+"irls.rs"),("max_by total_cmp / make_last_step",S+"glm.rs regression"),("history back-transform",S+"fit.rs Fit::new")],
  ["Fit::history","Fit::n_iter","Fit::model_like","RegressionError::MaxIter"],
  [("history","accepted steps",S+"irls.rs"),("n_iter","steps taken",S+"irls.rs")])
p("C04","Every iteration is an IRLS step or an improving fraction of one",
  "Without L1, each iterate is the previous one plus the IRLS (Fisher-scoring) step for the penalised likelihood, or — only if that full step does not improve the penalised likelihood — a multiple of it whose penalised likelihood strictly exceeds the previous one; the penalised likelihood never decreases along the history, so a fit is never worse than its starting point. Iteration goes on until neither the likelihood nor the coefficients move beyond the tolerance, so a looser tolerance or a smaller iteration limit only truncates the same sequence of iterates.",
  ["histories","inputs","configurations"],"every history produced by any family, link (including custom links that overshoot), data, tolerance, iteration limit and initial guess",
  "The source itself notes the step-halving branch is under-tested: ordinary data never overshoots.",
  [S+"irls.rs"],
  [("Irls::next acceptance test and step_scale line search",S+"irls.rs"),("small_delta stopping rule",S+"irls.rs")],
  ["Fit::history","RegressionError::MaxIter history"])
p("C05","Fitting terminates cleanly, and well-posed problems succeed",
  "Every fit returns in at most max_iter accepted iterations with Ok, MaxIter, a linear-algebra error, or BadInput when the iteration does not end at parameters with a finite likelihood, and never panics; a singular unregularised problem yields an error or a finite fit. On well-posed problems (full-rank design, bounded maximum-likelihood estimate, canonical or log link) a default fit returns Ok with finite coefficients and likelihood, and an initial guess at the optimum is accepted as is.",
  ["inputs","configurations"],"all families, links, options, designs including rank-deficient, zero, single-column and wide ones",
  "Non-termination and panics only show on inputs no test samples; tests unwrap a few successful fits.",
  [S+"irls.rs",S+"glm.rs",S+"regularization.rs",S+"data.rs"],
  [("max_iter guard",S+"irls.rs step_with"),("init_guess fallback",S+"glm.rs init_guess")],
  ["Model::fit","FitConfig::fit"])
p("C06","Internal standardisation is invisible to the user",
  "Without regularisation every public result (coefficients, likelihoods, statistics, residuals, tests, predictions) is the same with and without internal standardisation, on the scale of the data supplied. With regularisation on and standardisation enabled, shifting (given an intercept) or rescaling a covariate leaves likelihoods, fitted values and tests unchanged and transforms coefficients, score and covariance contragrediently; penalties act on coefficients of columns scaled by their weighted standard deviation, with zero-variance columns unscaled.",
  ["inputs","configurations"],"all designs incl. badly scaled, shifted or constant columns; weights; with/without intercept; with/without penalty",
  "One test checks one 9-point data set; the transform code has separate paths per intercept/weights and per quantity (beta, Fisher, score, LOO).",
  [S+"data.rs",S+"fit.rs",S+"glm.rs"],
  [("Standardizer",S+"data.rs"),("inverse_transform_* at API boundary",S+"fit.rs")],
  ["Fit::result","Fit::fisher","Fit::score","Fit::covariance","Fit::predict"])
p("C07","A frequency weight means that many copies of the observation",
  "Fitting with frequency weights gives the same coefficients, likelihoods, counts, dispersion, deviance, information criteria, covariance, tests and per-observation residuals as repeating each observation that many times; leverage of a weighted row is the sum over its copies. A zero frequency is the same as deleting the observation, all-one frequencies the same as none, and Dataset::n_obs is the total frequency.",
  ["inputs","configurations"],"all families, frequency vectors incl. zeros, combined with variance weights, offsets, standardisation and penalties",
  "A couple of tests compare one replicated data set; dozens of formulas each apply frequencies separately.",
  [S+"data.rs",S+"fit.rs"],
  [("freq_sum/apply_freq_weights/x_conj",S+"data.rs"),("dispersion_loo branches",S+"fit.rs")],
  ["Fit::*","Dataset::n_obs"])
p("C08","Variance weights scale each observation's information as documented",
  "Variance weights multiply each observation's likelihood contribution and squared Pearson and deviance residuals but are not counts: all-one weights equal no weights, multiplying all weights by c leaves unregularised coefficients, effective sample size, leverages and the dispersion D/((1-K/n_eff)*sum w) unchanged, and multiplies log-likelihood, deviance, score and information by c. n_eff is (sum w)^2/(sum w^2) over frequencies, and AIC/BIC include the -2*sum ln w term.",
  ["inputs","configurations"],"all families, positive weight vectors, combined with frequencies, offsets and penalties",
  "Tests cover a few weighted linear data sets vs R.",
  [S+"data.rs",S+"fit.rs"],
  [("apply_var_weights, n_eff, sum_weights",S+"data.rs"),("dispersion",S+"fit.rs")],
  ["Fit::dispersion","Fit::covariance","Dataset::n_eff","Fit::aic","Fit::bic"])
p("C09","Linear offsets enter the linear predictor with fixed unit coefficient",
  "An offset is added to each observation's linear predictor everywhere: in fitting, null model, residuals, tests and leave-one-out refits, and to predictions exactly when supplied. A zero offset equals no offset, a constant offset with an intercept only lowers the intercept by that constant, and an offset that is a combination of the columns only shifts those coefficients in an unregularised fit.",
  ["inputs","configurations"],"all families/links, offsets, weights, with/without intercept",
  "Few tests use offsets and only for two families; the null model has three separate offset code paths.",
  [S+"data.rs",S+"irls.rs",S+"fit.rs",S+"glm.rs"],
  [("linear_predictor_std",S+"data.rs"),("null_model_fit offset branches",S+"fit.rs"),("irls_mat_vec with no-control predictor",S+"irls.rs")],
  ["Fit::result","Fit::null_like","Fit::predict"])
p("C10","Results do not depend on row order, column order or memory layout",
  "Permuting observations permutes per-observation outputs and leaves everything else unchanged; permuting covariates permutes the coefficients and every matrix and vector indexed by them. Row-major, column-major, strided, reversed or borrowed views of the same numbers give the same results.",
  ["inputs","configurations"],"all permutations, all ndarray memory layouts/views, all families and options",
  "The code comments on layout-sensitive LAPACK inverses; tests use one layout each.",
  [S+"model.rs",S+"fit.rs",S+"data.rs"],
  [("Order::F copy",S+"model.rs build"),("inv_into instead of invh",S+"fit.rs")],
  ["Fit::*"])
p("C11","Fit queries are pure: caching and call order never change an answer",
  "Every query on a fit returns the same answer whether it is asked first, last, repeatedly or after any other queries, and queries never alter the public fields of the fit. Fitting never alters the model: refitting it, with the same or after other options, and fits alive side by side give independent and reproducible results.",
  ["histories"],"all sequences of fit and query calls on one model",
  "Answers are cached lazily in eight cells; tests mostly ask each question once on a fresh fit.",
  [S+"fit.rs",S+"model.rs"],
  [("OnceCell caches",S+"fit.rs")],
  ["Fit::*","Model::fit","Model::with_options"],
  [("phi, dev_terms, resid_pear, covariance, fisher_inv, fisher_std_inv, hat, null_model","lazily filled caches",S+"fit.rs")])
p("C12","Residuals follow their documented definitions",
  "Response, Pearson, deviance, working, partial, standardised (Pearson and deviance) and studentised residuals equal their documented formulas in the fitted means, variance function, link derivative, weights, leverage and dispersion. Deviance residuals square-sum (with frequencies) to the deviance and carry the sign of y - mu; for linear models with an intercept and no penalty the weighted partial residual columns average to zero.",
  ["inputs","configurations"],"all families/links incl. custom links, weights, offsets, penalties, perfectly fitted observations",
  "R comparisons exist for a few canonical-link data sets without all weight combinations.",
  [S+"fit.rs",S+"link.rs"],
  [("resid_* methods",S+"fit.rs"),("adjust_errors*",S+"link.rs")],
  ["Fit::resid_resp","Fit::resid_pear","Fit::resid_pear_std","Fit::resid_dev","Fit::resid_dev_std","Fit::resid_student","Fit::resid_work","Fit::resid_part"])
p("C13","Leverage, influence and leave-one-out agree with refitting",
  "The hat matrix is the sensitivity of fitted values to responses: leverages lie in [0,1], sum to the number of parameters without penalty, and P(y - mu)=0 at an unpenalised optimum. loo_exact returns, row by row, the coefficients of the same model with the same options refitted without that observation; infl_coef and Cook's distance equal their documented one-step formulas, and for linear models without penalty result - infl_coef is that refit exactly.",
  ["inputs","configurations"],"all families/links, weights (frequency and variance), offsets, penalties, standardisation",
  "Tests check LOO on one or two data sets; the refit rebuilds the dataset by hand and re-standardises.",
  [S+"fit.rs",S+"data.rs"],
  [("hat, leverage, infl_coef, loo_exact, cooks",S+"fit.rs"),("x_orig",S+"data.rs")],
  ["Fit::hat","Fit::leverage","Fit::infl_coef","Fit::loo_exact","Fit::cooks"])
p("C14","Score, Fisher information, covariance and Wald z are what they claim",
  "At any coefficient vector, score is the gradient of the penalised log-likelihood and fisher is the (expected) information X'W eta'^2 S X plus the penalty's curvature, both in external coordinates and independent of how the fit got there. Covariance is dispersion * I_reg^-1 I_data I_reg^-1 (the inverse information when unpenalised), symmetric and positive semidefinite, and wald_z is coefficient over standard error.",
  ["inputs","configurations"],"any parameter vector, all families/links, weights, offsets, L1/L2/elastic net, standardisation",
  "Tests evaluate score at optima and a few covariance matrices; penalised and shifted cases are barely sampled.",
  [S+"fit.rs",S+"regularization.rs",S+"data.rs"],
  [("score, fisher, covariance, wald_z, dispersion",S+"fit.rs"),("gradient/irls_mat",S+"regularization.rs")],
  ["Fit::score","Fit::fisher","Fit::covariance","Fit::wald_z"])
p("C15","Likelihood-ratio, score and Wald tests follow their definitions",
  "lr_test is twice the gain in (penalised) log-likelihood over the best intercept-only model (all-zero without intercept) and is never negative at an optimum; score_test and wald_test are the documented quadratic forms at the null parameters with test_ndf the number of constrained parameters. The *_against variants use the supplied coefficients: against the fit itself lr and Wald are zero, and lr_test_against(b) is twice the likelihood difference to b.",
  ["inputs","configurations"],"all families/links, weights, offsets (null model refit), with/without intercept, penalties, any alternative vector",
  "Null-model code has three branches (no offset, offset with/without intercept) exercised by single examples.",
  [S+"fit.rs"],
  [("null_model_fit, lr_test, score_test, wald_test and *_against",S+"fit.rs")],
  ["Fit::null_like","Fit::lr_test","Fit::score_test","Fit::wald_test","Fit::test_ndf"])
p("C16","Deviance, dispersion, AIC, BIC, R^2 and degrees of freedom are consistent",
  "Deviance is twice the weighted log-likelihood gap to the saturated model and is never negative; dispersion is one for fixed-dispersion families and D/((1-K/n_eff) sum w) otherwise; AIC, BIC, ndf, rss and R^2 equal their documented formulas. R^2 equals 1 - D/D0 and lies in [0,1] for unpenalised linear fits with intercept; for fixed data, adding a covariate never increases deviance.",
  ["inputs","configurations"],"all families/links, weights, offsets, penalties, boundary responses (0, 1, N)",
  "Tests pin a few numeric values from R.",
  [S+"fit.rs",S+"response/",S+"math.rs"],
  [("deviance, dispersion, aic, bic, r_sq, rss, ndf",S+"fit.rs"),("log_like_sat",S+"response/*.rs")],
  ["Fit::deviance","Fit::dispersion","Fit::aic","Fit::bic","Fit::r_sq","Fit::rss","Fit::ndf"])
p("C17","P-values and quantile residuals come from the right distributions",
  "P-values lie in [0,1] and equal the documented tail probabilities: chi-squared with test_ndf for the LR test, normal (fixed dispersion) or Student t with ndf (free dispersion) two-sided for Wald, chi-squared(1) or F(1, ndf) of the drop-one deviance difference for the exact test, where the reduced model really is refitted without that parameter under the same options. Quantile residuals are the standard-normal quantile of the fitted response distribution's CDF at y.",
  ["inputs","configurations"],"all families with the stats feature, weights, offsets, penalties, with/without intercept, any parameter index",
  "Three small data sets are pinned against R; the reduced refits have separate intercept/non-intercept paths.",
  [S+"fit.rs",S+"response/"],
  [("pvalue_*, dev_without_covariate, resid_quantile",S+"fit.rs"),("get_distribution",S+"response/*.rs")],
  ["Fit::pvalue_lr_test","Fit::pvalue_wald","Fit::pvalue_exact","Fit::resid_quantile"])
p("C18","Family and link functions are mutually consistent mathematics",
  "For every family and link: the inverse link undoes the link, the documented mean/variance/log-partition relations hold (mean = A'(eta), V = A''(eta)), the natural-parameter map is g0 after g^-1 with the stated derivative, and log-likelihoods are those of the documented density up to y-only terms and finite wherever the mean is valid, including responses at the boundary of their domain. A user-defined link that implements the same function as a built-in one gives the same fit.",
  ["inputs"],"all families, all links (built-in and custom), the whole linear-predictor range including extreme values",
  "TestLink samples about ten mid-range points per link.",
  [S+"link.rs",S+"response/",S+"glm.rs",S+"math.rs"],
  [("Link/Transform impls",S+"response/*.rs"),("Canonical blanket impl",S+"link.rs"),("log_like_natural",S+"glm.rs, response/logistic.rs")],
  ["Link::func","Link::func_inv","Transform::nat_param","Transform::d_nat_param","Fit::predict","Fit::model_like"])
p("C19","Invalid input is rejected with an error, valid input is accepted",
  "Building a model fails with BadInput when the lengths of y, x, offset or weights disagree, with InvalidY when a response is outside the family's domain (including NaN), and with BuildError when offset, frequency or variance weights are given twice, in whatever order the builder is used; it never panics or broadcasts silently. Otherwise build succeeds and the setters commute: their order does not affect the model.",
  ["inputs","histories"],"all builder call sequences and argument lengths, all response values per family",
  "Tests try three or four malformed inputs; the sequence space of builder calls is unexplored.",
  [S+"model.rs",S+"response/",S+"error.rs"],
  [("ModelBuilderData setters and build",S+"model.rs"),("Yval::into_float",S+"response/*.rs")],
  ["ModelBuilderData::build"])
p("C20","Regularisation interpolates monotonically between the MLE and the null fit",
  "A zero penalty gives the unpenalised fit; as l1 or l2 grows the penalty norm of the coefficients and the log-likelihood never increase, and in the limit the penalised coefficients vanish while the intercept stays at its unpenalised null value. Elastic net with one penalty set to zero equals the other pure fit, and regularising never penalises the intercept.",
  ["inputs","configurations"],"all families, designs, weights, penalty paths",
  "Tests fit single penalty values; monotonicity along the path is a relation between many fits.",
  [S+"irls.rs",S+"regularization.rs"],
  [("get_reg selection",S+"irls.rs"),("Ridge, Lasso, ElasticNet",S+"regularization.rs")],
  ["Fit::result","Fit::model_like","Fit::deviance"])
p("C21","Prediction is the inverse link of X*beta plus offset, on the user's scale",
  "predict(X, offset) equals the inverse link applied to [1 X]*result + offset (no ones column without an intercept), for any X with the right number of columns, row by row and independent of the other rows. On the training design and offset it equals the fitted means (y minus the response residuals), and log/logit/cloglog predictions stay inside the response domain.",
  ["inputs","configurations"],"all families/links, new designs of any row count incl. zero rows, layouts, offsets, standardisation and penalties",
  "Tests predict on training rows of one or two models.",
  [S+"fit.rs",S+"data.rs"],
  [("predict, one_pad",S+"fit.rs, data.rs")],
  ["Fit::predict"])
p("C22","Single and double precision agree",
  "The same model built in f32 and in f64 gives the same coefficients, likelihoods, statistics and errors up to single-precision accuracy. Response type (bool or 0/1 floats, unsigned widths) never changes a result.",
  ["inputs","configurations"],"all families/links/options, moderately conditioned data",
  "Only a few tests instantiate f32 at all.",
  [S+"num.rs",S+"irls.rs",S+"regularization.rs",S+"response/"],
  [("Float trait",S+"num.rs"),("epsilon-based tolerances",S+"irls.rs, "+S+"fit/options.rs")],
  ["Fit::*"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
