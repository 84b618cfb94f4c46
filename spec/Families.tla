------------------------------ MODULE Families ------------------------------
(***************************************************************************)
(* The exponential families and link functions.  fam is a family name,     *)
(* N the number of trials (binomial only), link a link name.               *)
(*   eta : natural parameter, om : linear predictor, mu : mean.            *)
(***************************************************************************)
EXTENDS Num

Families  == {"linear", "logistic", "poisson", "binomial", "exponential", "gamma", "invgaussian"}
Dispersed(fam) == fam \in {"linear", "gamma", "invgaussian"}

LinksOf(fam) ==
  CASE fam = "linear"      -> {"id", "cube", "slinh"}
    [] fam = "logistic"    -> {"logit", "cloglog", "logit_u"}
    [] fam = "poisson"     -> {"log", "sqrt", "log_u"}
    [] fam = "binomial"    -> {"logit"}
    [] fam = "exponential" -> {"negrec", "log"}
    [] fam = "gamma"       -> {"negrec", "log"}
    [] fam = "invgaussian" -> {"negrecsq", "log"}
(* "cube", "slinh", "logit_u", "sqrt", "log_u" are user-defined links of the harness: *)
(*   cube    g(mu) = cbrt(mu), mu = om^3: flat at 0                                                  *)
(*   slinh   g(mu) = arsinh(mu),  mu = sinh(om): violently overshooting, exercises step halving   *)
(*   logit_u, log_u : the same functions as the built-in canonical links, implemented through the *)
(*             non-canonical interface; sqrt : the example in the crate's documentation           *)

Canonical(fam) ==
  CASE fam = "linear" -> "id"     [] fam = "logistic" -> "logit"  [] fam = "poisson" -> "log"
    [] fam = "binomial" -> "logit" [] fam = "exponential" -> "negrec" [] fam = "gamma" -> "negrec"
    [] fam = "invgaussian" -> "negrecsq"
(* links that are the canonical function, however they are implemented *)
IsCanonical(fam, link) == link \in {Canonical(fam)} \cup
   (CASE fam = "logistic" -> {"logit_u"} [] fam = "poisson" -> {"log_u"} [] OTHER -> {})

(* ln(1 + e^x) *)
Softplus(x) == RMax(x, Zero) ++ RLn1p(RExp(RNeg(RAbs(x))))
(* 1/(1+e^-x) *)
Expit(x) == One // (One ++ RExp(RNeg(x)))
(* x ln x, continuous at 0 *)
XLnX(x) == IF REq(x, Zero) THEN Zero ELSE x ** RLn(x)

----------------------------------------------------------------------------
(* Family: log-partition A, variance function V, saturated log-likelihood.  *)
LogPart(fam, N, eta) ==
  CASE fam = "linear"      -> Half ** (eta ** eta)
    [] fam = "logistic"    -> Softplus(eta)
    [] fam = "binomial"    -> RInt(N) ** Softplus(eta)
    [] fam = "poisson"     -> RExp(eta)
    [] fam \in {"exponential", "gamma"} -> RNeg(RLn(RNeg(eta)))
    [] fam = "invgaussian" -> RNeg(RSqrt(RInt(-2) ** eta))

(* A'(eta) and A''(eta) *)
DLogPart(fam, N, eta) ==
  CASE fam = "linear"      -> eta
    [] fam = "logistic"    -> Expit(eta)
    [] fam = "binomial"    -> RInt(N) ** Expit(eta)
    [] fam = "poisson"     -> RExp(eta)
    [] fam \in {"exponential", "gamma"} -> RNeg(One // eta)
    [] fam = "invgaussian" -> One // RSqrt(RInt(-2) ** eta)

Variance(fam, N, mu) ==
  CASE fam = "linear"      -> One
    [] fam = "logistic"    -> mu ** (One -- mu)
    [] fam = "binomial"    -> mu ** (One -- (mu // RInt(N)))
    [] fam = "poisson"     -> mu
    [] fam \in {"exponential", "gamma"} -> mu ** mu
    [] fam = "invgaussian" -> mu ** (mu ** mu)

LogLikeSat(fam, N, y) ==
  CASE fam = "linear"      -> Half ** (y ** y)
    [] fam = "logistic"    -> XLnX(y) ++ XLnX(One -- y)
    [] fam = "binomial"    -> (XLnX(y) ++ XLnX(RInt(N) -- y)) -- XLnX(RInt(N))
    [] fam = "poisson"     -> XLnX(y) -- y
    [] fam \in {"exponential", "gamma"} -> RNeg(One ++ RLn(y))
    [] fam = "invgaussian" -> Half // y

(* Which responses (as reals) belong to the family; NaN never does. *)
InDomain(fam, N, y) ==
  CASE fam = "linear"      -> TRUE
    [] fam = "logistic"    -> Zero \preceq y /\ y \preceq One
    [] fam = "binomial"    -> Zero \preceq y /\ y \preceq RInt(N)
    [] fam = "poisson"     -> Zero \preceq y
    [] OTHER               -> Zero \prec y

----------------------------------------------------------------------------
(* Links.                                                                  *)
MeanOf(fam, N, link, om) ==
  CASE link = "id"        -> om
    [] link = "cube"      -> om ** (om ** om)
    [] link = "slinh"     -> Half ** (RExp(om) -- RExp(RNeg(om)))
    [] link \in {"logit", "logit_u"} -> (IF fam = "binomial" THEN RInt(N) ELSE One) ** Expit(om)
    [] link = "cloglog"   -> RNeg(RExpm1(RNeg(RExp(om))))
    [] link \in {"log", "log_u"} -> RExp(om)
    [] link = "sqrt"      -> om ** om
    [] link = "negrec"    -> RNeg(One // om)
    [] link = "negrecsq"  -> One // RSqrt(RInt(-2) ** om)

LinkOf(fam, N, link, mu) ==
  CASE link = "id"        -> mu
    [] link = "cube"      -> RCbrt(mu)
    [] link = "slinh"     -> RSign(mu) ** RLn(RAbs(mu) ++ RSqrt(One ++ (mu ** mu)))
    [] link \in {"logit", "logit_u"} ->
         IF fam = "binomial" THEN RLn(mu // (RInt(N) -- mu)) ELSE RLn(mu // (One -- mu))
    [] link = "cloglog"   -> RLn(RNeg(RLn1p(RNeg(mu))))
    [] link \in {"log", "log_u"} -> RLn(mu)
    [] link = "sqrt"      -> RSqrt(mu)
    [] link = "negrec"    -> RNeg(One // mu)
    [] link = "negrecsq"  -> RNeg(Half // (mu ** mu))

(* eta(om) = g0(g^-1(om)), in a form that does not overflow *)
NatOf(fam, link, om) ==
  IF IsCanonical(fam, link) THEN om ELSE
  CASE link = "cube"      -> om ** (om ** om)
    [] link = "slinh"     -> Half ** (RExp(om) -- RExp(RNeg(om)))
    [] link = "cloglog"   -> LET e == RExp(om) IN e ++ RLn(RNeg(RExpm1(RNeg(e))))
    [] link = "sqrt"      -> Two ** RLn(om)
    [] link = "log" /\ fam = "invgaussian" -> RNeg(Half ** RExp(RInt(-2) ** om))
    [] link = "log"       -> RNeg(RExp(RNeg(om)))

(* d eta / d om = 1/(g'(mu) V(mu)) *)
DNatOf(fam, link, om) ==
  IF IsCanonical(fam, link) THEN One ELSE
  CASE link = "cube"      -> RInt(3) ** (om ** om)
    [] link = "slinh"     -> Half ** (RExp(om) ++ RExp(RNeg(om)))
    [] link = "cloglog"   -> LET e == RExp(om) IN e // RNeg(RExpm1(RNeg(e)))
    [] link = "sqrt"      -> Two // om
    [] link = "log" /\ fam = "invgaussian" -> RExp(RInt(-2) ** om)
    [] link = "log"       -> RExp(RNeg(om))

(* Linear predictors at which the mean is a valid mean of the family *)
OmegaValid(fam, link, om) ==
  CASE link \in {"negrec", "negrecsq"} -> om \prec Zero
    [] link = "sqrt" -> Zero \prec om
    [] OTHER -> RFinite(om)

----------------------------------------------------------------------------
(* log-likelihood of one observation with y-only terms dropped: y*eta - A(eta), *)
(* written so that it neither overflows nor cancels.                            *)
LogLike1(fam, N, link, y, om) ==
  CASE fam = "logistic" /\ link = "cloglog" ->
         LET e == RExp(om)
             a == IF REq(y, Zero) THEN Zero ELSE y ** RLn(RNeg(RExpm1(RNeg(e))))
         IN a -- ((One -- y) ** e)
    [] fam = "logistic"   -> (y ** om) -- Softplus(om)
    [] fam = "binomial"   -> (y ** om) -- (RInt(N) ** Softplus(om))
    [] fam = "poisson" /\ link = "sqrt" ->
         (IF REq(y, Zero) THEN Zero ELSE y ** NatOf(fam, link, om)) -- (om ** om)
    [] OTHER -> LET eta == NatOf(fam, link, om) IN (y ** eta) -- LogPart(fam, N, eta)

(* The cumulative distribution of the response (continuous families with a      *)
(* distribution in the implementation), phi the effective dispersion.           *)
ResponseCdf(fam, y, mu, phi) ==
  CASE fam = "linear"      -> NormCdf((y -- mu) // RSqrt(phi))
    [] fam = "exponential" -> RNeg(RExpm1(RNeg(y // mu)))
    [] fam = "gamma"       -> GammaCdf(y, One // phi, One // (phi ** mu))
=============================================================================
