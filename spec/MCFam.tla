-------------------------------- MODULE MCFam --------------------------------
(***************************************************************************)
(* The families and links of the specification, checked against their own  *)
(* defining relations on a grid: means, variances and natural parameters   *)
(* are derivatives of the log-partition along the link, likelihoods are    *)
(* maximal at the response, links and inverse links undo each other.       *)
(* This is the oracle of C18; a slip in it would be a false alarm or a     *)
(* missed defect everywhere else.                                          *)
(***************************************************************************)
EXTENDS Families
Grid == -160..160   \* twentieths of a unit

VARIABLES fam, link, N, om, y
vars == <<fam, link, N, om, y>>

OmOf(t) == RInt(t) // RInt(20)
Responses(f, n) ==
  CASE f = "linear" -> {RDec("-2.5"), Zero, One}
    [] f = "logistic" -> {Zero, One}
    [] f = "binomial" -> {Zero, One, RInt(n)}
    [] f = "poisson" -> {Zero, One, RInt(4)}
    [] OTHER -> {RDec("0.2"), One, RInt(3)}
Init == /\ fam \in Families
        /\ link \in LinksOf(fam)
        /\ N \in (IF fam = "binomial" THEN {1, 2, 7} ELSE {1})
        /\ \E t \in Grid : om = OmOf(t)
        /\ OmegaValid(fam, link, om)
        /\ y \in Responses(fam, N)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Near(a, b, t) == RAbs(a -- b) \preceq (t ** (One ++ (RAbs(a) ++ RAbs(b))))
h == RDec("0.0001")
(* central difference, and the error it may have *)
Slope(F(_), x) == (F(x ++ h) -- F(x -- h)) // (Two ** h)
Tight == RDec("1e-9")
Loose == RDec("1e-5")
Interior(v) == OmegaValid(fam, link, v -- h) /\ OmegaValid(fam, link, v ++ h)
Flat == link = "cube" /\ RAbs(om) \prec RDec("0.001")

Mu(v)  == MeanOf(fam, N, link, v)
Eta(v) == NatOf(fam, link, v)
Inverse == ((link = "cloglog" => om \preceq RInt(3)) /\ RAbs(om) \preceq RInt(6) /\ ~Flat) => Near(LinkOf(fam, N, link, Mu(om)), om, RDec("1e-6"))
Partition == RAbs(om) \preceq RInt(4) => Near(DLogPart(fam, N, Eta(om)), Mu(om), RDec("1e-8"))
Natural == (Interior(om) /\ RAbs(om) \preceq RInt(4)) => Near(Slope(Eta, om), DNatOf(fam, link, om), Loose)
(* A''(eta) = V: the mean moves as V * eta' *)
Spread == Interior(om) => Near(Slope(Mu, om), Variance(fam, N, Mu(om)) ** DNatOf(fam, link, om), Loose)
Like(v) == LogLike1(fam, N, link, y, v)
Written == RAbs(om) \preceq RInt(4) => Near(Like(om), (y ** Eta(om)) -- LogPart(fam, N, Eta(om)), RDec("1e-8"))
Gradient == Interior(om) => Near(Slope(Like, om), DNatOf(fam, link, om) ** (y -- Mu(om)), Loose)
Saturated == Like(om) \preceq (LogLikeSat(fam, N, y) ++ Tight)
Edge == \/ fam \in {"logistic", "binomial", "poisson"} /\ REq(y, Zero)
        \/ fam = "logistic" /\ REq(y, One)
        \/ fam = "binomial" /\ REq(y, RInt(N))
AtMean == Edge \/ LET v == LinkOf(fam, N, link, y) IN OmegaValid(fam, link, v) => Near(LogLike1(fam, N, link, y, v), LogLikeSat(fam, N, y), Tight)
Domain == InDomain(fam, N, y)
=============================================================================
