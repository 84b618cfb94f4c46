-------------------------------- MODULE Base --------------------------------
(* Access to recorded executions, tolerances and clause helpers.            *)
EXTENDS Stats, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.GLM_TRACE)
Prop  == IOEnv.GLM_PROP

Ev(s) == Trace[s].ev
WellPosed(s) == Trace[s].wp

Chk(name, ok) == IF ok THEN {} ELSE {name}
OptOf(e) == [l1 |-> e.l1, l2 |-> e.l2]
Unpen(e) == REq(e.l1, Zero) /\ REq(e.l2, Zero)
NoL1(e) == REq(e.l1, Zero)
FitOk(e) == e.out = "ok"
DefaultTol(D, e) == REq(e.tol, IF D.sgl THEN RDec("1.1920928955078125e-07") ELSE RDec("2.220446049250313e-16"))

(* tolerance multiplier, lowered only when the tolerances are being calibrated *)
Slack == IF "GLM_SLACK" \in DOMAIN IOEnv THEN RDec(IOEnv.GLM_SLACK) ELSE One
(* single/double alternatives *)
Sd(D, single, double) == Slack ** RDec(IF D.sgl THEN single ELSE double)

(* relative tolerance of a documented formula evaluated by both sides at the same coefficients *)
TolRaw(D, S) == Sd(D, "2e-4", "1e-9") ++ (Slack ** (RInt(60) ** (Eps(D) ** (S.cond ++ (S.satur ++ S.derr)))))
TolF(D, S) == RMin(RDec("0.05"), TolRaw(D, S))
(* linear predictors whose exponentials (and their squares, or cubes) are representable *)
Tame(D, om) == D.link \in {"id", "cube", "sqrt", "negrec", "negrecsq", "logit", "logit_u"}
               \/ \A i \in 1..D.n : RAbs(om[i]) \preceq RDec(IF D.fam = "invgaussian" THEN (IF D.sgl THEN "25" ELSE "220") ELSE IF D.sgl THEN "40" ELSE "340")
(* absolute tolerance of a likelihood-type sum *)
TolL(D, mag) == Sd(D, "2e-5", "1e-11") ** (One ++ mag)
Usable(D, S) == /\ S.valid /\ AllFinite(S.om) /\ AllFinite(S.mu) /\ RFinite(S.cond) /\ RFinite(S.satur)
                /\ \A i \in D.live : Zero \prec S.V[i]
                \* the cube link is flat at zero, where means underflow
                /\ D.link = "cube" => \A i \in D.live : Sd(D, "1e-8", "1e-60") \prec RAbs(S.om[i])
                /\ TolRaw(D, S) \prec RDec("0.05")
                \* a free dispersion is undefined without effective degrees of freedom
                /\ Dispersed(D.fam) => (RInt(D.p) ++ RDec("0.25")) \prec D.neff
MaxLev(S) == LET m == VMaxAbs(S.h) IN m
=============================================================================
