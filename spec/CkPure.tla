------------------------------- MODULE CkPure -------------------------------
(***************************************************************************)
(* Purity (C11): a memory of everything a model and its fits have answered *)
(* so far, keyed by what was asked; an answer to a question asked before   *)
(* must agree with the one remembered, whatever happened in between and    *)
(* whichever fit (with the same options) it is asked of.                   *)
(***************************************************************************)
EXTENDS Rel, SequencesExt

OptKey(fe) == <<fe.l1, fe.l2, fe.tol, fe.max_iter, fe.init>>
AskKey(fe, en) == [m |-> fe.m, opt |-> OptKey(fe), q |-> en.q, at |-> en.at, a |-> en.a, x |-> en.x]
FitKey(fe)  == [m |-> fe.m, opt |-> OptKey(fe), q |-> "fit", at |-> "", a |-> <<>>, x |-> <<>>]
PeekKey(e)  == [m |-> e.m, opt |-> <<>>, q |-> "peek", at |-> "", a |-> <<>>, x |-> <<>>]

FieldQ == {"result", "model_like", "n_iter", "hist_like", "hist_last", "options"}
MatrixQ == {"covariance", "fisher", "hat", "infl_coef", "loo_exact", "resid_part"}
VectorQ == {"resid_resp", "resid_pear", "resid_dev", "resid_work", "resid_pear_std", "resid_dev_std", "resid_student", "leverage", "cooks", "resid_quantile",
            "wald_z", "p_wald", "p_exact", "score", "predict", "result", "hist_like", "hist_last", "options"}
Flat(q, v) == IF q \in MatrixQ THEN FlattenSeq(v) ELSE IF q \in VectorQ THEN v ELSE <<v>>

Near(a, b, t) == (RIsNaN(a) /\ RIsNaN(b)) \/ REq(a, b) \/ RAbs(a -- b) \preceq t
FiniteMax(v) == VMaxAbs([i \in DOMAIN v |-> IF RFinite(v[i]) THEN v[i] ELSE Zero])
AgreeV(u, v, rtol, atol) == Len(u) = Len(v) /\ (u # <<>> => LET t == (rtol ** FiniteMax(u)) ++ atol IN \A i \in DOMAIN u : Near(u[i], v[i], t))

PureTol(D) == Sd(D, "1e-3", "1e-8")
Floor(D, S, q) == (RInt(10000) ** Eps(D)) ** (IF S.valid /\ RFinite(S.llmag) THEN One ++ (S.llmag ++ (IF q = "score" THEN VMaxAbs(SqrtDiag(S.fr)) ELSE Zero)) ELSE One)

(* old and new: entries of recorded queries *)
AgreeQ(D, S, old, new) ==
  IF old.st # new.st THEN Chk("C11.status." \o new.q, FALSE)
  ELSE IF new.st # "ok" THEN Chk("C11.error." \o new.q, old.err = new.err)
  ELSE Chk("C11.answer." \o new.q, AgreeV(Flat(new.q, old.v), Flat(new.q, new.v), PureTol(D), Floor(D, S, new.q)))

(* public fields are those the fit came with *)
Field(D, fe, en) ==
  CASE en.q = "result"     -> Chk("C11.field.result", AgreeV(fe.res, en.v, Zero, Zero))
    [] en.q = "model_like" -> Chk("C11.field.model_like", Near(fe.like, en.v, Zero))
    [] en.q = "n_iter"     -> Chk("C11.field.n_iter", REq(RInt(fe.n_iter), en.v))
    [] en.q = "hist_like"  -> Chk("C11.field.history", fe.hn = Len(fe.hl) => AgreeV(fe.hl, en.v, Zero, Zero))
    [] en.q = "hist_last"  -> Chk("C11.field.history", fe.hn > 0 => AgreeV(fe.hb[Len(fe.hb)], en.v, Zero, Zero))
    [] en.q = "options"    -> Chk("C11.field.options", AgreeV(<<fe.l1, fe.l2, fe.tol, RInt(fe.max_iter)>>, en.v, Zero, Zero))
    [] OTHER -> {}

AgreeFit(D, old, new) ==
  Chk("C11.refit.outcome", old.out = new.out /\ old.err = new.err)
  \cup (IF old.out # new.out THEN {} ELSE
        Chk("C11.refit.n_iter", old.n_iter = new.n_iter /\ old.hn = new.hn)
        \cup Chk("C11.refit.result", AgreeV(old.res, new.res, PureTol(D), Zero))
        \cup Chk("C11.refit.like", Near(old.like, new.like, PureTol(D) ** RMax(One, RAbs(old.like)))))
AgreePeek(old, new) == Chk("C11.data", AgreeV(old.v, new.v, Zero, Zero))
=============================================================================
