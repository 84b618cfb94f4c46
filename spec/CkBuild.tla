------------------------------ MODULE CkBuild ------------------------------
(* Judgement of recorded calls to the builder: C19, and the size of the     *)
(* data (C07, C08) wherever a model was built.                              *)
EXTENDS Rel, BuildRules

(* responses a family accepts; a value about which nothing is promised counts as both *)
RealY(e) == e.ytype \in {"f32", "f64"}
Pos(v) == Zero \prec v
MustReject(e, v) ==
  \/ RIsNaN(v)
  \/ e.fam = "logistic" /\ ~(Zero \preceq v /\ v \preceq One)
  \/ e.fam = "binomial" /\ ~(Zero \preceq v /\ v \preceq RInt(e.N))
  \/ e.fam = "poisson" /\ ~(Zero \preceq v)
  \/ e.fam \in {"exponential", "gamma", "invgaussian"} /\ ~Pos(v)
MustAccept(e, v) == ~MustReject(e, v) /\ RFinite(v)

BadLen(e) ==
  \/ Len(e.y) # e.n
  \/ e.hasoff /\ Len(e.off) # e.n
  \/ e.hasw /\ Len(e.w) # e.n
  \/ e.hasf /\ Len(e.f) # e.n
(* a length is checked against either of two lengths that disagree *)
BadY(e) == \E i \in DOMAIN e.y : MustReject(e, e.y[i])
Unclear(e) == \E i \in DOMAIN e.y : ~MustReject(e, e.y[i]) /\ ~MustAccept(e, e.y[i])
Dup(e) == Repeats(e.order)
Sound(e) == ~BadLen(e) /\ ~BadY(e) /\ ~Dup(e)

DataSize(P, e) ==
  IF ~(e.out = "ok" /\ Sound(e)) THEN {} ELSE
  LET n == e.n
      ones == VConst(n, One)
      w == IF e.hasw THEN e.w ELSE ones
      f == IF e.hasf THEN e.f ELSE ones
      sw == Dot(f, w)
      sw2 == Dot(f, VMul(w, w))
      tol == RDec(IF e.dtype = "f32" THEN "1e-5" ELSE "1e-12")
      same(u, v) == Len(u) = Len(v) /\ \A i \in DOMAIN u : RClose(u[i], v[i], tol, RDec("1e-35"))
  IN Chk(P \o ".n_obs", RClose(e.n_obs, Sum(f), tol, Zero))
     \cup Chk(P \o ".n_eff", Pos(sw2) => RClose(e.n_eff, (sw ** sw) // sw2, tol, Zero))
     \cup Chk(P \o ".kept", /\ same(e.ky, e.y) /\ e.khas = <<e.hasoff, e.hasw, e.hasf>>
                            /\ same(e.koff, e.off) /\ same(e.kw, e.w) /\ same(e.kf, e.f))

C19(e) ==
  LET ans == IF e.out = "ok" THEN "ok" ELSE e.err
      may == Answers(Dup(e), BadLen(e), BadY(e)) \cup (IF Unclear(e) THEN {"ok", "InvalidY"} ELSE {})
  IN Chk("C19.returns", e.out \in {"ok", "err"})
     \cup (IF e.out \notin {"ok", "err"} THEN {} ELSE
           Chk(IF Dup(e) THEN "C19.dup" ELSE IF BadLen(e) THEN "C19.len" ELSE IF BadY(e) THEN "C19.y" ELSE "C19.accepts",
               (e.n = 0 /\ ans # "ok") \/ ans \in may))
     \cup DataSize("C19", e)
=============================================================================
