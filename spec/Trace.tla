-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of recorded executions.  One initial state per recorded      *)
(* session; each step consumes one event of it (an API call and its        *)
(* answer).  The state is what a user of the crate holds: the models and   *)
(* the fits made so far.  bad is the set of clauses of the active property *)
(* that the event violates.                                                *)
(***************************************************************************)
EXTENDS CkBuild, CkPure, Reduce

VARIABLES s,    \* session
          l,    \* events consumed
          mdl,  \* model slot -> data of the model (specification's view), or <<>>
          fts,  \* fit slot   -> [l, m] of the live fit, or <<>>
          mem,  \* what has been answered so far (kept for C11 only)
          bad   \* violated clauses at event l
vars == <<s, l, mdl, fts, mem, bad>>

Init == /\ s \in DOMAIN Trace
        /\ l = 0
        /\ mdl = [i \in 0..15 |-> <<>>]
        /\ fts = [i \in 0..23 |-> <<>>]
        /\ mem = [key \in {} |-> <<>>]
        /\ bad = {}

Cur == Ev(s)[l + 1]
IsEvent(name) == l < Len(Ev(s)) /\ Cur.e = name /\ l' = l + 1 /\ s' = s
Judge(clauses) == /\ bad' = clauses
                  /\ \A c \in clauses : PrintT("BAD " \o Trace[s].sid \o " " \o ToString(l + 1) \o " " \o c)

ModelClauses(e) == CASE Prop = "C19" -> C19(e) [] Prop \in {"C07", "C08", "C22"} -> DataSize(Prop, e) [] OTHER -> {}

Build == /\ IsEvent("model")
         /\ mdl' = [mdl EXCEPT ![Cur.m] = IF Cur.out = "ok" /\ ~BadLen(Cur) THEN TLCEval(DataOf(Cur)) ELSE <<>>]
         /\ fts' = fts
         /\ mem' = [key \in {h \in DOMAIN mem : h.m # Cur.m} |-> mem[key]]
         /\ Judge(ModelClauses(Cur))

(* the memory, extended by what was not asked before *)
Remember(keys, ans) ==
  IF Prop # "C11" THEN mem
  ELSE LET new == {t \in DOMAIN keys : keys[t] \notin DOMAIN mem /\ \A u \in 1..(t - 1) : keys[u] # keys[t]}
       IN TLCEval(mem @@ [key \in {keys[t] : t \in new} |-> ans[CHOOSE t \in new : keys[t] = key]])

(* weights and offsets also have to do what the documented formulas say they do *)
Special(D) == (Prop = "C07" /\ D.hasf) \/ (Prop = "C08" /\ D.hasw) \/ (Prop = "C09" /\ D.hasoff)
RelProps == {"C06", "C07", "C08", "C09", "C10", "C18", "C19", "C22"}
FitClauses(e, D) ==
  CASE Prop = "C01" -> C01(Ev(s), l + 1, D)
    [] Prop = "C02" -> C02(Ev(s), l + 1, D)
    [] Prop = "C03" -> C03(Ev(s), l + 1, D)
    [] Prop = "C04" -> C04(Ev(s), l + 1, D)
    [] Prop = "C05" -> C05(s, Ev(s), l + 1, D)
    [] Prop = "C11" -> IF FitKey(e) \in DOMAIN mem THEN AgreeFit(D, mem[FitKey(e)], e) ELSE {}
    [] Prop = "C20" -> C20(Ev(s), l + 1, D)
    [] Prop = "C06" -> RelFit(s, Ev(s), l + 1, mdl) \cup C01(Ev(s), l + 1, D) \cup C02(Ev(s), l + 1, D)
    [] Special(D) -> RelFit(s, Ev(s), l + 1, mdl) \cup C01(Ev(s), l + 1, D) \cup C02(Ev(s), l + 1, D) \cup C03(Ev(s), l + 1, D)
    [] Prop \in RelProps -> RelFit(s, Ev(s), l + 1, mdl)
    [] Prop = "C16" -> ChkNested(Ev(s), l + 1, D, e)
    [] OTHER -> {}
MakeFit == /\ IsEvent("fit")
           /\ mdl' = mdl
           /\ fts' = [fts EXCEPT ![Cur.f] = IF Cur.out = "ok" THEN [l |-> l + 1, m |-> Cur.m] ELSE <<>>]
           /\ mem' = Remember(<<FitKey(Cur)>>, <<Cur>>)
           /\ Judge(IF mdl[Cur.m] = <<>> THEN {} ELSE FitClauses(Cur, mdl[Cur.m]))

QueryClauses(D, o, b, S, en, unpen, tight) ==
  CASE Prop = "C12" -> ChkC12(D, o, b, S, en, unpen, tight)
    [] Prop = "C13" -> ChkC13(D, o, b, S, en, unpen, tight)
    [] Prop = "C14" -> ChkC14(D, o, b, S, en, unpen, tight)
    [] Prop = "C15" -> ChkC15(D, o, b, S, en, unpen, tight)
    [] Prop = "C16" -> ChkC16(D, o, b, S, en, unpen, tight)
    [] Prop = "C17" -> ChkC17(D, o, b, S, en, unpen, tight)
    [] Prop = "C18" -> ChkC18(D, o, b, S, en, unpen, tight)
    [] Prop = "C21" -> ChkC21(D, o, b, S, en, unpen, tight)
    [] Special(D) -> ChkC12(D, o, b, S, en, unpen, tight) \cup ChkC13(D, o, b, S, en, unpen, tight) \cup ChkC14(D, o, b, S, en, unpen, tight)
                     \cup ChkC15(D, o, b, S, en, unpen, tight) \cup ChkC16(D, o, b, S, en, unpen, tight) \cup ChkC17(D, o, b, S, en, unpen, tight)
                     \cup ChkC21(D, o, b, S, en, unpen, tight)
    [] OTHER -> {}

(* A query of a well-posed fit must be answered.  The exact p-values need refits of reduced models that may   *)
(* be ill-posed (no valid mean without an intercept, ADMM out of iterations); those may be refused.           *)
MayRefuse(D, o, en) ==
  \/ /\ en.q = "p_exact" /\ en.st = "err"
     /\ ~(REq(o.l1, Zero) /\ IsCanonical(D.fam, D.link) /\ D.fam \in {"linear", "logistic", "binomial", "poisson"})
  \* a deletion may leave a problem without a finite solution
  \/ en.q = "loo_exact" /\ en.st = "err" /\ ~(D.fam = "linear" /\ D.link = "id" /\ REq(o.l1, Zero))
  \* the cube link is flat at zero: no information at the null parameters
  \/ en.q = "score_test" /\ en.st = "err" /\ D.link = "cube" /\ ~D.icpt
  \* a singular information matrix cannot be inverted
  \/ en.q \in {"score_against", "score_test"} /\ en.st = "err" /\ D.link \notin {"id", "logit", "log"}
Answered(D, o, en) == Chk(Prop \o ".answered." \o en.q \o "." \o en.st, en.st = "ok" \/ ~WellPosed(s) \/ MayRefuse(D, o, en))

ObsClauses ==
  LET fe == Ev(s)[fts[Cur.f].l]
      D  == mdl[fts[Cur.f].m]
      o  == OptOf(fe)
      b  == fe.res
      S0 == StatsOf(D, o, b)
      weak == Prop \in {"C16", "C18", "C21"}
      \* these need no inverse of the information matrix
      S  == TLCEval(IF weak THEN [S0 EXCEPT !.cond = One] ELSE S0)
      tight == DefaultTol(D, fe)
      fine == S.valid /\ (weak \/ Usable(D, S)) /\ (Prop = "C18" => Tame(D, S.om))
      me == ModelAt(Ev(s), fts[Cur.f].l, fts[Cur.f].m)
      \* answers that involve reduced models
      Reduced(en) == CASE Prop = "C13" -> ChkLoo(me, fe, D, o, b, S, en)
                       [] Prop = "C17" -> ChkExact(Ev(s), l + 1, me, mdl, fe, D, o, b, S, en)
                       [] Prop = "C16" -> ChkNestedDev(Ev(s), l + 1, fts[Cur.f].l, D, en)
                       [] OTHER -> {}
      good == {i \in DOMAIN Cur.q : Cur.q[i].st = "ok"}
  IN (IF Prop \in RelProps \ {"C18"} THEN {} ELSE UNION {Answered(D, o, Cur.q[t]) : t \in DOMAIN Cur.q})
     \cup (IF Prop \in RelProps /\ AllFinite(b) THEN RelObs(s, Ev(s), l + 1, fts[Cur.f].l, mdl, S0, S0.valid /\ Usable(D, S0)) ELSE {})
     \cup (IF AllFinite(b) /\ fine
           THEN UNION {QueryClauses(D, o, b, S, Cur.q[t], Unpen(fe), tight) \cup (IF tight THEN Reduced(Cur.q[t]) ELSE {}) : t \in good}
           ELSE {})
PureClauses ==
  LET fe == Ev(s)[fts[Cur.f].l]
      D  == mdl[fts[Cur.f].m]
      S  == TLCEval(StatsOf(D, OptOf(fe), fe.res))
      keys == TLCEval([t \in DOMAIN Cur.q |-> AskKey(fe, Cur.q[t])])
      old(t) == IF keys[t] \in DOMAIN mem THEN mem[keys[t]] ELSE Cur.q[CHOOSE u \in 1..t : keys[u] = keys[t] /\ \A h \in 1..(u - 1) : keys[h] # keys[t]]
  IN UNION {AgreeQ(D, S, old(t), Cur.q[t]) \cup Field(D, fe, Cur.q[t]) : t \in DOMAIN Cur.q}
Query == /\ IsEvent("obs")
         /\ UNCHANGED <<mdl, fts>>
         /\ mem' = IF Prop = "C11" /\ mdl[fts[Cur.f].m] # <<>> THEN Remember([t \in DOMAIN Cur.q |-> AskKey(Ev(s)[fts[Cur.f].l], Cur.q[t])], Cur.q) ELSE mem
         /\ Judge(IF mdl[fts[Cur.f].m] = <<>> THEN {} ELSE IF Prop = "C11" THEN PureClauses ELSE ObsClauses)
Peek == /\ IsEvent("peek")
        /\ UNCHANGED <<mdl, fts>>
        /\ mem' = Remember(<<PeekKey(Cur)>>, <<Cur>>)
        /\ Judge(IF Prop = "C11" /\ PeekKey(Cur) \in DOMAIN mem THEN AgreePeek(mem[PeekKey(Cur)], Cur) ELSE {})

UseLink == /\ IsEvent("link")
           /\ UNCHANGED <<mdl, fts, mem>>
           /\ Judge(IF Prop = "C18" THEN ChkLink(Cur) ELSE {})

Next == Build \/ MakeFit \/ Query \/ Peek \/ UseLink
Spec == Init /\ [][Next]_vars

NoBad == bad = {}
=============================================================================
