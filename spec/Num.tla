-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real arithmetic and linear algebra used by the specification.           *)
(*                                                                         *)
(* The definitions below give the meaning over the reals.  For TLC every   *)
(* operator that Java class glm.Num implements is evaluated in IEEE double *)
(* arithmetic (dot products are compensated), a real being represented by  *)
(* the pair <<hi, lo>> of 32-bit halves of its double encoding; NaN and    *)
(* the infinities exist in that representation, so recorded executions     *)
(* that produced them can be read back and rejected.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

RInt(n)      == n                        \* integer literal as a real
RDec(s)      == CHOOSE r \in {} : TRUE   \* decimal literal given as a string
RStr(a)      == CHOOSE r \in {} : TRUE   \* printable form
RAdd(a, b)   == a + b
RSub(a, b)   == a - b
RMul(a, b)   == a * b
RDiv(a, b)   == CHOOSE c : c * b = a
RNeg(a)      == 0 - a
RLt(a, b)    == a < b
RLe(a, b)    == a <= b
REq(a, b)    == a = b
RAbs(a)      == IF a < 0 THEN 0 - a ELSE a
RMax(a, b)   == IF a < b THEN b ELSE a
RMin(a, b)   == IF a < b THEN a ELSE b
RSqrt(a)     == CHOOSE c : c >= 0 /\ c * c = a
RCbrt(a)     == CHOOSE c : c * c * c = a
RExp(a)      == CHOOSE c : TRUE          \* e^a
RExpm1(a)    == RExp(a) - 1
RLn(a)       == CHOOSE c : RExp(c) = a
RLn1p(a)     == RLn(1 + a)
RPow(a, b)   == RExp(b * RLn(a))
RFinite(a)   == TRUE                     \* FALSE only for NaN and infinities
RIsNaN(a)    == FALSE
RSingle(a)   == a                        \* rounding to single precision

a ++ b == RAdd(a, b)
a -- b == RSub(a, b)
a ** b == RMul(a, b)
a // b == RDiv(a, b)
a \prec b == RLt(a, b)
a \preceq b == RLe(a, b)

Zero == RInt(0)
One  == RInt(1)
Two  == RInt(2)
Half == RDec("0.5")
Inf  == RDec("Infinity")
RSign(a) == IF a \prec Zero THEN RInt(-1) ELSE IF Zero \prec a THEN One ELSE Zero

(* |a-b| <= rtol*max(|a|,|b|) + atol; both NaN or the same infinity are close *)
RClose(a, b, rtol, atol) == RAbs(a - b) <= rtol * RMax(RAbs(a), RAbs(b)) + atol

----------------------------------------------------------------------------
(* Vectors are sequences of reals, matrices sequences of rows.             *)
VMap(F(_), v) == TLCEval([i \in DOMAIN v |-> F(v[i])])
VMap2(F(_, _), u, v) == TLCEval([i \in DOMAIN v |-> F(u[i], v[i])])
VConst(n, c) == TLCEval([i \in 1..n |-> c])

RECURSIVE Sum(_)
Sum(v) == IF v = <<>> THEN 0 ELSE Head(v) + Sum(Tail(v))
Dot(u, v)     == Sum([i \in DOMAIN u |-> u[i] * v[i]])
VAdd(u, v)    == [i \in DOMAIN u |-> u[i] + v[i]]
VSub(u, v)    == [i \in DOMAIN u |-> u[i] - v[i]]
VMul(u, v)    == [i \in DOMAIN u |-> u[i] * v[i]]
VDiv(u, v)    == [i \in DOMAIN u |-> RDiv(u[i], v[i])]
VScale(s, v)  == [i \in DOMAIN v |-> s * v[i]]
VMaxAbs(v)    == CHOOSE m \in {RAbs(v[i]) : i \in DOMAIN v} : \A i \in DOMAIN v : RAbs(v[i]) <= m
AllFinite(v)  == \A i \in DOMAIN v : RFinite(v[i])
VClose(u, v, rtol, atol) == Len(u) = Len(v) /\ \A i \in DOMAIN u : RClose(u[i], v[i], rtol, atol)
(* closeness relative to the largest entry of the first vector *)
VCloseN(u, v, rtol, atol) == VClose(u, v, rtol, atol + rtol * VMaxAbs(u))
MatVec(A, v)  == [i \in DOMAIN A |-> Dot(A[i], v)]
TMatVec(A, v, k) == [j \in 1..k |-> Sum([i \in DOMAIN A |-> A[i][j] * v[i]])]
MatMul(A, B)  == [i \in DOMAIN A |-> [j \in DOMAIN B[1] |-> Sum([l \in DOMAIN B |-> A[i][l] * B[l][j]])]]
MAdd(A, B)    == [i \in DOMAIN A |-> VAdd(A[i], B[i])]
MScale(s, A)  == [i \in DOMAIN A |-> VScale(s, A[i])]
MDiag(v)      == [i \in DOMAIN v |-> [j \in DOMAIN v |-> IF i = j THEN v[i] ELSE 0]]
Gram(X, w, k) == [a \in 1..k |-> [b \in 1..k |-> Sum([i \in DOMAIN X |-> w[i] * X[i][a] * X[i][b]])]]
MSolve(A, b)  == CHOOSE x \in [DOMAIN b -> {}] : MatVec(A, x) = b
MInv(A)       == CHOOSE B \in {} : MatMul(A, B) = MDiag([i \in DOMAIN A |-> 1])
MClose(A, B, rtol, atol) == Len(A) = Len(B) /\ \A i \in DOMAIN A : VClose(A[i], B[i], rtol, atol)
(* entry (i,j) close within tol*sc[i]*sc[j] *)
MCloseS(A, B, sc, tol) == \A i, j \in DOMAIN A : RAbs(A[i][j] - B[i][j]) <= tol * sc[i] * sc[j]
(* condition number of the symmetric matrix scaled to unit diagonal, infinite when singular *)
CondEq(A)     == CHOOSE c : TRUE
MinEig(A)     == CHOOSE c : TRUE
Diag(A)       == TLCEval([i \in DOMAIN A |-> A[i][i]])

----------------------------------------------------------------------------
(* Distribution functions (upper tails unless named Cdf).                  *)
NormSf(z)          == CHOOSE p : TRUE
NormCdf(z)         == CHOOSE p : TRUE
NormQuantile(p)    == CHOOSE z : NormCdf(z) = p
ChiSqSf(x, k)      == CHOOSE p : TRUE   \* P(chi2_k > x)
TSf2(t, k)         == CHOOSE p : TRUE   \* P(|T_k| > |t|)
FSf(f, d1, d2)     == CHOOSE p : TRUE   \* P(F_{d1,d2} > f)
GammaCdf(x, shape, rate) == CHOOSE p : TRUE
=============================================================================
