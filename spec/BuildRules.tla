----------------------------- MODULE BuildRules -----------------------------
(***************************************************************************)
(* The builder: setters may be called in any order; three of them at most  *)
(* once.  Shared by the abstract machine (Builder), the scenario generator *)
(* and the judgement of recorded calls (CkBuild).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Setters == {"off", "w", "f", "icpt", "std"}
OnceOnly == {"off", "w", "f"}

Count(word, a) == Cardinality({i \in DOMAIN word : word[i] = a})
Repeats(word) == \E a \in OnceOnly : Count(word, a) > 1
Called(word) == {word[i] : i \in DOMAIN word}

WordsOf(S, n) == UNION {[1..m -> S] : m \in 0..n}
Perms(S) == {q \in [1..Cardinality(S) -> S] : Called(q) = S}

(* errors that may be reported; success exactly when there is none *)
Errors(repeated, badlength, bady) ==
  (IF repeated THEN {"BuildError"} ELSE {}) \cup (IF badlength THEN {"BadInput"} ELSE {}) \cup (IF bady THEN {"InvalidY"} ELSE {})
Answers(repeated, badlength, bady) ==
  LET E == Errors(repeated, badlength, bady) IN IF E = {} THEN {"ok"} ELSE E
=============================================================================
