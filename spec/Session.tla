------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Fits of one model alive side by side, each with its own lazily filled   *)
(* caches.  Answers are computed from caches where they are filled and     *)
(* from the data where not.  Checked exhaustively: answers do not depend   *)
(* on the history, caches only grow and belong to their fit, the data      *)
(* never change.                                                           *)
(***************************************************************************)
EXTENDS Caches, TLC
CONSTANTS Fits, Free, Queries

VARIABLES made,   \* fits made so far
          cache,  \* cache[f][c]: <<>> or the value stored
          answer, \* last answer given: <<>> or [f, q, from]
          data
vars == <<made, cache, answer, data>>

(* what a cache of fit f holds once filled; what a query is worth *)
Value(f, c) == <<"value of", c, f>>
Worth(f, q) == {Value(f, c) : c \in Fills(Free, q)}

Init == /\ made = {}
        /\ cache = [f \in Fits |-> [c \in CacheNames |-> <<>>]]
        /\ answer = <<>>
        /\ data = "data"

Make(f) == /\ f \notin made
           /\ made' = made \cup {f}
           /\ cache' = [cache EXCEPT ![f] = [c \in CacheNames |-> <<>>]]
           /\ answer' = <<>>
           /\ data' = data
Ask(f, q) == /\ f \in made
             /\ cache' = [cache EXCEPT ![f] = [c \in CacheNames |->
                    IF c \in Fills(Free, q) /\ cache[f][c] = <<>> THEN Value(f, c) ELSE cache[f][c]]]
             /\ answer' = [f |-> f, q |-> q, from |-> {IF cache[f][c] = <<>> THEN Value(f, c) ELSE cache[f][c] : c \in Fills(Free, q)}]
             /\ UNCHANGED <<made, data>>
Drop(f) == /\ f \in made
           /\ made' = made \ {f}
           /\ cache' = [cache EXCEPT ![f] = [c \in CacheNames |-> <<>>]]
           /\ answer' = <<>>
           /\ data' = data
Next == \E f \in Fits : Make(f) \/ Drop(f) \/ \E q \in Queries : Ask(f, q)
Spec == Init /\ [][Next]_vars

Pure == answer # <<>> => answer.from = Worth(answer.f, answer.q)
Owned == \A f \in Fits, c \in CacheNames : cache[f][c] \in {<<>>, Value(f, c)}
GrowOnly == [][\A f \in Fits : f \in made /\ f \in made' => \A c \in CacheNames : cache[f][c] # <<>> => cache'[f][c] = cache[f][c]]_vars
Constant == [][data' = data]_vars
(* the states of the machine are exactly the ones the generator explores *)
Explored == \A f \in made : {c \in CacheNames : cache[f][c] # <<>>} \in {r.st : r \in Reach(Free, Queries)}
=============================================================================
