------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* The builder as a state machine: a record of optional parts, a sticky    *)
(* error, and one build.  Checked exhaustively for all words of setters up *)
(* to MaxLen and all combinations of well- and ill-formed arguments.       *)
(***************************************************************************)
EXTENDS BuildRules, TLC
CONSTANT MaxLen

Args == [y : {"fits", "differs"}, off : {"fits", "differs"}, w : {"fits", "differs"}, f : {"fits", "differs"}, dom : {"in", "out"}]

VARIABLES args,   \* what the user passes
          word,   \* setters called so far
          parts,  \* parts present in the builder
          sticky, \* remembered error
          out     \* result of build
vars == <<args, word, parts, sticky, out>>

Init == /\ args \in Args
        /\ word = <<>>
        /\ parts = [a \in Setters |-> FALSE]
        /\ sticky = "none"
        /\ out = "none"

Set(a) == /\ out = "none" /\ Len(word) < MaxLen
          /\ word' = Append(word, a)
          /\ sticky' = IF a \in OnceOnly /\ parts[a] THEN "BuildError" ELSE sticky
          /\ parts' = [parts EXCEPT ![a] = TRUE]
          /\ UNCHANGED <<args, out>>

(* the order of the checks made by build *)
Build == /\ out = "none"
         /\ out' = CASE sticky # "none" -> sticky
                     [] args.y = "differs" -> "BadInput"
                     [] \E a \in OnceOnly : parts[a] /\ args[a] = "differs" -> "BadInput"
                     [] args.dom = "out" -> "InvalidY"
                     [] OTHER -> "ok"
         /\ UNCHANGED <<args, word, parts, sticky>>

Next == Build \/ \E a \in Setters : Set(a)
Spec == Init /\ [][Next]_vars /\ WF_vars(Build)

BadLength == args.y = "differs" \/ \E a \in OnceOnly \cap Called(word) : args[a] = "differs"
(* an answer is one of those the rules allow *)
Allowed == out # "none" => out \in Answers(Repeats(word), BadLength, args.dom = "out")
(* what is built depends on which setters were called, not on their order *)
Commutes == parts = [a \in Setters |-> a \in Called(word)]
(* an error, once remembered, is reported *)
Sticky == [][sticky # "none" => sticky' = sticky]_vars
Answered == <>(out # "none")
=============================================================================
