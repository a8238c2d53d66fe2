----------------------------- MODULE MCMasking -----------------------------
(* What masking by replacement achieves: the scores of disallowed actions    *)
(* are replaced by Floor before the probabilities are formed.  Probabilities *)
(* of scores that are Cut or more below the best vanish.  The floor has to   *)
(* be that far below every score a head can give.                            *)
EXTENDS Masking
CONSTANTS Range, Depth, Cut, Actions
VARIABLES mask, score, phase
vars == <<mask, score, phase>>
Floor == -Depth
Init == mask \in [1..Actions -> {0, 1}] /\ score = <<>> /\ phase = "score"
Score == /\ phase = "score" /\ Len(score) < Actions
         /\ \E x \in (-Range)..Range : score' = Append(score, x)
         /\ UNCHANGED <<mask, phase>>
Decide == phase = "score" /\ Len(score) = Actions /\ Acceptable(<<mask>>) /\ phase' = "decided"
          /\ UNCHANGED <<mask, score>>
Next == Score \/ Decide
Spec == Init /\ [][Next]_vars
Masked == [a \in 1..Actions |-> IF mask[a] = 1 THEN score[a] ELSE Floor]
Top == CHOOSE x \in {Masked[a] : a \in 1..Actions} : \A a \in 1..Actions : Masked[a] <= x
Best == {a \in 1..Actions : Masked[a] = Top}
Positive == {a \in 1..Actions : Top - Masked[a] < Cut}
Sound == phase = "decided" => RowBad(mask, Positive, Best) = {}
\* the allowed actions keep their order
Order == phase = "decided" =>
  \A a, b \in Allowed(mask) : (score[a] < score[b]) = (Masked[a] < Masked[b])
Refused == phase = "decided" => Allowed(mask) # {}
=============================================================================
