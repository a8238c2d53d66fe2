------------------------------ MODULE Masking ------------------------------
(* The scores of a decision and its loss.  A row of scores is judged by the  *)
(* probabilities it gives (their signs), its most likely actions and its     *)
(* negative log-probability of the target, in units of 1/10000.              *)
EXTENDS Integers, Sequences, FiniteSets

Binary(mask) == \A a \in 1..Len(mask) : mask[a] \in {0, 1}
Allowed(mask) == {a \in 1..Len(mask) : mask[a] = 1}
\* whether a batch of masks may be scored at all
Acceptable(masks) == \A r \in 1..Len(masks) : Binary(masks[r]) /\ Allowed(masks[r]) # {}

RowBad(mask, positive, best) ==
  (IF positive \subseteq Allowed(mask) THEN {} ELSE {"disallowed action with probability"})
  \cup (IF best \subseteq Allowed(mask) /\ best # {} THEN {} ELSE {"most likely action not allowed"})

RECURSIVE Total(_, _)
Total(s, n) == IF n = 0 THEN 0 ELSE s[n] + Total(s, n - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
\* float arithmetic: 1/1000 and 1/100000 of the value
LossBad(loss, nll) ==
  LET n == Len(nll)  t == Total(nll, n) IN
  IF Abs(n*loss - t) <= n*(10 + Abs(loss) \div 100000) THEN {} ELSE {"loss is not the mean"}
=============================================================================
