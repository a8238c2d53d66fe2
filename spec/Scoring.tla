------------------------------ MODULE Scoring ------------------------------
(* What the scores of a decision depend on: the weights and the decision's   *)
(* own input, not the rest of the batch, the order, or earlier evaluations.  *)
(*                                                                           *)
(* Input (JSON, environment variable TRACE): models [name, err, inputs,      *)
(* obs]; inputs[d] are the numbers of what the decision d consists of        *)
(* (equal inputs, equal numbers); obs lists evaluations in order, each       *)
(* <<weights, decision, class of the scores>>.  Classes that are equal stand *)
(* for equal scores.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACE)
VARIABLES m, i, table, bad
vars == <<m, i, table, bad>>
M == D.models[m]
Empty == [x \in {} |-> 0]
Init == m = 0 /\ i = 1 /\ table = Empty /\ bad = {}
Choose == m = 0 /\ m' \in 1..Len(D.models) /\ UNCHANGED <<i, table, bad>>
\* the table of scores known so far is a function of weights and input
Observe ==
  /\ m # 0 /\ i <= Len(M.obs) /\ i' = i + 1
  /\ LET o == M.obs[i]  k == <<o[1], M.inputs[o[2]]>> IN
     IF k \in DOMAIN table
     THEN /\ bad' = IF table[k] = o[3] THEN bad ELSE bad \cup {<<"scores differ", i>>}
          /\ UNCHANGED table
     ELSE /\ table' = [x \in DOMAIN table \cup {k} |-> IF x = k THEN o[3] ELSE table[x]]
          /\ UNCHANGED bad
  /\ UNCHANGED m
Next == Choose \/ Observe
TraceSpec == Init /\ [][Next]_vars
Done == m # 0 /\ i = Len(M.obs) + 1
Report == ~Done \/ PrintT(ToJson([verdict |-> m, bad |-> bad, keys |-> Cardinality(DOMAIN table)]))
=============================================================================
