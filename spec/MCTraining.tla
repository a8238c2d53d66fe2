----------------------------- MODULE MCTraining -----------------------------
(* All runs of Training over a few games.                                    *)
EXTENDS Training
CONSTANTS TrainGames, ValGames, Batch, Iterations, MaxLosses
Batches(S) == {b \in SUBSET S : b # {} /\ Cardinality(b) <= Batch}
VARIABLES heads,    \* losses of the batch so far
          trained   \* how often each game was trained on
vars == <<tvars, heads, trained>>
Init == TInit /\ heads = 0 /\ trained = [g \in TrainGames |-> 0]
Next ==
  \/ /\ iter < Iterations /\ mode # "validate"
     /\ \E g \in Batches(TrainGames \ seen) :
          /\ BeginBatch(g, TrainGames) /\ heads' = 0
          /\ trained' = [x \in TrainGames |-> trained[x] + IF x \in g THEN 1 ELSE 0]
  \/ heads < MaxLosses /\ Loss /\ heads' = heads + 1 /\ UNCHANGED trained
  \/ Step(weights + 1) /\ UNCHANGED <<heads, trained>>
  \/ /\ valSeen # ValGames \/ mode = "train"
     /\ \E g \in Batches(ValGames) : Validate(g, ValGames)
     /\ UNCHANGED <<heads, trained>>
  \/ mode = "validate" /\ valSeen = ValGames /\ EndValidate /\ UNCHANGED <<heads, trained>>
  \/ iter < Iterations /\ EndIteration(TrainGames) /\ UNCHANGED <<heads, trained>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* a step for every loss, and no other change of the weights
StepPerLoss == steps = IF pending = 0 THEN losses ELSE losses - 1
WeightsByStep == weights = steps + 1
Evenly == \A g \in TrainGames : trained[g] = iter + IF g \in seen THEN 1 ELSE 0
SameValidation == valRef \in {{}, ValGames}
ValidationKeeps == [][mode' = "validate" => UNCHANGED <<weights, seen, iter>>]_vars
Ends == <>(iter = Iterations)
Bound == steps <= 6
=============================================================================
