------------------------------ MODULE Training ------------------------------
(* A training run between checkpoints: iterations over the games of a year,  *)
(* a step of the optimiser for every loss, and validation in between.        *)
(*                                                                           *)
(* Batches are sets of games.  Weights are numbers; only a step changes them.*)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  iter,     \* iterations completed
  seen,     \* games of the current iteration trained on
  mode,     \* "between", "train" (in a training batch), "validate"
  pending,  \* a loss without its step: its number, or 0
  weights,  \* the weights
  steps,    \* steps taken
  losses,   \* training losses computed
  valSeen,  \* games of the current validation
  valRef,   \* games of the first validation, {} before it
  since     \* games trained on since the last validation
tvars == <<iter, seen, mode, pending, weights, steps, losses, valSeen, valRef, since>>

TInit == /\ iter = 0 /\ seen = {} /\ mode = "between" /\ pending = 0 /\ weights = 1
         /\ steps = 0 /\ losses = 0 /\ valSeen = {} /\ valRef = {} /\ since = 0

\* how long the training may go on without a validation
Horizon == 1000

\* a training batch begins; games: those of the year the iteration is about
BeginBatch(g, games) ==
  /\ mode \in {"between", "train", "validate"} /\ pending = 0
  /\ g # {} /\ g \subseteq games /\ g \cap seen = {}
  /\ mode' = "train" /\ seen' = seen \cup g /\ since' = since + Cardinality(g)
  /\ UNCHANGED <<iter, pending, weights, steps, losses, valSeen, valRef>>
Loss == /\ mode = "train" /\ pending = 0
        /\ losses' = losses + 1 /\ pending' = losses'
        /\ UNCHANGED <<iter, seen, mode, weights, steps, valSeen, valRef, since>>
\* the step is for the pending loss and nothing else
Step(w) == /\ mode = "train" /\ pending # 0
           /\ pending' = 0 /\ steps' = steps + 1 /\ weights' = w
           /\ UNCHANGED <<iter, seen, mode, losses, valSeen, valRef, since>>
\* a validation batch; the first one begins a validation
Validate(g, games) ==
  /\ pending = 0 /\ mode \in {"train", "validate"} /\ g # {} /\ g \subseteq games
  /\ mode' = "validate" /\ since' = 0
  /\ valSeen' = IF mode = "train" THEN g ELSE valSeen \cup g
  /\ (mode = "validate" => g \cap valSeen = {})
  /\ UNCHANGED <<iter, seen, pending, weights, steps, losses, valRef>>
\* a validation is over: it has covered the same games as the first
EndValidate ==
  /\ mode = "validate"
  /\ (valRef # {} => valSeen = valRef)
  /\ valRef' = valSeen /\ mode' = "between"
  /\ UNCHANGED <<iter, seen, pending, weights, steps, losses, valSeen, since>>
EndIteration(games) ==
  /\ mode \in {"between", "train"} /\ pending = 0 /\ seen = games
  /\ iter' = iter + 1 /\ seen' = {} /\ mode' = "between"
  /\ UNCHANGED <<pending, weights, steps, losses, valSeen, valRef, since>>

\* the learning rate of step n (from 0): up to 1/1000 over 1000 steps, in 1/10^9
Warmup == 1000
Rate(n) == 1000*n
=============================================================================
