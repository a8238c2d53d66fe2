------------------------------- MODULE Loader -------------------------------
(* A loader over a directory of game files.  What matters of a directory is  *)
(* the set of games that can be processed; all other files are skipped.  The *)
(* order in which the games come is not specified.                           *)
EXTENDS Integers, Sequences, FiniteSets

\* the state of a loader: the games still to come in this epoch
Fresh(valid) == valid

\* a batch may be delivered
CanDeliver(rest, batch, size) ==
  /\ batch \subseteq rest /\ batch # {}
  /\ Cardinality(batch) = (IF Cardinality(rest) < size THEN Cardinality(rest) ELSE size)
AfterDeliver(rest, batch) == rest \ batch
\* the epoch may end
CanStop(rest) == rest = {}
=============================================================================
