----------------------------- MODULE Checkpoint -----------------------------
(* Training with checkpoints and crashes.                                    *)
(*                                                                           *)
(* disk is what the checkpoint directory holds of one model: a function from *)
(* iteration numbers to the weights saved under that number (complete files  *)
(* only; a partly written file is no checkpoint).  A run starts from the     *)
(* newest checkpoint, or from new weights, and goes through iterations; it   *)
(* may crash at any point.                                                   *)
EXTENDS Integers, FiniteSets

FirstYear == 2012
Years == 8
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

Newest(disk) == Max(DOMAIN disk)
StartIter(disk) == IF DOMAIN disk = {} THEN 0 ELSE Newest(disk) + 1
YearOf(n) == FirstYear + (n % Years)

\* disk after iteration n saved weights w
Saved(disk, n, w) == [k \in DOMAIN disk \cup {n} |-> IF k = n THEN w ELSE disk[k]]
\* nothing that was there is lost or changed
Extends(new, old) == \A k \in DOMAIN old : k \in DOMAIN new /\ new[k] = old[k]
=============================================================================
