---------------------------- MODULE MCCheckpoint ----------------------------
(* The protocol of saving: the file is written aside and then renamed, and   *)
(* the process may crash before, during and after each step.  Exhaustive for *)
(* a few iterations and crashes.  With Atomic = FALSE the checkpoint is      *)
(* written in place; the model then violates its invariants, which shows     *)
(* that they are not vacuous (MCCheckpointInPlace.cfg).                      *)
EXTENDS Checkpoint, Sequences
CONSTANTS Iterations, Crashes, Atomic

VARIABLES disk,     \* complete checkpoints
          partial,  \* numbers under whose name a partly written file lies
          aside,    \* what lies under the aside name: "none", "partial", "complete"
          pc,       \* "down", "train", "save", "write", "rename"
          n,        \* iteration of the run
          w,        \* weights in memory: number of iterations they have seen
          loaded,   \* weights the run started from
          crashes, history
vars == <<disk, partial, aside, pc, n, w, loaded, crashes, history>>

Init == /\ disk = [k \in {} |-> 0] /\ partial = {} /\ aside = "none" /\ pc = "down" /\ n = 0
        /\ w = 0 /\ loaded = 0 /\ crashes = 0 /\ history = <<>>
Names == DOMAIN disk \cup partial
\* what a run finds: the greatest number under whose name a file lies
Boot == /\ pc = "down"
        /\ IF Names = {} THEN n' = 0 /\ loaded' = 0
           ELSE /\ Max(Names) \in DOMAIN disk      \* otherwise loading fails
                /\ n' = Max(Names) + 1 /\ loaded' = disk[Max(Names)]
        /\ w' = loaded' /\ pc' = "train" /\ UNCHANGED <<disk, partial, aside, crashes, history>>
Train == pc = "train" /\ n < Iterations /\ w' = w + 1 /\ pc' = "save"
         /\ history' = Append(history, <<n, YearOf(n)>>)
         /\ UNCHANGED <<disk, partial, aside, n, loaded, crashes>>
Begin == /\ pc = "save" /\ pc' = "write"
         /\ IF Atomic THEN aside' = "partial" /\ UNCHANGED <<disk, partial>>
            ELSE /\ partial' = partial \cup {n}
                 /\ disk' = [k \in DOMAIN disk \ {n} |-> disk[k]] /\ UNCHANGED aside
         /\ UNCHANGED <<n, w, loaded, crashes, history>>
Written == /\ pc = "write"
           /\ IF Atomic THEN aside' = "complete" /\ pc' = "rename" /\ UNCHANGED <<disk, partial, n>>
              ELSE /\ disk' = Saved(disk, n, w) /\ partial' = partial \ {n} /\ n' = n + 1
                   /\ pc' = "train" /\ UNCHANGED aside
           /\ UNCHANGED <<w, loaded, crashes, history>>
Rename == /\ pc = "rename" /\ disk' = Saved(disk, n, w) /\ aside' = "none" /\ n' = n + 1
          /\ pc' = "train" /\ UNCHANGED <<partial, w, loaded, crashes, history>>
Crash == /\ pc # "down" /\ crashes < Crashes /\ crashes' = crashes + 1 /\ pc' = "down"
         /\ UNCHANGED <<disk, partial, aside, n, w, loaded, history>>
Next == Boot \/ Train \/ Begin \/ Written \/ Rename \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Boot \/ Train \/ Begin \/ Written \/ Rename)

\* weights saved under n have seen exactly n + 1 iterations: nothing is lost
\* and nothing is trained twice on top of itself
Consistent == \A k \in DOMAIN disk : disk[k] = k + 1
Contiguous == DOMAIN disk = 0..(Cardinality(DOMAIN disk) - 1)
CanResume == pc = "down" => (Names = {} \/ Max(Names) \in DOMAIN disk)
ResumesNewest == pc = "train" => StartIter(disk) = n
YearsOK == \A i \in 1..Len(history) : history[i][2] = FirstYear + (history[i][1] % Years)
NeverLost == [][Extends(disk', disk)]_disk
Finishes == <>(Cardinality(DOMAIN disk) = Iterations)
=============================================================================
