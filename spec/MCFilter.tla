------------------------------ MODULE MCFilter ------------------------------
(* The folder filter, interrupted at any point and started again.            *)
EXTENDS Acquire
CONSTANTS Stems, Bodies, MaxFiles, MaxCrashes
VARIABLES start, folder, at, stage, crashes, phase
vars == <<start, folder, at, stage, crashes, phase>>
NoFile == [name |-> "", body |-> "", packed |-> "no"]
Files == {[name |-> s, body |-> b, packed |-> "no"] : s \in Stems, b \in Bodies \cup {"part"}}
         \cup {[name |-> s \o ".gz", body |-> b, packed |-> k] : s \in Stems, b \in Bodies, k \in {"gzip", "broken"}}
Init == start = {} /\ folder = {} /\ at = NoFile /\ stage = "" /\ crashes = 0 /\ phase = "write"
Put == /\ phase = "write"
       /\ \E f \in Files : /\ Others(folder, f.name) = folder
                           /\ \E n \in 0..(MaxFiles - 1) : Cardinality(folder) = n
                           /\ folder' = folder \cup {f}
       /\ UNCHANGED <<start, at, stage, crashes, phase>>
Begin == phase = "write" /\ phase' = "run" /\ start' = folder /\ UNCHANGED <<folder, at, stage, crashes>>
\* every non-index goes before anything is unpacked, as the script does it
Drop == /\ phase = "run" /\ stage = ""
        /\ \E f \in folder : CanDrop(folder, f) /\ folder' = folder \ {f}
        /\ UNCHANGED <<start, at, stage, crashes, phase>>
Open == /\ phase = "run" /\ stage = "" /\ \A f \in folder : ~CanDrop(folder, f)
        /\ \E f \in folder : CanOpen(folder, f) /\ at' = f /\ folder' = Opened(folder, f)
        /\ stage' = "open" /\ UNCHANGED <<start, crashes, phase>>
Complete == /\ phase = "run" /\ stage = "open" /\ folder' = Completed(folder, at) /\ stage' = "full"
            /\ UNCHANGED <<start, at, crashes, phase>>
Unlink == /\ phase = "run" /\ stage = "full" /\ folder' = folder \ {at} /\ at' = NoFile /\ stage' = ""
          /\ UNCHANGED <<start, crashes, phase>>
Finish == /\ phase = "run" /\ stage = "" /\ phase' = "done"
          /\ \A f \in folder : ~CanDrop(folder, f) /\ ~CanOpen(folder, f)
          /\ UNCHANGED <<start, folder, at, stage, crashes>>
\* a crash loses what the run knew; the next run starts over on the folder as it is
Crash == /\ phase = "run" /\ crashes < MaxCrashes /\ crashes' = crashes + 1
         /\ at' = NoFile /\ stage' = "" /\ UNCHANGED <<start, folder, phase>>
Again == /\ phase = "done" /\ crashes < MaxCrashes /\ crashes' = crashes + 1 /\ phase' = "run"
         /\ UNCHANGED <<start, folder, at, stage>>
Next == Put \/ Begin \/ Drop \/ Open \/ Complete \/ Unlink \/ Finish \/ Crash \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin) /\ WF_vars(Drop \/ Open \/ Complete \/ Unlink \/ Finish)

\* whatever happened before, a run that ends leaves what an undisturbed one would have
Result == phase = "done" => folder = Filtered(start)
\* no index is ever lost: it is there packed, or in full
Lossless == phase # "write" =>
  \A f \in Filtered(start) : f \in folder \/ \E g \in folder : Unpacked(g) = f
Idempotent == phase = "done" => Filtered(folder) = folder
Ends == <>[](phase = "done")
=============================================================================
