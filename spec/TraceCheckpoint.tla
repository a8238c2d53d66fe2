-------------------------- MODULE TraceCheckpoint --------------------------
(* Validation of training runs of the implementation, with crashes.          *)
(*                                                                           *)
(* Input (JSON, environment variable TRACE):                                 *)
(*   histories [id, init, runs]: init lists the complete checkpoints present *)
(*     at the beginning as <<iteration, weights>>; a run is                  *)
(*       max      iterations asked for                                       *)
(*       crash    "" or where the run was made to crash: "model" (while      *)
(*                training), "before" (the save), "during", "after"          *)
(*       at       which iteration of the run it crashed in (1, 2, ...)       *)
(*       err      error message if the run failed by itself                  *)
(*       visits   per iteration <<year of the data, weights at its start>>   *)
(*       disk     complete checkpoints after the run <<iteration, weights>>  *)
(*       others   TRUE if the files of other models are as they were         *)
(*     weights are numbers; 0 stands for new weights that were never saved   *)
(*   lookups [id, files, iter, file]: what find_latest_checkpoint returned   *)
(*     for a directory; files lists for each file <<is a checkpoint of the   *)
(*     model (1) or not (0), iteration>>, file is the position of the file   *)
(*     returned, 0 if none                                                   *)
EXTENDS Checkpoint, Sequences, TLC, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACE)
VARIABLES kind, c, i, disk, bad, done
vars == <<kind, c, i, disk, bad, done>>
H == D.histories[c]
R == H.runs[i]

Func(q) == [n \in {q[k][1] : k \in 1..Len(q)} |->
              q[CHOOSE k \in 1..Len(q) : q[k][1] = n][2]]

Init == kind = "" /\ c = 0 /\ i = 1 /\ disk = <<>> /\ bad = {} /\ done = FALSE
ChooseHistory == /\ c = 0 /\ kind' = "run"
                 /\ \E x \in 1..Len(D.histories) : c' = x /\ disk' = Func(D.histories[x].init)
                 /\ UNCHANGED <<i, bad, done>>
ChooseLookup == /\ c = 0 /\ kind' = "lookup"
                /\ \E x \in 1..Len(D.lookups) : c' = x
                /\ UNCHANGED <<i, disk, bad, done>>

------------------------------------------------------------------------------
\* number of iterations completed before the crash, and whether the one in
\* which it crashed may or must have been saved
Completed == IF R.crash = "" THEN R.max ELSE R.at - 1

RunBad ==
  LET s == StartIter(disk)
      new == Func(R.disk)
      must == s..(s + Completed - 1)
      may == IF R.crash # "" THEN must \cup {s + R.at - 1} ELSE must
      wantVisits == IF R.crash = "" THEN R.max ELSE R.at
      weightsAt(k) == IF k = 1 THEN (IF DOMAIN disk = {} THEN 0 ELSE disk[Newest(disk)])
                      ELSE new[s + k - 2]
      c1(cl, ok) == IF ok THEN {} ELSE {cl}
  IN IF R.err # "" THEN {"run failed"}
     ELSE c1("checkpoint lost or overwritten", Extends(new, disk))
          \cup c1("checkpoint not saved under its number",
                  \A n \in must : n \in DOMAIN new)
          \cup c1("unexpected checkpoint", DOMAIN new \subseteq DOMAIN disk \cup may)
          \cup c1("number of iterations", Len(R.visits) = wantVisits)
          \cup c1("year", \A k \in 1..Len(R.visits) : R.visits[k][1] = YearOf(s + k - 1))
          \cup (IF Len(R.visits) < 1 THEN {} ELSE
                c1("not resumed from the newest checkpoint", R.visits[1][2] = weightsAt(1)))
          \cup (IF ~(\A n \in must : n \in DOMAIN new) THEN {} ELSE
                c1("saved weights are not the trained ones",
                   \A k \in 2..Len(R.visits) : (s + k - 2) \in DOMAIN new =>
                                                  R.visits[k][2] = weightsAt(k)))
          \cup c1("checkpoint without training",
                  \A n \in DOMAIN new \ DOMAIN disk : new[n] # 0
                     /\ \A m \in DOMAIN disk : new[n] # disk[m])
          \cup c1("files of other models changed", R.others)
          \cup c1("unreadable checkpoint", R.broken = 0)

RunStep ==
  /\ kind = "run" /\ c # 0 /\ i <= Len(H.runs) /\ i' = i + 1
  /\ bad' = bad \cup {<<x, i>> : x \in RunBad}
  /\ disk' = Func(R.disk)
  /\ UNCHANGED <<kind, c, done>>

L == D.lookups[c]
LookupBad ==
  LET mine == {k \in 1..Len(L.files) : L.files[k][1] = 1}
      best == {k \in mine : \A m \in mine : L.files[k][2] >= L.files[m][2]}
  IN IF L.err # "" THEN {"lookup failed"}
     ELSE IF mine = {} THEN (IF L.file = 0 THEN {} ELSE {"file that is no checkpoint picked"})
     ELSE IF L.file = 0 THEN {"checkpoint not found"}
     ELSE IF L.file \notin mine THEN {"file that is no checkpoint picked"}
     ELSE IF L.file \notin best THEN {"older checkpoint picked"}
     ELSE IF L.iter # L.files[L.file][2] THEN {"wrong iteration number"}
     ELSE {}
LookupStep ==
  /\ kind = "lookup" /\ ~done /\ done' = TRUE
  /\ bad' = {<<x, 1>> : x \in LookupBad}
  /\ UNCHANGED <<kind, c, i, disk>>

Next == ChooseHistory \/ ChooseLookup \/ RunStep \/ LookupStep
TraceSpec == Init /\ [][Next]_vars
Report ==
  /\ (kind = "run" /\ i = Len(H.runs) + 1) =>
        PrintT(ToJson([verdict |-> H.id, bad |-> bad]))
  /\ (kind = "lookup" /\ done) => PrintT(ToJson([verdict |-> L.id, bad |-> bad]))
=============================================================================
