------------------------------- MODULE Branch -------------------------------
(* No record depends on what comes after it.  A family of logs branches off  *)
(* one log: each variant has the same events up to a point and goes on in    *)
(* another way (or ends there).  While the events of two logs of a family    *)
(* agree, so do their records - contents, options, position in the history   *)
(* and the history up to there; only the marks of the options taken may      *)
(* differ.                                                                   *)
(*                                                                           *)
(* Input (JSON, environment variable TRACE): families, each with trunk and   *)
(* variants, each of these a log [start, ev, rec, err]: ev the events, rec   *)
(* one number per record (equal numbers: equal records, marks aside).        *)
EXTENDS Calls, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TRACE)

VARIABLES f, v, i, j, bad, stop
vars == <<f, v, i, j, bad, stop>>
Trunk == D.families[f].trunk
Var == D.families[f].variants[v]

Init ==
  /\ f \in 1..Len(D.families) /\ v \in 1..Len(D.families[f].variants)
  /\ i = 1 /\ j = 1 /\ bad = {} /\ stop = ""

\* how many records an event brings
Records(e) == CASE e.e = "T" -> 1 [] e.e = "D" -> 2
                [] e.e = "N" /\ Decode(e.m).type = "kakan" -> 1 [] OTHER -> 0

\* both logs go on with the same event
Together ==
  /\ stop = "" /\ i <= Len(Trunk.ev) /\ i <= Len(Var.ev) /\ Trunk.ev[i] = Var.ev[i]
  /\ LET n == Records(Trunk.ev[i])
         differ == {k \in j..j+n-1 : \/ k > Len(Trunk.rec) \/ k > Len(Var.rec)
                                     \/ Trunk.rec[k] # Var.rec[k]}
     IN /\ bad' = bad \cup {<<"record differs", i, k>> : k \in differ}
        /\ j' = j + n
  /\ i' = i + 1 /\ UNCHANGED <<f, v, stop>>

\* one of them could not be processed at all, the other could
Failed ==
  /\ stop = "" /\ i = 1 /\ Trunk.err # Var.err
  /\ bad' = {<<"crash", 0, 0>>} /\ stop' = "failed" /\ UNCHANGED <<f, v, i, j>>

Part ==
  /\ stop = "" /\ (IF i > Len(Trunk.ev) \/ i > Len(Var.ev) THEN TRUE ELSE Trunk.ev[i] # Var.ev[i])
  /\ stop' = "parted" /\ UNCHANGED <<f, v, i, j, bad>>

Next == Failed \/ (Trunk.err = Var.err /\ Together) \/ Part
BranchSpec == Init /\ [][Next]_vars
Report == stop = "" \/
  PrintT(ToJson([verdict |-> <<f, v>>, events |-> i - 1, records |-> j - 1, bad |-> bad]))
=============================================================================
