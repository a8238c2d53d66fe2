---------------------------- MODULE TraceLoader ----------------------------
(* Validation of what a loader of the implementation delivered.              *)
(* Input (JSON, environment variable TRACE): cases [id, valid, size, ops];   *)
(* an op is [op, games, hist, err]: "next" with the games of the batch by    *)
(* their decisions (games) and by their histories (hist), "stop", "reset",   *)
(* or "crash".  Number 0 stands for something that is no game of the         *)
(* directory.                                                                *)
EXTENDS Loader, TLC, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACE)
Range(q) == {q[i] : i \in 1..Len(q)}
VARIABLES c, i, rest, bad
vars == <<c, i, rest, bad>>
C == D.cases[c]
Op == C.ops[i]

Init == c = 0 /\ i = 1 /\ rest = {} /\ bad = {}
Choose == /\ c = 0
          /\ \E x \in 1..Len(D.cases) : c' = x /\ rest' = Fresh(Range(D.cases[x].valid))
          /\ UNCHANGED <<i, bad>>

BatchBad ==
  LET b == Range(Op.games)  n == Len(Op.games) IN
  IF n = 0 THEN {"empty batch"}
  ELSE IF Len(Op.hist) # n \/ \E k \in 1..n : Op.hist[k] # Op.games[k]
  THEN {"decisions paired with another history"}
  ELSE IF 0 \in b THEN {"not a game of the directory"}
  ELSE IF Cardinality(b) # n \/ ~(b \subseteq rest) THEN {"game delivered again"}
  ELSE IF n > C.size THEN {"batch too large"}
  ELSE IF ~CanDeliver(rest, b, C.size) THEN {"batch too small"}
  ELSE {}

Step ==
  /\ c # 0 /\ i <= Len(C.ops) /\ i' = i + 1 /\ UNCHANGED c
  /\ CASE Op.op = "next" -> /\ bad' = bad \cup {<<x, i>> : x \in BatchBad}
                            /\ rest' = AfterDeliver(rest, Range(Op.games))
       [] Op.op = "stop" -> /\ bad' = IF CanStop(rest) THEN bad
                                      ELSE bad \cup {<<"epoch ended early", i>>}
                            /\ UNCHANGED rest
       [] Op.op = "reset" -> rest' = Fresh(Range(C.valid)) /\ UNCHANGED bad
       [] Op.op = "crash" -> bad' = bad \cup {<<"crash", i>>} /\ UNCHANGED rest
Next == Choose \/ Step
TraceSpec == Init /\ [][Next]_vars
Report == c = 0 \/ i # Len(C.ops) + 1 \/
          PrintT(ToJson([verdict |-> C.id, bad |-> bad, ops |-> i - 1]))
=============================================================================
