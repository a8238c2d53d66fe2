--------------------------- MODULE TraceDistance ---------------------------
(* The implementation's distances against Distance.  Input (JSON,            *)
(* environment variable TRACE): hands [v, d, same, err]: counts per kind,    *)
(* distance returned, whether the hand passed in was left as it was.         *)
EXTENDS Distance, TLC, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACE)
VARIABLES b, i, bad
vars == <<b, i, bad>>
N == Len(D.hands)
Size == 50
Init == b = -1 /\ i = 0 /\ bad = {}
Choose == b = -1 /\ (\E x \in 0..((N - 1) \div Size) : b' = x /\ i' = Size*x + 1) /\ UNCHANGED bad
HandBad(h, d) ==
  IF h.err # "" THEN {"crash"}
  ELSE (IF h.d = d THEN {} ELSE {"distance"})
       \cup (IF h.same THEN {} ELSE {"hand changed"})
Step == /\ b # -1 /\ i <= N /\ i <= Size*(b + 1) /\ i' = i + 1
        /\ bad' = bad \cup UNION {{<<x, i, d>> : x \in HandBad(D.hands[i], d)} : d \in {HandDistance(D.hands[i].v)}}
        /\ UNCHANGED b
Next == Choose \/ Step
TraceSpec == Init /\ [][Next]_vars
Report == b = -1 \/ ~(i > N \/ i > Size*(b + 1)) \/ PrintT(ToJson([verdict |-> b, bad |-> bad]))
=============================================================================
