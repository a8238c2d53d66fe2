---------------------------- MODULE TraceMasking ----------------------------
(* Calls of the decoders against Masking.  Input (JSON, environment variable *)
(* TRACE): calls [model, head, masks (entries 0, 1, or 2 for anything else), *)
(* refused, err, rows [positive, best, nll, kept], loss, lossy]: per row the *)
(* actions with probability, the most likely ones, the negative log-         *)
(* probability of the target, and the largest change of the allowed scores   *)
(* relative to each other against a mask that allows everything; the loss    *)
(* counts if lossy (no value too large for the arithmetic).                  *)
EXTENDS Masking, TLC, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACE)
VARIABLES b, i, bad
vars == <<b, i, bad>>
N == Len(D.calls)
Size == 20
AsSet(s) == {s[j] : j \in 1..Len(s)}
Init == b = -1 /\ i = 0 /\ bad = {}
Choose == b = -1 /\ (\E x \in 0..((N - 1) \div Size) : b' = x /\ i' = Size*x + 1) /\ UNCHANGED bad
CallBad(c) ==
  IF ~Acceptable(c.masks) THEN IF c.refused THEN {} ELSE {"batch not refused"}
  ELSE IF c.refused THEN {"batch refused"}
  ELSE (IF Len(c.rows) = Len(c.masks) THEN {} ELSE {"rows"})
       \cup UNION {RowBad(c.masks[r], AsSet(c.rows[r].positive), AsSet(c.rows[r].best))
                   \cup (IF c.rows[r].kept <= 10 THEN {} ELSE {"allowed scores changed"}) :
                   r \in 1..(IF Len(c.rows) < Len(c.masks) THEN Len(c.rows) ELSE Len(c.masks))}
       \cup (IF c.lossy THEN LossBad(c.loss, [r \in 1..Len(c.rows) |-> c.rows[r].nll]) ELSE {})
Step == /\ b # -1 /\ i <= N /\ i <= Size*(b + 1) /\ i' = i + 1
        /\ bad' = bad \cup {<<x, i>> : x \in CallBad(D.calls[i])}
        /\ UNCHANGED b
Next == Choose \/ Step
TraceSpec == Init /\ [][Next]_vars
Report == b = -1 \/ ~(i > N \/ i > Size*(b + 1)) \/ PrintT(ToJson([verdict |-> b, bad |-> bad]))
=============================================================================
