--------------------------- MODULE TraceInfluence ---------------------------
(* What reaches the scores of the real networks, against Influence.          *)
(*                                                                           *)
(* Input (JSON, environment variable TRACE): models                          *)
(*   [family, blocks, err, trained (whether it was)]                         *)
(*   kinds   for each kind: cells (for each part of the state, which of its  *)
(*           cells change a score, 0/1), entries (which positions of the     *)
(*           history), swaps (exchanges of two different entries),           *)
(*           seats (views from another seat, ordered model)                  *)
(*   weights one per tensor: [size, during, discard, post, changed]: which   *)
(*           scores it changes, and whether real training changed it         *)
EXTENDS Influence, TLC, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACE)
VARIABLES m, part, bad
vars == <<m, part, bad>>
M == D.models[m]
W(i) == M.weights[i]
OfW(w) == {k \in Kinds : w[k] = 1}
Of(i) == OfW(W(i))
Ws == 1..Len(M.weights)
All(s) == \A i \in 1..Len(s) : s[i] = 1
RECURSIVE Sum(_, _, _)
Sum(ws, all, n) == IF n = 0 THEN 0
                   ELSE (IF all \/ OfW(ws[n]) = {} THEN ws[n].size ELSE 0) + Sum(ws, all, n - 1)
Dead(o) == Sum(D.models[o].weights, FALSE, Len(D.models[o].weights))
Size == Sum(M.weights, TRUE, Len(M.weights))
Check(what, ok) == IF ok THEN {} ELSE {what}

Parts == <<"during", "discard", "post", "weights">>
Inputs(k) ==
  LET X == M.kinds[k] IN
  Check("state has other parts: " \o k,
        [p \in 1..Len(X.cells) |-> Len(X.cells[p])] = Cells(M.family) /\ Len(X.entries) = Positions)
  \cup Check("part of the state ignored: " \o k, \A p \in 1..Len(X.cells) : All(X.cells[p]))
  \cup Check("history entry ignored: " \o k, All(X.entries))
  \cup Check("order of the history ignored: " \o k, All(X.swaps))
  \cup Check("seat ignored: " \o k, All(X.seats))
Weights ==
  Check("weight of two kinds", \A i \in Ws : Of(i) = {} \/ \E x \in Nodes(1, 1) : IsSource(x) /\ Of(i) = Reached(x))
  \cup Check("kind without weights of its own", \A k \in Kinds : \E i \in Ws : Of(i) = {k})
  \* an attention over one item has weights that count for nothing; no others do
  \cup Check("weights that count for nothing",
             IF M.blocks = 1 THEN Dead(m) * 10 <= Size
             ELSE \A o \in 1..Len(D.models) :
                    (D.models[o].family = M.family /\ D.models[o].blocks = 1 /\ D.models[o].err = "")
                    => Dead(m) <= M.blocks * Dead(o))
  \cup Check("weight not trained", M.trained => \A i \in Ws : Of(i) = {} \/ W(i).changed = 1)
Init == m = 0 /\ part = 1 /\ bad = {}
Choose == m = 0 /\ m' \in 1..Len(D.models) /\ UNCHANGED <<part, bad>>
Look == /\ m # 0 /\ M.err = "" /\ part <= Len(Parts) /\ part' = part + 1
        /\ bad' = bad \cup (IF Parts[part] = "weights" THEN Weights ELSE Inputs(Parts[part]))
        /\ UNCHANGED m
Next == Choose \/ Look
TraceSpec == Init /\ [][Next]_vars
Done == m # 0 /\ (M.err # "" \/ part = Len(Parts) + 1)
Report == ~Done \/ PrintT(ToJson([verdict |-> m, bad |-> bad, dead |-> (IF M.err = "" THEN Dead(m) ELSE 0)]))
=============================================================================
