---------------------------- MODULE TraceSampling ----------------------------
(* The rows that passes of the real models used, against Sampling.           *)
(*                                                                           *)
(* Input (JSON, environment variable TRACE): runs                            *)
(*   [model, kind, m (rows of the batch), n (sample size), err,              *)
(*    draws: for every pass the rows used, in their order, 0 for a row that  *)
(*    is not one of the batch]                                               *)
(* Step by step: one pass after the other, and in the end the counts.        *)
EXTENDS Sampling, TLC, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, k, count, two, bad
vars == <<t, k, count, two, bad>>
T == D.runs[t]
K == Len(T.draws)
Check(what, ok) == IF ok THEN {} ELSE {what}
\* neighbours at these distances, round and round
Steps(m) == {d \in {1, 2, 3, m \div 2} : d >= 1 /\ d < m}
Pairs(m) == {<<r, d>> : r \in 1..m, d \in Steps(m)}
Other(r, d, m) == 1 + ((r - 1 + d) % m)

Init == t = 0 /\ k = 1 /\ count = <<>> /\ two = <<>> /\ bad = {}
Choose == /\ t = 0 /\ t' \in 1..Len(D.runs)
          /\ count' = [r \in 1..D.runs[t'].m |-> 0]
          /\ two' = [p \in Pairs(D.runs[t'].m) |-> 0]
          /\ UNCHANGED <<k, bad>>
Pass ==
  /\ t # 0 /\ T.err = "" /\ k <= K /\ k' = k + 1
  /\ \E s \in {TLCEval(T.draws[k])} : \E S \in {TLCEval({s[i] : i \in 1..Len(s)})} :
       /\ bad' = bad
            \cup Check("not the sample size", Len(s) = Size(T.m, T.n))
            \cup Check("row that is not of the batch", S \subseteq 1..T.m)
            \cup Check("row used twice", Cardinality(S) = Len(s))
            \cup Check("same sample again",
                       (k > 1 /\ Different(T.m, T.n)) => S # {T.draws[k-1][i] : i \in 1..Len(T.draws[k-1])})
       /\ count' = TLCEval([r \in 1..T.m |-> count[r] + (IF r \in S THEN 1 ELSE 0)])
       /\ two' = TLCEval([p \in DOMAIN two |->
                   two[p] + (IF p[1] \in S /\ Other(p[1], p[2], T.m) \in S THEN 1 ELSE 0)])
  /\ UNCHANGED t
Whole ==
  /\ t # 0 /\ T.err = "" /\ k = K + 1 /\ k' = k + 1
  /\ bad' = bad
       \cup Check("row used too often or too rarely", \A r \in 1..T.m : Fair(count[r], T.m, T.n, K))
       \cup Check("rows used together too often or too rarely",
                  \A p \in DOMAIN two : FairTwo(two[p], T.m, T.n, K))
       \cup Check("few different samples",
                  Different(T.m, T.n) =>
                    Cardinality({{T.draws[i][j] : j \in 1..Len(T.draws[i])} : i \in 1..K}) = K)
  /\ UNCHANGED <<t, count, two>>
Next == Choose \/ Pass \/ Whole
TraceSpec == Init /\ [][Next]_vars
Done == t # 0 /\ (T.err # "" \/ k = K + 2)
Report == ~Done \/ PrintT(ToJson([verdict |-> t, bad |-> bad]))
=============================================================================
