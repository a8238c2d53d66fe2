----------------------------- MODULE MCSampling -----------------------------
(* Taking rows one by one from what is left: every sample can come about,    *)
(* each in equally many ways, and no row and no two rows are favoured.       *)
EXTENDS Sampling, TLC
CONSTANTS M, N
VARIABLES m, n, order
vars == <<m, n, order>>
Set(s) == {s[i] : i \in 1..Len(s)}
Init == m \in 1..M /\ n \in 1..N /\ order = <<>>
Next == /\ \E r \in 1..m : Take(Set(order), m, n, r) /\ order' = Append(order, r)
        /\ UNCHANGED <<m, n>>
Spec == Init /\ [][Next]_vars
Stuck == ~\E r \in 1..m : Take(Set(order), m, n, r)
Complete == Stuck => /\ Len(order) = Cardinality(Set(order))
                     /\ Set(order) \in Samples(m, n)
WholeIfSmall == (Stuck /\ m <= n) => Set(order) = 1..m
\* over all samples
Count(S) == Cardinality({T \in Samples(m, n) : S \subseteq T})
Even == order = <<>> =>
  \E K \in {Cardinality(Samples(m, n))} :
    /\ \A r \in 1..m : Count({r}) * m = Mean(m, n, K)
    /\ \A r, s \in 1..m : r # s => Count({r, s}) * m * (m - 1) = MeanTwo(m, n, K)
\* as many ways to go on to a sample from any rows taken: those of their order
RECURSIVE Ways(_, _)
Ways(S, T) == IF S = T THEN 1 ELSE Cardinality({x \in T \ S : Take(S, m, n, x)}) * Ways(S \cup {CHOOSE x \in T \ S : TRUE}, T)
RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
EqualWays == \A T \in Samples(m, n) : Set(order) \subseteq T =>
               Ways(Set(order), T) = Fact(Size(m, n) - Len(order))
\* a sampler that leaves a row out, or takes rows side by side, is not fair
Biased == (order = <<>> /\ m > 3 /\ n < m /\ n > 1) =>
  /\ ~\A r \in 1..m : LET A == {T \in Samples(m, n) : m \notin T} IN
       Cardinality({T \in A : r \in T}) * m = Mean(m, n, Cardinality(A))
  /\ n < m - 1 =>
     ~\A r, s \in 1..m : r # s =>
       Cardinality({b \in 0..m-1 : {r, s} \subseteq {1 + ((b + i) % m) : i \in 1..n}}) * m * (m - 1)
         = MeanTwo(m, n, m)
=============================================================================
