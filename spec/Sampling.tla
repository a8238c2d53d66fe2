------------------------------ MODULE Sampling ------------------------------
(* Which rows of a kind of decision a training pass uses: all of them if     *)
(* there are no more than the sample size, else a sample of that size.       *)
(*                                                                           *)
(* A sample is taken row by row from what is left (Take); all orders are     *)
(* equally likely, and so all sets of that size (MCSampling).                *)
EXTENDS Integers, Sequences, FiniteSets

Least(a, b) == IF a < b THEN a ELSE b
\* rows used of m when the sample size is n
Size(m, n) == Least(m, n)
Samples(m, n) == {S \in SUBSET (1..m) : Cardinality(S) = Size(m, n)}

\* one more row of m into a sample that is not complete
Take(S, m, n, r) == /\ Cardinality(S) < Size(m, n)
                    /\ r \in (1..m) \ S

\* of how many of K samples a row is part on average, times m; two rows both, times m*(m-1)
Mean(m, n, K) == K * Size(m, n)
MeanTwo(m, n, K) == K * Size(m, n) * (Size(m, n) - 1)

\* how far a count of K independent trials may be from its mean: beyond B with
\* B*B >= 15*K, the chance is below 2*exp(-2*B*B/K) < 2/10^13 (Hoeffding)
Slack(K) == CHOOSE b \in 0..K+15 : b*b >= 15*K /\ (b = 0 \/ (b-1)*(b-1) < 15*K)
Abs(x) == IF x < 0 THEN -x ELSE x
\* a row is in c of K samples
Fair(c, m, n, K) == Abs(c*m - Mean(m, n, K)) <= m * Slack(K)
\* two rows are in c of K samples together
FairTwo(c, m, n, K) == m < 2 \/ Abs(c*m*(m-1) - MeanTwo(m, n, K)) <= m*(m-1) * Slack(K)

\* so many samples that two of a few hundred are hardly ever the same
RECURSIVE Many(_, _, _, _)
Many(m, n, k, found) == \* found * (m-k)/(k+1) * ... as long as it is small
  IF found > 10000000 THEN TRUE
  ELSE IF k >= Least(n, m - n) THEN FALSE
  ELSE Many(m, n, k + 1, (found * (m - k)) \div (k + 1))
\* at least C(m,n) > 10^7 twice over: each half of the rows gives that many
Different(m, n) == n < m /\ m >= 4 /\ Many(m \div 2, n \div 2, 0, 1)
=============================================================================
