------------------------------ MODULE Distance ------------------------------
(* How many tiles a concealed hand is from being complete: -1 if it is       *)
(* complete, 0 if one tile completes it, and so on.  A hand is a vector of   *)
(* counts per kind; it has to become n sets and a pair (n = 4 less the calls *)
(* made), or seven different pairs, or thirteen orphans.                     *)
EXTENDS Hands, TLC

Inf == 99
Excess(a, b) == IF a > b THEN a - b ELSE 0

(* The least number of tiles missing from the hand for m sets and p pairs    *)
(* within one suit, for all m <= 4 and p <= 1 at once: the kinds are gone    *)
(* through in order; (a, b) are the runs that started two and one kinds      *)
(* before.  Three equal runs are three triplets, so at most two start at a   *)
(* kind.  No kind can be needed more than four times.                        *)
Key(a, b, m, p) == 1 + p + 2*m + 10*b + 30*a
Keys == 1..90
Start0 == [k \in Keys |-> IF k = 1 THEN 0 ELSE Inf]

\* how the kind before can be counted to reach a key: <<its key, tiles needed here>>
Ways(k, runs) ==
  LET p == (k - 1) % 2   m == ((k - 1) \div 2) % 5
      c == ((k - 1) \div 10) % 3   b == (k - 1) \div 30
      all == {<<a, t, q>> \in (0..2) \X (0..1) \X (0..1) :
                /\ c + t <= m /\ q <= p /\ a + b + c + 3*t + 2*q <= 4
                /\ a + b + c + t <= m
                /\ (c > 0 => runs) /\ (a + b > 0 => c + t < m)}
  IN {<<Key(x[1], b, m - c - x[2], p - x[3]), x[1] + b + c + 3*x[2] + 2*x[3]>> : x \in all}
WaysRun == TLCEval([k \in Keys |-> Ways(k, TRUE)])
WaysNoRun == TLCEval([k \in Keys |-> Ways(k, FALSE)])

\* one kind with x tiles in hand; W: WaysRun or WaysNoRun
NextKind(f, x, W) ==
  TLCEval([k \in Keys |->
     IF W[k] = {} THEN Inf
     ELSE MinOf({f[o[1]] + (IF o[2] > x THEN o[2] - x ELSE 0) : o \in W[k]})])

\* the members of singletons are evaluated once, unlike arguments
Only(S) == CHOOSE x \in S : TRUE

RECURSIVE SuitFrom(_, _, _, _)
SuitFrom(f, v, i, end) ==
  IF i > end THEN TLCEval([k \in 1..10 |-> f[k]])         \* no run left open: a = b = 0
  ELSE Only({SuitFrom(g, v, i + 1, end) :
             g \in {NextKind(f, x, IF end < 34 /\ i + 2 <= end THEN WaysRun ELSE WaysNoRun) : x \in {v[i]}}})
\* entry 1 + p + 2m; a suit without a tile needs all of them
SuitMissing(v, s) ==
  IF \A i \in (9*s + 1)..SuitEnd(s) : v[i] = 0
  THEN [k \in 1..10 |-> 3*((k - 1) \div 2) + 2*((k - 1) % 2)]
  ELSE SuitFrom(Start0, v, 9*s + 1, SuitEnd(s))

Combine2(f, g) ==
  TLCEval([k \in 1..10 |->
     LET p == (k - 1) % 2   m == (k - 1) \div 2 IN
     MinOf({f[1 + q + 2*l] + g[1 + (p - q) + 2*(m - l)] : q \in 0..p, l \in 0..m})])

RegularDistance(v, n) ==
  Only({h[2 + 2*n] - 1 :
        h \in {Combine2(f, g) : f \in {Combine2(a, b) : a \in {SuitMissing(v, 0)}, b \in {SuitMissing(v, 1)}},
                                g \in {Combine2(c, d) : c \in {SuitMissing(v, 2)}, d \in {SuitMissing(v, 3)}}}})

PairsDistance(v) ==
  6 - Cardinality({i \in 1..34 : v[i] >= 2}) + Excess(7, Cardinality({i \in 1..34 : v[i] >= 1}))
OrphansDistance(v) ==
  13 - Cardinality({k \in YaochuKinds : v[k+1] >= 1})
     - B(\E k \in YaochuKinds : v[k+1] >= 2)

HandDistance(v) ==
  LET n == (Sum(v) - 1) \div 3 IN
  Only({IF n = 4 THEN Min2(r, Min2(PairsDistance(v), OrphansDistance(v))) ELSE r :
        r \in {RegularDistance(v, n)}})
=============================================================================
