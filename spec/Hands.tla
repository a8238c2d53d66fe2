------------------------------- MODULE Hands -------------------------------
(* Complete hands, waits, yaku and the distance to a complete hand.  A hand  *)
(* is a vector of 34 counts of the concealed tiles; sets made with calls are *)
(* listed separately.                                                        *)
EXTENDS Tiles

RECURSIVE SumTo(_, _)
SumTo(v, i) == IF i = 0 THEN 0 ELSE v[i] + SumTo(v, i-1)
Sum(v) == SumTo(v, Len(v))
Sum9(v, o) == v[o+1]+v[o+2]+v[o+3]+v[o+4]+v[o+5]+v[o+6]+v[o+7]
              + (IF o = 27 THEN 0 ELSE v[o+8]+v[o+9])
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Add(v, k) == [v EXCEPT ![k+1] = @ + 1]
Sub(v, k) == [v EXCEPT ![k+1] = @ - 1]

------------------------------------------------------------------------------
(* Decomposition into sets.  A set is <<"T", k>> (three of kind k), <<"R",   *)
(* k>> (run from k) or, among calls, <<"K", k>> (four of kind k).            *)
RECURSIVE Decs(_, _, _)
Decs(v, i, end) ==      \* all ways to split kinds i-1 .. end-1 into sets
  IF i > end THEN {<<>>}
  ELSE IF v[i] = 0 THEN Decs(v, i+1, end)
  ELSE (IF v[i] >= 3
        THEN {<<<<"T", i-1>>>> \o d : d \in Decs([v EXCEPT ![i] = @ - 3], i, end)}
        ELSE {})
       \cup
       (IF i <= 25 /\ (i-1) % 9 <= 6 /\ v[i+1] > 0 /\ v[i+2] > 0
        THEN {<<<<"R", i-1>>>> \o d :
               d \in Decs([v EXCEPT ![i] = @ - 1, ![i+1] = @ - 1, ![i+2] = @ - 1], i, end)}
        ELSE {})

SuitEnd(s) == IF s = 3 THEN 34 ELSE 9*s + 9
SuitDecs(v, s) == Decs(v, 9*s + 1, SuitEnd(s))

\* every way to see v as sets and one pair
HandDecs(v) ==
  LET r == [s \in 0..3 |-> Sum9(v, 9*s) % 3]
      two == {s \in 0..3 : r[s] = 2}
  IN IF Cardinality(two) # 1 \/ \E s \in 0..3 : r[s] = 1 THEN {}
     ELSE LET ps == CHOOSE s \in two : TRUE
              others == (0..3) \ {ps}
              o1 == CHOOSE s \in others : TRUE
              o2 == CHOOSE s \in others \ {o1} : TRUE
              o3 == CHOOSE s \in others \ {o1, o2} : TRUE
              d1 == SuitDecs(v, o1)
          IN IF d1 = {} THEN {} ELSE
             LET d2 == SuitDecs(v, o2) IN IF d2 = {} THEN {} ELSE
             LET d3 == SuitDecs(v, o3) IN IF d3 = {} THEN {} ELSE
             UNION { {[pair |-> k, sets |-> a \o b \o c \o d] :
                         a \in d1, b \in d2, c \in d3,
                         d \in SuitDecs([v EXCEPT ![k+1] = @ - 2], ps)}
                     : k \in {q \in (9*ps)..(SuitEnd(ps)-1) : v[q+1] >= 2} }

SevenPairs(v) == \A i \in 1..34 : v[i] \in {0, 2}
YaochuKinds == {k \in Kinds : Yaochu(k)}
ThirteenOrphans(v) == /\ \A k \in YaochuKinds : v[k+1] >= 1
                      /\ \A k \in Kinds \ YaochuKinds : v[k+1] = 0

\* does the concealed part v, next to nMelds called sets, complete a hand?
Complete(v, nMelds) ==
  /\ Sum(v) = 14 - 3*nMelds
  /\ \/ HandDecs(v) # {}
     \/ nMelds = 0 /\ (SevenPairs(v) \/ ThirteenOrphans(v))

------------------------------------------------------------------------------
(* Yaku.  melds: sequence of [set |-> <<..>>, open |-> BOOLEAN].  A winning  *)
(* hand needs at least one yaku; the more valuable ones that imply one of    *)
(* those below (for example big three dragons imply a value triplet) need no *)
(* clause of their own.                                                      *)
IsRun(s) == s[1] = "R"
IsTri(s) == s[1] # "R"
SetKinds(s) == IF IsRun(s) THEN {s[2], s[2]+1, s[2]+2} ELSE {s[2]}

ValueKinds(seatWind, roundWind) == {31, 32, 33, seatWind, roundWind}

\* v: concealed counts including the winning tile of kind w
Yaku(v, melds, w, tsumo, seatWind, roundWind) ==
  LET nm == Len(melds)
      closed == \A i \in 1..nm : ~melds[i].open
      called == [i \in 1..nm |-> melds[i].set]
      nAnkan == Cardinality({i \in 1..nm : ~melds[i].open})
      nKan == Cardinality({i \in 1..nm : melds[i].set[1] = "K"})
      value == ValueKinds(seatWind, roundWind)
      meldKinds == UNION {SetKinds(called[i]) : i \in 1..nm}
      kinds == {k \in Kinds : v[k+1] > 0} \cup meldKinds
      suits == {Suit(k) : k \in {q \in kinds : q < 27}}
      flat == (closed /\ tsumo) \/ (\A k \in kinds : ~Yaochu(k)) \/ Cardinality(suits) <= 1
      ofDec(d) ==
        LET all == d.sets \o called
            A == Range(all)
            tris == {s[2] : s \in {x \in A : IsTri(x)}}
            runs == {s[2] : s \in {x \in A : IsRun(x)}}
            \* concealed triplets, the one completed by a discard not counted
            conc == {i \in 1..Len(d.sets) : IsTri(d.sets[i])}
            maxConc ==
              nAnkan + Cardinality(conc)
              - (IF tsumo \/ d.pair = w \/ \E i \in 1..Len(d.sets) :
                       IsRun(d.sets[i]) /\ w \in SetKinds(d.sets[i])
                 THEN 0 ELSE 1)
        IN \/ tris \cap value # {}
           \/ runs = {}                                              \* all triplets
           \/ /\ nm = 0 /\ tris = {} /\ d.pair \notin value          \* pinfu
              /\ \E s \in A : \/ w = s[2] /\ Num(s[2]) # 6
                              \/ w = s[2] + 2 /\ Num(s[2]) # 0
           \/ closed /\ \E i, j \in 1..Len(d.sets) :                 \* two equal runs
                          i < j /\ IsRun(d.sets[i]) /\ d.sets[i] = d.sets[j]
           \/ \E n \in 0..6 : {n, n+9, n+18} \subseteq runs
           \/ \E n \in 0..8 : {n, n+9, n+18} \subseteq tris
           \/ \E s \in 0..2 : {9*s, 9*s+3, 9*s+6} \subseteq runs
           \/ /\ Yaochu(d.pair)                                      \* ends everywhere
              /\ \A s \in A : \E k \in SetKinds(s) : Yaochu(k)
           \/ nKan >= 3
           \/ maxConc >= 3
  IN \/ nm = 0 /\ ~(HandDecs(v) # {}) /\ (SevenPairs(v) \/ ThirteenOrphans(v))
     \/ nm = 0 /\ SevenPairs(v)
     \/ \E d \in HandDecs(v) : flat \/ ofDec(d)

------------------------------------------------------------------------------
(* One tile from complete.  Near(v, n) holds when 14 - 3*(4-n) tiles v can   *)
(* become n sets and a pair by exchanging at most one tile.                  *)
(* SuitNear: the <<sets, pairs, missing, extra>> reachable in one suit.      *)
RECURSIVE SuitNear(_, _, _, _, _, _, _)
SuitNear(o, v, i, end, pr, ms, ex) ==
  \* o: counts before taking anything; pr, ms, ex: pair, missing, extra used up
  IF i > end THEN {<<0, pr, ms, ex>>}
  ELSE IF v[i] = 0 THEN SuitNear(o, v, i+1, end, pr, ms, ex)
  ELSE
  LET inc(S) == {<<t[1]+1, t[2], t[3], t[4]>> : t \in S}
      num == (i-1) % 9
      run == i <= 27
      canMiss(j) == ms = 0 /\ o[j] < 4
  IN (IF ex = 0 THEN SuitNear(o, [v EXCEPT ![i] = @ - 1], i, end, pr, ms, 1) ELSE {})
     \cup (IF v[i] >= 3 THEN inc(SuitNear(o, [v EXCEPT ![i] = @ - 3], i, end, pr, ms, ex)) ELSE {})
     \cup (IF v[i] >= 2 /\ pr = 0 THEN SuitNear(o, [v EXCEPT ![i] = @ - 2], i, end, 1, ms, ex) ELSE {})
     \cup (IF pr = 0 /\ canMiss(i) THEN SuitNear(o, [v EXCEPT ![i] = @ - 1], i, end, 1, 1, ex) ELSE {})
     \cup (IF v[i] >= 2 /\ canMiss(i) THEN inc(SuitNear(o, [v EXCEPT ![i] = @ - 2], i, end, pr, 1, ex)) ELSE {})
     \cup (IF run /\ num <= 6 /\ v[i+1] > 0 /\ v[i+2] > 0
           THEN inc(SuitNear(o, [v EXCEPT ![i] = @ - 1, ![i+1] = @ - 1, ![i+2] = @ - 1], i, end, pr, ms, ex)) ELSE {})
     \cup (IF run /\ num <= 7 /\ v[i+1] > 0
                  /\ ((num <= 6 /\ canMiss(i+2)) \/ (num >= 1 /\ canMiss(i-1)))
           THEN inc(SuitNear(o, [v EXCEPT ![i] = @ - 1, ![i+1] = @ - 1], i, end, pr, 1, ex)) ELSE {})
     \cup (IF run /\ num <= 6 /\ v[i+2] > 0 /\ canMiss(i+1)
           THEN inc(SuitNear(o, [v EXCEPT ![i] = @ - 1, ![i+2] = @ - 1], i, end, pr, 1, ex)) ELSE {})

Combine(S, T) == {q \in {<<s[1]+t[1], s[2]+t[2], s[3]+t[3], s[4]+t[4]>> : s \in S, t \in T} :
                    q[2] <= 1 /\ q[3] <= 1 /\ q[4] <= 1}

NearRegular(v, n) ==
  LET S(s) == SuitNear(v, v, 9*s + 1, SuitEnd(s), 0, 0, 0)
      a == S(0)
  IN a # {} /\ LET b == Combine(a, S(1)) IN b # {} /\ LET c == Combine(b, S(2)) IN
     c # {} /\ \E q \in Combine(c, S(3)) : q[1] = n /\ q[2] = 1

NearSevenPairs(v) ==
  LET pairs == Cardinality({i \in 1..34 : v[i] >= 2})
      kinds == Cardinality({i \in 1..34 : v[i] >= 1})
  IN (6 - pairs) + Max2(0, 7 - kinds) <= 0

NearOrphans(v) ==
  LET kinds == Cardinality({k \in YaochuKinds : v[k+1] >= 1})
      dup == B(\E k \in YaochuKinds : v[k+1] >= 2)
  IN 13 - kinds - dup <= 0

\* v has a tile whose removal leaves a hand one tile from complete
ReadyAfterDiscard(v, nMelds) ==
  \/ NearRegular(v, 4 - nMelds)
  \/ nMelds = 0 /\ (NearSevenPairs(v) \/ NearOrphans(v))

------------------------------------------------------------------------------
(* The exact distance to a complete hand: the least number of missing tiles  *)
(* over all complete hands, less one.  Processing kind by kind; a state is   *)
(* <<sets begun, pair, runs begun at the previous kind, runs begun two kinds *)
(* before>> with the least number of missing tiles so far.                   *)
DistRegular(v, n) ==
  LET
    states(m) == DOMAIN m
    best(m, s, x) == IF s \in DOMAIN m THEN Min2(m[s], x) ELSE x
    RECURSIVE go(_, _)
    go(i, m) ==
      IF i > 34 THEN m[<<n, 1, 0, 0>>]
      ELSE
      LET k == i - 1
          newRuns == k < 27 /\ k % 9 <= 6
          succ(s) ==
            { <<<<s[1] + t + r, s[2] + p, r, s[3]>>,
                m[s] + Max2(0, s[3] + s[4] + r + 3*t + 2*p - v[i])>>
              : <<t, p, r>> \in {q \in {0,1} \X {0,1} \X (IF newRuns THEN 0..4 ELSE {0}) :
                   /\ s[1] + q[1] + q[3] <= n
                   /\ s[2] + q[2] <= 1
                   /\ s[3] + s[4] + q[3] + 3*q[1] + 2*q[2] <= 4} }
          all == UNION {succ(s) : s \in DOMAIN m}
          keys == {x[1] : x \in all}
      IN go(i + 1, [s \in keys |-> MinOf({x[2] : x \in {y \in all : y[1] = s}})])
  IN go(1, [s \in {<<0, 0, 0, 0>>} |-> 0]) - 1

DistSevenPairs(v) ==
  6 - Cardinality({i \in 1..34 : v[i] >= 2})
    + Max2(0, 7 - Cardinality({i \in 1..34 : v[i] >= 1}))

DistOrphans(v) ==
  13 - Cardinality({k \in YaochuKinds : v[k+1] >= 1})
     - B(\E k \in YaochuKinds : v[k+1] >= 2)

\* for 13 or 14 tiles less three per called set
Distance(v) ==
  LET t == Sum(v)   n == t \div 3 IN
  IF t >= 13 THEN Min2(DistRegular(v, n), Min2(DistSevenPairs(v), DistOrphans(v)))
  ELSE DistRegular(v, n)
=============================================================================
