-------------------------------- MODULE Rows --------------------------------
(* Training data.  A batch is a sequence of games, a game a sequence of      *)
(* rounds, a round its history (tok) and its records.  The specification     *)
(* walks through the records of a batch in order and says for each of them   *)
(* which training rows it gives, for each of the three kinds of decision     *)
(* (heads): own turn U, discard D, response P.  The rows that the data       *)
(* preparation of each model produced are consumed in step and compared.     *)
(*                                                                           *)
(* Input (JSON, environment variable TRACE): vals (interned values), agents  *)
(* (name, therm, rivers, player: the input format of each model), batches.   *)
(* A row is [x, c, a, b, m, y, p]: history, tile planes, seat features,      *)
(* counters, mask (all interned), target, player (-1 if the model has none). *)
EXTENDS Calls, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TRACE)
Props == Range(D.props)
V == D.vals
Heads == <<"U", "D", "P">>
HistoryLength == 150

VARIABLES t,      \* batch
          a,      \* model
          rd,     \* round of the batch (rounds of all games in order)
          k,      \* record of the round
          used,   \* rows consumed for each head
          bad,    \* failed clauses <<property, clause, model, round, record>>
          rows,   \* rows compared, by situation
          done
vars == <<t, a, rd, k, used, bad, rows, done>>

Batch == D.batches[t]
Agent == D.agents[a]
Out   == Batch.out[a]           \* [err, U, D, P, fwd]
Round == Batch.rounds[rd]

------------------------------------------------------------------------------
(* Rows of one record                                                        *)
\* o = <<wins, riichis, calls>>
Offered(o) ==
  (IF Len(o[1]) > 0 THEN {1} ELSE {}) \cup (IF Len(o[2]) > 0 THEN {2} ELSE {})
  \cup {ActionNumber(Decode(o[3][i][3])) : i \in 1..Len(o[3])}
TakenOf(o) ==
  (IF \E i \in 1..Len(o[1]) : o[1][i][2] = 1 THEN {1} ELSE {})
  \cup (IF \E i \in 1..Len(o[2]) : o[2][i][2] = 1 THEN {2} ELSE {})
  \cup {ActionNumber(Decode(o[3][i][3])) : i \in {j \in 1..Len(o[3]) : o[3][j][2] = 1}}

\* an expected row: head, deciding player, recorded state, allowed actions,
\* admissible targets
Want(h, p, s, mask, ys) == [h |-> h, p |-> p, s |-> s, mask |-> mask, ys |-> ys]

OptionRow(h, p, s, o) ==
  Want(h, p, s, {0} \cup Offered(o), IF TakenOf(o) = {} THEN {0} ELSE TakenOf(o))

\* responders after seat p up to and including the first who acted
RECURSIVE Responders(_, _, _)
Responders(rec, p, d) ==
  IF d > 3 THEN <<>>
  ELSE LET q == (p + d) % 4  o == rec.o[P(q)] IN
       IF Offered(o) = {} THEN Responders(rec, p, d + 1)
       ELSE <<OptionRow("P", q, rec.s[P(q)], o)>>
            \o (IF TakenOf(o) # {} THEN <<>> ELSE Responders(rec, p, d + 1))

Wanted(rec) ==
  CASE rec.k = "U" -> IF Offered(rec.o) = {} THEN <<>>
                      ELSE <<OptionRow("U", rec.p, rec.s, rec.o)>>
    [] rec.k = "D" -> <<Want("D", rec.p, rec.s, {i - 1 : i \in {j \in 1..37 : V[rec.s[1]][j] > 0}},
                             {Kind(rec.t)})>>
    [] rec.k = "P" -> Responders(rec, rec.p, 1)

Dim(h) == CASE h = "U" -> OwnTurnActions [] h = "D" -> 37 [] h = "P" -> ResponseActions

------------------------------------------------------------------------------
(* Encoding of a state.  Indices into a recorded state: 1 hand, 2 unseen,    *)
(* 5 closed, 6 double riichi, 7 riichi, 8 one-shot, 10 scores, 11 counters   *)
(* <<pot, honba, rounds left, draws left, turns, player>>, 13 dealer,        *)
(* 14 deals left, 15 rivers.                                                 *)
Therm(v) == [i \in 1..37 |-> [n \in 1..4 |-> B(n <= v[i])]]
Plane(v) == IF Agent.therm THEN Therm(v) ELSE v

River(s, q) == V[s[15]][P(q)]
Planes(s, p) ==
  <<Plane(V[s[1]]), Plane(V[s[2]])>>
  \o (IF Agent.rivers
      THEN [d \in 1..4 |-> Plane(River(s, (p + d - 1) % 4))]
      ELSE <<Plane(River(s, p))>>)
SeatFeatures(s) == <<V[s[10]], V[s[13]], V[s[14]], V[s[6]], V[s[7]], V[s[8]], V[s[5]]>>
Counters(s) == LET c == V[s[11]] IN <<c[4], c[1], c[2], c[3]>>
History(n) == [i \in 1..HistoryLength |-> IF i <= n THEN Round.tok[i] ELSE 0]

PlaneName(i) == CASE i = 1 -> "hand" [] i = 2 -> "unseen" [] OTHER -> "discards"

RowBad(w, n, row) ==
  LET c(p, cl, ok) == IF ok \/ p \notin Props THEN {} ELSE {<<p, cl>>}
      m == V[row.m]
      pl == Planes(w.s, w.p)
  IN c("C14", "mask", Len(m) = Dim(w.h) /\ (\A i \in 1..Len(m) : m[i] = B((i - 1) \in w.mask)))
     \cup c("C14", "target", row.y \in w.ys)
     \cup c("C14", "target not allowed", row.y \in 0..(Len(m) - 1) /\ m[row.y + 1] = 1)
     \cup c("C15", "history", V[row.x] = History(n))
     \cup (IF "C15" \notin Props THEN {}
           ELSE IF Len(row.c) # Len(pl) THEN {<<"C15", "planes">>}
           ELSE UNION {c("C15", PlaneName(i), V[row.c[i]] = pl[i]) : i \in 1..Len(pl)})
     \cup c("C15", "seat features", V[row.a] = SeatFeatures(w.s))
     \cup c("C15", "counters", V[row.b] = Counters(w.s))
     \cup c("C15", "player", row.p = (IF Agent.player THEN w.p ELSE -1))
     \* the state that is encoded is the deciding player's own
     \cup c("C15", "state of another player", V[w.s[11]][6] = w.p)

------------------------------------------------------------------------------
(* Rows that reach the network: all of them, or a sample of the given size.  *)
\* f: [size, rows: for each head the whole rows (interned)], size 0: all
Occ(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SampleBad(f, h) ==
  LET got == f[h]  all == Out.whole[h] IN
  IF f.err # "" THEN {<<"C15", "forward crashed">>}
  ELSE IF f.size = 0 \/ f.size >= Len(all)
  THEN (IF got = all THEN {} ELSE {<<"C15", "rows reaching the network">>})
  ELSE IF Len(got) # f.size THEN {<<"C15", "sample size">>}
  ELSE IF \A x \in Range(got) : Occ(got, x) <= Occ(all, x) THEN {}
  ELSE {<<"C15", "sampled rows misaligned">>}
ForwardBad ==
  IF "C15" \notin Props THEN {}
  ELSE UNION {SampleBad(Out.fwd[i], h) : i \in 1..Len(Out.fwd), h \in {"U", "D", "P"}}

------------------------------------------------------------------------------
Tag(S) == {<<b[1], b[2], Agent.name, rd, k>> : b \in S}

Init ==
  /\ t = 0 /\ a = 0 /\ rd = 1 /\ k = 1 /\ used = [h \in {"U","D","P"} |-> 0]
  /\ bad = {} /\ rows = [h \in {"U","D","P"} |-> 0] /\ done = FALSE

Choose ==
  /\ t = 0
  /\ \E u \in 1..Len(D.batches), v \in 1..Len(D.agents) : t' = u /\ a' = v
  /\ UNCHANGED <<rd, k, used, bad, rows, done>>

RECURSIVE Consume(_, _, _, _)
\* compare the wanted rows from the i-th on; result <<used, failed>>
Consume(ws, i, u, n) ==
  IF i > Len(ws) THEN <<u, {}>>
  ELSE LET h == ws[i].h  nx == u[h] + 1
           here == IF nx > Len(Out[h]) THEN {<<p, "row missing">> : p \in Props}
                   ELSE RowBad(ws[i], n, Out[h][nx])
           rest == Consume(ws, i + 1, [u EXCEPT ![h] = nx], n)
       IN <<rest[1], here \cup rest[2]>>

Record ==
  /\ t # 0 /\ ~done
  /\ IF Out.err # "" THEN
       /\ done' = TRUE /\ bad' = Tag({<<p, "crash">> : p \in Props})
       /\ UNCHANGED <<t, a, rd, k, used, rows>>
     ELSE IF rd > Len(Batch.rounds) THEN
       /\ done' = TRUE
       /\ bad' = bad \cup Tag(ForwardBad)
            \cup Tag(IF \E h \in {"U","D","P"} : used[h] # Len(Out[h])
                     THEN {<<p, "extra rows">> : p \in Props} ELSE {})
       /\ UNCHANGED <<t, a, rd, k, used, rows>>
     ELSE IF k > Len(Round.rec) THEN
       /\ rd' = rd + 1 /\ k' = 1 /\ UNCHANGED <<t, a, used, bad, rows, done>>
     ELSE LET rec == Round.rec[k]
              ws == Wanted(rec)
              c == Consume(ws, 1, used, rec.n)
          IN /\ used' = c[1] /\ bad' = bad \cup Tag(c[2]) /\ k' = k + 1
             /\ rows' = [h \in {"U","D","P"} |-> rows[h] + (c[1][h] - used[h])]
             /\ UNCHANGED <<t, a, rd, done>>

Next == Choose \/ Record
RowsSpec == Init /\ [][Next]_vars

Report ==
  ~done \/ PrintT(ToJson([batch |-> Batch.id, model |-> Agent.name, bad |-> bad,
                          rows |-> rows]))
\* every row is consumed once and in order
Ordered == \A h \in {"U","D","P"} : used[h] = rows[h]
=============================================================================
