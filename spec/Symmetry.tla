------------------------------ MODULE Symmetry ------------------------------
(* Renamings under which the game is the same: the seats turned (and with    *)
(* them the dealer and the round of the wind), the suits exchanged, every    *)
(* suit read backwards, the dragons exchanged, and the copies of a kind      *)
(* exchanged (a red five stays one).                                         *)
(*                                                                           *)
(* A renaming is a record                                                    *)
(*   turn     seats go on by this many                                       *)
(*   suit     where each suit goes, 0..2                                     *)
(*   mirror   0 or 1: one becomes nine                                       *)
(*   dragon   where each dragon goes, 0..2                                   *)
(*   copy     for each kind where its copies go, 0..3                        *)
EXTENDS Round

Perm(q, S) == Range(q) = S /\ Len(q) = Cardinality(S)
Proper(g) ==
  /\ g.turn \in Seats /\ g.mirror \in {0, 1}
  /\ Perm(g.suit, 0..2) /\ Perm(g.dragon, 0..2)
  /\ Len(g.copy) = 34
  /\ \A k \in Kinds : Perm(g.copy[k+1], 0..3) /\ (IsFive(k) => g.copy[k+1][1] = 0)

GKind(g, k) == IF k < 27 THEN 9*g.suit[Suit(k)+1] + (IF g.mirror = 1 THEN 8 - Num(k) ELSE Num(k))
               ELSE IF k < 31 THEN k ELSE 31 + g.dragon[k-30]
GTile(g, t) == 4*GKind(g, Kind(t)) + g.copy[Kind(t)+1][(t % 4)+1]
\* a table of the renaming: kinds, tiles, and for each entry of a vector the
\* entry that goes there
Table(g) ==
  LET at(i) == IF i <= 34 THEN GKind(g, i-1) + 1 ELSE 35 + g.suit[i-34] IN
  [g |-> g, turn |-> g.turn,
   kind |-> TLCEval([k \in Kinds |-> GKind(g, k)]), tile |-> TLCEval([t \in AllTiles |-> GTile(g, t)]),
   to |-> TLCEval([i \in 1..37 |-> at(i)]),
   from |-> TLCEval([i \in 1..37 |-> CHOOSE j \in 1..37 : at(j) = i])]

\* with a table T
GSeat(T, s) == IF s = -1 THEN -1 ELSE (s + T.turn) % 4
GTiles(T, S) == {T.tile[t] : t \in S}
GSeq(T, q) == [i \in 1..Len(q) |-> T.tile[q[i]]]
GVec(T, v) == [i \in 1..37 |-> v[T.from[i]]]
\* tuples with an entry for each seat, whose entries are renamed by f
Turn(T, q, f(_)) == [p \in 1..4 |-> f(q[P((p + 3 - T.turn) % 4)])]
Same(x) == x
GBase(T, c) == IF c.type = "chi" /\ T.g.mirror = 1 THEN T.kind[c.base + 2] ELSE T.kind[c.base]
GPos(T, c) == IF c.type = "chi" /\ T.g.mirror = 1 THEN 2 - c.pos ELSE c.pos
GCall(T, c) == Call(c.type, GBase(T, c), GPos(T, c), GTiles(T, c.own),
                    IF c.claimed = -1 THEN -1 ELSE T.tile[c.claimed], c.rel)
GChoice(T, c) == <<c.type, GBase(T, c), GPos(T, c), c.rel, RedUse(c)>>
GRound(T, r) == 4*(r \div 4) + ((r + T.turn) % 4)
GCtx(T, x) == [x EXCEPT !.dealer = GSeat(T, x.dealer), !.round = GRound(T, x.round)]

\* history entries: a call stands for its number
OwnCalls == {AnkanOf(k) : k \in Kinds} \cup {KakanOf(4*k + 1) : k \in Kinds}
Responses == {c \in UNION {CallsFrom(4*k + i, 3) : k \in Kinds, i \in {0, 1}} :
                \A t \in c.own : t % 4 < 2 \/ c.type # "chi"}
RepOf(calls) == [n \in {ActionNumber(c) : c \in calls} |-> CHOOSE c \in calls : ActionNumber(c) = n]
RepOwn == CHOOSE f \in {RepOf(calls) : calls \in {OwnCalls}} : TRUE
RepResponse == CHOOSE f \in {RepOf(calls) : calls \in {Responses}} : TRUE
\* by number: the calls in turn, and those of other seats' tiles
Reps == [own |-> RepOwn, response |-> RepResponse]
GEntry(T, R, e) ==
  LET state == e \div 8192  type == (e \div 1024) % 8  who == (e \div 256) % 4  low == e % 256
      rep == IF state = 2 THEN R.own ELSE R.response
  IN CASE type = 1 -> IF low % 128 \in Kinds
                      THEN Entry(state, 1, GSeat(T, who), 128*(low \div 128) + T.kind[low % 128]) ELSE -1
       [] type = 2 -> IF low \in DOMAIN rep
                      THEN Entry(state, 2, GSeat(T, who), ActionNumber(GCall(T, rep[low]))) ELSE -1
       [] type = 3 -> Entry(state, 3, GSeat(T, who), low)
       [] type = 4 -> IF low \in Kinds THEN Entry(state, 4, who, T.kind[low]) ELSE -1
       [] OTHER -> e

\* events and states of Round; the codes of calls are left out (they hold
\* nothing that the calls do not)
Bare(st) == [st EXCEPT !.melds = [p \in 1..4 |-> [i \in 1..Len(st.melds[p]) |-> st.melds[p][i].call]]]
GState(T, R, x) ==
  [x EXCEPT !.ctx = GCtx(T, @),
            !.hand = Turn(T, @, LAMBDA h : GTiles(T, h)),
            !.melds = Turn(T, @, LAMBDA m : [i \in 1..Len(m) |-> GCall(T, m[i])]),
            !.river = Turn(T, @, LAMBDA q : GSeq(T, q)),
            !.shown = GTiles(T, @), !.dora = GSeq(T, @),
            !.riichi = Turn(T, @, Same), !.double = Turn(T, @, Same),
            !.oneshot = Turn(T, @, Same), !.closed = Turn(T, @, Same), !.scores = Turn(T, @, Same),
            !.turn = GSeat(T, @), !.declared = GSeat(T, @),
            !.tile = IF @ = -1 THEN -1 ELSE T.tile[@],
            !.hist = [i \in 1..Len(@) |-> GEntry(T, R, @[i])]]
=============================================================================
