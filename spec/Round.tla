------------------------------- MODULE Round -------------------------------
(* One round of four-player riichi mahjong as a state machine, with the      *)
(* options each player has at every decision point and the observable state  *)
(* that a replay of the round has to record.                                 *)
(*                                                                           *)
(* The state is one record, so that the same definitions drive the           *)
(* exhaustive models (MCRound), the generation of behaviours (SimRound) and  *)
(* the validation of records of the implementation (TraceRound).             *)
EXTENDS Calls, Hands, TLC

CONSTANTS HandTiles,    \* tiles dealt to each seat: 13
          DrawLimit     \* draws in a round: 70

SetsNeeded == HandTiles \div 3

------------------------------------------------------------------------------
(* State                                                                     *)
(*   ctx       round context: seat of the dealer, round number, scheduled    *)
(*             rounds of the game, honba                                     *)
(*   hand      concealed tiles of each seat                                  *)
(*   melds     calls of each seat in order: [code, call, pon]                *)
(*   river     discards of each seat in order (claimed ones included)        *)
(*   shown     tiles everybody has seen: discards, called tiles, indicators  *)
(*   dora      indicators in order                                           *)
(*   left      draws left                                                    *)
(*   riichi, double, oneshot, closed   status of each seat                   *)
(*   scores (in hundreds), pot (deposits)                                    *)
(*   phase     draw | own | mustdiscard | react | chankan | kandraw | over   *)
(*   turn      the seat that acts or acted last                              *)
(*   tile      the tile just drawn or discarded or added to a kan, or -1     *)
(*   declared  seat whose riichi declaration awaits acceptance, or -1        *)
(*   afterKan  the next or current draw replaces a kan tile                  *)
(*   owed      kan indicators not yet revealed                               *)
(*   draws     draws made                                                    *)
(*   hist      history entries                                               *)

Four(x) == <<x, x, x, x>>

Start(ctx, hands, dora, scores, pot) ==
  [ctx |-> ctx, hand |-> hands, melds |-> Four(<<>>), river |-> Four(<<>>),
   shown |-> {dora}, dora |-> <<dora>>, left |-> DrawLimit,
   riichi |-> Four(0), double |-> Four(0), oneshot |-> Four(0), closed |-> Four(1),
   scores |-> scores, pot |-> pot, phase |-> "draw", turn |-> (ctx.dealer + 3) % 4,
   tile |-> -1, declared |-> -1, afterKan |-> FALSE, owed |-> 0, draws |-> 0,
   hist |-> <<>>]

Calls4(st) == \E s \in Seats : st.melds[P(s)] # <<>>       \* any call so far
NoCalls(st) == ~Calls4(st)

SeatWind(st, s) == 27 + Rel(s, st.ctx.dealer)
RoundWind(st) == 27 + (st.ctx.round \div 4)

\* tiles that have left the wall or are known indicators
Taken(st) == UNION {st.hand[P(s)] : s \in Seats} \cup st.shown

------------------------------------------------------------------------------
(* History entries                                                           *)
Entry(state, type, who, low) == 8192*state + 1024*type + 256*who + low
DiscardEntry(s, t, drawn) == Entry(1, 1, s, 128*B(drawn) + Kind(t))
CallEntry(s, c) == Entry(IF IsOwnTurn(c) THEN 2 ELSE 3, 2, s, ActionNumber(c))
RiichiEntry(s) == Entry(2, 3, s, 2)
DoraEntry(t) == Entry(4, 4, 0, Kind(t))

------------------------------------------------------------------------------
(* Options                                                                   *)

\* the calls seat s can make on tile t discarded by seat d, ignoring status
CallsOn(hand, s, d, t) ==
  {c \in CallsFrom(t, Rel(d, s)) : c.own \subseteq hand}

CallOptions(st, s) ==
  IF s = st.turn \/ st.phase # "react" \/ st.riichi[P(s)] = 1 \/ st.left = 0 THEN {}
  ELSE CallsOn(st.hand[P(s)], s, st.turn, st.tile)

KanOptions(st, s) ==
  IF st.phase # "own" \/ s # st.turn \/ st.left = 0 THEN {}
  ELSE LET h == st.hand[P(s)]
           ankan == {AnkanOf(k) : k \in {q \in Kinds : Copies(q) \subseteq h
                                           /\ (st.riichi[P(s)] = 1 => q = Kind(st.tile))}}
           pons == {k \in Kinds : \E i \in 1..Len(st.melds[P(s)]) :
                        st.melds[P(s)][i].call.type = "pon" /\ st.melds[P(s)][i].call.base = k}
           kakan == {KakanOf(t) : t \in {u \in h : Kind(u) \in pons}}
       IN ankan \cup (IF st.riichi[P(s)] = 1 THEN {} ELSE kakan)

RiichiPossible(st, s) ==
  /\ st.phase = "own" /\ s = st.turn
  /\ st.closed[P(s)] = 1 /\ st.riichi[P(s)] = 0 /\ st.declared = -1
  /\ st.left >= 4 /\ st.scores[P(s)] >= 10
  /\ ReadyAfterDiscard(KindVec(st.hand[P(s)]), Len(st.melds[P(s)]) + 4 - SetsNeeded)

\* the called sets of a seat as sets for the evaluation of a hand
MeldSets(st, s) ==
  [i \in 1..Len(st.melds[P(s)]) |->
     LET c == st.melds[P(s)][i].call IN
     [set |-> <<CASE c.type = "chi" -> "R" [] c.type = "pon" -> "T" [] OTHER -> "K", c.base>>,
      open |-> c.type # "ankan"]]

\* no call yet and seat s has not had its first draw
BeforeFirstDraw(st, s) == NoCalls(st) /\ Rel(s, st.ctx.dealer) >= st.draws

CompleteWith(st, s, v) == Complete(v, Len(st.melds[P(s)]) + 4 - SetsNeeded)

\* why a hand completed by the own draw wins
SelfDrawComplete(st, s) ==
  st.phase = "own" /\ s = st.turn /\ CompleteWith(st, s, KindVec(st.hand[P(s)]))

SelfDrawReasons(st, s) ==
  LET c(name, b) == IF b THEN {name} ELSE {} IN
  c("riichi", st.riichi[P(s)] = 1) \cup c("replacement", st.afterKan)
  \cup c("last", st.left = 0)
  \cup c("first", NoCalls(st) /\ st.draws <= 4)
  \cup c("yaku", Yaku(KindVec(st.hand[P(s)]), MeldSets(st, s), Kind(st.tile), TRUE,
                      SeatWind(st, s), RoundWind(st)))

SelfDrawWin(st, s) == SelfDrawComplete(st, s) /\ SelfDrawReasons(st, s) # {}

OwnDiscardKinds(st, s) == {Kind(t) : t \in Range(st.river[P(s)])}

\* why a hand completed by the tile of another seat wins
DiscardComplete(st, s) ==
  /\ st.phase \in {"react", "chankan"} /\ s # st.turn
  /\ CompleteWith(st, s, Add(KindVec(st.hand[P(s)]), Kind(st.tile)))

DiscardReasons(st, s) ==
  LET c(name, b) == IF b THEN {name} ELSE {} IN
  c("riichi", st.riichi[P(s)] = 1) \cup c("robbed kan", st.phase = "chankan")
  \cup c("last", st.left = 0)
  \cup c("first", BeforeFirstDraw(st, s))
  \cup c("yaku", Yaku(Add(KindVec(st.hand[P(s)]), Kind(st.tile)), MeldSets(st, s),
                      Kind(st.tile), FALSE, SeatWind(st, s), RoundWind(st)))

\* some tile that would complete the hand is among the own discards
Furiten(st, s) ==
  \E k \in OwnDiscardKinds(st, s) : CompleteWith(st, s, Add(KindVec(st.hand[P(s)]), k))

DiscardWin(st, s) ==
  DiscardComplete(st, s) /\ DiscardReasons(st, s) # {} /\ ~Furiten(st, s)

WinPossible(st, s) == SelfDrawWin(st, s) \/ DiscardWin(st, s)

------------------------------------------------------------------------------
(* Transitions: for each event a guard (may it happen?) and its effect.      *)
(* An event is a record with field e.                                        *)

NextDrawer(st) == IF st.phase = "kandraw" \/ st.phase = "chankan" THEN st.turn
                  ELSE (st.turn + 1) % 4

CanDraw(st, s, t) ==
  /\ st.phase \in {"draw", "react", "kandraw", "chankan"} /\ st.declared = -1
  /\ st.left > 0 /\ s = NextDrawer(st) /\ t \in AllTiles \ Taken(st)

AfterDraw(st, s, t) ==
  [st EXCEPT !.hand[P(s)] = @ \cup {t}, !.phase = "own", !.turn = s, !.tile = t,
             !.left = @ - 1, !.draws = @ + 1,
             !.afterKan = st.phase \in {"kandraw", "chankan"}]

\* the concealed tiles h need one more
Ready(st, s, h) == \E k \in Kinds : CompleteWith(st, s, Add(KindVec(h), k))

CanDiscard(st, s, t) ==
  /\ st.phase \in {"own", "mustdiscard"} /\ s = st.turn /\ t \in st.hand[P(s)]
  /\ st.riichi[P(s)] = 1 => t = st.tile
  /\ st.declared = s => Ready(st, s, st.hand[P(s)] \ {t})

AfterDiscard(st, s, t) ==
  [st EXCEPT !.hand[P(s)] = @ \ {t}, !.river[P(s)] = Append(@, t), !.shown = @ \cup {t},
             !.phase = "react", !.tile = t, !.oneshot[P(s)] = 0, !.afterKan = FALSE,
             !.hist = Append(@, DiscardEntry(s, t, st.phase = "own" /\ t = st.tile))]

CanDeclare(st, s) == RiichiPossible(st, s)
AfterDeclare(st, s) == [st EXCEPT !.declared = s]

CanAccept(st, s) == st.phase = "react" /\ st.declared = s /\ st.turn = s
AfterAccept(st, s) ==
  [st EXCEPT !.declared = -1, !.riichi[P(s)] = 1, !.oneshot[P(s)] = 1,
             !.double[P(s)] = B(NoCalls(st) /\ st.draws <= 4),
             !.scores[P(s)] = @ - 10, !.pot = @ + 1,
             !.hist = Append(@, RiichiEntry(s))]

Kans(st) == Cardinality({<<s, i>> \in Seats \X (1..4) :
               i <= Len(st.melds[P(s)]) /\ st.melds[P(s)][i].call.type
                  \in {"ankan", "minkan", "kakan"}})
IsKan(c) == c.type \in {"ankan", "minkan", "kakan"}

\* the physical call c by seat s
CanCall(st, s, c) ==
  /\ st.declared = -1
  /\ IsKan(c) => Kans(st) < 4
  /\ IF IsOwnTurn(c) THEN c \in KanOptions(st, s) ELSE c \in CallOptions(st, s)

\* an added kan replaces the pon it extends
MeldsAfter(ms, code, c) ==
  IF c.type # "kakan" THEN Append(ms, [code |-> code, call |-> c])
  ELSE LET i == CHOOSE j \in 1..Len(ms) : ms[j].call.type = "pon" /\ ms[j].call.base = c.base
       IN Append(SubSeq(ms, 1, i-1) \o SubSeq(ms, i+1, Len(ms)), [code |-> code, call |-> c])

AfterCall(st, s, c, code) ==
  [st EXCEPT !.hand[P(s)] = @ \ c.own, !.shown = @ \cup c.own,
             !.melds[P(s)] = MeldsAfter(@, code, c),
             !.oneshot = Four(0), !.closed[P(s)] = IF c.claimed # -1 THEN 0 ELSE @,
             !.turn = s,
             !.tile = IF c.type = "kakan" THEN (CHOOSE t \in c.own : TRUE) ELSE -1,
             !.phase = CASE c.type \in {"chi", "pon"} -> "mustdiscard"
                         [] c.type = "kakan" -> "chankan"
                         [] OTHER -> "kandraw",
             !.owed = @ + B(IsKan(c)), !.afterKan = FALSE,
             !.hist = Append(@, CallEntry(s, c))]

CanReveal(st, t) == st.owed > 0 /\ st.phase # "over" /\ t \in AllTiles \ Taken(st)
AfterReveal(st, t) ==
  [st EXCEPT !.owed = @ - 1, !.dora = Append(@, t), !.shown = @ \cup {t},
             !.hist = Append(@, DoraEntry(t))]

\* several seats may win on the same tile: the round stays in its phase
CanWin(st, s) == WinPossible(st, s)
CanEnd(st) == st.phase # "over"
AfterEnd(st) == [st EXCEPT !.phase = "over"]

\* one event of a log
CanStep(st, e) ==
  CASE e.e = "T" -> CanDraw(st, e.s, e.t)
    [] e.e = "D" -> CanDiscard(st, e.s, e.t)
    [] e.e = "N" -> CanCall(st, e.s, Decode(e.m))
    [] e.e = "R1" -> CanDeclare(st, e.s)
    [] e.e = "R2" -> CanAccept(st, e.s)
    [] e.e = "DORA" -> CanReveal(st, e.t)
    [] e.e = "WIN" -> CanWin(st, e.s)
    [] e.e = "END" -> CanEnd(st)

Step(st, e) ==
  CASE e.e = "T" -> AfterDraw(st, e.s, e.t)
    [] e.e = "D" -> AfterDiscard(st, e.s, e.t)
    [] e.e = "N" -> AfterCall(st, e.s, Decode(e.m), e.m)
    [] e.e = "R1" -> AfterDeclare(st, e.s)
    [] e.e = "R2" -> AfterAccept(st, e.s)
    [] e.e = "DORA" -> AfterReveal(st, e.t)
    [] e.e = "WIN" -> st
    [] e.e = "END" -> AfterEnd(st)

------------------------------------------------------------------------------
(* What a record of a decision of seat s has to show.                        *)

Full == [i \in 1..37 |-> IF i <= 34 THEN 4 ELSE 1]
Minus(v, w) == [i \in 1..37 |-> v[i] - w[i]]

HandVec(st, s) == CountVec(st.hand[P(s)])
\* unseen by s: neither in the own hand nor shown to everybody
UnseenVec(st, s) == Minus(Full, CountVec(st.hand[P(s)] \cup st.shown))
\* outside every hand, discard, called set and indicator
WallVec(st) == Minus(Full, CountVec(Taken(st)))
RiverSet(st, s) == UNION {Indices(t) : t \in Range(st.river[P(s)])}
MeldCodes(st, s) == [i \in 1..Len(st.melds[P(s)]) |-> st.melds[P(s)][i].code]
RoundsLeft(st) == st.ctx.rounds - st.ctx.round
\* scheduled rounds that seat s still deals, the current one included: round r
\* is dealt by seat r % 4
DealsLeft(st, s) == Cardinality({r \in st.ctx.round..(st.ctx.rounds-1) : r % 4 = s})

------------------------------------------------------------------------------
(* Invariants of a round                                                     *)
TypeOK(st) ==
  /\ \A s \in Seats : st.hand[P(s)] \subseteq AllTiles /\ st.riichi[P(s)] \in {0,1}
  /\ st.left \in 0..DrawLimit /\ st.draws = DrawLimit - st.left

\* every tile is in at most one place; claimed tiles are both in a river and a call
InHand(st, s) == st.hand[P(s)]
Exposed(st, s) == UNION {st.melds[P(s)][i].call.own : i \in 1..Len(st.melds[P(s)])}
Conservation(st) ==
  /\ \A s \in Seats : st.hand[P(s)] \cap st.shown = {}
  /\ \A s, q \in Seats : s # q => st.hand[P(s)] \cap st.hand[P(q)] = {}
  /\ Cardinality(Taken(st)) = 4*HandTiles + Len(st.dora) + st.draws
  /\ \A s, q \in Seats : Range(st.river[P(s)]) \cap Exposed(st, q) = {}

\* concealed tiles of a seat: a full hand less three per call, one more to discard
HandSize(st) ==
  \A s \in Seats :
    Cardinality(st.hand[P(s)]) =
      HandTiles - 3*Len(st.melds[P(s)])
      + (IF s = st.turn /\ st.phase \in {"own", "mustdiscard"} THEN 1 ELSE 0)

ScoresKept(st, total) ==
  st.scores[1] + st.scores[2] + st.scores[3] + st.scores[4] + 10*st.pot = total

StatusOK(st) ==
  /\ \A s \in Seats :
       /\ st.oneshot[P(s)] = 1 => st.riichi[P(s)] = 1
       /\ st.double[P(s)] = 1 => st.riichi[P(s)] = 1
       /\ st.riichi[P(s)] = 1 => st.closed[P(s)] = 1
       /\ st.closed[P(s)] = 1 <=> \A i \in 1..Len(st.melds[P(s)]) :
                                      st.melds[P(s)][i].call.type = "ankan"
HistoryBound(st) == Len(st.hist) < 150
UnseenOK(st) ==
  \A s \in Seats : LET u == UnseenVec(st, s) w == WallVec(st) IN
    \A i \in 1..37 : u[i] >= w[i] /\ w[i] >= 0

\* every option can be numbered and no two share a number
OptionsNumbered(st) ==
  \A s \in Seats :
    \A c, d \in CallOptions(st, s) \cup KanOptions(st, s) :
      (ActionNumber(c) = ActionNumber(d)) <=> (ActionChoice(c) = ActionChoice(d))

RoundInvariant(st) ==
  TypeOK(st) /\ Conservation(st) /\ HandSize(st) /\ StatusOK(st) /\ HistoryBound(st)
  /\ UnseenOK(st) /\ OptionsNumbered(st)
=============================================================================
