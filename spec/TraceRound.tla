----------------------------- MODULE TraceRound -----------------------------
(* Validation of what the implementation recorded while replaying rounds.    *)
(*                                                                           *)
(* The input is a JSON file (environment variable TRACE) with a sequence of  *)
(* rounds.  Each round has its context, the events of its log and everything *)
(* the implementation recorded for it.  The specification Round is stepped   *)
(* through the events; every record is compared with what Round says has to  *)
(* be visible and possible at that moment.  The verdict is total: a set of   *)
(* <<property, clause, event, record>>, empty if the round conforms.  A      *)
(* round whose events are no behaviour of Round at all gets the verdict      *)
(* INPUT and says nothing about the implementation.                          *)
EXTENDS Round, Json, IOUtils

D == JsonDeserialize(IOEnv.TRACE)
Props == Range(D.props)
On(p) == p \in Props
V == D.vals                 \* interned values of recorded states

VARIABLES r,       \* index of the round
          i,       \* next event
          j,       \* next record
          st,      \* state of Round
          open,    \* record whose options can still be taken (0: none)
          marks,   \* what has been taken of it
          bad,     \* failed clauses
          seen,    \* which situations the round exercised
          stop     \* "", "INPUT", "STRUCTURE", "END"
vars == <<r, i, j, st, open, marks, bad, seen, stop>>

Rd == D.rounds[r]
Ev == Rd.ev[i]

SetOf(q) == Range(q)

TraceInit ==
  /\ r \in 1..Len(D.rounds)
  /\ i = 1 /\ j = 1 /\ open = 0 /\ marks = {} /\ bad = {} /\ seen = {} /\ stop = ""
  /\ st = Start([dealer |-> Rd.ctx.dealer, round |-> Rd.ctx.round,
                 rounds |-> Rd.ctx.rounds, honba |-> Rd.ctx.honba],
                [s \in 1..4 |-> SetOf(Rd.hands[s])], Rd.dora, Rd.scores, Rd.pot)

------------------------------------------------------------------------------
(* Comparison of one recorded state with the state of Round, seen by seat s. *)
\* f: a recorded state, a tuple of indices into V
StateBad(f, x, s) ==
  LET val(n) == V[f[n]]
      hand   == val(1) = HandVec(x, s)
      unseen == val(2) = UnseenVec(x, s)
      wall   == val(3) = WallVec(x)
      river  == \A q \in Seats : SetOf(val(4)[P(q)]) = RiverSet(x, q)
      closed == val(5) = x.closed
      double == val(6) = x.double
      riichi == val(7) = x.riichi
      onesh  == val(8) = x.oneshot
      \* an added kan may take the pon's place or come last
      norm(q, c(_)) == SelectSeq(q, LAMBDA m : Decode(m).type # "kakan")
                       \o SelectSeq(q, LAMBDA m : Decode(m).type = "kakan")
      melds  == \A q \in Seats :
                  norm(val(9)[P(q)], Decode) = norm(MeldCodes(x, q), Decode)
      scores == val(10) = x.scores
      pot    == val(11)[1] = x.pot
      honba  == val(11)[2] = x.ctx.honba
      rounds == val(11)[3] = RoundsLeft(x)
      left   == val(11)[4] = x.left
      left2  == val(11)[5] = x.left
      player == val(11)[6] = s
      dora   == val(12) = x.dora
      dealer == val(13) = [q \in 1..4 |-> B(q = P(x.ctx.dealer))]
      deals  == RoundsLeft(x) < 1 \/ val(14) = [q \in 1..4 |-> DealsLeft(x, q - 1)]
      c(p, cl, ok) == IF ok THEN {} ELSE {<<p, cl>>}
  IN (IF On("C05") THEN c("C05", "hand", hand) \cup c("C05", "melds", melds)
                        \cup c("C05", "player", player) ELSE {})
     \cup (IF On("C06") THEN
             c("C06", "hand", hand) \cup c("C06", "unseen", unseen) \cup c("C06", "wall", wall)
             \cup c("C06", "river", river) \cup c("C06", "closed", closed)
             \cup c("C06", "double", double) \cup c("C06", "riichi", riichi)
             \cup c("C06", "oneshot", onesh) \cup c("C06", "melds", melds)
             \cup c("C06", "scores", scores) \cup c("C06", "pot", pot)
             \cup c("C06", "left", left) \cup c("C06", "dora", dora) ELSE {})
     \cup (IF On("C07") THEN c("C07", "unseen", unseen) \cup c("C07", "wall", wall) ELSE {})
     \cup (IF On("C08") THEN c("C08", "left", left) \cup c("C08", "turns left", left2)
                             \cup c("C08", "dora", dora) ELSE {})
     \cup (IF On("C09") THEN c("C09", "closed", closed) \cup c("C09", "double", double)
                             \cup c("C09", "riichi", riichi) \cup c("C09", "oneshot", onesh)
                             \cup c("C09", "scores", scores) \cup c("C09", "pot", pot) ELSE {})
     \cup (IF On("C20") THEN c("C20", "dealer", dealer) \cup c("C20", "honba", honba)
                             \cup c("C20", "scores", scores) \cup c("C20", "pot", pot)
                             \cup c("C20", "rounds left", rounds)
                             \cup c("C20", "deals left", deals) ELSE {})
     \cup (IF On("C15") THEN c("C15", "view player", player) \cup c("C15", "view hand", hand)
                             \cup c("C15", "view unseen", unseen)
                             \cup c("C15", "view discards", river)
                             \cup c("C15", "view scores", scores) \cup c("C15", "view dealer", dealer)
                             \cup c("C15", "view riichi", riichi /\ double /\ onesh /\ closed)
                             \cup c("C15", "view counters", pot /\ honba /\ left) ELSE {})

------------------------------------------------------------------------------
(* Comparison of recorded options.                                           *)
\* o = <<wins, riichis, calls>>: sequences of <<player, taken>> and
\* <<player, taken, code>>
OptChoices(o) == {Choice(Decode(o[3][k][3])) : k \in 1..Len(o[3])}
Players(o) == {o[1][k][1] : k \in 1..Len(o[1])} \cup {o[2][k][1] : k \in 1..Len(o[2])}
              \cup {o[3][k][1] : k \in 1..Len(o[3])}

OptBad(o, x, s, p, legal, riichi) ==
  LET c(q, cl, ok) == IF ok THEN {} ELSE {<<q, cl>>}
      want == {Choice(l) : l \in legal}
  IN (IF On(p) THEN c(p, "options", OptChoices(o) = want /\ Players(o) \subseteq {s})
                    \cup c(p, "option repeated", Len(o[3]) = Cardinality(OptChoices(o)))
                    \cup c(p, "riichi option",
                           (Len(o[2]) = 1 /\ riichi) \/ (Len(o[2]) = 0 /\ ~riichi)) ELSE {})
     \cup (IF On("C13") THEN LET w == WinPossible(x, s) IN
             c("C13", "win option", (Len(o[1]) = 1 /\ w) \/ (Len(o[1]) = 0 /\ ~w)) ELSE {})

NoOptions(o) == Len(o[1]) = 0 /\ Len(o[2]) = 0 /\ Len(o[3]) = 0

\* taken flags of one option list against the marks <<seat, what>>
FlagsBad(o, s, m) ==
  \/ \E k \in 1..Len(o[1]) : (o[1][k][2] = 1) # (<<s, <<"win">>>> \in m)
  \/ \E k \in 1..Len(o[2]) : (o[2][k][2] = 1) # (<<s, <<"riichi">>>> \in m)
  \/ \E k \in 1..Len(o[3]) : (o[3][k][2] = 1) # (<<s, Choice(Decode(o[3][k][3]))>> \in m)

\* a taken option that was not there at all
Unmarkable(o, s, m) ==
  \E q \in m : q[1] = s /\
     CASE q[2] = <<"win">> -> Len(o[1]) = 0
       [] q[2] = <<"riichi">> -> Len(o[2]) = 0
       [] OTHER -> ~\E k \in 1..Len(o[3]) : Choice(Decode(o[3][k][3])) = q[2]

\* the marks of the record that is closed (0: none) against what was taken
CloseBad(k, m) ==
  IF ~On("C12") THEN {}
  ELSE IF k = 0 THEN (IF m # {} THEN {<<"C12", "missing">>} ELSE {})
  ELSE LET rec == Rd.rec[k]
           o(s) == IF rec.k = "U" THEN rec.o ELSE rec.o[P(s)]
           ss == IF rec.k = "U" THEN {rec.p} ELSE Seats
       IN (IF \E s \in ss : FlagsBad(o(s), s, m) THEN {<<"C12", "flags">>} ELSE {})
          \cup (IF \E s \in ss : Unmarkable(o(s), s, m) THEN {<<"C12", "missing">>} ELSE {})
          \cup (IF \E q \in m : q[1] \notin ss THEN {<<"C12", "missing">>} ELSE {})

------------------------------------------------------------------------------
(* Records expected for an event.                                            *)
C10Pos(rec, x) == IF On("C10") /\ rec.n # Len(x.hist) THEN {<<"C10", "position">>} ELSE {}
PlayerBad(rec, s) == IF rec.p # s /\ On("C05") THEN {<<"C05", "record player">>} ELSE {}

DuringBad(rec, x, s) ==
  PlayerBad(rec, s) \cup C10Pos(rec, x) \cup StateBad(rec.s, x, s)
  \cup OptBad(rec.o, x, s, "C11", IF On("C11") THEN KanOptions(x, s) ELSE {},
              On("C11") /\ RiichiPossible(x, s))

DiscardBad(rec, x, s, t) ==
  PlayerBad(rec, s) \cup C10Pos(rec, x) \cup StateBad(rec.s, x, s)
  \cup (IF rec.t # t /\ (On("C05")) THEN {<<"C05", "discarded tile">>} ELSE {})

PostBad(rec, x, s) ==
  PlayerBad(rec, s) \cup C10Pos(rec, x)
  \cup UNION {StateBad(rec.s[P(q)], x, q) : q \in Seats}
  \cup UNION {OptBad(rec.o[P(q)], x, q, "C04",
                     IF On("C04") THEN CallOptions(x, q) ELSE {}, FALSE) : q \in Seats \ {s}}
  \cup (IF (On("C04") \/ On("C13")) /\ ~NoOptions(rec.o[P(s)])
        THEN {<<IF On("C04") THEN "C04" ELSE "C13", "option for the actor">>} ELSE {})

Kinds4(e) == CASE e.e = "T" -> <<"U">>
               [] e.e = "D" -> <<"D", "P">>
               [] e.e = "N" /\ Decode(e.m).type = "kakan" -> <<"P">>
               [] OTHER -> <<>>

\* what was exercised (evidence; part of no verdict)
WinSeen(x) ==
  IF ~On("C13") THEN {}
  ELSE UNION {
    IF SelfDrawComplete(x, s)
    THEN (LET w == SelfDrawReasons(x, s) IN
          IF w = {} THEN {<<"self-draw without yaku">>} ELSE {<<"self-draw win", w>>})
    ELSE IF DiscardComplete(x, s)
    THEN (LET w == DiscardReasons(x, s) IN
          IF Furiten(x, s) THEN {<<"furiten">>}
          ELSE IF w = {} THEN {<<"discard without yaku">>} ELSE {<<"discard win", w>>})
    ELSE {} : s \in Seats}
CallSeen(x) ==
  (IF ~On("C04") \/ x.phase # "react" THEN {}
   ELSE {<<"call option", c.type, RedUse(c)>> : c \in UNION {CallOptions(x, s) : s \in Seats}})
  \cup (IF ~On("C11") \/ x.phase # "own" THEN {}
        ELSE {<<"kan option", c.type, RedUse(c), x.riichi[P(x.turn)]>>
               : c \in KanOptions(x, x.turn)}
             \cup (IF RiichiPossible(x, x.turn) THEN {<<"riichi option">>} ELSE {}))
EventSeen(e) ==
  {IF e.e = "N" THEN <<"event", Choice(Decode(e.m))[1], RedUse(Decode(e.m))>> ELSE <<"event", e.e>>}

Tag(S) == {<<b[1], b[2], i, j>> : b \in S}
StructureProps == {"C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C15","C20"}

Advance ==
  /\ stop = "" /\ i <= Len(Rd.ev)
  /\ LET e == Ev  ks == Kinds4(e)  nr == Len(ks) IN
     IF ~CanStep(st, e)
     THEN stop' = "INPUT" /\ UNCHANGED <<r, i, j, st, open, marks, bad, seen>>
     ELSE IF Rd.err # "" \/ j + nr - 1 > Len(Rd.rec)
             \/ \E k \in 1..nr : Rd.rec[j + k - 1].k # ks[k]
     THEN /\ stop' = "STRUCTURE"
          /\ bad' = bad \cup Tag({<<p, IF Rd.err # "" THEN "crash" ELSE "records">>
                                    : p \in StructureProps \cap Props})
          /\ UNCHANGED <<r, i, j, st, open, marks, seen>>
     ELSE
     LET x == Step(st, e)
         opensNew == nr > 0
         newOpen == CASE opensNew -> j + nr - 1
                      [] e.e = "N" -> 0
                      [] OTHER -> open
         took == CASE e.e = "R1" -> {<<e.s, <<"riichi">>>>}
                   [] e.e = "WIN" -> {<<e.s, <<"win">>>>}
                   [] e.e = "N" -> {<<e.s, Choice(Decode(e.m))>>}
                   [] OTHER -> {}
         \* a call closes the record it answers
         closing == e.e = "T" \/ e.e = "D" \/ e.e = "N" \/ i = Len(Rd.ev)
         closeBad == IF ~closing \/ (e.e = "D" /\ open = 0) THEN {}
                     ELSE CloseBad(open, marks \cup took)
         recBad == CASE e.e = "T" -> DuringBad(Rd.rec[j], x, e.s)
                     [] e.e = "D" -> DiscardBad(Rd.rec[j], st, e.s, e.t)
                                     \cup PostBad(Rd.rec[j+1], x, e.s)
                     [] e.e = "N" /\ nr = 1 -> PostBad(Rd.rec[j], x, e.s)
                     [] OTHER -> {}
         last == i = Len(Rd.ev)
         endBad ==
           IF ~last THEN {}
           ELSE (IF j + nr - 1 # Len(Rd.rec)
                 THEN {<<p, "extra records">> : p \in StructureProps \cap Props} ELSE {})
                \cup (IF On("C10") /\ Rd.tok # x.hist THEN {<<"C10", "history">>} ELSE {})
                \cup (IF On("C10") /\ Len(x.hist) >= 150 THEN {<<"C10", "length">>} ELSE {})
     IN /\ st' = x /\ i' = i + 1 /\ j' = j + nr /\ open' = newOpen
        /\ marks' = IF closing THEN {} ELSE marks \cup took
        /\ bad' = bad \cup Tag(recBad \cup closeBad \cup endBad)
        /\ stop' = IF last THEN "END" ELSE ""
        /\ seen' = seen \cup EventSeen(e)
                   \cup (IF e.e \in {"T", "D", "N"} THEN WinSeen(x) \cup CallSeen(x) ELSE {})
        /\ UNCHANGED r

Next == Advance
TraceSpec == TraceInit /\ [][Next]_vars

\* evaluated in every state; prints one verdict per round
Report ==
  stop = "" \/ PrintT(ToJson([verdict |-> Rd.id, stop |-> stop, events |-> i - 1,
                              records |-> j - 1, bad |-> bad, seen |-> seen]))
\* the properties of the round itself hold along every validated behaviour
Sound == stop # "" \/ (Conservation(st) /\ HandSize(st) /\ StatusOK(st))
=============================================================================
