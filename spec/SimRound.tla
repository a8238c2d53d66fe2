------------------------------ MODULE SimRound ------------------------------
(* Generation of behaviours of Round for replay in the implementation: TLC   *)
(* simulates rounds from given deals and walls, choosing discards, calls,    *)
(* declarations, wins and the moments at which indicators are revealed.      *)
(*                                                                           *)
(* Input (JSON, environment variable TRACE): a sequence of deals [ctx, hands,*)
(* dora, scores, pot, wall (tiles in the order they are drawn), next (further *)
(* indicators), free (seats that choose their discards)].                    *)
EXTENDS Round, Json, IOUtils

D == JsonDeserialize(IOEnv.TRACE)

VARIABLES d,       \* the deal
          st, evs, \* state and the events so far
          won      \* seats that have won
vars == <<d, st, evs, won>>
Rd == D[d]
Ev(k, s, t, m) == [e |-> k, s |-> s, t |-> t, m |-> m]

Init ==
  /\ d \in 1..Len(D) /\ evs = <<>> /\ won = {}
  /\ st = Start([dealer |-> Rd.ctx.dealer, round |-> Rd.ctx.round,
                 rounds |-> Rd.ctx.rounds, honba |-> Rd.ctx.honba],
                [s \in 1..4 |-> Range(Rd.hands[s])], Rd.dora, Rd.scores, Rd.pot)

CodeOf(s, c) ==
  IF c.type # "kakan" THEN Code(c)
  ELSE LET i == CHOOSE j \in 1..Len(st.melds[P(s)]) :
                  st.melds[P(s)][j].call.type = "pon" /\ st.melds[P(s)][j].call.base = c.base
       IN st.melds[P(s)][i].code + 8

Draws == IF st.draws < Len(Rd.wall) THEN {Ev("T", NextDrawer(st), Rd.wall[st.draws + 1], 0)} ELSE {}
Discards ==
  {Ev("D", st.turn, t, 0) :
     t \in IF st.phase = "mustdiscard" \/ st.declared = st.turn
              \/ \E i \in 1..Len(Rd.free) : Rd.free[i] = st.turn
           THEN st.hand[P(st.turn)] ELSE {st.tile}}
CallEvents ==
  UNION {{Ev("N", s, 0, CodeOf(s, c)) : c \in CallOptions(st, s) \cup KanOptions(st, s)} : s \in Seats}
Indicators == IF st.owed > 0 /\ Len(st.dora) <= Len(Rd.next)
              THEN {Ev("DORA", 0, Rd.next[Len(st.dora)], 0)} ELSE {}
Wins == {Ev("WIN", s, st.tile, 0) : s \in {q \in Seats \ won : WinPossible(st, q)}}

\* a round ends with its wins, with the wall, or aborted now and then
Ending == won # {} \/ (st.left = 0 /\ st.phase = "react") \/ st.left % 31 = 1
          \/ (st.draws = Len(Rd.wall) /\ st.phase = "react")
Candidates ==
  IF won # {} THEN Wins
  ELSE Draws \cup Discards \cup CallEvents \cup Indicators \cup Wins
       \cup {Ev("R1", st.turn, 0, 0), Ev("R2", st.turn, 0, 0)}

Next ==
  \/ \E e \in Candidates :
       /\ CanStep(st, e) /\ st' = Step(st, e) /\ evs' = Append(evs, e)
       /\ won' = IF e.e = "WIN" THEN won \cup {e.s} ELSE won
       /\ UNCHANGED d
  \/ /\ st.phase # "over" /\ Ending
     /\ st' = AfterEnd(st) /\ evs' = Append(evs, Ev("END", 0, 0, 0)) /\ UNCHANGED <<d, won>>
Spec == Init /\ [][Next]_vars

Report == st.phase # "over" \/ PrintT(ToJson([deal |-> d, ev |-> evs]))
Sound == st.phase = "over" \/ (Conservation(st) /\ HandSize(st) /\ StatusOK(st) /\ HistoryBound(st))
=============================================================================
