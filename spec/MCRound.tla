------------------------------ MODULE MCRound ------------------------------
(* Exhaustive exploration of small rounds: hands of four tiles (one set and  *)
(* a pair win), a few draws, every order of the tiles of a short wall, every *)
(* discard, call, declaration and revealed indicator.  The deals are chosen  *)
(* so that runs, triplets, quads, red fives and riichi all come up.          *)
EXTENDS Round

CONSTANTS MaxDora,    \* indicators revealed after kans
          UseDeals,   \* which of the deals below
          FreeSeats   \* seats that choose their discard; the others discard what
                      \* they draw unless they have called

\* <<hands, wall, first indicator>>; tiles of kinds 3..6 (4m..7m) and honours
Deals == <<
  \* a quad in the making, reds, a run
  [h |-> <<{12, 16, 20, 110}, {17, 18, 111, 114}, {13, 14, 15, 112}, {21, 25, 113, 116}>>,
   w |-> {19, 24, 115, 117}, d |-> 130],
  \* pons of an honour, added kan against a wait on it
  [h |-> <<{108, 109, 124, 0}, {1, 2, 112, 116}, {4, 8, 9, 120}, {110, 125, 5, 121}>>,
   w |-> {111, 12, 3, 117}, d |-> 131],
  \* everybody ready
  [h |-> <<{12, 13, 14, 108}, {16, 20, 109, 112}, {52, 56, 60, 113}, {88, 89, 92, 96}>>,
   w |-> {15, 24, 53, 110}, d |-> 132],
  \* the dealer (seat 1) can declare at once, and holds three of a kind
  [h |-> <<{12, 56, 64, 108}, {16, 17, 18, 112}, {52, 60, 109, 113}, {88, 89, 92, 96}>>,
   w |-> {19, 24, 53, 110, 114}, d |-> 132],
  \* pairs and runs all around: calls that end the first turn and one-shot
  [h |-> <<{110, 112, 113, 0}, {16, 20, 108, 109}, {24, 25, 28, 114}, {26, 29, 52, 111}>>,
   w |-> {17, 21, 27, 115, 53}, d |-> 132] >>

VARIABLES st, deal, ev
vars == <<st, deal, ev>>

Wall == Deals[deal].w \ Taken(st)
Ev(k, s, t, m) == [e |-> k, s |-> s, t |-> t, m |-> m]

\* the code by which a log shows call c in this state
CodeOf(x, s, c) ==
  IF c.type # "kakan" THEN Code(c)
  ELSE LET i == CHOOSE j \in 1..Len(x.melds[P(s)]) :
                  x.melds[P(s)][j].call.type = "pon" /\ x.melds[P(s)][j].call.base = c.base
       IN x.melds[P(s)][i].code + 8

Candidates ==
  {Ev("T", NextDrawer(st), t, 0) : t \in Wall}
  \cup {Ev("D", st.turn, t, 0) :
        t \in IF st.turn \in FreeSeats \/ st.phase = "mustdiscard" THEN st.hand[P(st.turn)]
              ELSE {st.tile}}
  \cup UNION {{Ev("N", s, 0, CodeOf(st, s, c)) : c \in CallOptions(st, s) \cup KanOptions(st, s)}
              : s \in Seats}
  \cup {Ev("R1", st.turn, 0, 0), Ev("R2", st.turn, 0, 0), Ev("END", 0, 0, 0)}
  \cup (IF Len(st.dora) > MaxDora THEN {} ELSE {Ev("DORA", 0, t, 0) : t \in Wall})
Possible == {e \in Candidates : CanStep(st, e)}

Init ==
  /\ deal \in UseDeals /\ ev = Ev("", 0, 0, 0)
  /\ st = Start([dealer |-> 1, round |-> 1, rounds |-> 4, honba |-> 0],
                Deals[deal].h, Deals[deal].d, <<10, 250, 9, 30>>, 0)
Next ==
  \E e \in Possible : ev' = e /\ st' = Step(st, e) /\ UNCHANGED deal
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

Total == 10 + 250 + 9 + 30
Invariant == ScoresKept(st, Total) /\ (st.phase = "over" \/ RoundInvariant(st))

\* a seat in riichi needs one tile; it is offered nothing that opens its hand
RiichiReady ==
  \A s \in Seats : st.riichi[P(s)] = 1 =>
    /\ CallOptions(st, s) = {} /\ ~RiichiPossible(st, s)
    /\ (st.turn = s /\ st.phase \in {"own", "over"}) \/
       \E k \in Kinds : CompleteWith(st, s, Add(KindVec(st.hand[P(s)]), k))
\* nobody wins on what it has discarded before, and a win needs a reason
WinsSound ==
  \A s \in Seats : WinPossible(st, s) =>
    /\ s # st.turn => Kind(st.tile) \notin OwnDiscardKinds(st, s)
    /\ s = st.turn => st.phase = "own"
    /\ (IF s = st.turn THEN SelfDrawReasons(st, s) ELSE DiscardReasons(st, s)) # {}
\* a kan always gets its replacement tile
KansReplaced == st.phase \in {"kandraw", "chankan"} => st.left > 0
\* nobody acts out of turn
OneActor ==
  \A e \in Possible : e.e \in {"T", "D", "R1", "R2"} =>
    e.s = (IF e.e = "T" THEN NextDrawer(st) ELSE st.turn)
\* what a player sees does not depend on tiles hidden from it: exchanging the
\* concealed tiles of the others and the wall leaves options and view alike
View(x, s) == <<HandVec(x, s), UnseenVec(x, s), [q \in Seats |-> RiverSet(x, q)],
                [q \in Seats |-> MeldCodes(x, q)], x.riichi, x.double, x.oneshot, x.closed,
                x.scores, x.pot, x.left, x.dora, x.hist>>
Mine(x, s) == <<CallOptions(x, s), KanOptions(x, s), RiichiPossible(x, s), WinPossible(x, s)>>
Hidden(s) == UNION {st.hand[P(q)] : q \in Seats \ {s}}
\* another deal of the hidden tiles: every other seat hands its tiles on
Turned(s) ==
  LET o == <<(s+1) % 4, (s+2) % 4, (s+3) % 4>> IN
  [st EXCEPT !.hand = [p \in 1..4 |->
      IF p = P(s) THEN st.hand[p]
      ELSE LET i == CHOOSE i \in 1..3 : P(o[i]) = p IN st.hand[P(o[(i % 3) + 1])]]]
OwnView == \A s \in Seats : View(Turned(s), s) = View(st, s) /\ Mine(Turned(s), s) = Mine(st, s)

------------------------------------------------------------------------------
(* Steps                                                                     *)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* the past is kept
Past ==
  /\ Prefix(st.hist, st'.hist) /\ Len(st'.hist) <= Len(st.hist) + 1
  /\ Prefix(st.dora, st'.dora) /\ st.shown \subseteq st'.shown
  /\ \A p \in 1..4 :
       /\ Prefix(st.river[p], st'.river[p])
       /\ st.riichi[p] <= st'.riichi[p] /\ st.double[p] <= st'.double[p]
       /\ st.closed[p] >= st'.closed[p]
       /\ st'.scores[p] = st.scores[p] - 10*(st'.riichi[p] - st.riichi[p])
  /\ (st'.hist # st.hist) = (ev'.e \in {"D", "N", "R2", "DORA"})
\* only draws use up the wall, one at a time
Draws == st'.left = st.left - B(ev'.e = "T") /\ st'.draws = st.draws + B(ev'.e = "T")
\* tiles move only as the event says
Moves ==
  \A s \in Seats :
    LET a == st.hand[P(s)] b == st'.hand[P(s)] IN
    CASE ev'.e = "T" /\ ev'.s = s -> b = a \cup {ev'.t} /\ ev'.t \notin a
      [] ev'.e = "D" /\ ev'.s = s -> b = a \ {ev'.t} /\ ev'.t \in a
      [] ev'.e = "N" /\ ev'.s = s -> b = a \ Decode(ev'.m).own /\ Decode(ev'.m).own \subseteq a
      [] OTHER -> a = b
\* one-shot ends with a call, or with the discard of the seat
OneShot ==
  \A s \in Seats :
    /\ (st.oneshot[P(s)] = 1 /\ (ev'.e = "N" \/ (ev'.e = "D" /\ ev'.s = s)))
          => st'.oneshot[P(s)] = 0
    /\ (st.oneshot[P(s)] = 0 /\ st'.oneshot[P(s)] = 1) => (ev'.e = "R2" /\ ev'.s = s)
    /\ (st.oneshot[P(s)] = 1 /\ st'.oneshot[P(s)] = 0) =>
          (ev'.e = "N" \/ (ev'.e = "D" /\ ev'.s = s))
\* double riichi: nobody has called and the seat has not discarded before
DoubleRiichi ==
  \A s \in Seats : (st.riichi[P(s)] = 0 /\ st'.riichi[P(s)] = 1) =>
     ((st'.double[P(s)] = 1) <=>
        ((\A q \in Seats : st.melds[P(q)] = <<>>) /\ Len(st.river[P(s)]) = 1))
Steps == [][Past /\ Draws /\ Moves /\ OneShot /\ DoubleRiichi]_vars

\* a round comes to its end
Ends == <>(st.phase = "over")
=============================================================================
