----------------------------- MODULE MCSymmetry -----------------------------
(* Round knows no seat, suit, end of a suit, dragon or copy by name: in every *)
(* state of the small rounds, renamings that generate all others commute      *)
(* with the transitions, the options and what is observable.                  *)
EXTENDS MCRound, Symmetry
Plain == [turn |-> 0, suit |-> <<0, 1, 2>>, mirror |-> 0, dragon |-> <<0, 1, 2>>,
          copy |-> [k \in 1..34 |-> <<0, 1, 2, 3>>]]
Gens == <<[Plain EXCEPT !.turn = 1],
          [Plain EXCEPT !.suit = <<1, 0, 2>>], [Plain EXCEPT !.suit = <<1, 2, 0>>],
          [Plain EXCEPT !.mirror = 1],
          [Plain EXCEPT !.dragon = <<1, 0, 2>>], [Plain EXCEPT !.dragon = <<1, 2, 0>>],
          [Plain EXCEPT !.copy = [k \in 1..34 |-> IF IsFive(k-1) THEN <<0, 2, 3, 1>> ELSE <<1, 2, 3, 0>>]],
          [Plain EXCEPT !.copy = [k \in 1..34 |-> IF IsFive(k-1) THEN <<0, 2, 1, 3>> ELSE <<1, 0, 2, 3>>]]>>
Tables == [i \in 1..Len(Gens) |-> Table(Gens[i])]
ASSUME \A i \in 1..Len(Gens) : Proper(Gens[i])

\* a log's event renamed: x before it
GEvent(T, x, e) ==
  CASE e.e \in {"T", "D"} -> [e EXCEPT !.s = GSeat(T, @), !.t = IF @ = -1 THEN -1 ELSE T.tile[@]]
    [] e.e = "DORA" -> [e EXCEPT !.t = T.tile[@]]
    [] e.e = "N" -> [e EXCEPT !.s = GSeat(T, @)]
    [] e.e = "END" -> e
    [] OTHER -> [e EXCEPT !.s = GSeat(T, @)]
\* Step and CanStep of a renamed event, whose call is given as such
CanStepG(T, y, e, c) == IF e.e = "N" THEN CanCall(y, GSeat(T, e.s), c) ELSE CanStep(y, GEvent(T, y, e))
StepG(T, y, e, c) == IF e.e = "N" THEN AfterCall(y, GSeat(T, e.s), c, 0) ELSE Step(y, GEvent(T, y, e))
\* states in which the options are looked up need calls with codes
WithCodes(y) == [y EXCEPT !.melds = [p \in 1..4 |-> [i \in 1..Len(y.melds[p]) |->
                                       [code |-> 0, call |-> y.melds[p][i]]]]]
Commutes ==
  \A i \in 1..Len(Tables) : \E T \in {Tables[i]} :
    \E y \in {TLCEval(WithCodes(GState(T, Reps, Bare(st))))} :
      /\ \A s \in Seats :
           /\ {GCall(T, c) : c \in CallOptions(st, s)} = CallOptions(y, GSeat(T, s))
           /\ {GCall(T, c) : c \in KanOptions(st, s)} = KanOptions(y, GSeat(T, s))
           /\ RiichiPossible(st, s) = RiichiPossible(y, GSeat(T, s))
           /\ WinPossible(st, s) = WinPossible(y, GSeat(T, s))
           /\ GVec(T, HandVec(st, s)) = HandVec(y, GSeat(T, s))
           /\ GVec(T, UnseenVec(st, s)) = UnseenVec(y, GSeat(T, s))
           /\ {T.to[k+1] - 1 : k \in RiverSet(st, s)} = RiverSet(y, GSeat(T, s))
      /\ GVec(T, WallVec(st)) = WallVec(y)
      /\ \A e \in Candidates :
           LET c == IF e.e = "N" THEN GCall(T, Decode(e.m)) ELSE 0 IN
           /\ CanStep(st, e) = CanStepG(T, y, e, c)
           /\ CanStep(st, e) =>
                Bare(StepG(T, y, e, c)) = GState(T, Reps, Bare(Step(st, e)))
=============================================================================
