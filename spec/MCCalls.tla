------------------------------ MODULE MCCalls ------------------------------
(* Exhaustive check of the call design: every call of a four-player game is  *)
(* one initial state.                                                        *)
EXTENDS Calls, TLC
VARIABLE x     \* a call with the log's code of it

Init ==
  \/ \E t \in AllTiles, r \in 1..3 : \E c \in CallsFrom(t, r) : x = [c |-> c, m |-> Code(c)]
  \/ \E k \in Kinds, s \in 0..3 : x = [c |-> AnkanOf(k), m |-> AnkanCode(AnkanOf(k), s)]
  \/ \E t \in AllTiles, w \in 0..2, r \in 1..3 :
       x = [c |-> KakanOf(t), m |-> KakanCode(KakanOf(t), w, r)]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x

DecodeInverts == Decode(x.m) = x.c /\ ~DenotesNone(x.m) /\ x.m \in 0..65535
OwnDisjoint == x.c.claimed \notin x.c.own
NumberInRange == IF IsOwnTurn(x.c) THEN ActionNumber(x.c) \in 3..(OwnTurnActions-1)
                 ELSE ActionNumber(x.c) \in 2..(ResponseActions-1)

\* The calls one player can be offered at the same point.  (Of the two added
\* kans of a five only the one whose fourth tile is in hand is possible.)
Rivals(c) == CASE c.claimed # -1 -> CallsFrom(c.claimed, c.rel)
               [] c.type = "ankan" -> {AnkanOf(k) : k \in Kinds} \cup {KakanOf(t) : t \in AllTiles}
               [] c.type = "kakan" -> {AnkanOf(k) : k \in Kinds}
                     \cup {KakanOf(t) : t \in AllTiles \ Copies(c.base)} \cup {c}
Shape(c) == <<c.type, c.base, c.pos, c.type # "minkan" /\ RedUse(c) = "own">>
\* no two calls share a number, whichever discard they answer
Responses == UNION {{<<Shape(c), ActionNumber(c)>> : c \in CallsFrom(t, 3)} : t \in AllTiles}
ASSUME /\ Cardinality(Responses) = Cardinality({q[1] : q \in Responses})
       /\ Cardinality(Responses) = Cardinality({q[2] : q \in Responses})
       /\ {q[2] : q \in Responses} = 2..(ResponseActions - 1)

NumbersInjective ==
  \A y \in Rivals(x.c) :
     (ActionNumber(y) = ActionNumber(x.c)) <=> (ActionChoice(y) = ActionChoice(x.c))
=============================================================================
