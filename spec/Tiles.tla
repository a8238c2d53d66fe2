------------------------------- MODULE Tiles -------------------------------
(* The 136 physical tiles 0..135 of a four-player set.  Tile t is copy       *)
(* t % 4 of kind t \div 4.  Kinds 0..26 are three suits of nine numbers,     *)
(* 27..33 the honors (four winds, three dragons).  Copy 0 of each five is    *)
(* the red five of its suit.                                                 *)
(*                                                                           *)
(* Observable counts are vectors of 37 entries: one per kind (position       *)
(* kind + 1) followed by one per red five (positions 35, 36, 37).  A red     *)
(* five counts both in the entry of its kind and in its own entry.           *)
EXTENDS Integers, Sequences, FiniteSets

AllTiles == 0..135
Kinds    == 0..33
Seats    == 0..3
RedTiles == {16, 52, 88}

Kind(t)  == t \div 4
Suit(k)  == k \div 9                \* 3 for honors
Num(k)   == k % 9                   \* 0 stands for "one"
IsRed(t) == t \in RedTiles
IsFive(k) == k < 27 /\ k % 9 = 4
Copies(k) == {4*k, 4*k + 1, 4*k + 2, 4*k + 3}

\* position of a seat's entry in a tuple
P(s) == s + 1
Rel(a, b) == (a - b + 8) % 4        \* how many seats a sits after b

B(x) == IF x THEN 1 ELSE 0

\* number of tiles of each kind and of each red five in a set of tiles
CountVec(S) ==
  [i \in 1..37 |->
     IF i <= 34
     THEN B((4*i-4) \in S) + B((4*i-3) \in S) + B((4*i-2) \in S) + B((4*i-1) \in S)
     ELSE B((36*(i-35) + 16) \in S)]

\* number of tiles of each kind only
KindVec(S) ==
  [i \in 1..34 |->
     B((4*i-4) \in S) + B((4*i-3) \in S) + B((4*i-2) \in S) + B((4*i-1) \in S)]

\* the entries that a single tile occupies (0..36)
Indices(t) == IF IsRed(t) THEN {Kind(t), 34 + Suit(Kind(t))} ELSE {Kind(t)}

Yaochu(k) == k >= 27 \/ k % 9 \in {0, 8}
Range(q) == {q[i] : i \in 1..Len(q)}
=============================================================================
