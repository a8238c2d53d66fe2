----------------------------- MODULE Influence -----------------------------
(* What can reach the scores of a decision: the networks as a graph of what  *)
(* is computed from what.                                                    *)
(*                                                                           *)
(* Nodes are sequences: <<"state">>, <<"entry", i>> (history), <<"enc", b,   *)
(* i>> (position i after b encoder blocks), <<"dec", b>> (decision after b   *)
(* decoder blocks), <<"scores", k>>; weights <<"w", ...>> of each of them.   *)
EXTENDS Integers, Sequences, FiniteSets

Kinds == {"during", "discard", "post"}
Nodes(B, P) ==
  {<<"state">>} \cup {<<"entry", i>> : i \in 1..P}
  \cup {<<"enc", b, i>> : b \in 0..B, i \in 1..P} \cup {<<"dec", b>> : b \in 0..B}
  \cup {<<"scores", k>> : k \in Kinds}
  \cup {<<"w", "entry">>, <<"w", "state">>}
  \cup {<<"w", "enc", b>> : b \in 1..B} \cup {<<"w", "dec", b>> : b \in 1..B}
  \cup {<<"w", "head", k>> : k \in Kinds}
Edges(B, P) ==
  {<< <<"entry", i>>, <<"enc", 0, i>> >> : i \in 1..P}
  \cup {<< <<"w", "entry">>, <<"enc", 0, i>> >> : i \in 1..P}
  \* attention to every position
  \cup {<< <<"enc", b - 1, j>>, <<"enc", b, i>> >> : b \in 1..B, i \in 1..P, j \in 1..P}
  \cup {<< <<"w", "enc", b>>, <<"enc", b, i>> >> : b \in 1..B, i \in 1..P}
  \cup {<< <<"state">>, <<"dec", 0>> >>, << <<"w", "state">>, <<"dec", 0>> >>}
  \cup {<< <<"dec", b - 1>>, <<"dec", b>> >> : b \in 1..B}
  \cup {<< <<"enc", B, i>>, <<"dec", b>> >> : b \in 1..B, i \in 1..P}
  \cup {<< <<"w", "dec", b>>, <<"dec", b>> >> : b \in 1..B}
  \cup {<< <<"dec", B>>, <<"scores", k>> >> : k \in Kinds}
  \cup {<< <<"w", "head", k>>, <<"scores", k>> >> : k \in Kinds}

\* the kinds of decision whose scores a source can reach
IsSource(x) == x[1] \in {"state", "entry", "w"}
Reached(x) == IF x[1] = "w" /\ x[2] = "head" THEN {x[3]} ELSE Kinds

\* cells of the parts of the state, by family: planes of the tiles, what is
\* known of each seat, counters
Cells(family) ==
  << IF family = "plain" THEN 3 * 37 ELSE IF family = "ordered" THEN 6 * 37 * 4 ELSE 3 * 37 * 4,
     7 * 4, 4 >>
Positions == 150
=============================================================================
