----------------------------- MODULE MCDistance -----------------------------
(* The definition of Distance against what it stands for: the length of a    *)
(* shortest sequence of draws and discards to a complete hand, for all hands *)
(* over a few kinds.  A hand with a tile to discard is at distance -1 if it  *)
(* is complete, otherwise as far as the best hand after a discard; a hand    *)
(* without is one further than the best hand after a draw.                   *)
EXTENDS Distance, TLC
CONSTANTS KindsUsed,     \* kinds a hand may hold
          Sets           \* sets that the hand needs
VARIABLES v, checked
vars == <<v, checked>>
Zero == [i \in 1..34 |-> 0]
Total == 3*Sets + 2
Init == v = Zero /\ checked = FALSE
AddTile == /\ Sum(v) < Total /\ ~checked
           /\ \E k \in KindsUsed : v[k+1] < 4 /\ (\A j \in KindsUsed : j > k => v[j+1] = 0)
                                   /\ v' = Add(v, k)
           /\ UNCHANGED checked
Check == ~checked /\ Sum(v) >= Total - 1 /\ checked' = TRUE /\ UNCHANGED v
Next == AddTile \/ Check
Spec == Init /\ [][Next]_vars

Melds == 4 - Sets
Exact ==
  checked =>
    IF Sum(v) = Total
    THEN IF Complete(v, Melds) THEN HandDistance(v) = -1
         ELSE HandDistance(v) = MinOf({HandDistance(Sub(v, k)) : k \in {j \in Kinds : v[j+1] > 0}})
              /\ HandDistance(v) >= 0
    ELSE HandDistance(v) = 1 + MinOf({HandDistance(Add(v, k)) : k \in {j \in Kinds : v[j+1] < 4}})
=============================================================================
