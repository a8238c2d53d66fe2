---------------------------- MODULE MCCatalogue ----------------------------
(* Any sequence of launches.                                                 *)
EXTENDS Catalogue
CONSTANT Launches
Args == [words : {1, 2, 3}, int : {TRUE, FALSE}, n : {0, 1, 2} , name :
           {"transformer", "transformer_conv", "transformer_conv_large", "other"}]
VARIABLES cks, last, k
vars == <<cks, last, k>>
Init == cks = {} /\ last = {} /\ k = 0
Next == k < Launches /\ k' = k + 1 /\ last' = cks /\ \E a \in Args : cks' = After(cks, a)
Spec == Init /\ [][Next]_vars
\* the checkpoints of a name are numbered without gaps, hold its model and stay
Numbered == \A c \in cks : \A i \in 0..c[2] : <<c[1], i, c[3]>> \in cks
OwnModel == \A c \in cks : c[3] = ModelOf(c[1])
Kept == last \subseteq cks
Apart == \A c, d \in cks : (c[3] = d[3]) => c[1] = d[1]
Distinct == /\ \A e, f \in Entries : (e[1] = f[1] \/ <<e[2], e[3]>> = <<f[2], f[3]>>) => e = f
            /\ \A e, f \in Entries : e[2] = f[2] /\ e[3] < f[3] => e[4] >= f[4]
=============================================================================
