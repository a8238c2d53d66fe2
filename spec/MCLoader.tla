------------------------------ MODULE MCLoader ------------------------------
(* Epochs of the loader, exhaustively for small directories.                 *)
EXTENDS Loader
CONSTANTS Games, MaxEpochs
VARIABLES valid, size, rest, epoch, given, batches, ended
vars == <<valid, size, rest, epoch, given, batches, ended>>

Init == /\ valid \in SUBSET Games /\ size \in 1..3 /\ rest = Fresh(valid) /\ epoch = 1
        /\ given = <<>> /\ batches = <<>> /\ ended = FALSE
Deliver == \E b \in SUBSET rest :
             /\ CanDeliver(rest, b, size) /\ ~ended
             /\ rest' = AfterDeliver(rest, b) /\ given' = Append(given, b)
             /\ UNCHANGED <<valid, size, epoch, batches, ended>>
Stop == /\ CanStop(rest) /\ ~ended /\ ended' = TRUE
        /\ UNCHANGED <<valid, size, rest, epoch, given, batches>>
Reset == /\ epoch < MaxEpochs /\ epoch' = epoch + 1 /\ rest' = Fresh(valid) /\ given' = <<>>
         /\ ended' = FALSE /\ UNCHANGED <<valid, size, batches>>
Next == Deliver \/ Stop \/ Reset
Spec == Init /\ [][Next]_vars /\ WF_vars(Deliver \/ Stop)

Union(q) == UNION {q[i] : i \in 1..Len(q)}
\* each game at most once per epoch, and all of them at its end
OncePerEpoch == \A i, j \in 1..Len(given) : i # j => given[i] \cap given[j] = {}
AllDelivered == ended => Union(given) = valid
Sizes == \A i \in 1..Len(given) : given[i] # {} /\
           (i < Len(given) => Cardinality(given[i]) = size) /\ Cardinality(given[i]) <= size
EpochEnds == <>(ended \/ epoch = MaxEpochs)
=============================================================================
