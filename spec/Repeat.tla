------------------------------- MODULE Repeat -------------------------------
(* Processing has no memory.  A session is a sequence of steps: a log is     *)
(* processed (its game type and, for each round, the content of the round    *)
(* and the number of what was recorded for it), or what was returned earlier *)
(* is overwritten by the caller.  The specification has no state besides the *)
(* function from (content, type) to what is recorded: the first observation  *)
(* fixes it, every later one has to agree, whatever happened before.         *)
(*                                                                           *)
(* Input (JSON, environment variable TRACE): sessions, each a sequence of    *)
(* steps [op, type, keys, data, err].                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TRACE)
Steps == D.steps        \* of all sessions, in order
VARIABLES i, fixed, bad, seen
vars == <<i, fixed, bad, seen>>

Init == i = 1 /\ fixed = <<>> /\ bad = {} /\ seen = [processed |-> 0, overwritten |-> 0, repeated |-> 0]

Key(s, k) == <<s.keys[k], s.type>>
Known(key) == key \in DOMAIN fixed

Process(s) ==
  IF s.err # "" THEN /\ bad' = bad \cup {<<"crash", i>>} /\ UNCHANGED fixed
                     /\ seen' = [seen EXCEPT !.processed = @ + 1]
  ELSE IF Len(s.data) # Len(s.keys)
  THEN /\ bad' = bad \cup {<<"number of rounds", i>>} /\ UNCHANGED fixed
       /\ seen' = [seen EXCEPT !.processed = @ + 1]
  ELSE LET n == Len(s.keys)
           conflict == {k \in 1..n : \/ Known(Key(s, k)) /\ fixed[Key(s, k)] # s.data[k]
                                     \/ \E l \in 1..n : Key(s, l) = Key(s, k) /\ s.data[l] # s.data[k]}
           new == {Key(s, k) : k \in 1..n} \ DOMAIN fixed
           val(key) == s.data[CHOOSE k \in 1..n : Key(s, k) = key]
       IN /\ bad' = bad \cup {<<"records differ", i>> : k \in conflict}
          /\ fixed' = [key \in DOMAIN fixed \cup new |-> IF key \in new THEN val(key) ELSE fixed[key]]
          /\ seen' = [seen EXCEPT !.processed = @ + 1,
                                  !.repeated = @ + Cardinality({k \in 1..n : Known(Key(s, k))})]

Step ==
  /\ i <= Len(Steps) /\ i' = i + 1
  /\ CASE Steps[i].op = "process" -> Process(Steps[i])
       [] Steps[i].op = "overwrite" ->
            UNCHANGED <<fixed, bad>> /\ seen' = [seen EXCEPT !.overwritten = @ + 1]
Next == Step
RepeatSpec == Init /\ [][Next]_vars
Report == i # Len(Steps) + 1 \/
          PrintT(ToJson([verdict |-> "all", bad |-> bad, seen |-> seen, keys |-> Cardinality(DOMAIN fixed)]))
=============================================================================
