-------------------------------- MODULE Logs --------------------------------
(* Which logs are processed, and how a log falls into rounds.                *)
(*                                                                           *)
(* A log is a game-type word and a stream of elements.  An element is        *)
(* <<"INIT", key>> (a round with that content starts), <<"PLAY", key>> (the  *)
(* events of the round up to the next other element), or one of the records  *)
(* that are not play: <<"UN", 0>>, <<"SHUFFLE", 0>>, <<"TAIKYOKU", 0>>,      *)
(* <<"GO", 0>>, and <<"BYE", seat>> when somebody quits.                     *)
(*                                                                           *)
(* Reading is a state machine over the stream.  Input (JSON, environment     *)
(* variable TRACE): cases [id, type, stream, result], result = [kind, data]  *)
(* with kind "ok", "invalid" or "error", data one record number per round,   *)
(* and reference[key] the record number of that round in a plain log.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TRACE)

Bit(w, p2) == (w \div p2) % 2
\* bits of the type word: 1 against people, 2 no red fives, 4 no open tanyao,
\* 8 east and south, 16 three players
Supported(w) == Bit(w, 1) = 1 /\ Bit(w, 2) = 0 /\ Bit(w, 4) = 0 /\ Bit(w, 16) = 0
NotPlay == {"UN", "SHUFFLE", "TAIKYOKU", "GO"}

VARIABLES c, i, rounds, quit, done
vars == <<c, i, rounds, quit, done>>
C == D.cases[c]

Init == c = 0 /\ i = 1 /\ rounds = <<>> /\ quit = FALSE /\ done = FALSE
Choose == c = 0 /\ (\E x \in 1..Len(D.cases) : c' = x) /\ UNCHANGED <<i, rounds, quit, done>>

Read ==
  /\ c # 0 /\ i <= Len(C.stream)
  /\ LET e == C.stream[i] IN
     /\ i' = i + 1
     /\ rounds' = IF e[1] = "INIT" THEN Append(rounds, e[2]) ELSE rounds
     /\ quit' = (quit \/ e[1] = "BYE")
     /\ UNCHANGED <<c, done>>
Finish == /\ c # 0 /\ i = Len(C.stream) + 1 /\ ~done /\ done' = TRUE
          /\ UNCHANGED <<c, i, rounds, quit>>
Next == Choose \/ Read \/ Finish
LogsSpec == Init /\ [][Next]_vars

Accepted == Supported(C.type) /\ ~quit

Bad ==
  IF ~Accepted
  THEN CASE C.result.kind = "invalid" -> {}
         [] C.result.kind = "ok" -> {<<"unsupported log processed">>}
         [] OTHER -> {<<"unsupported log not rejected as invalid">>}
  ELSE CASE C.result.kind = "ok" ->
              IF Len(C.result.data) # Len(rounds) THEN {<<"number of rounds">>}
              ELSE IF \E k \in 1..Len(rounds) : C.result.data[k] # D.reference[rounds[k]]
              THEN {<<"rounds processed">>} ELSE {}
         [] C.result.kind = "invalid" -> {<<"supported log rejected">>}
         [] OTHER -> {<<"supported log fails">>}

\* the stream is a possible log: play belongs to the round that was started
InputOK ==
  (i > 1 /\ c # 0) => LET e == C.stream[i - 1] IN
     e[1] = "PLAY" => (rounds # <<>> /\ rounds[Len(rounds)] = e[2])

Report == ~done \/ PrintT(ToJson([verdict |-> C.id, bad |-> Bad, accepted |-> Accepted,
                                  rounds |-> Len(rounds)]))
=============================================================================
