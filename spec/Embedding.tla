----------------------------- MODULE Embedding -----------------------------
(* What a model's embedding of a history entry depends on.                   *)
(*                                                                           *)
(* Entries are numbers; the specification lists the valid ones and says      *)
(* which fields each of them has.  Two entries must have the same embedding  *)
(* exactly if they have the same fields.  An embedding is observed as the    *)
(* number of its class (equal vectors, equal class; 0 is the zero vector).   *)
(*                                                                           *)
(* Input (JSON, environment variable TRACE): models [name, relative, err,    *)
(* obs, first, own]; obs[p] lists <<entry, viewer, class>> observed at position   *)
(* p-1, first[c] = <<position, entry, viewer>> of one member of class c; own  *)
(* lists <<entry, weights>>: which weights (numbered, except those that       *)
(* count for all entries) can change the embedding of the entry.             *)
EXTENDS Calls, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TRACE)

EmptyEntry == 0
Entry(state, type, who, low) == 8192*state + 1024*type + 256*who + low

\* own-turn numbers of calls: 3..70; response numbers of calls: 2..153
ValidEntries ==
  {EmptyEntry}
  \cup {Entry(1, 1, s, 128*f + k) : s \in Seats, f \in 0..1, k \in Kinds}
  \cup {Entry(2, 2, s, n) : s \in Seats, n \in 3..(OwnTurnActions - 1)}
  \cup {Entry(2, 3, s, 2) : s \in Seats}
  \cup {Entry(3, 2, s, n) : s \in Seats, n \in 2..(ResponseActions - 1)}
  \cup {Entry(4, 4, 0, k) : k \in Kinds}

State(e) == e \div 8192
Type(e)  == (e \div 1024) % 8
Who(e)   == (e \div 256) % 4
Low(e)   == e % 256

\* the seat as the viewer sees it: relative to the viewer in the model whose
\* input is ordered by seats, absolute in the others
SeatField(e, viewer, relative) == IF relative THEN (Who(e) - viewer + 4) % 4 ELSE Who(e)

\* fields of an entry at a position; <<>>: none at all
Fields(e, pos, viewer, relative) ==
  LET seat == SeatField(e, viewer, relative) IN
  CASE e = EmptyEntry -> <<>>
    [] State(e) = 1 -> <<"discard", pos, Type(e), seat, Low(e) % 128, Low(e) \div 128>>
    [] State(e) = 2 /\ Type(e) = 3 -> <<"riichi", pos, Type(e), seat>>
    [] State(e) = 2 -> <<"own call", pos, Type(e), seat, Low(e)>>
    [] State(e) = 3 -> <<"call", pos, Type(e), seat, Low(e)>>
    [] State(e) = 4 -> <<"dora", pos, Type(e), Low(e)>>

VARIABLES m, p, bad, done, seen
vars == <<m, p, bad, done, seen>>
M == D.models[m]

\* observed at one position
PositionBad(obs, pos) ==
  LET F(o) == Fields(o[1], pos, o[2], M.relative)
      fs == {F(obs[i]) : i \in 1..Len(obs)}
      cs == {obs[i][3] : i \in 1..Len(obs)}
      pairs == {<<F(obs[i]), obs[i][3]>> : i \in 1..Len(obs)}
      Kind1(f) == IF f = <<>> THEN "empty" ELSE f[1]
      \* kinds of entries with equal fields and different embeddings
      varies == {Kind1(f) : f \in {g \in fs : Cardinality({x \in pairs : x[1] = g}) > 1}}
      wrong == {i \in 1..Len(obs) :
                  obs[i][3] # 0 /\ LET f == M.first[obs[i][3]] IN
                     Fields(f[2], f[1], f[3], M.relative) # F(obs[i])}
  IN (IF Cardinality(pairs) = Cardinality(fs) THEN {}
      ELSE {<<"depends on more than its fields", x>> : x \in varies})
     \cup {<<"does not tell fields apart", Kind1(F(obs[i]))>> : i \in wrong}
     \cup {<<"empty entry contributes", "empty">> : i \in {j \in 1..Len(obs) :
                  obs[j][1] = EmptyEntry /\ obs[j][3] # 0}}
     \cup {<<"contributes nothing", Kind1(F(obs[i]))>> : i \in {j \in 1..Len(obs) :
                  obs[j][1] # EmptyEntry /\ obs[j][3] = 0}}

\* entries of a kind that differ in their tile or call number only have
\* weights that the other does not have
Group(e) == <<State(e), Type(e), IF State(e) = 1 THEN Low(e) \div 128 ELSE 0>>
SetOf(s) == {s[i] : i \in 1..Len(s)}
KindOf(e) == Fields(e, 0, 0, FALSE)[1]
OwnBad ==
  LET w == [i \in 1..Len(M.own) |-> SetOf(M.own[i][2])]
      g == [i \in 1..Len(M.own) |-> Group(M.own[i][1])]
  IN {<<"no weights of its own", KindOf(M.own[i][1])>> :
        i \in {i \in 1..Len(M.own) : KindOf(M.own[i][1]) # "riichi"
                /\ \E j \in 1..Len(M.own) : j # i /\ g[j] = g[i] /\ w[i] \subseteq w[j]}}

InputOK(obs) == \A i \in 1..Len(obs) : obs[i][1] \in ValidEntries /\ obs[i][2] \in Seats

Init == m = 0 /\ p = 0 /\ bad = {} /\ done = FALSE /\ seen = 0
Choose == /\ m = 0
          /\ \E x \in 1..Len(D.models), y \in 1..151 : m' = x /\ p' = y
          /\ UNCHANGED <<bad, done, seen>>
Observe ==
  /\ m # 0 /\ ~done /\ done' = TRUE
  /\ IF M.err # "" THEN bad' = {<<"crash", M.err>>} /\ seen' = 0
     ELSE IF p = 151 THEN bad' = OwnBad /\ seen' = Len(M.own)
     ELSE /\ Assert(InputOK(M.obs[p]), "entries observed are not valid ones")
          /\ bad' = PositionBad(M.obs[p], p - 1)
          /\ seen' = Len(M.obs[p])
  /\ UNCHANGED <<m, p>>
Next == Choose \/ Observe
EmbeddingSpec == Init /\ [][Next]_vars

\* the observations cover all valid entries and all positions
Covered ==
  \A x \in 1..Len(D.models) : D.models[x].err # "" \/
    LET all == UNION {{D.models[x].obs[y][i][1] : i \in 1..Len(D.models[x].obs[y])} : y \in Range(D.full)}
    IN all = ValidEntries
ASSUME Covered

Report ==
  ~done \/ PrintT(ToJson([model |-> M.name, pos |-> p - 1, bad |-> bad, seen |-> seen]))
=============================================================================
