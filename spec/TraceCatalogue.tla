--------------------------- MODULE TraceCatalogue ---------------------------
(* Launches of the implementation against Catalogue.                         *)
(*                                                                           *)
(* Input (JSON, environment variable TRACE):                                 *)
(*   models [family, blocks, size, shape]: parameters of the models built    *)
(*     directly, and a number for the shapes of all of them                  *)
(*   sessions [games, launches]: games of each year; launches one after      *)
(*     another in the same folder:                                           *)
(*       [words, name, int, n]    arguments                                  *)
(*       err       how it failed, "" if it did not                           *)
(*       models    shape numbers of the models that were given games         *)
(*       batches   sizes of the training batches in order                    *)
(*       most      largest validation batch                                  *)
(*       cks       checkpoints afterwards: name, iteration, shape number     *)
EXTENDS Catalogue, TLC, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, cks, bad
vars == <<c, i, cks, bad>>
S == D.sessions[c]
L == S.launches[i]
ShapeOf(m) == (CHOOSE x \in 1..Len(D.models) : D.models[x].family = m[1] /\ D.models[x].blocks = m[2])
Shape(m) == D.models[ShapeOf(m)].shape
AsSet(s) == {s[j] : j \in 1..Len(s)}

Init == c = 0 /\ i = 1 /\ cks = {} /\ bad = {}
Choose == c = 0 /\ c' \in 1..(Len(D.sessions) + 1) /\ UNCHANGED <<i, cks, bad>>
Check(what, ok) == IF ok THEN {} ELSE {<<what, i>>}
Launch ==
  /\ c # 0 /\ c <= Len(D.sessions) /\ i <= Len(S.launches)
  /\ LET ok == Accepted(L.args)
         want == After(cks, L.args)
     IN /\ bad' = bad \cup
             (IF ok
              THEN Check("launch failed", L.err = "")
                   \cup Check("other model trained",
                              AsSet(L.models) = (IF Iterations(L.args) = 0 THEN {}
                                                 ELSE {Shape(ModelOf(L.args.name))}))
                   \cup Check("batch sizes",
                              /\ L.batches = AllSizes(S.games, BatchOf(L.args.name),
                                                      Start(cks, L.args.name), Iterations(L.args))
                              /\ L.most <= BatchOf(L.args.name))
              ELSE Check("trained although refused", L.models = <<>> /\ L.batches = <<>>))
             \cup Check("checkpoints",
                        AsSet(L.cks) = {<<k[1], k[2], Shape(k[3])>> : k \in want})
        /\ cks' = want
  /\ i' = i + 1 /\ UNCHANGED c
\* the models themselves: told apart by shape, and as many blocks as they should have
Catalog ==
  /\ c = Len(D.sessions) + 1 /\ i = 1 /\ i' = 2
  /\ LET M == AsSet(D.models)
         named == {m \in M : \E n \in Names : ModelOf(n) = <<m.family, m.blocks>>}
     IN bad' = Check("models alike", \A m, n \in named : m.shape = n.shape => m = n)
               \cup Check("model missing", Cardinality(named) = Cardinality(Names))
               \cup Check("blocks",
                          \A m, n, o \in M :
                            (m.family = n.family /\ n.family = o.family
                             /\ n.blocks = m.blocks + 1 /\ o.blocks = n.blocks + 1)
                            => n.size > m.size /\ o.size - n.size = n.size - m.size)
  /\ UNCHANGED <<c, cks>>
Next == Choose \/ Launch \/ Catalog
TraceSpec == Init /\ [][Next]_vars
Done == c # 0 /\ i = (IF c > Len(D.sessions) THEN 2 ELSE Len(S.launches) + 1)
Report == ~Done \/ PrintT(ToJson([verdict |-> c, bad |-> bad]))
=============================================================================
