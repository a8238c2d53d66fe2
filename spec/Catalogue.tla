----------------------------- MODULE Catalogue -----------------------------
(* The models that can be trained, by name, and what launching a training    *)
(* run does to the checkpoints.  A checkpoint is <<name, iteration, model>>; *)
(* a model is <<family, blocks>>.                                            *)
EXTENDS Integers, Sequences, FiniteSets

\* name, family, encoder and decoder blocks, games in a batch
Entries == {
  <<"transformer", "plain", 1, 5>>,
  <<"transformer_conv", "conv", 1, 5>>,
  <<"transformer_conv_large", "large", 2, 2>>,
  <<"transformer_conv_large_3", "large", 3, 2>>,
  <<"transformer_conv_ordered", "ordered", 1, 4>>,
  <<"transformer_conv_ordered_large_2", "ordered", 2, 2>>,
  <<"transformer_conv_ordered_large_3", "ordered", 3, 2>>,
  <<"transformer_conv_ordered_large_4", "ordered", 4, 1>>,
  <<"transformer_conv_ordered_large_5", "ordered", 5, 1>> }
Names == {e[1] : e \in Entries}
EntryOf(n) == CHOOSE e \in Entries : e[1] = n
ModelOf(n) == <<EntryOf(n)[2], EntryOf(n)[3]>>
BatchOf(n) == EntryOf(n)[4]

\* arguments of a launch: number of words, first word, whether the second is an
\* integer, and which
Accepted(a) == a.words = 2 /\ a.name \in Names /\ a.int
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Start(cks, n) == LET its == {c[2] : c \in {d \in cks : d[1] = n}}
                 IN IF its = {} THEN 0 ELSE Max(its) + 1
Iterations(a) == IF a.n > 0 THEN a.n ELSE 0
NewCheckpoints(cks, a) ==
  {<<a.name, i, ModelOf(a.name)>> : i \in Start(cks, a.name)..(Start(cks, a.name) + Iterations(a) - 1)}
After(cks, a) == IF Accepted(a) THEN cks \cup NewCheckpoints(cks, a) ELSE cks

\* sizes of the batches that cover g games, b at a time
RECURSIVE Sizes(_, _)
Sizes(g, b) == IF g = 0 THEN <<>> ELSE IF g <= b THEN <<g>> ELSE <<b>> \o Sizes(g - b, b)
\* of the training batches of a launch; games: how many each year has
RECURSIVE AllSizes(_, _, _, _)
AllSizes(games, b, i, n) ==
  IF n = 0 THEN <<>>
  ELSE Sizes(games[(i % Len(games)) + 1], b) \o AllSizes(games, b, i + 1, n - 1)
=============================================================================
