---------------------------- MODULE MCInfluence ----------------------------
(* From every source step by step along the edges, in any order, with any    *)
(* one group of edges cut: whole, it reaches what Reached says; every cut    *)
(* loses something.                                                          *)
EXTENDS Influence, TLC
CONSTANTS B, P
VARIABLES src, cut, mark
vars == <<src, cut, mark>>
\* groups of edges: those into a node, or from the history or a decoder block
\* into the next step
Groups == {<<"none">>} \cup {<<"into", n>> : n \in {x \in Nodes(B, P) : ~IsSource(x)}}
Gone(e) == cut # <<"none">> /\ e[2] = cut[2]
Init == src = <<>> /\ cut = <<>> /\ mark = {}
Choose == /\ src = <<>>
          /\ src' \in {x \in Nodes(B, P) : IsSource(x)} /\ cut' \in Groups /\ mark' = {src'}
Flow == /\ src # <<>>
        /\ \E e \in Edges(B, P) : e[1] \in mark /\ e[2] \notin mark /\ ~Gone(e) /\ mark' = mark \cup {e[2]}
        /\ UNCHANGED <<src, cut>>
Next == Choose \/ Flow
Spec == Init /\ [][Next]_vars
Got == {k \in Kinds : <<"scores", k>> \in mark}
Stuck == \A e \in Edges(B, P) : e[1] \in mark => e[2] \in mark \/ Gone(e)
OnlyReached == src # <<>> => Got \subseteq Reached(src)
AllReached == (src # <<>> /\ Stuck /\ cut = <<"none">>) => Got = Reached(src)
\* a step that is left out shows in what its own weights reach
CutShows == (src # <<>> /\ Stuck /\ cut # <<"none">> /\ <<src, cut[2]>> \in Edges(B, P)
             /\ Cardinality({e \in Edges(B, P) : e[1] = src}) = 1) => Got # Reached(src)
=============================================================================
