----------------------------- MODULE MCAcquire -----------------------------
(* The download with every order of links and every outcome of a request,    *)
(* for all small folders.                                                    *)
EXTENDS Acquire
CONSTANTS Urls, Statuses, Bodies, MaxLinks
VARIABLES pages, todo, store, history, phase
vars == <<pages, todo, store, history, phase>>
Names == <<"a.html", "b.html", "c.txt">>
Empty == [g \in {} |-> ""]
Init == /\ pages = [p \in 1..3 |-> [name |-> Names[p], links |-> <<>>]]
        /\ todo = {} /\ store = Empty /\ history = <<>> /\ phase = "write"
Link == /\ phase = "write"
        /\ \E p \in 1..3, u \in Urls :
             /\ Len(pages[1].links) + Len(pages[2].links) + Len(pages[3].links) < MaxLinks
             /\ pages' = [pages EXCEPT ![p].links = Append(@, u)]
        /\ UNCHANGED <<todo, store, history, phase>>
Begin == phase = "write" /\ phase' = "fetch" /\ todo' = Wanted(pages)
         /\ UNCHANGED <<pages, store, history>>
Fetch == /\ phase = "fetch"
         /\ \E w \in todo, s \in Statuses, b \in Bodies :
              LET u == pages[w[1]].links[w[2]] IN
              /\ todo' = todo \ {w}
              /\ store' = Stored(store, u, s, b)
              /\ history' = Append(history, <<Address(u), s, b>>)
         /\ UNCHANGED <<pages, phase>>
Next == Link \/ Begin \/ Fetch
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin) /\ WF_vars(Fetch)

\* every stored content came with status 200, from the address of its game, and is the last such
OnlySuccesses ==
  \A g \in DOMAIN store :
     \E n \in 1..Len(history) :
        /\ history[n] = <<Address(LinkHead \o g), 200, store[g]>>
        /\ \A m \in (n + 1)..Len(history) : history[m][1] = history[n][1] => history[m][2] # 200
NothingLost ==
  \A n \in 1..Len(history) : history[n][2] = 200 =>
     \E g \in DOMAIN store : Address(LinkHead \o g) = history[n][1]
OncePerLink ==
  (phase = "fetch" /\ todo = {}) =>
     \A u \in Urls :
        Cardinality({n \in 1..Len(history) : history[n][1] = Address(u) /\ IsGame(u)})
        = IF IsGame(u)
          THEN Cardinality({<<p, i>> \in (1..2) \X (1..MaxLinks) :
                              i <= Len(pages[p].links) /\ pages[p].links[i] = u})
          ELSE 0
Ends == <>(phase = "fetch" /\ todo = {})
=============================================================================
