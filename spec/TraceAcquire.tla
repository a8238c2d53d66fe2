---------------------------- MODULE TraceAcquire ----------------------------
(* Runs of the two scripts against Acquire.  Input (JSON, environment        *)
(* variable TRACE): filters [before, after, dirs] and downloads [pages,      *)
(* before, requests [url, status, body], after, err].                        *)
EXTENDS Acquire, TLC, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, todo, store, bad
vars == <<c, i, todo, store, bad>>
NF == Len(D.filters)
ND == Len(D.downloads)
AsSet(s) == {s[j] : j \in 1..Len(s)}
AsStore(s) == [g \in {s[j][1] : j \in 1..Len(s)} |-> s[CHOOSE j \in 1..Len(s) : s[j][1] = g][2]]
Init == c = 0 /\ i = 0 /\ todo = {} /\ store = <<>> /\ bad = {}
Choose == /\ c = 0
          /\ \E x \in 1..(NF + ND) :
               /\ c' = x /\ i' = 1
               /\ IF x <= NF THEN todo' = {} /\ store' = <<>>
                  ELSE /\ todo' = Wanted(D.downloads[x - NF].pages)
                       /\ store' = AsStore(D.downloads[x - NF].before)
          /\ UNCHANGED bad
IsDownload == c > NF
R == D.downloads[c - NF]
\* a filter run is one step
Filter ==
  /\ c # 0 /\ ~IsDownload /\ i = 1 /\ i' = 2
  /\ LET f == D.filters[c]  want == Filtered(AsSet(f.before))  got == AsSet(f.after) IN
     bad' = bad \cup {<<"missing or changed", x.name>> : x \in want \ got}
                \cup {<<"left behind or changed", x.name>> : x \in got \ want}
                \cup {<<"outside", x>> : x \in AsSet(f.outside)}
                \cup {<<"hang", x>> : x \in AsSet(f.err)}
  /\ UNCHANGED <<c, todo, store>>
\* a request: of a link still to be fetched, at its address
Url(w) == R.pages[w[1]].links[w[2]]
Request ==
  /\ IsDownload /\ i <= Len(R.requests) /\ i' = i + 1
  /\ LET q == R.requests[i]  ws == {w \in todo : Address(Url(w)) = q.url} IN
     IF ws = {}
     THEN bad' = bad \cup {<<"request", q.url>>} /\ UNCHANGED <<todo, store>>
     ELSE LET w == CHOOSE w \in ws : TRUE IN
          /\ todo' = todo \ {w}
          /\ store' = Stored(store, Url(w), q.status, q.body)
          /\ UNCHANGED bad
  /\ UNCHANGED c
Close ==
  /\ IsDownload /\ i = Len(R.requests) + 1 /\ i' = i + 1
  /\ LET got == AsStore(R.after) IN
     bad' = bad \cup {<<"not fetched", Url(w)>> : w \in todo}
                \cup {<<"not stored or changed", g>> : g \in {h \in DOMAIN store : h \notin DOMAIN got \/ got[h] # store[h]}}
                \cup {<<"stored", g>> : g \in DOMAIN got \ DOMAIN store}
                \cup {<<"outside", x>> : x \in AsSet(R.outside)}
                \cup {<<"crash", x>> : x \in AsSet(R.err)}
  /\ UNCHANGED <<c, todo, store>>
Next == Choose \/ Filter \/ Request \/ Close
TraceSpec == Init /\ [][Next]_vars
Done == c # 0 /\ i = IF IsDownload THEN Len(R.requests) + 2 ELSE 2
Report == ~Done \/ PrintT(ToJson([verdict |-> c, bad |-> bad]))
=============================================================================
