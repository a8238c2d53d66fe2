------------------------------ MODULE Acquire ------------------------------
(* Getting logs: the filter over the raw archive folder, and the download of *)
(* the games linked from index pages.  Names, addresses and contents are     *)
(* strings; contents stand for byte sequences.                               *)
EXTENDS Integers, Sequences, FiniteSets

Prefix(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
Suffix(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
From(s, n) == SubSeq(s, n, Len(s))

(* ---- the folder filter ---------------------------------------------------*)
\* a file: [name, body, packed]; packed: "no", "gzip" (body is what was packed), "broken"
IsIndex(f) == Prefix(f.name, "scc")
Unpacked(f) ==
  IF Suffix(f.name, ".gz") /\ f.packed = "gzip"
  THEN [name |-> SubSeq(f.name, 1, Len(f.name) - 3), body |-> f.body, packed |-> "no"]
  ELSE f
IsPacked(f) == Unpacked(f) # f
\* an index that is there both packed and unpacked (an earlier run may have been
\* interrupted while it wrote) is what was packed
Filtered(folder) ==
  LET kept == {f \in folder : IsIndex(f)}
      new  == {Unpacked(f) : f \in {g \in kept : IsPacked(g)}}
  IN new \cup {f \in kept : ~IsPacked(f) /\ \A g \in new : g.name # f.name}

\* the filter as steps that may be interrupted: a file is removed; the unpacked
\* file is begun, completed, and only then the packed one removed
Part(f) == [Unpacked(f) EXCEPT !.body = "part"]
Others(folder, name) == {g \in folder : g.name # name}
CanDrop(folder, f)   == f \in folder /\ ~IsIndex(f)
CanOpen(folder, f)   == f \in folder /\ IsIndex(f) /\ IsPacked(f)
Opened(folder, f)    == Others(folder, Unpacked(f).name) \cup {Part(f)}
Completed(folder, f) == Others(folder, Unpacked(f).name) \cup {Unpacked(f)}

(* ---- the download --------------------------------------------------------*)
LinkHead == "http://tenhou.net/0/?log="
IsGame(url) == Prefix(url, LinkHead)
Gid(url) == From(url, Len(LinkHead) + 1)
Address(url) == "https://tenhou.net/0/log/?" \o Gid(url)
IsPage(name) == Suffix(name, ".html")

\* all fetches that the pages of a folder ask for: <<page, position>>
Wanted(pages) == {<<p, i>> \in (1..Len(pages)) \X (1..20) :
                    /\ i <= Len(pages[p].links) /\ IsPage(pages[p].name)
                    /\ IsGame(pages[p].links[i])}
\* what a response does to the store (gid -> content); status 0: no answer at all
Stored(store, url, status, body) ==
  IF status = 200
  THEN [g \in DOMAIN store \cup {Gid(url)} |-> IF g = Gid(url) THEN body ELSE store[g]]
  ELSE store
=============================================================================
