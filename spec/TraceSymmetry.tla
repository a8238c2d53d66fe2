---------------------------- MODULE TraceSymmetry ----------------------------
(* Records of a log and of the same log renamed, against each other.         *)
(*                                                                           *)
(* Input (JSON, environment variable TRACE): vals, and pairs [g, a, b]: a    *)
(* renaming and two rounds [ctx, hands, dora, scores, pot, ev, rec, tok,     *)
(* err], the second of which is to be the first renamed; if it is not, the   *)
(* verdict is INPUT.  Records are those of TraceRound.                       *)
EXTENDS Symmetry, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACE)
V == D.vals
VARIABLES reps, n, k, T, bad, stop
vars == <<reps, n, k, T, bad, stop>>
X == D.pairs[n]
SetOf(q) == Range(q)
c(what, ok) == IF ok THEN {} ELSE {<<what, k>>}

SameEvent(e, f) ==
  /\ e.e = f.e
  /\ (e.e # "END" /\ e.e # "DORA" => f.s = GSeat(T, e.s))
  /\ (e.e \in {"T", "D", "DORA"} => f.t = T.tile[e.t])
  /\ (e.e = "N" => Decode(f.m) = GCall(T, Decode(e.m)))
Renamed ==
  /\ X.b.ctx = GCtx(T, X.a.ctx) /\ X.b.dora = T.tile[X.a.dora] /\ X.b.pot = X.a.pot
  /\ X.b.scores = Turn(T, X.a.scores, Same)
  /\ [p \in 1..4 |-> SetOf(X.b.hands[p])] = Turn(T, X.a.hands, LAMBDA h : GTiles(T, SetOf(h)))
  /\ Len(X.a.ev) = Len(X.b.ev) /\ \A i \in 1..Len(X.a.ev) : SameEvent(X.a.ev[i], X.b.ev[i])

\* recorded states f and h = f renamed
Turned(q, r, f(_)) == r = Turn(T, q, f)
StateBad(f, h) ==
  LET a(i) == V[f[i]]  b(i) == V[h[i]] IN
  UNION {c("tile counts", b(i) = GVec(T, a(i))) : i \in 1..3}
  \cup c("discards", [p \in 1..4 |-> SetOf(b(4)[p])] =
                     Turn(T, a(4), LAMBDA q : {T.to[i + 1] - 1 : i \in SetOf(q)}))
  \cup UNION {c("status", Turned(a(i), b(i), Same)) : i \in 5..8}
  \cup c("calls", [p \in 1..4 |-> [i \in 1..Len(b(9)[p]) |-> Decode(b(9)[p][i])]] =
                  Turn(T, a(9), LAMBDA q : [i \in 1..Len(q) |-> GCall(T, Decode(q[i]))]))
  \cup c("scores", Turned(a(10), b(10), Same))
  \cup c("counters", \A i \in {1, 2, 4, 5} : a(11)[i] = b(11)[i])
  \cup c("seat", b(11)[6] = GSeat(T, a(11)[6]))
  \cup c("indicators", b(12) = GSeq(T, a(12)))
  \cup c("dealer", Turned(a(13), b(13), Same))

\* options: wins and riichis <<player, taken>>, calls <<player, taken, code>>
Few(q) == {<<GSeat(T, x[1]), x[2]>> : x \in SetOf(q)}
Some(q) == {<<GSeat(T, x[1]), x[2], GChoice(T, Decode(x[3]))>> : x \in SetOf(q)}
OptBad(o, r) ==
  c("win offered", SetOf(r[1]) = Few(o[1]) /\ Len(r[1]) = Len(o[1]))
  \cup c("riichi offered", SetOf(r[2]) = Few(o[2]) /\ Len(r[2]) = Len(o[2]))
  \cup c("calls offered", {<<x[1], x[2], Choice(Decode(x[3]))>> : x \in SetOf(r[3])} = Some(o[3])
                          /\ Len(r[3]) = Len(o[3]))
From(p) == P((p + 3 - T.turn) % 4)
RecBad(a, b) ==
  c("kind of record", a.k = b.k)
  \cup c("player", b.p = GSeat(T, a.p)) \cup c("position in the history", a.n = b.n)
  \cup (IF a.k # b.k \/ a.k \notin {"U", "D", "P"} THEN {}
        ELSE IF a.k = "P"
        THEN UNION {StateBad(a.s[From(p)], b.s[p]) \cup OptBad(a.o[From(p)], b.o[p]) : p \in 1..4}
        ELSE StateBad(a.s, b.s) \cup (IF a.k = "U" THEN OptBad(a.o, b.o) ELSE {})
             \cup (IF a.k = "D" THEN c("tile thrown", b.t = T.tile[a.t]) ELSE {}))

Init == reps = TLCEval([own |-> TLCEval(RepOwn), response |-> TLCEval(RepResponse)]) /\ n = 0 /\ k = 0 /\ T = <<>> /\ bad = {} /\ stop = ""
Choose == n = 0 /\ n' \in 1..Len(D.pairs) /\ UNCHANGED <<reps, k, T, bad, stop>>
Begin == /\ n # 0 /\ k = 0 /\ k' = 1
         /\ IF ~Proper(X.g) THEN stop' = "INPUT" /\ UNCHANGED <<T, bad>>
            ELSE T' = TLCEval(Table(X.g)) /\ UNCHANGED <<bad, stop>>
         /\ UNCHANGED <<reps, n>>
Look == /\ k > 0 /\ stop = "" /\ k' = k + 1
        /\ IF k = 1 /\ ~Renamed THEN stop' = "INPUT" /\ UNCHANGED bad
           ELSE IF X.a.err # "" \/ X.b.err # ""
           THEN stop' = "END" /\ bad' = c("crash", X.a.err = X.b.err)
           ELSE IF k <= Len(X.a.rec) /\ k <= Len(X.b.rec)
           THEN /\ bad' = bad \cup RecBad(X.a.rec[k], X.b.rec[k])
                /\ stop' = IF bad' = {} THEN "" ELSE "END"
           ELSE /\ stop' = "END"
                /\ bad' = bad \cup c("number of records", Len(X.a.rec) = Len(X.b.rec))
                     \cup c("history", X.b.tok = [i \in 1..Len(X.a.tok) |-> GEntry(T, reps, X.a.tok[i])])
        /\ UNCHANGED <<reps, n, T>>
Next == Choose \/ Begin \/ Look
TraceSpec == Init /\ [][Next]_vars
Report == stop = "" \/ PrintT(ToJson([verdict |-> n, stop |-> stop, records |-> k - 1, bad |-> bad]))
=============================================================================
