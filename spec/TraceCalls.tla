----------------------------- MODULE TraceCalls -----------------------------
(* What the implementation makes of call codes, against module Calls.        *)
(*                                                                           *)
(* Input (JSON, environment variable TRACE):                                 *)
(*   codes[m+1] = [rejected, types (names of the kinds it claims to be),     *)
(*                 own, claimed, rel, canon, number]                         *)
(*   built = sequence of [choice: <<type, base, pos, rel, red>>, canon, err] *)
(*           call forms built from a description                             *)
(* One state per tile; each evaluates all codes of calls of that tile.       *)
EXTENDS Calls, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TRACE)
Rec(m) == D.codes[m + 1]

VARIABLE g      \* -1: global conditions; 0..135: a tile; 136..: blocks of codes
Blocks == 16
Init == g = -2
Next == g = -2 /\ g' \in -1..(135 + Blocks)
Spec == Init /\ [][Next]_g

\* the codes by which a log can show the calls of tile t
Coded(t) ==
  LET claims == UNION {CallsFrom(t, r) : r \in 1..3} IN
  {<<c, Code(c)>> : c \in claims}
  \cup {<<KakanOf(t), KakanCode(KakanOf(t), w, r)>> : w \in 0..2, r \in 1..3}
  \cup {<<AnkanOf(Kind(t)), AnkanCode(AnkanOf(Kind(t)), t % 4)>>}

b(p, cl, x, ok) == IF ok THEN {} ELSE {<<p, cl, x>>}

DecodeBad(t) ==
  UNION { LET c == q[1]  m == q[2]  x == Rec(m) IN
      IF x.rejected THEN {<<"C01", "rejected", m>>}
      ELSE b("C01", "kind", m, x.types = <<c.type>>)
           \cup b("C01", "tiles from hand", m, Range(x.own) = c.own /\ Len(x.own) = Cardinality(c.own))
           \cup b("C01", "claimed tile", m, x.claimed = c.claimed)
           \cup b("C01", "source", m, c.claimed = -1 \/ x.rel = c.rel)
           \cup b("C03", "range", m,
                  IF IsOwnTurn(c) THEN x.number \in 3..(OwnTurnActions - 1)
                  ELSE x.number \in 2..(ResponseActions - 1))
    : q \in Coded(t) }

\* options that one player can have at once: calls on one discard
ClashBad(t) ==
  UNION { LET cs == CallsFrom(t, r)
              ns == {<<Choice(c), Rec(Code(c)).number>> : c \in cs}
          IN b("C03", "shared number", t,
               Cardinality({x[2] : x \in ns}) = Cardinality({x[1] : x \in ns}))
    : r \in 1..3 }

\* codes that denote no call
NoneBad(k) ==
  UNION {b("C01", "accepted", m, ~DenotesNone(m) \/ Rec(m).rejected)
          : m \in (4096*k)..(4096*k + 4095)}

\* what a response is, whichever discard it answers: which tiles it takes from
\* where, and whether it spends a red five of the hand (an open kan takes all)
Shape(c) == <<c.type, c.base, c.pos, c.type # "minkan" /\ RedUse(c) = "own">>
AllCoded == UNION {Coded(t) : t \in AllTiles}
GlobalBad ==
  LET known == {q \in AllCoded : ~Rec(q[2]).rejected}
      canon == {<<Choice(q[1]), Rec(q[2]).canon>> : q \in known}
      nums  == {<<ActionChoice(q[1]), Rec(q[2]).number>> : q \in known}
      owns  == {<<q[1].type, q[1].base, Rec(q[2]).number>> : q \in {x \in known : IsOwnTurn(x[1])}}
      reps  == {<<Shape(q[1]), Rec(q[2]).number>> : q \in {x \in known : ~IsOwnTurn(x[1])}}
      Of(S, i) == {x[i] : x \in S}
      canonOf == [ch \in Of(canon, 1) |-> {x[2] : x \in {y \in canon : y[1] = ch}}]
  IN b("C02", "several forms of one choice", 0, Cardinality(canon) = Cardinality(Of(canon, 1)))
     \cup b("C02", "one form for several choices", 0, Cardinality(canon) = Cardinality(Of(canon, 2)))
     \cup b("C03", "number depends on more than the choice", 0,
            Cardinality(nums) = Cardinality(Of(nums, 1)))
     \cup b("C03", "shared own-turn number", 0,
            Cardinality(owns) = Cardinality(Of(owns, 3))
            /\ Cardinality({<<x[1], x[2]>> : x \in owns}) = Cardinality(owns))
     \cup b("C03", "shared response number", 0,
            Cardinality(reps) = Cardinality(Of(reps, 2)))
     \cup UNION {b("C02", "built form", D.built[i].choice,
                   D.built[i].err = "" /\ D.built[i].choice \in DOMAIN canonOf
                   /\ canonOf[D.built[i].choice] = {D.built[i].canon})
                 : i \in 1..Len(D.built)}
     \* every choice has been built
     \cup b("C02", "descriptions", 0, Of(canon, 1) \subseteq {D.built[i].choice : i \in 1..Len(D.built)})

Bad == CASE g = -2 -> {}
         [] g = -1 -> GlobalBad
         [] g \in 0..135 -> DecodeBad(g) \cup ClashBad(g)
         [] OTHER -> NoneBad(g - 136)

\* always true; prints what is wrong
Report == LET x == Bad IN x = {} \/ PrintT(ToJson([g |-> g, bad |-> x]))
=============================================================================
