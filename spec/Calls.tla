------------------------------- MODULE Calls -------------------------------
(* The five kinds of call, the code that game logs use for them, the choice  *)
(* a player makes with one, and the action number of that choice.            *)
EXTENDS Tiles

CallTypes == {"chi", "pon", "kakan", "minkan", "ankan"}

\* sequence of the elements of a set of integers in increasing order
RECURSIVE SortedSeq(_)
SortedSeq(S) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
       IN  <<m>> \o SortedSeq(S \ {m})

(* A call: own = tiles that leave the concealed hand; claimed = the claimed  *)
(* tile (-1: none); rel = how many seats after the caller the tile's source  *)
(* sits (0: nobody); pos = place of the claimed tile in a run.               *)
Call(type, base, pos, own, claimed, rel) ==
  [type |-> type, base |-> base, pos |-> pos, own |-> own,
   claimed |-> claimed, rel |-> rel]

CallTiles(c) == IF c.claimed = -1 THEN c.own ELSE c.own \cup {c.claimed}

------------------------------------------------------------------------------
\* All calls by which tile t can be claimed from the seat r places after.
ChiFrom(t, r) ==
  LET k == Kind(t) IN
  IF r # 3 \/ k >= 27 THEN {}
  ELSE UNION { LET ks == {k - pos, k - pos + 1, k - pos + 2} \ {k}
                   lo == CHOOSE i \in ks : \A j \in ks : i <= j
                   hi == CHOOSE i \in ks : \A j \in ks : i >= j
               IN {Call("chi", k - pos, pos, {4*lo+i, 4*hi+j}, t, 3) : i \in 0..3, j \in 0..3}
               : pos \in {q \in 0..2 : Num(k) - q \in 0..6} }

PonFrom(t, r) ==
  {Call("pon", Kind(t), 0, Copies(Kind(t)) \ {t, u}, t, r) : u \in Copies(Kind(t)) \ {t}}

MinkanFrom(t, r) == {Call("minkan", Kind(t), 0, Copies(Kind(t)) \ {t}, t, r)}

CallsFrom(t, r) == ChiFrom(t, r) \cup PonFrom(t, r) \cup MinkanFrom(t, r)

AnkanOf(k) == Call("ankan", k, 0, Copies(k), -1, 0)
KakanOf(t) == Call("kakan", Kind(t), 0, {t}, -1, 0)

------------------------------------------------------------------------------
\* The log's code of each call.
Rank(t, S) == Cardinality({x \in S : x < t})

ChiCode(c) ==
  LET cp(i) == CHOOSE j \in 0..3 : (4*(c.base+i) + j) \in CallTiles(c)
  IN  3 + 4 + 8*cp(0) + 32*cp(1) + 128*cp(2)
      + 1024*(3*(7*Suit(c.base) + Num(c.base)) + c.pos)

PonCode(c) ==
  LET unused == CHOOSE j \in 0..3 : (4*c.base + j) \notin CallTiles(c)
  IN  c.rel + 8 + 32*unused + 512*(3*c.base + Rank(c.claimed, CallTiles(c)))

\* an added kan is recorded with the pon it extends: which of its three tiles
\* had been claimed, and from whom
KakanCode(c, which, r) == r + 16 + 32*((CHOOSE t \in c.own : TRUE) % 4) + 512*(3*c.base + which)

MinkanCode(c) == c.rel + 256*c.claimed
AnkanCode(c, shown) == 256*(4*c.base + shown)

Code(c) == CASE c.type = "chi" -> ChiCode(c)
             [] c.type = "pon" -> PonCode(c)
             [] c.type = "minkan" -> MinkanCode(c)
             [] c.type = "ankan" -> AnkanCode(c, 0)

------------------------------------------------------------------------------
\* Decoding.  Bit(m, b) is bit b of m.
Bit(m, p2) == (m \div p2) % 2

\* a code that denotes none of the five kinds: the extra-tile declaration of
\* three-player games
DenotesNone(m) == Bit(m,4) = 0 /\ Bit(m,8) = 0 /\ Bit(m,16) = 0 /\ Bit(m,32) = 1

Decode(m) ==
  IF Bit(m, 4) = 1 THEN
    LET pat == (m \div 1024) % 64   pos == pat % 3
        base == 9*((pat \div 3) \div 7) + ((pat \div 3) % 7)
        t(i) == 4*(base+i) + ((CASE i = 0 -> m \div 8 [] i = 1 -> m \div 32
                                 [] i = 2 -> m \div 128) % 4)
    IN Call("chi", base, pos, {t(i) : i \in {0,1,2} \ {pos}}, t(pos), m % 4)
  ELSE IF Bit(m, 8) = 1 THEN
    LET pat == (m \div 512) % 128   k == pat \div 3
        ts == SortedSeq(Copies(k) \ {4*k + ((m \div 32) % 4)})
        cl == ts[(pat % 3) + 1]
    IN Call("pon", k, 0, Range(ts) \ {cl}, cl, m % 4)
  ELSE IF Bit(m, 16) = 1 THEN
    LET k == ((m \div 512) % 128) \div 3
    IN Call("kakan", k, 0, {4*k + ((m \div 32) % 4)}, -1, 0)
  ELSE
    LET t == (m \div 256) % 256   k == t \div 4
    IN IF m % 4 = 0 THEN Call("ankan", k, 0, Copies(k), -1, 0)
       ELSE Call("minkan", k, 0, Copies(k) \ {t}, t, m % 4)

------------------------------------------------------------------------------
(* The choice behind a call: what a player decides, irrespective of which    *)
(* copies of equal tiles are involved.                                       *)
RedUse(c) == IF IsRed(c.claimed) THEN "claimed"
             ELSE IF \E t \in c.own : IsRed(t) THEN "own" ELSE "none"

Choice(c) == <<c.type, c.base, c.pos, c.rel, RedUse(c)>>

\* what an action number stands for: the choice without the source seat
ActionChoice(c) == <<c.type, c.base, c.pos, RedUse(c)>>

OwnTurnActions == 71
ResponseActions == 154

\* action numbers on one's own turn: 0 pass, 1 win, 2 riichi
OwnTurnNumber(c) == CASE c.type = "ankan" -> 3 + c.base
                      [] c.type = "kakan" -> 37 + c.base

\* action numbers in response to another player: 0 pass, 1 win
ResponseNumber(c) ==
  LET su == Suit(c.base)  n == Num(c.base) IN
  CASE c.type = "chi" ->
         IF RedUse(c) = "own"
         THEN 65 + 6*su + 2*(n - 2) + c.pos - B(n + c.pos > 4)
         ELSE 2 + 21*su + 3*n + c.pos
    [] c.type = "pon" ->
         IF c.base >= 27 THEN 113 + n
         ELSE IF RedUse(c) = "own" THEN 110 + su ELSE 83 + c.base
    [] c.type = "minkan" -> 120 + c.base

IsOwnTurn(c) == c.type \in {"ankan", "kakan"}
ActionNumber(c) == IF IsOwnTurn(c) THEN OwnTurnNumber(c) ELSE ResponseNumber(c)
=============================================================================
