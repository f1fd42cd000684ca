-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The protobuf wire format, as prutal has to speak it.                    *)
(*                                                                         *)
(* Bytes are integers 0..255.  A 32/64-bit scalar is a little-endian tuple *)
(* of 4/8 bytes, because TLC's integers have 32 bits; a bool is <<0>> or   *)
(* <<1>>.  Nothing here knows about messages or schemas.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

IsZero(w) == \A i \in DOMAIN w : w[i] = 0

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>     \* P2[k+1] = 2^k

-----------------------------------------------------------------------------
(* Varints: a sequence of 7-bit groups, least significant first. *)

\* Number of bytes of the varint that starts at b[i], within b[i..hi];
\* 0 when it is truncated or longer than ten bytes.
RECURSIVE VLenFrom(_, _, _, _)
VLenFrom(b, i, hi, k) ==
  IF i + k > hi \/ k > 9 THEN 0
  ELSE IF b[i + k] < 128 THEN k + 1
  ELSE VLenFrom(b, i, hi, k + 1)

\* ... and 0 as well when it is complete but does not fit in 64 bits.
VLen(b, i, hi) ==
  LET n == VLenFrom(b, i, hi, 0)
  IN  IF n = 10 /\ b[i + 9] > 1 THEN 0 ELSE n

Group(b, i, n, k) == IF k < n THEN b[i + k] % 128 ELSE 0

\* The 64-bit value of the n-byte varint at b[i], as eight little-endian bytes.
VWord(b, i, n) ==
  IF n = 1 THEN <<b[i], 0, 0, 0, 0, 0, 0, 0>>
  ELSE [k \in 1..8 |->
     IF k < 8
     THEN (Group(b, i, n, k - 1) \div P2[k]) + ((Group(b, i, n, k) * P2[9 - k]) % 256)
     ELSE Group(b, i, n, 8) + Group(b, i, n, 9) * 128]

\* Drop the zero groups at the top: the minimal form.
RECURSIVE TrimGroups(_)
TrimGroups(g) ==
  IF Len(g) > 1 /\ g[Len(g)] = 0 THEN TrimGroups(SubSeq(g, 1, Len(g) - 1)) ELSE g

GroupsOf(w) ==      \* the ten groups of a 64-bit word
  [j \in 1..10 |->
     CASE j = 1  -> w[1] % 128
       [] j = 9  -> w[8] % 128
       [] j = 10 -> w[8] \div 128
       [] OTHER  -> (w[j - 1] \div P2[10 - j]) + (w[j] % P2[9 - j]) * P2[j]]

\* The minimal varint of a 64-bit word.
EncWord(w) ==
  IF w[1] < 128 /\ (\A i \in 2..8 : w[i] = 0) THEN <<w[1]>>
  ELSE LET g == TrimGroups(GroupsOf(w))
       IN  [j \in 1..Len(g) |-> IF j < Len(g) THEN g[j] + 128 ELSE g[j]]

\* The minimal varint of a natural number below 2^31 (lengths).
RECURSIVE EncNat(_)
EncNat(n) == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128>> \o EncNat(n \div 128)

NatOf3(w) == w[1] + 256 * w[2] + 65536 * w[3]

-----------------------------------------------------------------------------
(* Two's complement and zigzag on little-endian tuples of any length. *)

Not(w)  == [i \in DOMAIN w |-> 255 - w[i]]
Neg(w)  == w[Len(w)] >= 128
Shl1(w) == [i \in DOMAIN w |-> ((w[i] * 2) % 256) + (IF i = 1 THEN 0 ELSE w[i - 1] \div 128)]
Shr1(w) == [i \in DOMAIN w |-> (w[i] \div 2) + (IF i = Len(w) THEN 0 ELSE (w[i + 1] % 2) * 128)]
Inc1(w) == [w EXCEPT ![1] = @ + 1]             \* only used on even words

ZigZag(w)   == IF Neg(w) THEN Inc1(Shl1(Not(w))) ELSE Shl1(w)
UnZigZag(w) == IF w[1] % 2 = 1 THEN Not(Shr1(w)) ELSE Shr1(w)

Low4(w)   == SubSeq(w, 1, 4)
ZeroExt(w) == w \o <<0, 0, 0, 0>>
SignExt(w) == IF Neg(w) THEN w \o <<255, 255, 255, 255>> ELSE w \o <<0, 0, 0, 0>>

-----------------------------------------------------------------------------
(* Tags and records. *)

WVarint == 0
WFixed64 == 1
WLen == 2
WSGroup == 3
WEGroup == 4
WFixed32 == 5

EncTag(id, wt) ==
  LET first == (id % 16) * 8 + wt
      rest  == id \div 16
  IN  IF rest = 0 THEN <<first>> ELSE <<first + 128>> \o EncNat(rest)

\* The tag at b[i].  st is "ok", "err" (malformed), or "any": a field number
\* beyond 2^29-1, which is no legal field number and which decoders may either
\* reject or treat as an unknown field.
Tag(b, i, hi) ==
  LET n == VLen(b, i, hi)
  IN  IF n = 0 THEN [st |-> "err"]
      ELSE LET g(k) == Group(b, i, n, k)
               big  == g(4) > 15 \/ (\E k \in 5..9 : g(k) # 0)
               wt   == g(0) % 8
               id   == g(0) \div 8 + 16 * g(1) + 2048 * g(2) + 262144 * g(3) + 33554432 * g(4)
           IN  IF big THEN [st |-> "any"]
               ELSE IF id = 0 THEN [st |-> "err"]
               ELSE [st |-> "ok", id |-> id, wt |-> wt, n |-> n]

\* Length prefix at b[i]: the payload is b[lo..lo+len-1]; malformed when it does
\* not end at or before hi.
LenPrefix(b, i, hi) ==
  LET n == VLen(b, i, hi)
  IN  IF n = 0 THEN [st |-> "err"]
      ELSE LET w == VWord(b, i, n)
           IN  IF (\E k \in 4..8 : w[k] # 0) \/ NatOf3(w) > hi - (i + n) + 1
               THEN [st |-> "err"]
               ELSE [st |-> "ok", lo |-> i + n, len |-> NatOf3(w)]

\* One record: tag plus value.  vlo..vhi is the value (the payload, for
\* length-delimited ones), next the position behind the record.
RECURSIVE Record(_, _, _), GroupEnd(_, _, _, _)
Record(b, i, hi) ==
  LET t == Tag(b, i, hi)
  IN  IF t.st # "ok" THEN t
      ELSE LET v == i + t.n
               R(lo, h, nx) == [st |-> "ok", id |-> t.id, wt |-> t.wt, pos |-> i,
                                vlo |-> lo, vhi |-> h, next |-> nx]
           IN CASE t.wt = WVarint ->
                     LET n == VLen(b, v, hi)
                     IN  IF n = 0 THEN [st |-> "err"] ELSE R(v, v + n - 1, v + n)
                [] t.wt = WFixed64 -> IF v + 7 > hi THEN [st |-> "err"] ELSE R(v, v + 7, v + 8)
                [] t.wt = WFixed32 -> IF v + 3 > hi THEN [st |-> "err"] ELSE R(v, v + 3, v + 4)
                [] t.wt = WLen ->
                     LET l == LenPrefix(b, v, hi)
                     IN  IF l.st # "ok" THEN l ELSE R(l.lo, l.lo + l.len - 1, l.lo + l.len)
                [] t.wt = WSGroup ->
                     LET e == GroupEnd(b, v, hi, t.id)
                     IN  IF e.st # "ok" THEN e ELSE R(v, e.next - 1, e.next)
                [] OTHER -> [st |-> "err"]      \* a stray end-group, or types 6 and 7

\* Scan records until the end-group tag of field id.
GroupEnd(b, i, hi, id) ==
  LET t == Tag(b, i, hi)
  IN  IF t.st # "ok" THEN t
      ELSE IF t.wt = WEGroup
           THEN IF t.id = id THEN [st |-> "ok", next |-> i + t.n] ELSE [st |-> "err"]
      ELSE LET r == Record(b, i, hi)
           IN  IF r.st # "ok" THEN r ELSE GroupEnd(b, r.next, hi, id)

=============================================================================
