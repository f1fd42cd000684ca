--------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Encodings of large messages.                                             *)
(*                                                                         *)
(* Codec.tla spells encodings out byte by byte, which stops being practical *)
(* at some ten thousand bytes, while lengths take one more byte at 2^7,     *)
(* 2^14, 2^21 and 2^28.  This specification computes the encoding of        *)
(* messages with one huge leaf arithmetically: an encoding is a run-length  *)
(* sequence of <<byte, count>> pairs.                                       *)
(*                                                                         *)
(* A value is a sequence of levels, each a message within the one before.   *)
(* A level is a record                                                      *)
(*    a, z   small varints in the first and the last field (0 = absent)     *)
(*    k      what else the message holds:                                   *)
(*             "none"                                                       *)
(*             "str" "byt" "ostr"       n bytes c (n > 0 but for "ostr")    *)
(*             "pf" "pd"                n packed fixed32/64, all bytes c    *)
(*             "pv"                     n packed varints of value c < 128   *)
(*             "up"                     n unpacked varints of value 32, the  *)
(*                                      byte that is also their tag         *)
(*             "uf"                     n unpacked fixed32 likewise           *)
(*             "mm"                     n map entries, fixed32 0..n-1 -> true *)
(*             "m8"                     n map entries, eight digits -> -1     *)
(*             "ss"                     two strings, n and 1 bytes c        *)
(*             "mb"                     a map entry 7 -> n bytes c          *)
(*             "mk"                     a map entry n bytes c -> 5          *)
(*             "unk"                    an unknown field 99 of n bytes c    *)
(*             "sub" "rep" "ms" "one"   the message of the next level, in   *)
(*                        a singular field, a list (followed by an empty    *)
(*                        message), a map (under key "k"), a oneof          *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* field numbers
Id == [a |-> 1, str |-> 2, sub |-> 3, up |-> 4, ss |-> 5, uf |-> 6, mm |-> 21, m8 |-> 22, byt |-> 16, rep |-> 17, mb |-> 18, ms |-> 19, mk |-> 20,
       unk |-> 99, one |-> 300, ostr |-> 301, pf |-> 2047, pv |-> 2048, pd |-> 262144, z |-> 536870911]

Min(x, y) == IF x < y THEN x ELSE y

RECURSIVE Varint(_)
Varint(n) == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128>> \o Varint(n \div 128)
\* field numbers times 8 can exceed what TLC can count: split off the low 4 bits
TagOf(id, wt) == LET low == (id % 16) * 8 + wt IN IF id < 16 THEN <<low>> ELSE <<low + 128>> \o Varint(id \div 16)
VSize(n) == Len(Varint(n))
TSize(id) == Len(TagOf(id, 0))


\* Bytes of the payload of a length-delimited leaf
PayLen(m) == CASE m.k = "pf" -> 4 * m.n
               [] m.k = "pd" -> 8 * m.n
               [] OTHER -> m.n

RECURSIVE SizeFrom(_, _)
SizeFrom(v, i) ==
  LET m == v[i]
      L(x) == VSize(x) + x                     \* a length-delimited thing
      F(id, x) == TSize(id) + L(x)
  IN  (IF m.a = 0 THEN 0 ELSE TSize(Id.a) + 1) + (IF m.z = 0 THEN 0 ELSE TSize(Id.z) + 1) +
      (CASE m.k = "none" -> 0
         [] m.k \in {"str", "byt", "ostr", "pf", "pd", "pv", "unk"} -> F(Id[m.k], PayLen(m))
         [] m.k = "up" -> 2 * m.n
         [] m.k = "uf" -> 5 * m.n
         [] m.k = "mm" -> m.n * F(Id.mm, 7)
         [] m.k = "m8" -> m.n * F(Id.m8, 12)
         [] m.k = "ss" -> F(Id.ss, m.n) + F(Id.ss, 1)
         [] m.k = "mb" -> F(Id.mb, 2 + 1 + L(m.n))
         [] m.k = "mk" -> F(Id.mk, 1 + L(m.n) + 2)
         [] m.k \in {"sub", "one"} -> F(Id[m.k], SizeFrom(v, i + 1))
         [] m.k = "rep" -> F(Id.rep, SizeFrom(v, i + 1)) + F(Id.rep, 0)
         [] m.k = "ms" -> F(Id.ms, 3 + 1 + L(SizeFrom(v, i + 1))))

-----------------------------------------------------------------------------
(* Run-length sequences: maximal runs *)

Cat(x, y) ==
  IF x = <<>> THEN y ELSE IF y = <<>> THEN x
  ELSE LET l == x[Len(x)] f == y[1]
       IN  IF l[1] = f[1] THEN SubSeq(x, 1, Len(x) - 1) \o <<<<l[1], l[2] + f[2]>>>> \o SubSeq(y, 2, Len(y)) ELSE x \o y
RECURSIVE Lits(_)
Lits(b) == IF b = <<>> THEN <<>> ELSE Cat(<<<<b[1], 1>>>>, Lits(Tail(b)))
Run(c, n) == IF n = 0 THEN <<>> ELSE <<<<c, n>>>>
RECURSIVE Total(_)
Total(r) == IF r = <<>> THEN 0 ELSE r[1][2] + Total(Tail(r))

RECURSIVE EncFrom(_, _)
EncFrom(v, i) ==
  LET m == v[i]
      Delim(id, len, body) == Cat(Lits(TagOf(id, 2) \o Varint(len)), body)
      head == IF m.a = 0 THEN <<>> ELSE Lits(TagOf(Id.a, 0) \o <<m.a>>)
      last == IF m.z = 0 THEN <<>> ELSE Lits(TagOf(Id.z, 0) \o <<m.z>>)
      body == CASE m.k \in {"none", "unk"} -> <<>>
                [] m.k \in {"str", "byt", "ostr", "pf", "pd", "pv"} -> Delim(Id[m.k], PayLen(m), Run(m.c, PayLen(m)))
                [] m.k = "up" -> Run(32, 2 * m.n)
                [] m.k = "uf" -> Run(53, 5 * m.n)
                [] m.k = "ss" -> Cat(Delim(Id.ss, m.n, Run(m.c, m.n)), Delim(Id.ss, 1, Run(m.c, 1)))
                [] m.k = "mb" -> Delim(Id.mb, 2 + 1 + VSize(m.n) + m.n, Cat(Lits(<<8, 7>>), Delim(2, m.n, Run(m.c, m.n))))
                [] m.k = "mk" -> Delim(Id.mk, 1 + VSize(m.n) + m.n + 2, Cat(Delim(1, m.n, Run(m.c, m.n)), Lits(<<16, 5>>)))
                [] m.k \in {"sub", "one"} -> Delim(Id[m.k], SizeFrom(v, i + 1), EncFrom(v, i + 1))
                [] m.k = "rep" -> Cat(Delim(Id.rep, SizeFrom(v, i + 1), EncFrom(v, i + 1)), Delim(Id.rep, 0, <<>>))
                [] m.k = "ms" -> LET s == SizeFrom(v, i + 1)
                                 IN  Delim(Id.ms, 3 + 1 + VSize(s) + s, Cat(Lits(<<10, 1, 107>>), Delim(2, s, EncFrom(v, i + 1))))
      unk == IF m.k = "unk" THEN Delim(Id.unk, m.n, Run(m.c, m.n)) ELSE <<>>
      \* fields are written in ascending order of their numbers, unknown ones at the end
  IN  Cat(Cat(Cat(head, body), last), unk)

\* Maps are written in any order, so their encodings are no run-length sequences
Spelt(v) == v[Len(v)].k \notin {"mm", "m8"}

SizeOf(v) == SizeFrom(v, 1)
Enc(v) == EncFrom(v, 1)

\* What a message v becomes when w, which has the same kinds on every level, is merged into it
RECURSIVE MergeFrom(_, _, _)
MergeFrom(v, w, i) ==
  LET m == v[i]
      x == w[i]
      k == m.k
      h == [a |-> IF x.a # 0 THEN x.a ELSE m.a, z |-> IF x.z # 0 THEN x.z ELSE m.z, k |-> k, c |-> x.c,
            n |-> CASE k \in {"pf", "pd", "pv", "up", "uf"} -> m.n + x.n
                    [] k \in {"mm", "m8"} -> IF m.n > x.n THEN m.n ELSE x.n
                    [] OTHER -> x.n]
  IN  <<h>> \o (CASE k \in {"sub", "one"} -> MergeFrom(v, w, i + 1)
                  [] OTHER -> SubSeq(w, i + 1, Len(w)))   \* "ms": a later entry replaces the one before
Mergeable(v, w) == Len(v) = Len(w) /\ \A i \in DOMAIN v : v[i].k = w[i].k /\ v[i].k \notin {"rep", "ss", "unk", "none"}
                     /\ (v[i].k \in {"pf", "pd", "pv"} => v[i].c = w[i].c) /\ (v[i].k = "mk" => v[i].c = w[i].c /\ v[i].n = w[i].n)
Merge(v, w) == MergeFrom(v, w, 1)
=============================================================================
