-------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* What Marshal, Size and Unmarshal mean, over an abstract schema.          *)
(*                                                                         *)
(* A schema S is a sequence of message types.  S[t].f is the sequence of    *)
(* fields in ascending field-number order; S[t].unk says whether the Go     *)
(* struct keeps unknown fields.  A field is a record                        *)
(*    id    field number                                                    *)
(*    c     cardinality:                                                    *)
(*            "imp"  singular, no presence (proto3 scalar)                  *)
(*            "exp"  singular with presence (pointer), also messages        *)
(*            "emb"  non-pointer message (gogoproto nullable=false)         *)
(*            "rep"  repeated, one record per element                       *)
(*            "pak"  repeated, packed                                       *)
(*            "map"  map                                                    *)
(*            "one"  oneof member; o numbers the oneof                      *)
(*    k     kind of the (element/map value): "int32" ... "bytes", "msg"     *)
(*    m     message type index when k = "msg"                               *)
(*    kk    map key kind                                                    *)
(*    o     oneof number, 0 if none                                         *)
(* Enums are int32.                                                         *)
(*                                                                         *)
(* A message value is [f |-> sequence of field values, u |-> unknown bytes]:*)
(*    "imp"           the scalar (a byte tuple; <<>> for "" )               *)
(*    "exp" "one"     <<>> when unset, <<v>> when set                       *)
(*    "emb"           <<m>>                                                 *)
(*    "rep" "pak"     the sequence of elements                              *)
(*    "map"           <<key, value>> pairs in ascending key order           *)
(***************************************************************************)
EXTENDS Wire

CONSTANT MaxDepth           \* nesting limit: messages on a path, root included

-----------------------------------------------------------------------------
(* Kinds *)

Width(k) == CASE k \in {"int32", "uint32", "sint32", "fixed32", "sfixed32", "float"} -> 4
              [] k \in {"int64", "uint64", "sint64", "fixed64", "sfixed64", "double"} -> 8
              [] k = "bool" -> 1
              [] OTHER -> 0

WireType(k) == CASE k \in {"int32", "uint32", "sint32", "int64", "uint64", "sint64", "bool"} -> WVarint
                 [] k \in {"fixed32", "sfixed32", "float"} -> WFixed32
                 [] k \in {"fixed64", "sfixed64", "double"} -> WFixed64
                 [] OTHER -> WLen

Packable(k) == WireType(k) # WLen

ZeroOf(k) == CASE Width(k) = 4 -> <<0, 0, 0, 0>>
               [] Width(k) = 8 -> <<0, 0, 0, 0, 0, 0, 0, 0>>
               [] k = "bool"   -> <<0>>
               [] OTHER        -> <<>>

RECURSIVE EmptyMsg(_, _)
EmptyMsg(S, t) ==
  [f |-> [i \in DOMAIN S[t].f |->
            CASE S[t].f[i].c = "imp" -> ZeroOf(S[t].f[i].k)
              [] S[t].f[i].c = "emb" -> <<EmptyMsg(S, S[t].f[i].m)>>
              [] OTHER -> <<>>],
   u |-> <<>>]

Default(S, k, m) == IF k = "msg" THEN EmptyMsg(S, m) ELSE ZeroOf(k)

\* Messages on the longest path below (and including) this one.
RECURSIVE Depth(_, _, _)
MaxOf(s) == IF s = {} THEN 0 ELSE CHOOSE x \in s : \A y \in s : y <= x
Depth(S, t, m) ==
  LET F == S[t].f
      Sub(i) == IF F[i].k # "msg" THEN {}
                ELSE IF F[i].c = "map" THEN {Depth(S, F[i].m, m.f[i][j][2]) : j \in DOMAIN m.f[i]}
                ELSE {Depth(S, F[i].m, m.f[i][j]) : j \in DOMAIN m.f[i]}
  IN  1 + MaxOf(UNION {Sub(i) : i \in DOMAIN F})

-----------------------------------------------------------------------------
(* Encoding.  The only freedom is the order of the entries of a map (and    *)
(* whether an all-default non-pointer message is written at all), so        *)
(* "is an encoding of" is a matcher that walks the bytes.  A matcher takes  *)
(* the position of the next byte and returns the position behind what it    *)
(* matched, 0 when the bytes are no encoding.                               *)

\* Encoding of a scalar, string or bytes value, without tag.
EncVal(k, v) ==
  CASE k \in {"uint64", "int64"}  -> EncWord(v)
    [] k = "int32"                -> EncWord(SignExt(v))
    [] k = "uint32"               -> EncWord(ZeroExt(v))
    [] k = "sint32"               -> EncWord(ZeroExt(ZigZag(v)))
    [] k = "sint64"               -> EncWord(ZigZag(v))
    [] k \in {"string", "bytes"}  -> EncNat(Len(v)) \o v
    [] OTHER                      -> v          \* fixed width, bool

\* b[p..] starts with x, within hi
Lit(b, p, hi, x) ==
  IF p = 0 \/ p + Len(x) - 1 > hi THEN 0
  ELSE IF SubSeq(b, p, p + Len(x) - 1) = x THEN p + Len(x) ELSE 0

\* A minimal length prefix at p, whose payload must lie within hi.
\* Returns [lo, hi] of the payload, lo = 0 on failure.
LenAt(b, p, hi) ==
  IF p = 0 \/ p > hi THEN [lo |-> 0]
  ELSE LET l == LenPrefix(b, p, hi)
       IN  IF l.st # "ok" THEN [lo |-> 0]
           ELSE IF SubSeq(b, p, l.lo - 1) # EncNat(l.len) THEN [lo |-> 0]
           ELSE [lo |-> l.lo, hi |-> l.lo + l.len - 1]

RECURSIVE MatchMsg(_, _, _, _, _, _), MatchFields(_, _, _, _, _, _, _),
          MatchRep(_, _, _, _, _, _, _), MatchMap(_, _, _, _, _, _, _), MatchPak(_, _, _, _, _, _)

\* A value with its tag.
MatchOne(S, id, k, mt, v, b, p, hi) ==
  LET q == Lit(b, p, hi, EncTag(id, WireType(k)))
  IN  IF q = 0 THEN 0
      ELSE IF k # "msg" THEN Lit(b, q, hi, EncVal(k, v))
      ELSE LET l == LenAt(b, q, hi)
           IN  IF l.lo = 0 THEN 0
               ELSE IF MatchMsg(S, mt, v, b, l.lo, l.hi) = l.hi + 1 THEN l.hi + 1 ELSE 0

MatchRep(S, f, vs, j, b, p, hi) ==
  IF p = 0 \/ j > Len(vs) THEN p
  ELSE MatchRep(S, f, vs, j + 1, b, MatchOne(S, f.id, f.k, f.m, vs[j], b, p, hi), hi)

MatchPak(k, vs, j, b, p, hi) ==
  IF p = 0 \/ j > Len(vs) THEN p
  ELSE MatchPak(k, vs, j + 1, b, Lit(b, p, hi, EncVal(k, vs[j])), hi)

\* Every entry exactly once, in any order.  Keys are distinct and their encodings
\* prefix-free, so the key at p says which entry it must be: no backtracking.
MatchMap(S, f, es, todo, b, p, hi) ==
  IF p = 0 \/ todo = {} THEN p
  ELSE LET q == Lit(b, p, hi, EncTag(f.id, WLen))
           l == LenAt(b, q, hi)
           c == {j \in todo : MatchOne(S, 1, f.kk, 0, es[j][1], b, l.lo, l.hi) # 0}
       IN  IF q = 0 \/ l.lo = 0 \/ c = {} THEN 0
           ELSE LET j == CHOOSE j \in c : TRUE
                    r == MatchOne(S, 1, f.kk, 0, es[j][1], b, l.lo, l.hi)
                    x == MatchOne(S, 2, f.k, f.m, es[j][2], b, r, l.hi)
                IN  IF x # l.hi + 1 THEN 0
                    ELSE MatchMap(S, f, es, todo \ {j}, b, x, hi)

MatchField(S, f, v, b, p, hi) ==
  CASE f.c = "imp" -> IF IsZero(v) /\ (Width(f.k) > 0 \/ v = <<>>) THEN p
                      ELSE MatchOne(S, f.id, f.k, f.m, v, b, p, hi)
    [] f.c \in {"exp", "one"} -> IF v = <<>> THEN p ELSE MatchOne(S, f.id, f.k, f.m, v[1], b, p, hi)
    [] f.c = "emb" -> LET q == MatchOne(S, f.id, f.k, f.m, v[1], b, p, hi)
                      IN  IF q = 0 /\ v[1] = EmptyMsg(S, f.m) THEN p ELSE q
    [] f.c = "rep" -> MatchRep(S, f, v, 1, b, p, hi)
    [] f.c = "pak" -> IF v = <<>> THEN p
                      ELSE LET q == Lit(b, p, hi, EncTag(f.id, WLen))
                               l == LenAt(b, q, hi)
                           IN  IF q = 0 \/ l.lo = 0 THEN 0
                               ELSE IF MatchPak(f.k, v, 1, b, l.lo, l.hi) = l.hi + 1
                                    THEN l.hi + 1 ELSE 0
    [] f.c = "map" -> MatchMap(S, f, v, DOMAIN v, b, p, hi)

MatchFields(S, t, m, i, b, p, hi) ==
  IF p = 0 THEN 0
  ELSE IF i > Len(S[t].f) THEN Lit(b, p, hi, m.u)
  ELSE MatchFields(S, t, m, i + 1, b, MatchField(S, S[t].f[i], m.f[i], b, p, hi), hi)

MatchMsg(S, t, m, b, p, hi) == MatchFields(S, t, m, 1, b, p, hi)

\* b is an encoding of m as a message of type t.
IsEncoding(S, t, m, b) == MatchMsg(S, t, m, b, 1, Len(b)) = Len(b) + 1

\* The encoding that writes every map in the order of the value.
RECURSIVE EncMsg(_, _, _), Flat(_, _)
Flat(F, n) == IF n = 0 THEN <<>> ELSE Flat(F, n - 1) \o F[n]
EncOne(S, id, k, mt, v) ==
  EncTag(id, WireType(k)) \o
  (IF k # "msg" THEN EncVal(k, v) ELSE LET x == EncMsg(S, mt, v) IN EncNat(Len(x)) \o x)
EncField(S, f, v) ==
  CASE f.c = "imp" -> IF IsZero(v) /\ (Width(f.k) > 0 \/ v = <<>>) THEN <<>> ELSE EncOne(S, f.id, f.k, f.m, v)
    [] f.c \in {"exp", "one"} -> IF v = <<>> THEN <<>> ELSE EncOne(S, f.id, f.k, f.m, v[1])
    [] f.c = "emb" -> EncOne(S, f.id, f.k, f.m, v[1])
    [] f.c = "rep" -> Flat([j \in DOMAIN v |-> EncOne(S, f.id, f.k, f.m, v[j])], Len(v))
    [] f.c = "pak" -> IF v = <<>> THEN <<>>
                      ELSE LET x == Flat([j \in DOMAIN v |-> EncVal(f.k, v[j])], Len(v))
                           IN  EncTag(f.id, WLen) \o EncNat(Len(x)) \o x
    [] f.c = "map" -> Flat([j \in DOMAIN v |->
                              LET x == EncOne(S, 1, f.kk, 0, v[j][1]) \o EncOne(S, 2, f.k, f.m, v[j][2])
                              IN  EncTag(f.id, WLen) \o EncNat(Len(x)) \o x], Len(v))
EncMsg(S, t, m) ==
  Flat([i \in DOMAIN S[t].f |-> EncField(S, S[t].f[i], m.f[i])], Len(S[t].f)) \o m.u

\* Size, computed without encoding anything.
SizeNat(n) == IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2 ELSE IF n < 2097152 THEN 3 ELSE 4
SizeVal(k, v) == CASE k \in {"string", "bytes"} -> SizeNat(Len(v)) + Len(v)
                   [] WireType(k) = WVarint -> Len(EncVal(k, v))
                   [] OTHER -> Width(k)
SizeTag(id) == IF id < 16 THEN 1 ELSE 1 + SizeNat(id \div 16)
RECURSIVE Sum(_, _), SizeMsg(_, _, _)
Sum(F, n) == IF n = 0 THEN 0 ELSE F[n] + Sum(F, n - 1)
SizeOne(S, id, k, mt, v) ==
  SizeTag(id) + (IF k # "msg" THEN SizeVal(k, v) ELSE LET n == SizeMsg(S, mt, v) IN SizeNat(n) + n)
SizeField(S, f, v) ==
  CASE f.c = "imp" -> IF IsZero(v) /\ (Width(f.k) > 0 \/ v = <<>>) THEN 0 ELSE SizeOne(S, f.id, f.k, f.m, v)
    [] f.c \in {"exp", "one"} -> IF v = <<>> THEN 0 ELSE SizeOne(S, f.id, f.k, f.m, v[1])
    [] f.c = "emb" -> SizeOne(S, f.id, f.k, f.m, v[1])
    [] f.c = "rep" -> Sum([j \in DOMAIN v |-> SizeOne(S, f.id, f.k, f.m, v[j])], Len(v))
    [] f.c = "pak" -> IF v = <<>> THEN 0
                      ELSE LET n == Sum([j \in DOMAIN v |-> SizeVal(f.k, v[j])], Len(v))
                           IN  SizeTag(f.id) + SizeNat(n) + n
    [] f.c = "map" -> Sum([j \in DOMAIN v |->
                              LET n == SizeOne(S, 1, f.kk, 0, v[j][1]) + SizeOne(S, 2, f.k, f.m, v[j][2])
                              IN  SizeTag(f.id) + SizeNat(n) + n], Len(v))
SizeMsg(S, t, m) == Sum([i \in DOMAIN S[t].f |-> SizeField(S, S[t].f[i], m.f[i])], Len(S[t].f)) + Len(m.u)

-----------------------------------------------------------------------------
(* Decoding: a message is a sequence of records, each applied to the value  *)
(* built so far.  Results are [st |-> "ok", m |-> value], [st |-> "err"],   *)
(* or [st |-> "any"] where the format leaves the outcome open.              *)

Err == [st |-> "err"]
Any == [st |-> "any"]
Ok(m) == [st |-> "ok", m |-> m]

\* The value of a length-less or fixed record as kind k.
Scalar(k, b, r) ==
  CASE k \in {"string", "bytes"} -> Ok(SubSeq(b, r.vlo, r.vhi))
    [] WireType(k) # WVarint     -> Ok(SubSeq(b, r.vlo, r.vhi))
    [] OTHER ->
       LET w == VWord(b, r.vlo, r.vhi - r.vlo + 1)
       IN  CASE k \in {"int64", "uint64"} -> Ok(w)
             [] k \in {"int32", "uint32"} -> Ok(Low4(w))
             [] k = "sint64" -> Ok(UnZigZag(w))
             \* a sint32 is a 32-bit varint; what a longer one means is not defined
             [] k = "sint32" -> IF \E i \in 5..8 : w[i] # 0 THEN Any ELSE Ok(UnZigZag(Low4(w)))
             [] k = "bool"   -> Ok(IF IsZero(w) THEN <<0>> ELSE <<1>>)

\* The elements packed in b[i..hi].
RECURSIVE Packed(_, _, _, _, _)
Packed(k, b, i, hi, acc) ==
  IF i > hi THEN Ok(acc)
  ELSE LET n == IF WireType(k) = WVarint THEN VLen(b, i, hi)
                ELSE IF i + Width(k) - 1 > hi THEN 0 ELSE Width(k)
       IN  IF n = 0 THEN Err
           ELSE LET s == Scalar(k, b, [vlo |-> i, vhi |-> i + n - 1])
                IN  IF s.st # "ok" THEN s ELSE Packed(k, b, i + n, hi, Append(acc, s.m))

\* Lexicographic order on byte tuples, the order in which map entries are kept.
RECURSIVE Less(_, _)
Less(x, y) == IF y = <<>> THEN FALSE
              ELSE IF x = <<>> THEN TRUE
              ELSE IF x[1] # y[1] THEN x[1] < y[1]
              ELSE Less(Tail(x), Tail(y))

RECURSIVE PutFrom(_, _, _, _)
PutFrom(es, k, v, j) ==
  IF j > Len(es) THEN Append(es, <<k, v>>)
  ELSE IF es[j][1] = k THEN [es EXCEPT ![j] = <<k, v>>]
  ELSE IF Less(k, es[j][1]) THEN SubSeq(es, 1, j - 1) \o <<<<k, v>>>> \o SubSeq(es, j, Len(es))
  ELSE PutFrom(es, k, v, j + 1)
MapPut(es, k, v) == PutFrom(es, k, v, 1)

FieldIdx(S, t, id) ==
  IF \E i \in DOMAIN S[t].f : S[t].f[i].id = id
  THEN CHOOSE i \in DOMAIN S[t].f : S[t].f[i].id = id ELSE 0

RECURSIVE DecMsg(_, _, _, _, _, _, _), DecRecs(_, _, _, _, _, _, _),
          Apply(_, _, _, _, _, _), DecEntry(_, _, _, _, _, _, _, _)

\* Decode b[lo..hi] onto m, d messages deep.
DecMsg(S, t, m, b, lo, hi, d) ==
  IF d > MaxDepth THEN Err ELSE DecRecs(S, t, m, b, lo, hi, d)

DecRecs(S, t, m, b, i, hi, d) ==
  IF i > hi THEN Ok(m)
  ELSE LET r == Record(b, i, hi)
       IN  IF r.st # "ok" THEN r
           ELSE LET s == Apply(S, t, m, b, r, d)
                IN  IF s.st # "ok" THEN s ELSE DecRecs(S, t, s.m, b, r.next, hi, d)

\* A singular value of kind k (message type mt) decoded onto the old value.
One(S, k, mt, old, b, r, d) ==
  IF r.wt # WireType(k) THEN Err
  ELSE IF k = "msg" THEN DecMsg(S, mt, old, b, r.vlo, r.vhi, d + 1)
  ELSE Scalar(k, b, r)

\* A map entry: key field 1, value field 2, either may be missing or repeated,
\* anything else in it is ignored.
DecEntry(S, f, k, v, b, i, hi, d) ==
  IF i > hi THEN [st |-> "ok", k |-> k, v |-> v]
  ELSE LET r == Record(b, i, hi)
       IN  IF r.st # "ok" THEN r
           ELSE IF r.id = 1
                THEN LET s == One(S, f.kk, 0, k, b, r, d)
                     IN  IF s.st # "ok" THEN s ELSE DecEntry(S, f, s.m, v, b, r.next, hi, d)
           ELSE IF r.id = 2
                THEN LET s == One(S, f.k, f.m, v, b, r, d)
                     IN  IF s.st # "ok" THEN s ELSE DecEntry(S, f, k, s.m, b, r.next, hi, d)
           ELSE DecEntry(S, f, k, v, b, r.next, hi, d)

\* Setting oneof member i leaves every other member of the same oneof unset.
SetOne(S, t, m, i, x) ==
  [m EXCEPT !.f = [j \in DOMAIN m.f |->
                     IF j = i THEN <<x>>
                     ELSE IF S[t].f[j].c = "one" /\ S[t].f[j].o = S[t].f[i].o THEN <<>>
                     ELSE m.f[j]]]

Set(m, i, x) == [m EXCEPT !.f[i] = x]

\* Apply one record to m.
Apply(S, t, m, b, r, d) ==
  LET i == FieldIdx(S, t, r.id)
  IN  IF i = 0
      THEN Ok(IF S[t].unk THEN [m EXCEPT !.u = @ \o SubSeq(b, r.pos, r.next - 1)] ELSE m)
      ELSE LET f == S[t].f[i]
               old == IF m.f[i] = <<>> THEN Default(S, f.k, f.m) ELSE m.f[i][1]
           IN CASE f.c = "imp" -> LET s == One(S, f.k, 0, m.f[i], b, r, d)
                                  IN  IF s.st # "ok" THEN s ELSE Ok(Set(m, i, s.m))
                [] f.c \in {"exp", "emb"} ->
                     LET s == One(S, f.k, f.m, old, b, r, d)
                     IN  IF s.st # "ok" THEN s ELSE Ok(Set(m, i, <<s.m>>))
                [] f.c = "one" ->
                     LET s == One(S, f.k, f.m, old, b, r, d)
                     IN  IF s.st # "ok" THEN s ELSE Ok(SetOne(S, t, m, i, s.m))
                [] f.c \in {"rep", "pak"} ->
                     \* scalars are accepted packed or not, whatever the declaration
                     IF Packable(f.k) /\ r.wt = WLen
                     THEN LET s == Packed(f.k, b, r.vlo, r.vhi, m.f[i])
                          IN  IF s.st # "ok" THEN s ELSE Ok(Set(m, i, s.m))
                     ELSE LET s == One(S, f.k, f.m, Default(S, f.k, f.m), b, r, d)
                          IN  IF s.st # "ok" THEN s ELSE Ok(Set(m, i, Append(m.f[i], s.m)))
                [] f.c = "map" ->
                     IF r.wt # WLen THEN Err
                     ELSE LET e == DecEntry(S, f, ZeroOf(f.kk), Default(S, f.k, f.m), b, r.vlo, r.vhi, d)
                          IN  IF e.st # "ok" THEN e ELSE Ok(Set(m, i, MapPut(m.f[i], e.k, e.v)))

\* Unmarshal into a value that may already hold something: it merges, except
\* that the unknown fields the target held itself are replaced.
Unmarshal(S, t, m, b) == DecMsg(S, t, [m EXCEPT !.u = <<>>], b, 1, Len(b), 1)

-----------------------------------------------------------------------------
(* Well-formed values: what the projection of a Go struct must look like. *)

RECURSIVE WF(_, _, _)
WFVal(S, k, mt, v) ==
  IF k = "msg" THEN WF(S, mt, v)
  ELSE /\ Width(k) > 0 => Len(v) = Width(k)
       /\ k = "bool" => v[1] \in {0, 1}
WF(S, t, m) ==
  /\ Len(m.f) = Len(S[t].f)
  /\ ~S[t].unk => m.u = <<>>
  /\ \A i \in DOMAIN m.f :
       LET f == S[t].f[i]
           v == m.f[i]
       IN CASE f.c = "imp" -> WFVal(S, f.k, 0, v)
            [] f.c = "emb" -> Len(v) = 1 /\ WF(S, f.m, v[1])
            [] f.c \in {"exp", "one"} ->
                 /\ Len(v) <= 1
                 /\ v # <<>> => WFVal(S, f.k, f.m, v[1])
                 /\ f.c = "one" /\ v # <<>> =>
                      \A j \in DOMAIN m.f : j # i /\ S[t].f[j].c = "one" /\ S[t].f[j].o = f.o => m.f[j] = <<>>
            [] f.c \in {"rep", "pak"} -> \A j \in DOMAIN v : WFVal(S, f.k, f.m, v[j])
            [] f.c = "map" ->
                 /\ \A j \in DOMAIN v : WFVal(S, f.kk, 0, v[j][1]) /\ WFVal(S, f.k, f.m, v[j][2])
                 /\ \A j \in 1..(Len(v) - 1) : Less(v[j][1], v[j + 1][1])
=============================================================================
