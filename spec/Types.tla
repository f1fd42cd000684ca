--------------------------------- MODULE Types ------------------------------
(***************************************************************************)
(* Which Go struct types are protobuf messages.                             *)
(*                                                                         *)
(* A universe S of struct types, each a sequence of fields                  *)
(*   [pb |-> has a protobuf tag, id |-> <<high 16 bits, low 16 bits>>,      *)
(*    tag, rep, packed |-> what the tag says,                               *)
(*    ktag, vtag |-> encodings of map key and value ("" if missing),        *)
(*    T |-> the Go type]                                                    *)
(* A Go type is [k |-> constructor, e |-> element, key |-> map key,         *)
(*               s |-> index of the struct type].                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Encodings == {"varint", "zigzag32", "zigzag64", "fixed32", "fixed64", "bytes"}

\* Go kinds of plain values an encoding stands for
Scalars(tag) ==
  CASE tag = "varint"   -> {"int32", "uint32", "int64", "uint64", "bool"}
    [] tag = "zigzag32" -> {"int32"}
    [] tag = "zigzag64" -> {"int64"}
    [] tag = "fixed32"  -> {"int32", "uint32", "float32"}
    [] tag = "fixed64"  -> {"int64", "uint64", "float64"}
    [] tag = "bytes"    -> {"string", "bytes"}
    [] OTHER            -> {}

Keys(tag) == CASE tag = "bytes" -> {"string"}
               [] OTHER -> Scalars(tag) \ {"float32", "float64"}

IsMsg(T) == T.k = "struct" \/ (T.k = "ptr" /\ T.e.k = "struct")

\* An element of a list or the value of a map
Elem(tag, T) == T.k \in Scalars(tag) \/ (tag = "bytes" /\ IsMsg(T))

ValidId(id) == id[1] < 8192 /\ id # <<0, 0>>          \* 1 .. 2^29-1

\* Can the field be encoded and decoded?  "any" where the outcome is left open.
FieldOK(f) ==
  IF f.bad \/ ~(f.tag \in Encodings /\ ValidId(f.id)) THEN "no"
  \* a member of a oneof is one value
  ELSE IF f.one /\ (f.T.k \in {"map", "slice"} \/ f.rep \/ f.packed) THEN "no"
  ELSE IF f.T.k = "map"
       THEN IF ~(f.rep /\ ~f.packed /\ f.tag = "bytes") THEN "no"
            ELSE IF ~Elem(f.vtag, f.T.e) THEN "no"
            ELSE IF f.T.key.k \in Keys(f.ktag) THEN "yes"
            \* a floating point key is no protobuf, nothing is promised about it
            ELSE IF f.T.key.k \in Scalars(f.ktag) \cap {"float32", "float64"} THEN "any"
            ELSE "no"
  ELSE IF f.T.k = "slice"
       THEN IF f.rep /\ Elem(f.tag, f.T.e) /\ (f.packed => f.tag # "bytes") THEN "yes" ELSE "no"
  ELSE IF f.rep \/ f.packed THEN "no"
  ELSE IF f.T.k = "ptr" /\ f.T.e.k = "bytes" THEN (IF f.tag = "bytes" THEN "any" ELSE "no")
  ELSE IF Elem(f.tag, f.T) \/ (f.T.k = "ptr" /\ f.T.e.k \in Scalars(f.tag)) THEN "yes" ELSE "no"

\* Struct types a Go type mentions
RECURSIVE Mentions(_)
Mentions(T) == CASE T.k = "struct" -> {T.s}
                 [] T.k \in {"ptr", "slice", "array"} -> Mentions(T.e)
                 [] T.k = "map" -> Mentions(T.key) \cup Mentions(T.e)
                 [] OTHER -> {}

PB(S, i) == {j \in DOMAIN S[i] : S[i][j].pb}

RECURSIVE Closure(_, _)
Closure(S, R) ==
  LET N == R \cup UNION {UNION {Mentions(S[i][j].T) : j \in PB(S, i)} : i \in R}
  IN  IF N = R THEN R ELSE Closure(S, N)

\* The verdict on struct type i as a message.
Accept(S, i) ==
  LET R == Closure(S, {i})
      V == {FieldOK(S[t][j]) : <<t, j>> \in {<<t, j>> \in R \X (1..40) : j \in PB(S, t)}}
      Dup == \E t \in R : \E j, k \in PB(S, t) : j # k /\ S[t][j].id = S[t][k].id
  IN  IF Dup \/ "no" \in V THEN "no" ELSE IF "any" \in V THEN "any" ELSE "yes"
=============================================================================
