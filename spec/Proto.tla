-------------------------------- MODULE Proto -------------------------------
(***************************************************************************)
(* What a set of .proto files means, and what Go code stands for it.        *)
(*                                                                         *)
(* S.f is a sequence of files, S.root the number of the one to generate.    *)
(* A file has a path, a syntax ("proto2", "proto3", "2023", "" for none     *)
(* written, or something unknown), a package (sequence of names), imports   *)
(* [f |-> file number, 0 when there is none, kind], Go package settings,    *)
(* file options, directives and definitions d: messages, enums and          *)
(* services, each with the number of the message it is nested in (up).      *)
(* Names are tuples of character codes; see harness/pgen/ast.go.            *)
(*                                                                         *)
(* The rules are protoc's (scoping, visibility, numbers, reserved, labels,  *)
(* features) and protoc-gen-go's (names, struct fields and tags), plus the  *)
(* directives and gogoproto options that prutalgen documents.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

SeqSet(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Distinct(q) == Cardinality(SeqSet(q)) = Len(q)

-----------------------------------------------------------------------------
(* Text *)

Alpha == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
CodeOf == TLCEval([c \in {SubSeq(Alpha, i, i) : i \in 1..Len(Alpha)} |->
            LET i == CHOOSE i \in 1..Len(Alpha) : SubSeq(Alpha, i, i) = c
            IN  IF i <= 26 THEN 96 + i ELSE IF i <= 52 THEN 38 + i ELSE IF i <= 62 THEN i - 5 ELSE 95])
\* a string literal as a name
N(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]

Dot == 46
Under == 95
IsLower(c) == c \in 97..122
IsUpper(c) == c \in 65..90
IsDigit(c) == c \in 48..57
IsLetter(c) == IsLower(c) \/ IsUpper(c)
Upper(c) == IF IsLower(c) THEN c - 32 ELSE c

RECURSIVE Join(_, _)
Join(p, sep) == IF p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<sep>> \o Join(Tail(p), sep)

\* The exported Go identifier for a (dotted) protobuf name.
GoCamel(s) ==
  LET NextLower(i) == i < Len(s) /\ IsLower(s[i + 1])
      Emit(i) ==
        LET c == s[i]
        IN  CASE c = Dot -> IF NextLower(i) THEN <<>> ELSE <<Under>>
              [] c = Under -> IF i = 1 \/ s[i - 1] = Dot THEN <<88>>      \* X
                              ELSE IF NextLower(i) THEN <<>> ELSE <<Under>>
              [] IsLower(c) -> IF i > 1 /\ IsLetter(s[i - 1]) THEN <<c>> ELSE <<Upper(c)>>
              [] OTHER -> <<c>>
  IN  Flat([i \in DOMAIN s |-> Emit(i)])

Keywords == {N(k) : k \in {"break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func",
  "go", "goto", "if", "import", "interface", "map", "package", "range", "return", "select", "struct", "switch", "type", "var"}}
\* A Go package name made from any text (letters are ASCII here).
Sanitized(s) ==
  LET t == [i \in DOMAIN s |-> IF IsLetter(s[i]) \/ IsDigit(s[i]) THEN s[i] ELSE Under]
  IN  IF t \in Keywords \/ t = <<>> \/ ~IsLetter(t[1]) THEN <<Under>> \o t ELSE t

-----------------------------------------------------------------------------
(* Files, imports, definitions *)

Imports(S, i) == {S.f[i].imps[k].f : k \in DOMAIN S.f[i].imps} \ {0}
Publics(S, i) == {S.f[i].imps[k].f : k \in {k \in DOMAIN S.f[i].imps : S.f[i].imps[k].kind = "public"}} \ {0}

RECURSIVE Close(_, _)
\* closure of a set of files under the step function
Close(R, step) == LET Q == R \cup UNION {step[i] : i \in R} IN IF Q = R THEN R ELSE Close(Q, step)

ImportMap(S) == TLCEval([i \in DOMAIN S.f |-> Imports(S, i)])
PublicMap(S) == TLCEval([i \in DOMAIN S.f |-> Publics(S, i)])
Loaded(S) == Close({S.root}, ImportMap(S))
\* a file sees itself, what it imports, and what that imports publicly
VisibleMap(S) == LET pm == PublicMap(S) IN TLCEval([i \in DOMAIN S.f |-> {i} \cup Close(Imports(S, i), pm)])
Cyclic(S) == LET im == ImportMap(S) IN \E i \in Loaded(S) : i \in Close(im[i], im)

Syn(S, i) == IF S.f[i].syn = "" THEN "proto2" ELSE S.f[i].syn

RECURSIVE LocalName(_, _)
LocalName(f, d) == IF f.d[d].up = 0 THEN <<f.d[d].n>> ELSE Append(LocalName(f, f.d[d].up), f.d[d].n)
FullName(f, d) == f.pkg \o LocalName(f, d)
FullNames(S) == TLCEval([i \in DOMAIN S.f |-> [d \in DOMAIN S.f[i].d |-> FullName(S.f[i], d)]])

IsType(x) == x.k \in {"msg", "enum"}

(* Go packages *)
HasGo(f) == Len(f.mimp) > 0 \/ Len(f.goimp) > 0
GoImp(f) == IF Len(f.mimp) > 0 THEN f.mimp ELSE f.goimp
GoPkg(f) == LET name == IF Len(f.mimp) > 0 THEN f.mname ELSE f.goname
            IN  IF name # <<>> THEN Sanitized(name) ELSE Sanitized(GoImp(f)[Len(GoImp(f))])

-----------------------------------------------------------------------------
(* Name resolution: the innermost scope that knows the first part of the    *)
(* name decides.  The outcome is "ok" with a definition, "none", or "open"  *)
(* where protoc insists on a scope without the name although an outer scope *)
(* has it.                                                                  *)

RefNone == [st |-> "none", f |-> 0, d |-> 0]

Resolve(S, full, vis, i, scope, r, rpc) ==
  LET V == vis[i]
      At(name) == {<<v, d>> \in UNION {{v} \X DOMAIN S.f[v].d : v \in V} : IsType(S.f[v].d[d]) /\ full[v][d] = name}
      SvcAt(name) == {<<v, d>> \in UNION {{v} \X DOMAIN S.f[v].d : v \in V} : ~IsType(S.f[v].d[d]) /\ full[v][d] = name}
      PkgAt(name) == \E v \in V : Len(S.f[v].pkg) >= Len(name) /\ SubSeq(S.f[v].pkg, 1, Len(name)) = name
      Hit(X) == LET c == CHOOSE x \in X : TRUE IN [st |-> "ok", f |-> c[1], d |-> c[2]]
      Under_(n) == SubSeq(scope, 1, n) \o r.r
      F(n) == Append(SubSeq(scope, 1, n), r.r[1])
      Single == Len(r.r) = 1
      \* scopes that stop the search
      Stops(n) == IF Single THEN At(F(n)) # {} \/ (rpc /\ SvcAt(F(n)) # {})
                  ELSE At(F(n)) # {} \/ SvcAt(F(n)) # {} \/ PkgAt(F(n))
      Stopping == {n \in 0..Len(scope) : Stops(n)}
      Found == {n \in 0..Len(scope) : At(Under_(n)) # {}}
      Max(X) == CHOOSE x \in X : \A y \in X : y <= x
  IN  IF r.dot THEN (IF At(r.r) = {} THEN RefNone ELSE Hit(At(r.r)))
      ELSE IF Found = {} THEN RefNone
      ELSE IF Max(Stopping) \in Found THEN Hit(At(Under_(Max(Stopping))))
      ELSE [RefNone EXCEPT !.st = "open"]

\* Resolution of a field's (or map value's) type in message d of file i, and of an rpc's types.
FieldType(S, X, i, d, x) == IF x.t.s # "" THEN RefNone ELSE Resolve(S, X.full, X.vis, i, X.full[i][d], x.t, FALSE)
RpcType(S, X, i, d, t) == Resolve(S, X.full, X.vis, i, X.full[i][d], t, TRUE)

Ctx(S) == [full |-> FullNames(S), vis |-> VisibleMap(S), loaded |-> Loaded(S)]

-----------------------------------------------------------------------------
(* Which sets of files must be rejected, and where protoc and prutal differ *)
(* or the outcome is left open.                                             *)

MaxNumber == 536870911
InRes(res, v) == \E k \in DOMAIN res : res[k][1] <= v /\ v <= res[k][2]

Presences == {"EXPLICIT", "IMPLICIT"}
Encs == {"PACKED", "EXPANDED"}

BadField(S, X, i, d, x) ==
  LET D == S.f[i].d[d]
      syn == Syn(S, i)
  IN  \/ x.big
      \/ x.num < 1 \/ x.num > MaxNumber \/ x.num \in 19000..19999
      \/ InRes(D.res, x.num)
      \/ x.n \in SeqSet(D.resn)
      \/ x.lab = "required" /\ syn # "proto2"
      \/ x.pk \notin {"", "true", "false"}
      \/ x.fp \notin Presences \cup {"", "LEGACY_REQUIRED"}
      \/ x.enc \notin Encs \cup {""}
      \/ x.t.s = "" /\ FieldType(S, X, i, d, x).st = "none"

BadRpc(S, X, i, d, t) ==
  t.s # "" \/ LET r == RpcType(S, X, i, d, t)
              IN  r.st = "none" \/ (r.st = "ok" /\ S.f[r.f].d[r.d].k # "msg")

BadDef(S, X, i, d) ==
  LET D == S.f[i].d[d]
  IN  CASE D.k = "msg" ->
             \/ \E j \in DOMAIN D.f : BadField(S, X, i, d, D.f[j])
             \/ \E j, k \in DOMAIN D.f : j < k /\ D.f[j].num = D.f[k].num
        [] D.k = "enum" ->
             \/ \E j \in DOMAIN D.v : D.v[j].big \/ InRes(D.res, D.v[j].v) \/ D.v[j].n \in SeqSet(D.resn)
             \/ D.alias # "true" /\ \E j, k \in DOMAIN D.v : j < k /\ D.v[j].v = D.v[k].v
        [] OTHER -> \E j \in DOMAIN D.m : BadRpc(S, X, i, d, D.m[j].req) \/ BadRpc(S, X, i, d, D.m[j].ret)

BadFile(S, X, i) ==
  LET f == S.f[i]
  IN  \/ f.broken
      \/ f.syn \notin {"", "proto2", "proto3", "2023"}
      \/ ~HasGo(f)
      \/ f.fp \notin Presences \cup {""} \/ f.enc \notin Encs \cup {""}
      \/ \E k \in DOMAIN f.imps : f.imps[k].f = 0
      \/ \E d \in DOMAIN f.d : BadDef(S, X, i, d)

MustReject(S, X) == Cyclic(S) \/ \E i \in X.loaded : BadFile(S, X, i)

\* Symbols a definition puts into its scope: enum values are siblings of their enum.
Symbols(S, X, i) ==
  LET f == S.f[i]
      Parent(p) == SubSeq(p, 1, Len(p) - 1)
  IN  Flat([d \in DOMAIN f.d |->
        LET n == X.full[i][d]
            D == f.d[d]
        IN  <<n>> \o [j \in DOMAIN D.f |-> Append(n, D.f[j].n)] \o [j \in DOMAIN D.o |-> Append(n, D.o[j])]
             \o [j \in DOMAIN D.v |-> Append(Parent(n), D.v[j].n)] \o [j \in DOMAIN D.m |-> Append(n, D.m[j].n)]])

RECURSIVE SetToSeq(_)
SetToSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o SetToSeq(s \ {x})

\* a closed enum, or one without zero, in a field without presence
ClosedImplicit(S, i, x, r) ==
  /\ r.st = "ok"
  /\ LET E == S.f[r.f].d[r.d]
         f == S.f[i]
     IN  /\ E.k = "enum"
         /\ Syn(S, r.f) = "proto2" \/ E.v[1].v # 0
         /\ Syn(S, i) = "proto3" \/ (Syn(S, i) = "2023" /\ (IF x.fp # "" THEN x.fp ELSE f.fp) = "IMPLICIT")

OpenField(S, X, i, d, x) ==
  LET syn == Syn(S, i)
      r == FieldType(S, X, i, d, x)
  IN  \/ x.t.s = "" /\ r.st = "open"
      \/ syn = "2023" /\ (x.pk # "" \/ x.lab = "optional")
      \/ syn # "2023" /\ (x.fp # "" \/ x.enc # "")
      \/ x.o > 0 /\ x.fp # ""
      \/ x.pk # "" /\ (x.lab # "repeated" \/ x.t.s \in {"string", "bytes"} \/ (r.st = "ok" /\ S.f[r.f].d[r.d].k = "msg"))
      \/ x.fp = "IMPLICIT" /\ x.t.s = "" /\ r.st = "ok" /\ S.f[r.f].d[r.d].k = "msg"
      \/ x.lab \in {"repeated", "map"} /\ x.fp # ""
      \/ ClosedImplicit(S, i, x, r)

Open(S, X) ==
  LET syms == Flat([k \in 1..Len(SetToSeq(X.loaded)) |-> Symbols(S, X, SetToSeq(X.loaded)[k])])
      pkgs == UNION {{SubSeq(S.f[i].pkg, 1, n) : n \in 1..Len(S.f[i].pkg)} : i \in X.loaded}
  IN  \/ ~Distinct(syms) \/ (SeqSet(syms) \cap pkgs) # {}
      \/ \E i \in X.loaded :
           LET f == S.f[i]
           IN  \/ f.fp # "" /\ Syn(S, i) # "2023"
               \/ f.enc # "" /\ Syn(S, i) # "2023"
               \/ ~Distinct([k \in DOMAIN f.imps |-> f.imps[k].f])
               \/ \E d \in DOMAIN f.d :
                    \/ f.d[d].k = "msg" /\ \E j \in DOMAIN f.d[d].f : OpenField(S, X, i, d, f.d[d].f[j])
                    \/ f.d[d].k = "enum" /\ f.d[d].v[1].v # 0 /\ Syn(S, i) # "proto2"
                    \/ f.d[d].k = "svc" /\ \E j \in DOMAIN f.d[d].m : \E t \in {f.d[d].m[j].req, f.d[d].m[j].ret} :
                          t.s = "" /\ RpcType(S, X, i, d, t).st = "open"

Judge(S, X) == IF MustReject(S, X) THEN "reject" ELSE IF Open(S, X) THEN "any" ELSE "accept"

-----------------------------------------------------------------------------
(* Go names *)

GoName(f, d) == GoCamel(Join(LocalName(f, d), Dot))

Taken == {N(k) : k \in {"Reset", "String", "ProtoMessage", "Marshal", "Unmarshal", "ExtensionRangeArray", "ExtensionMap", "Descriptor"}}
Get == N("Get")

RECURSIVE FreeName(_, _, _), FieldNames(_, _, _, _)
FreeName(used, n, getter) ==
  IF n \in used \/ (getter /\ (Get \o n) \in used) THEN FreeName(used, Append(n, Under), getter) ELSE n
\* Go names of the fields of message D, and of its oneofs, in declaration order
FieldNames(D, j, used, acc) ==
  IF j > Len(D.f) THEN acc
  ELSE LET x == D.f[j]
           n == FreeName(used, GoCamel(x.n), TRUE)
           u == used \cup {n, Get \o n}
           first == x.o > 0 /\ \A k \in 1..(j - 1) : D.f[k].o # x.o
           on == FreeName(u, GoCamel(D.o[x.o]), FALSE)
       IN  FieldNames(D, j + 1, IF first THEN u \cup {on} ELSE u,
                      [f |-> Append(acc.f, n), o |-> IF first THEN [acc.o EXCEPT ![x.o] = on] ELSE acc.o])
MsgNames(D) == TLCEval(FieldNames(D, 1, Taken, [f |-> <<>>, o |-> [k \in DOMAIN D.o |-> <<>>]]))

Kids(f, d) == {k \in DOMAIN f.d : f.d[k].up = d /\ IsType(f.d[k])}
\* the struct that wraps a oneof member
Wrapper(f, d, fieldname) ==
  LET nested == {GoName(f, k) : k \in Kids(f, d)}
      RECURSIVE Free(_)
      Free(n) == IF n \in nested THEN Free(Append(n, Under)) ELSE n
  IN  Free(GoName(f, d) \o <<Under>> \o fieldname)
OneofType(f, d, oneofname) == N("is") \o GoName(f, d) \o <<Under>> \o oneofname

NoPrefix(f, D, v) ==
  \/ "no_enum_prefix" \in SeqSet(v.dirs) \cup SeqSet(D.dirs) \cup SeqSet(f.dirs)
  \/ D.prefix = "false"
  \/ D.prefix = "" /\ f.prefix = "false"
ConstName(f, d, v) ==
  LET D == f.d[d]
  IN  IF NoPrefix(f, D, v) THEN GoCamel(v.n)
      ELSE GoName(f, IF D.up > 0 THEN D.up ELSE d) \o <<Under>> \o v.n

NoMapping(f, D) == "no_enum_mapping" \in SeqSet(D.dirs) \cup SeqSet(f.dirs)

\* does the struct keep unknown fields?
First(q, a, b) == LET I == {i \in DOMAIN q : q[i] \in {a, b}} IN IF I = {} THEN "" ELSE q[CHOOSE i \in I : \A j \in I : i <= j]
KeepsUnknown(f, D) ==
  LET m == First(D.dirs, "unknown_fields", "no_unknown_fields")
      p == First(f.dirs, "unknown_fields", "no_unknown_fields")
  IN  IF m # "" THEN m = "unknown_fields"
      ELSE IF p # "" THEN p = "unknown_fields"
      ELSE IF D.unrec # "" THEN D.unrec = "true"
      ELSE f.unrec = "true"

-----------------------------------------------------------------------------
(* Struct fields *)

GoScalar(s) ==
  CASE s \in {"int32", "sint32", "sfixed32"} -> "int32"
    [] s \in {"int64", "sint64", "sfixed64"} -> "int64"
    [] s \in {"uint32", "fixed32"} -> "uint32"
    [] s \in {"uint64", "fixed64"} -> "uint64"
    [] s = "float" -> "float32"
    [] s = "double" -> "float64"
    [] s = "bool" -> "bool"
    [] s = "string" -> "string"
    [] s = "bytes" -> "[]byte"

ScalarEnc(s) ==
  CASE s \in {"int32", "int64", "uint32", "uint64", "bool"} -> "varint"
    [] s = "sint32" -> "zigzag32"
    [] s = "sint64" -> "zigzag64"
    [] s \in {"fixed32", "sfixed32", "float"} -> "fixed32"
    [] s \in {"fixed64", "sfixed64", "double"} -> "fixed64"
    [] OTHER -> "bytes"

\* kind of the value: a scalar's name, "msg" or "enum"
KindOf(S, X, i, d, x) ==
  IF x.t.s # "" THEN x.t.s ELSE LET r == FieldType(S, X, i, d, x) IN S.f[r.f].d[r.d].k
EncOf(k) == CASE k = "msg" -> "bytes" [] k = "enum" -> "varint" [] OTHER -> ScalarEnc(k)
Packable(k) == k \notin {"msg", "string", "bytes"}

NoPointer(D, x) == "no_pointer" \in SeqSet(x.dirs) \cup SeqSet(D.dirs) \/ x.null = "false"

PresenceOf(f, x) == IF x.fp # "" THEN x.fp ELSE IF f.fp # "" THEN f.fp ELSE "EXPLICIT"
Required(S, i, x) == x.lab = "required" \/ (Syn(S, i) = "2023" /\ x.fp = "LEGACY_REQUIRED")
IsPacked(S, i, x, k) ==
  /\ x.lab = "repeated" /\ Packable(k)
  /\ CASE Syn(S, i) = "proto2" -> x.pk = "true"
       [] Syn(S, i) = "proto3" -> x.pk # "false"
       [] OTHER -> (IF x.enc # "" THEN x.enc ELSE S.f[i].enc) # "EXPANDED"

\* Has the singular field a presence of its own?
Explicit(S, i, x) ==
  \/ x.lab \in {"optional", "required"}
  \/ Syn(S, i) = "proto2"
  \/ Syn(S, i) = "2023" /\ PresenceOf(S.f[i], x) # "IMPLICIT"

\* The Go type of a field: pointer, list, map key, base, and which named type.
GoType(S, X, i, d, x) ==
  LET D == S.f[i].d[d]
      k == KindOf(S, X, i, d, x)
      r == FieldType(S, X, i, d, x)
      np == NoPointer(D, x)
      base == IF x.t.s # "" THEN [b |-> GoScalar(k), g |-> <<>>, n |-> <<>>]
              ELSE [b |-> "ref", g |-> GoImp(S.f[r.f]), n |-> GoName(S.f[r.f], r.d)]
      ptr == CASE np -> FALSE
               [] x.lab \in {"repeated", "map"} -> k = "msg"
               [] k = "msg" -> TRUE
               [] k = "bytes" -> FALSE
               [] x.o > 0 -> FALSE
               [] OTHER -> Explicit(S, i, x)
  IN  [p |-> ptr, l |-> x.lab = "repeated", k |-> IF x.lab = "map" THEN GoScalar(x.key) ELSE "",
       b |-> base.b, g |-> base.g, n |-> base.n]

Tag(enc, num, lab, packed, name) == [enc |-> enc, num |-> num, lab |-> lab, packed |-> packed, name |-> name]

\* The struct field that holds x under the Go name gn.
StructField(S, X, i, d, x, gn) ==
  LET k == KindOf(S, X, i, d, x)
      t == Tag(IF x.lab = "map" THEN "bytes" ELSE EncOf(k), x.num,
               IF x.lab \in {"repeated", "map"} THEN "rep" ELSE IF Required(S, i, x) THEN "req" ELSE "opt",
               IsPacked(S, i, x, k), x.n)
      b == [n |-> gn, t |-> GoType(S, X, i, d, x), json |-> x.n, jo |-> "omitempty", tag |-> t]
  IN  IF x.lab # "map" THEN b @@ [c |-> "field"]
      ELSE b @@ [c |-> "map", ktag |-> Tag(ScalarEnc(x.key), 1, "opt", FALSE, N("key")),
                 vtag |-> Tag(EncOf(k), 2, "opt", FALSE, N("value"))]

OwnRef(f, n) == [p |-> FALSE, l |-> FALSE, k |-> "", b |-> "ref", g |-> GoImp(f), n |-> n]

\* The fields of message d's struct, in order.
StructFields(S, X, i, d) ==
  LET f == S.f[i]
      D == f.d[d]
      nm == MsgNames(D)
      One(j) ==
        LET x == D.f[j]
        IN  IF x.o = 0 THEN <<StructField(S, X, i, d, x, nm.f[j])>>
            ELSE IF \E q \in 1..(j - 1) : D.f[q].o = x.o THEN <<>>
            ELSE <<[n |-> nm.o[x.o], t |-> OwnRef(f, OneofType(f, d, nm.o[x.o])), json |-> <<>>, jo |-> "", c |-> "one", one |-> D.o[x.o]]>>
      unk == [n |-> N("unknownFields"), t |-> [p |-> FALSE, l |-> FALSE, k |-> "", b |-> "[]byte", g |-> <<>>, n |-> <<>>],
              json |-> <<45>>, jo |-> "", c |-> "plain"]
  IN  Flat([j \in DOMAIN D.f |-> One(j)]) \o (IF KeepsUnknown(f, D) THEN <<unk>> ELSE <<>>)

Msgs(f) == {d \in DOMAIN f.d : f.d[d].k = "msg"}
Enums(f) == {d \in DOMAIN f.d : f.d[d].k = "enum"}
Members(D) == {j \in DOMAIN D.f : D.f[j].o > 0}

\* All structs of a file: one per message, one per oneof member.
Structs(S, X, i) ==
  LET f == S.f[i]
  IN  UNION {LET nm == MsgNames(f.d[d])
             IN  {[n |-> GoName(f, d), f |-> StructFields(S, X, i, d)]}
                 \cup {[n |-> Wrapper(f, d, nm.f[j]), f |-> <<StructField(S, X, i, d, f.d[d].f[j], nm.f[j])>>] : j \in Members(f.d[d])}
             : d \in Msgs(f)}

Ifaces(S, i) ==
  LET f == S.f[i]
  IN  UNION {LET nm == MsgNames(f.d[d])
             IN  {LET t == OneofType(f, d, nm.o[o]) IN [n |-> t, m |-> t] : o \in DOMAIN f.d[d].o} : d \in Msgs(f)}

-----------------------------------------------------------------------------
(* Enums *)

Consts(f, d) == [j \in DOMAIN f.d[d].v |-> [n |-> ConstName(f, d, f.d[d].v[j]), t |-> GoName(f, d), v |-> f.d[d].v[j].v]]
\* value -> name (the first of aliases), name -> value
NameMap(D) == {<<D.v[j].v, D.v[j].n>> : j \in {j \in DOMAIN D.v : \A k \in 1..(j - 1) : D.v[k].v # D.v[j].v}}
ValueMap(D) == {<<D.v[j].v, D.v[j].n>> : j \in DOMAIN D.v}

-----------------------------------------------------------------------------
(* Methods *)

Nothing == [p |-> FALSE, l |-> FALSE, k |-> "", b |-> "bad", g |-> <<>>, n |-> <<>>]
BasicT(b) == [Nothing EXCEPT !.b = b]
Func(r, ptr, n, nin, nret, ret, wr) == [r |-> r, ptr |-> ptr, n |-> n, nin |-> nin, nret |-> nret, ret |-> ret, wr |-> wr]

\* what the getter of a field returns: the value behind a scalar's pointer
GetterType(S, X, i, d, x) ==
  LET t == GoType(S, X, i, d, x)
  IN  IF KindOf(S, X, i, d, x) # "msg" /\ ~t.l /\ t.k = "" THEN [t EXCEPT !.p = FALSE] ELSE t

Funcs(S, X, i) ==
  LET f == S.f[i]
      OfMsg(d) ==
        LET D == f.d[d]
            g == GoName(f, d)
            nm == MsgNames(D)
        IN  {Func(g, TRUE, N("Reset"), 0, 0, Nothing, <<>>)}
            \cup (IF S.getter
                  THEN {Func(g, TRUE, Get \o nm.f[j], 0, 1, GetterType(S, X, i, d, D.f[j]), <<>>) : j \in DOMAIN D.f}
                       \cup {Func(g, TRUE, Get \o nm.o[o], 0, 1, OwnRef(f, OneofType(f, d, nm.o[o])), <<>>) : o \in DOMAIN D.o}
                  ELSE {})
            \cup {Func(Wrapper(f, d, nm.f[j]), TRUE, OneofType(f, d, nm.o[D.f[j].o]), 0, 0, Nothing, <<>>) : j \in Members(D)}
      OfEnum(d) == IF NoMapping(f, f.d[d]) THEN {}
                   ELSE {Func(GoName(f, d), FALSE, N("String"), 0, 1, BasicT("string"), <<>>)}
  IN  UNION {OfMsg(d) : d \in Msgs(f)} \cup UNION {OfEnum(d) : d \in Enums(f)}

\* the wrappers a message lists for the decoder: every member of every oneof
WrappersOf(f, d) == LET nm == MsgNames(f.d[d]) IN {Wrapper(f, d, nm.f[j]) : j \in Members(f.d[d])}

-----------------------------------------------------------------------------
(* When the generated packages have to compile: unless distinct protobuf    *)
(* names map to one Go name, a struct would contain itself, or Go packages  *)
(* would import each other.                                                 *)

DeclNames(S, i) ==
  LET f == S.f[i]
  IN  Flat([d \in DOMAIN f.d |->
        LET D == f.d[d]
            g == GoName(f, d)
            nm == MsgNames(D)
        IN  CASE D.k = "msg" ->
                   <<g>> \o [o \in DOMAIN D.o |-> OneofType(f, d, nm.o[o])]
                   \o Flat([j \in DOMAIN D.f |-> IF D.f[j].o > 0 THEN <<Wrapper(f, d, nm.f[j])>> ELSE <<>>])
              [] D.k = "enum" ->
                   <<g>> \o [j \in DOMAIN D.v |-> ConstName(f, d, D.v[j])]
                   \o (IF NoMapping(f, D) THEN <<>> ELSE <<g \o N("_name"), g \o N("_value")>>)
              [] OTHER -> <<>>])

MethodClash(S, D) ==
  LET nm == MsgNames(D)
      fields == SeqSet(nm.f) \cup SeqSet(nm.o)
      getters == nm.f \o nm.o
  IN  \/ ~Distinct(nm.f \o nm.o)
      \/ S.getter /\ \E k \in DOMAIN getters : (Get \o getters[k]) \in fields

GoClash(S, X) ==
  \/ \E i \in X.loaded :
       LET same == {k \in X.loaded : GoImp(S.f[k]) = GoImp(S.f[i])}
       IN  \/ ~Distinct(Flat([q \in 1..Cardinality(same) |-> DeclNames(S, SetToSeq(same)[q])]))
           \/ \E k \in same : GoPkg(S.f[k]) # GoPkg(S.f[i])
  \/ \E i \in X.loaded : \E d \in Msgs(S.f[i]) : MethodClash(S, S.f[i].d[d])

\* messages a message's struct contains by value
Inside(S, X, i, d) ==
  LET D == S.f[i].d[d]
  IN  {LET r == FieldType(S, X, i, d, x) IN <<r.f, r.d>>
       : x \in {x \in SeqSet(D.f) : x.o = 0 /\ x.lab \notin {"repeated", "map"} /\ NoPointer(D, x) /\ KindOf(S, X, i, d, x) = "msg"}}
AllMsgs(S, X) == UNION {{i} \X Msgs(S.f[i]) : i \in X.loaded}
SelfContaining(S, X) ==
  LET step == TLCEval([m \in AllMsgs(S, X) |-> Inside(S, X, m[1], m[2])])
  IN  \E m \in AllMsgs(S, X) : m \in Close(step[m], step)

\* Go packages the code of file i refers to
Uses(S, X, i) ==
  UNION {{GoImp(S.f[FieldType(S, X, i, d, x).f]) : x \in {x \in SeqSet(S.f[i].d[d].f) : x.t.s = ""}} : d \in Msgs(S.f[i])}
GoCycle(S, X) ==
  LET pk == {GoImp(S.f[i]) : i \in X.loaded}
      step == TLCEval([g \in pk |-> (UNION {Uses(S, X, i) : i \in {i \in X.loaded : GoImp(S.f[i]) = g}}) \ {g}])
  IN  \E g \in pk : g \in Close(step[g], step)

MustCompile(S, X) == ~GoClash(S, X) /\ ~SelfContaining(S, X) /\ ~GoCycle(S, X)
=============================================================================
