------------------------------- MODULE E2ETrace ------------------------------
(***************************************************************************)
(* From .proto files to bytes: sessions of the real codec on message types  *)
(* that the real prutalgen generated, against both specifications at once.  *)
(* Proto.tla says what the files mean (Trace[s].A, with T telling which      *)
(* definition each message type of the session stands for); from that        *)
(* follows the abstract schema that Codec.tla gives the wire format of, and  *)
(* what getters, Reset and String return.                                   *)
(***************************************************************************)
EXTENDS CodecTrace

P == INSTANCE Proto

Files == Trace[s].A
Types == Trace[s].T
Context == TLCEval(P!Ctx(Files))

-----------------------------------------------------------------------------
(* The schema that the files prescribe. *)

Scalarish(k) == IF k = "enum" THEN "int32" ELSE k

FieldOf(A, X, T, i, d, x) ==
  LET D == A.f[i].d[d]
      k == P!KindOf(A, X, i, d, x)
      r == P!FieldType(A, X, i, d, x)
      q == {n \in DOMAIN T : T[n] = <<r.f, r.d>>}
  IN  [id |-> x.num,
       c |-> CASE x.o > 0 -> "one"
               [] x.lab = "map" -> "map"
               [] x.lab = "repeated" -> IF P!IsPacked(A, i, x, k) THEN "pak" ELSE "rep"
               [] k = "msg" -> IF P!NoPointer(D, x) THEN "emb" ELSE "exp"
               \* bytes are kept in a plain []byte, without presence
               [] OTHER -> IF P!NoPointer(D, x) \/ k = "bytes" \/ ~P!Explicit(A, i, x) THEN "imp" ELSE "exp",
       k |-> Scalarish(k),
       m |-> IF k = "msg" /\ q # {} THEN CHOOSE y \in q : TRUE ELSE 0,
       kk |-> x.key,
       o |-> x.o]

SchemaOf(A, X, T) ==
  [n \in DOMAIN T |->
     LET i == T[n][1]
         d == T[n][2]
         D == A.f[i].d[d]
     IN  [f |-> SortSeq([j \in DOMAIN D.f |-> FieldOf(A, X, T, i, d, D.f[j])], LAMBDA a, b : a.id < b.id),
          unk |-> P!KeepsUnknown(A.f[i], D)]]

SchemaVerdict ==
  LET T == Types
  IN  IF \E n \in DOMAIN T : T[n][1] = 0 THEN "a type of no definition"
      ELSE IF Trace[s].S # SchemaOf(Files, Context, T) THEN "wire format of the generated type differs from its definition"
      ELSE ""

BuiltVerdict(e) ==
  LET A == Files
      X == Context
  IN  IF P!Judge(A, X) # "accept" THEN ""
      ELSE IF ~e.load THEN "valid files rejected"
      ELSE IF P!MustCompile(A, X) /\ ~e.compile THEN "generated code does not compile"
      ELSE ""

-----------------------------------------------------------------------------
(* What getters return *)

\* a natural number below 2^31, or a negative one from -2^31, as four bytes
Le32(v) ==
  LET q(k) == CASE k = 1 -> v [] k = 2 -> v \div 256 [] k = 3 -> v \div 65536 [] OTHER -> v \div 16777216
  IN  [k \in 1..4 |-> q(k) % 256]

\* The values the getter of field x of message type t may return: of value m, or of no message at all.
Got(A, X, i, d, x, S, t, m, null) ==
  LET n == FieldIdx(S, t, x.num)
      f == S[t].f[n]
      D == A.f[i].d[d]
      k == P!KindOf(A, X, i, d, x)
      r == P!FieldType(A, X, i, d, x)
      byvalue == P!NoPointer(D, x)
      dflt == CASE k = "msg" -> IF byvalue THEN <<EmptyMsg(S, f.m)>> ELSE <<>>
                [] k = "enum" -> Le32(A.f[r.f].d[r.d].v[1].v)   \* the first value
                [] OTHER -> ZeroOf(f.k)
      Val(v) == IF k = "msg" THEN v ELSE v[1]
  IN  CASE f.c \in {"rep", "pak", "map"} -> {IF null THEN <<>> ELSE m.f[n]}
        [] f.c \in {"exp", "one"} -> {IF null \/ m.f[n] = <<>> THEN dflt ELSE Val(m.f[n])}
        [] f.c = "emb" -> {IF null THEN dflt ELSE m.f[n]}
        \* a field whose pointer was taken away by no_pointer is zero when it is not set
        [] OTHER -> IF null THEN {dflt} \cup (IF byvalue THEN {ZeroOf(f.k)} ELSE {}) ELSE {m.f[n]}

Member(A, i, d, o, S, t, m) ==
  LET set == {n \in DOMAIN m.f : S[t].f[n].o = o /\ m.f[n] # <<>>}
  IN  IF set = {} THEN 0 ELSE S[t].f[CHOOSE n \in set : TRUE].id

GetsVerdict(e) ==
  LET A == Files
      X == Context
      i == Types[e.t][1]
      d == Types[e.t][2]
      D == A.f[i].d[d]
      S == Sch(e)
      m == obj[e.slot].m
  IN  IF Len(e.v) # Len(D.f) \/ Len(e.o) # Len(D.o) THEN "getters missing"
      ELSE IF \E j \in DOMAIN D.f : e.v[j] \notin Got(A, X, i, d, D.f[j], S, e.t, m, e.null) THEN "getter returns another value"
      ELSE IF \E o \in DOMAIN D.o : e.o[o] # (IF e.null THEN 0 ELSE Member(A, i, d, o, S, e.t, m)) THEN "getter of a oneof returns another member"
      ELSE ""

-----------------------------------------------------------------------------
(* String of enums: the first name of the value, or the number. *)

RECURSIVE Nat10(_)
Nat10(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Nat10(n \div 10), 48 + (n % 10))
Text10(v) ==
  IF v >= 0 THEN Nat10(v)
  ELSE LET q == -(v \div 10)
           r == v % 10
       IN  <<45>> \o (IF r = 0 THEN Append(Nat10(q), 48) ELSE (IF q = 1 THEN <<>> ELSE Nat10(q - 1)) \o <<48 + 10 - r>>)

StringOf(D, v) ==
  LET J == {j \in DOMAIN D.v : D.v[j].v = v}
  IN  IF J = {} THEN Text10(v) ELSE D.v[CHOOSE j \in J : \A k \in J : j <= k].n

EstrVerdict(e) ==
  LET f == Files.f[e.f]
      D == f.d[e.d]
  IN  IF e.has = P!NoMapping(f, D) THEN "String in spite of no_enum_mapping, or missing"
      ELSE IF e.has /\ \E j \in DOMAIN e.v : e.v[j][2] # StringOf(D, e.v[j][1]) THEN "String of an enum value differs"
      ELSE ""

-----------------------------------------------------------------------------

E2EVerdict(e, r) ==
  CASE e.op = "built" -> BuiltVerdict(e)
    [] e.op = "schema" -> SchemaVerdict
    [] e.op = "gets" -> GetsVerdict(e)
    [] e.op = "reset" -> IF e.post # EmptyMsg(Sch(e), e.t) THEN "Reset leaves something behind" ELSE ""
    [] e.op = "estr" -> EstrVerdict(e)
    [] e.op = "kitex" -> IF e.ok THEN "" ELSE "Marshal or Unmarshal method missing"
    [] e.op = "dec" /\ r.st = "err" /\ e.ok -> "malformed input accepted"
    [] OTHER -> Verdict(e, r)

E2EEffect(e, r) ==
  IF e.op = "reset" THEN [obj EXCEPT ![e.slot].m = e.post] ELSE Effect(e, r)

E2EStep ==
  /\ l <= Len(Ev(s))
  /\ LET e == Ev(s)[l]
         r == IF e.op = "dec" THEN DecResult(e) ELSE [st |-> "none"]
         v == E2EVerdict(e, r)
     IN  /\ IF v = "" THEN TRUE ELSE PrintT(<<"REJECT", s, l, e.op, v>>)
         /\ obj' = E2EEffect(e, r)
         /\ IF e.op = "dec" THEN PrintT(<<"DEC", r.st>>) ELSE TRUE
         /\ IF e.op = "built" THEN PrintT(<<"STAT", "built", e.load, e.compile>>) ELSE TRUE
  /\ l' = l + 1
  /\ s' = s

E2ESpec == Init /\ [][E2EStep]_vars
=============================================================================
