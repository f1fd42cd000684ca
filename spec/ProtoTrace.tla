------------------------------ MODULE ProtoTrace ----------------------------
(***************************************************************************)
(* Sessions of the real prutalgen against Proto.tla: files are loaded, the  *)
(* loader's view and the generated declarations are recorded.  Complaints   *)
(* carry a class; Prop selects the classes that count.                      *)
(***************************************************************************)
EXTENDS Proto, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES s, l
Ev(i) == Trace[i].ev
Sess == Trace[s].S

Init == s \in DOMAIN Trace /\ l = 1

Say(c, ok, what) == IF ok THEN {} ELSE {<<c, what>>}

-----------------------------------------------------------------------------
LoadC(S, X, j, e) ==
  LET F == e.files
      Pos(i) == CHOOSE k \in DOMAIN F : F[k].f = i
      mine == [k \in DOMAIN F |-> F[k].f]
  IN  Say("accept", j = "accept" => e.ok, "valid files rejected")
      \cup Say("reject", j = "reject" => ~e.ok, "invalid files accepted")
      \cup IF ~e.ok \/ j # "accept" THEN {}
           ELSE IF ~(SeqSet(mine) = X.loaded /\ Distinct(mine))
           THEN {<<"imports", "loaded files are not the imported ones, each once">>}
           ELSE Say("imports", F[1].f = S.root, "the requested file does not come first")
                \cup Say("imports", \A i \in X.loaded : \A m \in Imports(S, i) : Pos(i) < Pos(m), "files are not in topological order")
                \cup UNION {LET f == S.f[F[k].f]
                            IN  Say("imports", F[k].imps = [q \in DOMAIN f.imps |-> [f |-> f.imps[q].f, pub |-> f.imps[q].kind = "public"]], "imports differ")
                                \cup Say("imports", F[k].pkg = f.pkg, "package differs")
                                \cup Say("syntax", F[k].syn = Syn(S, F[k].f) /\ F[k].p2 = (Syn(S, F[k].f) = "proto2")
                                                   /\ F[k].p3 = (Syn(S, F[k].f) = "proto3") /\ F[k].e23 = (Syn(S, F[k].f) = "2023"), "syntax differs")
                                \cup Say("gopkg", F[k].goimp = GoImp(f), "Go import path differs")
                                \cup Say("gopkg", F[k].gopkg = GoPkg(f), "Go package name differs")
                            : k \in DOMAIN F}

-----------------------------------------------------------------------------
\* a type as the loader resolved it
TypC(S, i, r, t) ==
  Say("names", t.f = r.f /\ t.d = r.d, "name resolved to another definition")
  \cup Say("names", t.s = "" /\ t.imp = GoImp(S.f[r.f]) /\ t.ext = (GoImp(S.f[r.f]) # GoImp(S.f[i])), "Go package of a type differs")

AstC(S, X, e) ==
  LET i == e.f
      f == S.f[i]
      Def(d) ==
        LET D == f.d[d]
            E == e.d[d]
            nm == MsgNames(D)
        IN  IF E.k # D.k THEN {<<"decls", "definition lost">>}
            ELSE Say("decls", E.n = D.n, "name differs")
                 \cup Say("decls", D.k = "svc" \/ E.full = X.full[i][d], "full name differs")
                 \cup Say("gonames", D.k = "svc" \/ E.gn = GoName(f, d), "Go name differs")
                 \cup CASE D.k = "msg" ->
                             IF Len(E.f) # Len(D.f) \/ Len(E.o) # Len(D.o) THEN {<<"decls", "fields lost or added">>}
                             ELSE UNION {LET x == D.f[j]
                                             y == E.f[j]
                                         IN  Say("decls", y.n = x.n /\ y.num = x.num /\ y.o = x.o /\ y.key = x.key, "field differs")
                                             \cup Say("decls", y.lab = x.lab, "label differs")
                                             \cup Say("gonames", y.gn = nm.f[j], "Go name of a field differs")
                                             \cup (IF x.t.s # "" THEN Say("names", y.t.s = x.t.s, "scalar type differs")
                                                   ELSE TypC(S, i, FieldType(S, X, i, d, x), y.t))
                                             \cup LET k == KindOf(S, X, i, d, x)
                                                  IN  Say("fields", y.ismap = (x.lab = "map") /\ y.isenum = (k = "enum" /\ x.lab # "map")
                                                                    /\ y.ismsg = (k = "msg" /\ x.lab # "map"), "kind of a field differs")
                                                      \cup Say("fields", y.packed = IsPacked(S, i, x, k), "packed differs")
                                         : j \in DOMAIN D.f}
                                  \cup UNION {Say("decls", E.o[j].n = D.o[j] /\ E.o[j].c = Cardinality({q \in DOMAIN D.f : D.f[q].o = j}), "oneof differs")
                                              \cup Say("gonames", E.o[j].gn = nm.o[j], "Go name of a oneof differs") : j \in DOMAIN D.o}
                      [] D.k = "enum" ->
                             Say("enums", [j \in DOMAIN E.v |-> <<E.v[j].n, E.v[j].v>>] = [j \in DOMAIN D.v |-> <<D.v[j].n, D.v[j].v>>], "enum values differ")
                             \cup Say("enumnames", [j \in DOMAIN E.v |-> E.v[j].gn] = [j \in DOMAIN D.v |-> ConstName(f, d, D.v[j])], "Go names of enum values differ")
                      [] OTHER ->
                             IF Len(E.m) # Len(D.m) THEN {<<"decls", "rpcs lost or added">>}
                             ELSE UNION {Say("decls", E.m[j].n = D.m[j].n /\ E.m[j].rs = D.m[j].rs /\ E.m[j].ss = D.m[j].ss, "rpc differs")
                                         \cup Say("gonames", E.m[j].gn = GoCamel(D.m[j].n), "Go name of an rpc differs")
                                         \cup TypC(S, i, RpcType(S, X, i, d, D.m[j].req), E.m[j].req)
                                         \cup TypC(S, i, RpcType(S, X, i, d, D.m[j].ret), E.m[j].ret) : j \in DOMAIN D.m}
  IN  Say("decls", e.extra = 0 /\ Len(e.d) = Len(f.d), "definitions added") \cup UNION {Def(d) : d \in DOMAIN f.d}

-----------------------------------------------------------------------------
(* What the loaded definitions answer to a program that uses the loader as  *)
(* a library.                                                               *)

DirC(ds, q) ==
  UNION {LET a == q[k]
             x == First(ds, a.d, "no_" \o a.d)
         IN  Say("query", a.has = (a.d \in SeqSet(ds)), "Has of a directive differs")
             \cup Say("query", a.ok = (x # "") /\ a.v = (x = a.d), "IsSet of a directive differs") : k \in DOMAIN q}
\* want is a function from an option's short name to its value, "" for none
OptC(want, q) ==
  UNION {LET a == q[k]
             v == want[a.o]
         IN  Say("query", a.ok = (v # "") /\ a.v = v /\ a.is = (IF v = "" THEN <<>> ELSE <<v>>), "value of an option differs") : k \in DOMAIN q}

ZeroOf(S, X, i, d, x) ==
  LET k == KindOf(S, X, i, d, x)
      r == FieldType(S, X, i, d, x)
      None(z) == [z |-> z, g |-> <<>>, n |-> <<>>]
  IN  CASE x.lab \in {"repeated", "map"} -> None("nil")
        [] k = "enum" -> LET f == S.f[r.f] IN [z |-> "const", g |-> GoImp(f), n |-> ConstName(f, r.d, f.d[r.d].v[1])]
        [] k = "msg" -> IF NoPointer(S.f[i].d[d], x) THEN [z |-> "struct", g |-> GoImp(S.f[r.f]), n |-> GoName(S.f[r.f], r.d)] ELSE None("nil")
        [] k = "bytes" -> None("nil")
        [] k = "bool" -> None("false")
        [] k = "string" -> None("\"\"")
        [] OTHER -> None("0")

FieldQ(S, X, i, d, j, q) ==
  LET f == S.f[i]
      D == f.d[d]
      x == D.f[j]
      nm == MsgNames(D)
      t == GoType(S, X, i, d, x)
      k == KindOf(S, X, i, d, x)
  IN  Say("query", q.t = t, "Go type of a field differs")
      \cup Say("query", q.b = [t EXCEPT !.p = FALSE, !.l = FALSE, !.k = ""], "Go name of a type differs")
      \cup Say("query", q.ptr = (t.p /\ ~t.l /\ t.k = ""), "IsPointer differs")
      \cup Say("query", q.enc = EncOf(k), "encoding type differs")
      \cup Say("query", q.z = ZeroOf(S, X, i, d, x), "zero value differs")
      \cup Say("query", q.wrap = (IF x.o = 0 THEN <<>> ELSE Wrapper(f, d, nm.f[j])), "name of a oneof wrapper differs")
      \cup Say("query", IF x.lab = "map" THEN q.kgo = GoScalar(x.key) /\ q.kenc = ScalarEnc(x.key) ELSE q.kgo = "", "map key differs")
      \cup DirC(x.dirs, q.d)
      \cup OptC([pk |-> x.pk, fp |-> x.fp, enc |-> x.enc, null |-> x.null], q.o)

QueryC(S, X, e) ==
  LET i == e.f
      f == S.f[i]
      Def(d) ==
        LET D == f.d[d]
            E == e.d[d]
            nm == MsgNames(D)
            Reserved(v) == InRes(D.res, v) \/ (D.k = "msg" /\ v \in 19000..19999)
        IN  IF E.k # D.k THEN {<<"query", "definition lost">>}
            ELSE UNION {Say("query", E.res[k].in = Reserved(E.res[k].v), "reserved numbers differ") : k \in {k \in DOMAIN E.res : D.k # "msg" \/ E.res[k].v \in 1..MaxNumber}}
                 \cup (IF D.k = "svc" THEN {} ELSE DirC(D.dirs, E.d))
                 \cup CASE D.k = "msg" ->
                             OptC([unrec |-> D.unrec], E.o)
                             \cup (IF Len(E.f) # Len(D.f) \/ Len(E.of) # Len(D.o) THEN {<<"query", "fields lost or added">>}
                                   ELSE UNION {FieldQ(S, X, i, d, j, E.f[j]) : j \in DOMAIN D.f}
                                        \cup Say("query", E.of = [o \in DOMAIN D.o |-> OneofType(f, d, nm.o[o])], "interface of a oneof differs"))
                      [] D.k = "enum" ->
                             OptC([alias |-> D.alias, prefix |-> D.prefix], E.o)
                             \cup (IF Len(E.vd) # Len(D.v) THEN {<<"query", "values lost or added">>} ELSE UNION {DirC(D.v[j].dirs, E.vd[j]) : j \in DOMAIN D.v})
                      [] OTHER -> {}
  IN  Say("query", Len(e.d) = Len(f.d), "definitions added") \cup UNION {Def(d) : d \in DOMAIN f.d}
      \cup DirC(f.dirs, e.dirs) \cup OptC([fp |-> f.fp, enc |-> f.enc, unrec |-> f.unrec, prefix |-> f.prefix], e.o)
      \cup Say("query", e.links, "definitions, fields, members and types are not linked as declared")

-----------------------------------------------------------------------------
Proj(q, key) == [j \in DOMAIN q |-> q[j][key]]
ByName(q, n) == {q[j] : j \in {j \in DOMAIN q : q[j].n = n}}

\* one struct: expected fields against what is there; returns complaints
StructC(E, q) ==
  IF Len(E.f) # Len(q.f)
  THEN (IF {x \in SeqSet(E.f) : x.c # "plain"} \subseteq SeqSet(q.f) THEN {<<"unknown", "unknown field storage differs">>}
        ELSE {<<"fields", "number of struct fields differs">>})
  ELSE UNION {LET a == E.f[j]
                  b == q.f[j]
              IN  IF b.c # a.c THEN {<<IF "plain" \in {a.c, b.c} THEN "unknown" ELSE "fields", "kind of struct field differs">>}
                  ELSE Say("gonames", b.n = a.n, "name of a struct field differs")
                       \cup Say("names", b.t.g = a.t.g /\ b.t.n = a.t.n, "struct field of another type")
                       \cup Say("pointers", b.t.p = a.t.p, "pointer or not differs")
                       \cup Say("fields", b.t.l = a.t.l /\ b.t.k = a.t.k /\ b.t.b = a.t.b, "Go type differs")
                       \cup Say("fields", b.json = a.json /\ b.jo = a.jo, "json tag differs")
                       \cup Say("fields", a.c = "one" => b.one = a.one, "protobuf_oneof tag differs")
                       \cup Say("fields", a.c \in {"field", "map"} => b.tag = a.tag, "protobuf tag differs")
                       \cup Say("fields", a.c = "map" => b.ktag = a.ktag /\ b.vtag = a.vtag, "map tags differ")
              : j \in DOMAIN E.f}

CodeC(S, X, e) ==
  LET i == e.f
      f == S.f[i]
      funcs == SeqSet(e.funcs)
  IN  IF ~e.ok THEN {<<"compile", "generated code does not parse">>}
      ELSE IF GoClash(S, X) THEN {}
      ELSE Say("gopkg", e.pkg = GoPkg(f), "package clause differs")
           \cup UNION {LET q == ByName(e.structs, E.n)
                       IN  IF Cardinality(q) # 1 THEN {<<"gonames", "struct missing">>} ELSE StructC(E, CHOOSE x \in q : TRUE)
                       : E \in Structs(S, X, i)}
           \cup Say("gonames", Ifaces(S, i) \subseteq SeqSet(e.ifaces), "oneof interface missing")
           \cup UNION {LET g == GoName(f, d)
                           D == f.d[d]
                           mine == SelectSeq(e.consts, LAMBDA c : c.t = g)
                       IN  Say("enums", [n |-> g, b |-> "int32"] \in SeqSet(e.enums), "enum type missing")
                           \cup Say("enums", Proj(mine, "v") = Proj(Consts(f, d), "v"), "values of enum constants differ")
                           \cup Say("enumnames", Proj(mine, "n") = Proj(Consts(f, d), "n"), "names of enum constants differ")
                           \cup LET nm == ByName(e.maps, g \o N("_name"))
                                    vm == ByName(e.maps, g \o N("_value"))
                                IN  IF NoMapping(f, D)
                                    THEN Say("enummaps", nm = {} /\ vm = {} /\ ~\E q \in funcs : q.r = g /\ q.n = N("String"), "enum maps in spite of no_enum_mapping")
                                    ELSE IF Cardinality(nm) # 1 \/ Cardinality(vm) # 1 THEN {<<"enummaps", "enum maps missing">>}
                                    ELSE LET a == CHOOSE q \in nm : TRUE
                                             b == CHOOSE q \in vm : TRUE
                                         IN  Say("enummaps", ~a.byname /\ Distinct(a.kv) /\ SeqSet(a.kv) = NameMap(D), "name map differs")
                                             \cup Say("enummaps", b.byname /\ Distinct(b.kv) /\ SeqSet(b.kv) = ValueMap(D), "value map differs")
                       : d \in Enums(f)}
           \cup UNION {Say(IF E.n = N("String") THEN "enummaps" ELSE "api", E \in {[q EXCEPT !.wr = <<>>] : q \in funcs}, "method missing or different") : E \in Funcs(S, X, i)}
           \cup Say("api", {<<q.r, q.n>> : q \in {q \in funcs : q.ptr /\ Len(q.n) > 3 /\ SubSeq(q.n, 1, 3) = N("Get")}}
                            \subseteq {<<E.r, E.n>> : E \in Funcs(S, X, i)}, "a getter nobody asked for")
           \cup Say("gonames", {q.n : q \in SeqSet(e.structs)} \subseteq {E.n : E \in Structs(S, X, i)} /\ SeqSet(e.ifaces) \subseteq Ifaces(S, i),
                    "types that no definition asks for")
           \cup UNION {LET q == {x \in funcs : x.r = GoName(f, d) /\ x.n = N("XXX_OneofWrappers")}
                       IN  IF Members(f.d[d]) = {} THEN {}
                           ELSE IF Cardinality(q) # 1 THEN {<<"api", "XXX_OneofWrappers missing">>}
                           ELSE Say("api", SeqSet((CHOOSE x \in q : TRUE).wr) = WrappersOf(f, d), "XXX_OneofWrappers differs")
                       : d \in Msgs(f)}
           \cup Say("api", S.kitex \/ ~\E q \in funcs : q.n \in {N("Marshal"), N("Unmarshal")}, "Marshal or Unmarshal nobody asked for")
           \cup UNION {Say("api", S.kitex => /\ \E q \in funcs : q.r = GoName(f, d) /\ q.ptr /\ q.n = N("Marshal") /\ q.nin = 1 /\ q.nret = 2
                                             /\ \E q \in funcs : q.r = GoName(f, d) /\ q.ptr /\ q.n = N("Unmarshal") /\ q.nin = 1 /\ q.nret = 1, "Marshal or Unmarshal missing") : d \in Msgs(f)}

-----------------------------------------------------------------------------
\* where the code of a file goes
PathC(S, e) ==
  LET f == S.f[e.f]
  IN  Say("paths", e.byimport = <<N("out")>> \o GoImp(f) \o <<e.base>>, "output path by import differs")
      \cup Say("paths", e.byrel = e.src, "source relative output path differs")

\* the command line tool wrote exactly the code of the requested file, at its place
CliC(S, e) ==
  Say("cli", e.ok, "prutalgen failed")
  \cup (IF ~e.ok THEN {} ELSE Say("cli", e.files = e.want /\ e.at, "prutalgen wrote other files") \cup Say("cli", e.same, "prutalgen wrote other code"))

Complaints(e, X, j) ==
  LET S == Sess
  IN  CASE e.op = "load" -> LoadC(S, X, j, e)
        [] e.op = "crash" -> {<<"crash", e.what>>}
        [] j # "accept" -> {}
        [] e.op = "ast" -> AstC(S, X, e)
        [] e.op = "query" -> QueryC(S, X, e)
        [] e.op = "code" -> CodeC(S, X, e)
        [] e.op = "path" -> PathC(S, e)
        [] e.op = "cli" -> CliC(S, e)
        [] e.op = "compile" -> Say("compile", MustCompile(S, X) => e.ok, "generated code does not compile")
        [] e.op = "again" -> Say("layout", e.same, "another layout of the files gives other code")
        [] OTHER -> {<<"crash", "event">>}

Classes ==
  CASE Prop = "G01" -> {"names", "accept", "reject", "crash"}
    [] Prop = "G02" -> {"fields", "pointers", "decls", "syntax", "crash"}
    [] Prop = "G03" -> {"accept", "reject", "crash"}
    [] Prop = "G04" -> {"imports", "gopkg", "paths", "cli", "accept", "reject", "crash"}
    [] Prop = "G05" -> {"compile", "gonames", "api", "gopkg", "crash"}
    [] Prop = "G07" -> {"enums", "enumnames", "enummaps", "crash"}
    [] Prop = "G09" -> {"pointers", "unknown", "enumnames", "enummaps", "crash"}
    [] Prop = "G10" -> {"layout", "crash"}
    [] Prop = "G13" -> {"query", "decls", "crash"}
    [] OTHER -> {"query", "names", "accept", "reject", "fields", "pointers", "decls", "syntax", "imports", "gopkg", "paths", "cli", "compile", "gonames",
                 "api", "enums", "enumnames", "enummaps", "unknown", "layout", "crash"}

Next ==
  /\ l <= Len(Ev(s))
  /\ LET e == Ev(s)[l]
         X == TLCEval(Ctx(Sess))
         j == TLCEval(Judge(Sess, X))
         C == TLCEval({c \in Complaints(e, X, j) : c[1] \in Classes})
     IN  /\ \A c \in C : PrintT(<<"REJECT", s, l, e.op, IF c[1] = "crash" THEN "crash" ELSE c[2]>>)
         /\ IF e.op = "load" THEN PrintT(<<"STAT", "load", j, e.ok>>) ELSE TRUE
         /\ IF e.op = "compile" /\ j = "accept" THEN PrintT(<<"STAT", "compile", MustCompile(Sess, X), e.ok>>) ELSE TRUE
  /\ l' = l + 1
  /\ s' = s

Spec == Init /\ [][Next]_<<s, l>>
=============================================================================
