------------------------------- MODULE Grammar -------------------------------
(***************************************************************************)
(* The language of .proto files: characters to tokens, tokens to files.     *)
(*                                                                         *)
(* A text is a sequence of code points.  Lex(text, p) is the token at p:    *)
(* the longest there is.  The grammar is data (Strict); a reader is the set *)
(* of stacks of symbols still to come, advanced token by token (After).  A  *)
(* text is a file when some stack is empty at its end.                      *)
(*                                                                         *)
(* Where protoc reads more than prutalgen's documented grammar (Wide: short *)
(* escapes, groups, reserved names, ...), or the two may disagree, a text   *)
(* is neither in the language nor out of it: either answer will do.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Keywords == {"syntax", "edition", "import", "weak", "public", "package", "option", "optional", "required", "repeated",
             "oneof", "map", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32",
             "sfixed64", "bool", "string", "double", "float", "bytes", "reserved", "extensions", "to", "max", "enum",
             "message", "service", "extend", "rpc", "stream", "returns"}
Loose == {"group", "export", "local"}        \* plain names in prutalgen, words in (some) protoc
Symbols == {";", "=", "(", ")", "[", "]", "{", "}", "<", ">", ".", ",", ":", "+", "-"}
Others == {"ID", "INT", "FLOAT", "STR", "BOOL", "inf"}
Tokens == Keywords \cup Loose \cup Symbols \cup Others

-----------------------------------------------------------------------------
(* characters *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Chr(c) == SubSeq(Ascii, c - 31, c - 31)

Digit(c) == c \in 48..57
Octal(c) == c \in 48..55
Hex(c) == Digit(c) \/ c \in 65..70 \/ c \in 97..102
Letter(c) == c \in 65..90 \/ c \in 97..122 \/ c = 95
Space(c) == c \in {9, 10, 12, 13, 32}

At(t, p) == IF p \in DOMAIN t THEN t[p] ELSE -1      \* -1: the end

\* the first position from p on where the characters of a class end
RECURSIVE Digits(_, _), Octals(_, _), Hexes(_, _), Word(_, _), Line(_, _), Block(_, _)
Digits(t, p) == IF Digit(At(t, p)) THEN Digits(t, p + 1) ELSE p
Octals(t, p) == IF Octal(At(t, p)) THEN Octals(t, p + 1) ELSE p
Hexes(t, p) == IF Hex(At(t, p)) THEN Hexes(t, p + 1) ELSE p
Word(t, p) == IF Letter(At(t, p)) \/ Digit(At(t, p)) THEN Word(t, p + 1) ELSE p
Line(t, p) == IF At(t, p) \in {-1, 10, 13} THEN p ELSE Line(t, p + 1)
\* behind the end of a block comment, or 0
Block(t, p) == IF p > Len(t) THEN 0 ELSE IF t[p] = 42 /\ At(t, p + 1) = 47 THEN p + 2 ELSE Block(t, p + 1)

\* behind the exponent at p, if there is one
Expo(t, p) == IF At(t, p) \notin {69, 101} THEN p
              ELSE LET q == IF At(t, p + 1) \in {43, 45} THEN p + 2 ELSE p + 1
                   IN  IF Digit(At(t, q)) THEN Digits(t, q) ELSE p

RECURSIVE Name(_, _, _)
Name(t, p, q) == IF p = q THEN "" ELSE Chr(t[p]) \o Name(t, p + 1, q)

\* what a token is: its kind, the position behind it, whether readers may disagree on it.  "?" is none.
Tok(k, e, grey) == [k |-> k, e |-> e, grey |-> grey]

\* strings: i is where the next character is, q the quote, g whether something grey was met
RECURSIVE Str(_, _, _, _)
Str(t, i, q, g) ==
  LET c == At(t, i)
      d == At(t, i + 1)
  IN  CASE c = -1 \/ c = 10 \/ c = 0 -> Tok("?", 0, g)
        [] c = q -> Tok("STR", i + 1, g)
        [] c # 92 -> Str(t, i + 1, q, g)
        [] d \in {97, 98, 102, 110, 114, 116, 118, 92, 39, 34} -> Str(t, i + 2, q, g)
        [] d \in {120, 88} /\ Hex(At(t, i + 2)) -> Str(t, i + 2, q, g \/ ~Hex(At(t, i + 3)))
        [] Octal(d) -> Str(t, i + 2, q, g \/ d > 51 \/ ~(Octal(At(t, i + 2)) /\ Octal(At(t, i + 3))))
        [] d \in {63, 117, 85} -> Str(t, i + 2, q, TRUE)
        [] OTHER -> Tok("?", 0, g)

\* spaces and comments; the position behind them, 0 if a comment does not end
RECURSIVE Skip(_, _)
Skip(t, p) ==
  LET c == At(t, p)
  IN  CASE Space(c) -> Skip(t, p + 1)
        [] c = 47 /\ At(t, p + 1) = 47 -> Skip(t, Line(t, p + 2))
        [] c = 47 /\ At(t, p + 1) = 42 -> LET e == Block(t, p + 2) IN IF e = 0 THEN 0 ELSE Skip(t, e)
        [] OTHER -> p

\* numbers and what follows: protoc wants something between a number and a name
Num(t, k, e) == Tok(k, e, Letter(At(t, e)) \/ Digit(At(t, e)) \/ At(t, e) = 46)

Lex(t, p) ==
  LET c == At(t, p)
  IN  CASE c = -1 -> Tok("EOF", p, FALSE)
        [] Letter(c) ->
             LET e == Word(t, p)
                 w == IF e - p > 10 THEN "ID" ELSE Name(t, p, e)
             IN  Tok(CASE w \in Keywords \cup Loose -> w
                       [] w \in {"true", "false"} -> "BOOL"
                       [] w \in {"inf", "nan"} -> "inf"
                       [] OTHER -> "ID", e, FALSE)
        [] Digit(c) ->
             LET d == Digits(t, p)
                 f == IF At(t, d) = 46 THEN Expo(t, Digits(t, d + 1)) ELSE IF Expo(t, d) # d THEN Expo(t, d) ELSE 0
                 n == IF c # 48 THEN d
                      ELSE IF At(t, p + 1) \in {120, 88} /\ Hex(At(t, p + 2)) THEN Hexes(t, p + 2)
                      ELSE Octals(t, p)
             IN  IF f > n THEN Num(t, "FLOAT", f) ELSE Num(t, "INT", n)
        [] c = 46 /\ Digit(At(t, p + 1)) -> Num(t, "FLOAT", Expo(t, Digits(t, p + 1)))
        [] c \in {34, 39} -> Str(t, p + 1, c, FALSE)
        [] c \in 33..126 /\ Chr(c) \in Symbols -> Tok(Chr(c), p + 1, FALSE)
        [] c = 11 -> Tok("?", 0, TRUE)          \* a vertical tab: space to protoc
        [] OTHER -> Tok("?", 0, FALSE)

-----------------------------------------------------------------------------
(* the grammar *)
Scalars == {"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
            "sfixed32", "sfixed64", "bool", "string", "bytes"}

\* symbols that stand for one token of several
Class == [
  ident  |-> {"ID", "BOOL"} \cup (Keywords \ {"required"}) \cup Loose,
  label  |-> {"optional", "required", "repeated"},
  scalar |-> Scalars,
  key    |-> Scalars \ {"double", "float", "bytes"},
  sign   |-> {"+", "-"},
  real   |-> {"FLOAT", "inf"},
  syn    |-> {"syntax", "edition"},
  access |-> {"weak", "public"},
  sep    |-> {";", ","},
  any    |-> {} ]
\* more that protoc has
WideClass == [
  ident  |-> {"required", "inf"},
  label  |-> {}, scalar |-> {}, key |-> {}, sign |-> {}, real |-> {}, syn |-> {},
  access |-> {"option"},
  sep    |-> {},
  any    |-> Tokens \ {"{", "}"} ]

Strict == [
  file      |-> {<<"edition", "decls">>, <<"decls">>},
  edition   |-> {<<"syn", "=", "strs", ";">>},
  decls     |-> {<<>>, <<"decl", "decls">>},
  decl      |-> {<<"import", "strs", ";">>, <<"import", "access", "strs", ";">>, <<"package", "names", ";">>,
                 <<"option_">>, <<"messageD">>, <<"enumD">>, <<"extendD">>, <<"serviceD">>, <<";">>},
  strs      |-> {<<"STR">>, <<"STR", "strs">>},
  names     |-> {<<"ident">>, <<"ident", ".", "names">>},
  type      |-> {<<"names">>, <<".", "names">>},
  option_   |-> {<<"option", "optName", "=", "constant", ";">>},
  optName   |-> {<<"names">>, <<"(", "names", ")">>, <<"(", "names", ")", ".", "names">>},
  constant  |-> {<<"names">>, <<"INT">>, <<"sign", "INT">>, <<"real">>, <<"sign", "real">>, <<"strs">>, <<"BOOL">>, <<"block">>},
  block     |-> {<<"{", "entries", "}">>},
  entries   |-> {<<>>, <<"ident", ":", "constant", "entries">>, <<"ident", ":", "constant", "sep", "entries">>},
  opts      |-> {<<>>, <<"[", "optItems", "]">>},
  optItems  |-> {<<"optItem">>, <<"optItem", ",", "optItems">>},
  optItem   |-> {<<"optName", "=", "constant">>},
  fieldType |-> {<<"scalar">>, <<"type">>},
  oneField  |-> {<<"fieldType", "ident", "=", "INT", "opts", ";">>},
  field     |-> {<<"oneField">>, <<"label", "oneField">>},
  messageD  |-> {<<"message", "ident", "{", "elements", "}">>},
  elements  |-> {<<>>, <<"element", "elements">>},
  element   |-> {<<"field">>, <<"enumD">>, <<"messageD">>, <<"extendD">>, <<"option_">>, <<"oneofD">>, <<"mapF">>,
                 <<"reservedD">>, <<"extensions", "ranges", "opts", ";">>, <<";">>},
  oneofD    |-> {<<"oneof", "ident", "{", "members", "}">>},
  members   |-> {<<>>, <<"member", "members">>},
  member    |-> {<<"option_">>, <<"oneField">>, <<";">>},
  mapF      |-> {<<"map", "<", "key", ",", "fieldType", ">", "ident", "=", "INT", "opts", ";">>},
  reservedD |-> {<<"reserved", "ranges", ";">>, <<"reserved", "strList", ";">>},
  ranges    |-> {<<"range">>, <<"range", ",", "ranges">>},
  range     |-> {<<"INT">>, <<"INT", "to", "INT">>, <<"INT", "to", "max">>},
  strList   |-> {<<"strs">>, <<"strs", ",", "strList">>},
  enumD     |-> {<<"enum", "ident", "{", "values", "}">>},
  values    |-> {<<>>, <<"value", "values">>},
  value     |-> {<<"option_">>, <<"ident", "=", "INT", "opts", ";">>, <<"ident", "=", "-", "INT", "opts", ";">>, <<"reservedD">>, <<";">>},
  extendD   |-> {<<"extend", "type", "{", "extFields", "}">>},
  extFields |-> {<<>>, <<"field", "extFields">>, <<";", "extFields">>},
  serviceD  |-> {<<"service", "ident", "{", "methods", "}">>},
  methods   |-> {<<>>, <<"method", "methods">>},
  method    |-> {<<"option_">>, <<"rpc", "ident", "rpcArg", "returns", "rpcArg", "rpcEnd">>, <<";">>},
  rpcArg    |-> {<<"(", "type", ")">>, <<"(", "stream", "type", ")">>},
  rpcEnd    |-> {<<";">>, <<"{", "rpcOpts", "}">>},
  rpcOpts   |-> {<<>>, <<"option_", "rpcOpts">>, <<";", "rpcOpts">>},
  \* only used by what protoc reads in addition
  anys      |-> {},
  groupD    |-> {},
  optParts  |-> {},
  optPart   |-> {},
  idents    |-> {} ]

None == [x \in DOMAIN Strict |-> {}]
Wide == [None EXCEPT
  !.block    = {<<"{", "anys", "}">>},
  !.anys     = {<<>>, <<"any", "anys">>, <<"{", "anys", "}", "anys">>},
  !.optName  = {<<"optParts">>},
  !.optParts = {<<"optPart">>, <<"optPart", ".", "optParts">>},
  !.optPart  = {<<"ident">>, <<"(", "type", ")">>},
  !.groupD   = {<<"group", "ident", "=", "INT", "opts", "{", "elements", "}">>},
  !.field    = {<<"groupD">>, <<"label", "groupD">>},
  !.member   = {<<"groupD">>},
  !.value    = {<<"ident", "=", "INT", "opts", ";">>},
  !.reservedD = {<<"reserved", "idents", ";">>},
  !.range    = {<<"-", "INT">>, <<"-", "INT", "to", "INT">>, <<"-", "INT", "to", "-", "INT">>, <<"-", "INT", "to", "max">>},
  !.idents   = {<<"ident">>, <<"ident", ",", "idents">>},
  !.decl     = {<<"export", "messageD">>, <<"local", "messageD">>, <<"export", "enumD">>, <<"local", "enumD">>},
  !.element  = {<<"export", "messageD">>, <<"local", "messageD">>, <<"export", "enumD">>, <<"local", "enumD">>} ]

NonTerms == DOMAIN Strict
Classes == DOMAIN Class

\* FIRST sets and which symbols can be empty, by iteration to a fixpoint; over both grammars
All(x) == Strict[x] \cup Wide[x]
RECURSIVE EmptyFix(_)
EmptyFix(E) == LET F == {x \in NonTerms : \E a \in All(x) : \A i \in DOMAIN a : a[i] \in E} IN IF F = E THEN E ELSE EmptyFix(F)
Nullable == EmptyFix({})

FirstOf(F, y) == IF y \in NonTerms THEN F[y] ELSE IF y \in Classes THEN Class[y] \cup WideClass[y] ELSE {y}
RECURSIVE FirstSeq(_, _)
FirstSeq(F, a) == IF a = <<>> THEN {} ELSE FirstOf(F, a[1]) \cup (IF a[1] \in Nullable THEN FirstSeq(F, Tail(a)) ELSE {})
RECURSIVE FirstFix(_)
FirstFix(F) == LET G == [x \in NonTerms |-> UNION {FirstSeq(F, a) : a \in All(x)}] IN IF G = F THEN F ELSE FirstFix(G)
First == FirstFix([x \in NonTerms |-> {}])

\* a reader: stacks with a mark, TRUE where only the strict grammar was used
Start == {<<TRUE, <<"file">>>>}

CanStart(a, k) == k \in FirstSeq(First, a)
AllNull(a) == \A i \in DOMAIN a : a[i] \in Nullable

\* the stacks after token k, from one of them
RECURSIVE Adv(_, _, _)
Adv(ok, a, k) ==
  IF a = <<>> THEN {}
  ELSE LET x == a[1]
           r == Tail(a)
       IN  CASE x \in Classes -> IF k \in Class[x] THEN {<<ok, r>>} ELSE IF k \in WideClass[x] THEN {<<FALSE, r>>} ELSE {}
             [] x \in NonTerms ->
                  UNION {IF CanStart(b \o r, k) THEN Adv(ok, b \o r, k) ELSE {} : b \in Strict[x]}
                  \cup UNION {IF CanStart(b \o r, k) THEN Adv(FALSE, b \o r, k) ELSE {} : b \in Wide[x]}
             [] OTHER -> IF x = k THEN {<<ok, r>>} ELSE {}

\* a stack that is there strictly need not be there otherwise too
Prune(S) == {y \in S : y[1] \/ <<TRUE, y[2]>> \notin S}
After(S, k) == Prune(UNION {Adv(y[1], y[2], k) : y \in S})

RECURSIVE Ends(_, _)
Ends(ok, a) == IF a = <<>> THEN {ok}
               ELSE IF a[1] \notin NonTerms THEN {}
               ELSE UNION ({Ends(ok, b \o Tail(a)) : b \in {b \in Strict[a[1]] : AllNull(b)}} \cup {Ends(FALSE, b \o Tail(a)) : b \in {b \in Wide[a[1]] : AllNull(b)}})
Final(S) == UNION {Ends(y[1], y[2]) : y \in S}

\* "in", "out" or "grey", for a reader at the end of a text
Verdict(S, grey) == IF Final(S) = {} THEN "out" ELSE IF TRUE \in Final(S) /\ ~grey THEN "in" ELSE "grey"

\* a byte order mark may come first
Begin(t) == IF At(t, 1) = 65279 THEN 2 ELSE 1
=============================================================================
