-------------------------------- MODULE Notes ---------------------------------
(***************************************************************************)
(* Which definition a comment or an option of a .proto file belongs to.     *)
(* A file is read from left to right as items:                              *)
(*   [op |-> "c", t, line]      comment number t, // ... or /* ... */       *)
(*   [op |-> "nl", n]           white space with n >= 1 line ends           *)
(*   [op |-> "open", d, k]      the first token of definition d, of kind k  *)
(*   [op |-> "body"]            the { of the innermost open definition      *)
(*   [op |-> "end"]             its last token                              *)
(*   [op |-> "opt", n, v, br]   an option name = value; br: written [...];  *)
(*                              any: a value whose text is left open        *)
(*   [op |-> "tok"]             any other statement; a file has one first   *)
(* The comments that lead up to a definition without an empty line between  *)
(* are its head; the first comment behind its end on the same line is its   *)
(* inline comment; all others belong to nobody.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

\* run: comments that would lead up to a definition opened now; prev: the definition that has just ended on this line;
\* inn: inside a definition's own tokens; pos: what may come next; file: the comments that lead up to the first statement
New == [run |-> <<>>, prev |-> 0, stack |-> <<>>, inn |-> FALSE, pos |-> "bol",
        file |-> <<>>, first |-> TRUE, head |-> <<>>, inl |-> <<>>, kind |-> <<>>, opts |-> <<<<>>>>]

Top(st) == IF st.stack = <<>> THEN 0 ELSE st.stack[Len(st.stack)]

\* What is written in a way that leaves no doubt what a comment belongs to.
Clear(st, e) ==
  CASE e.op = "c" -> st.pos \notin {"line", "done"} /\ (st.inn \/ st.pos # "tok")
    [] e.op = "nl" -> e.n > 0 /\ st.pos # "nl"
    [] e.op = "open" -> ~st.first /\ ~st.inn /\ st.pos \notin {"line", "done"} /\ e.d = Len(st.head) + 1
    [] e.op = "body" -> st.inn /\ st.pos # "line"
    [] e.op = "end" -> st.stack # <<>> /\ st.pos \notin {"line", "done"}
    [] e.op = "opt" -> st.pos \notin {"line", "done"} /\ (e.br <=> st.inn) /\ ~st.first
    [] e.op = "tok" -> ~st.inn /\ st.pos \notin {"line", "done"}
    [] OTHER -> FALSE

Step(st, e) ==
  CASE e.op = "c" -> IF st.prev # 0
                     THEN [st EXCEPT !.inl[st.prev] = <<e.t>>, !.prev = 0, !.pos = "done"]
                     ELSE [st EXCEPT !.run = Append(@, e.t), !.pos = IF e.line THEN "line" ELSE "c"]
    [] e.op = "nl" -> [st EXCEPT !.run = IF e.n > 1 THEN <<>> ELSE @, !.prev = 0, !.pos = "nl"]
    [] e.op = "open" -> [st EXCEPT !.head = Append(@, st.run), !.inl = Append(@, <<>>), !.kind = Append(@, e.k), !.opts = Append(@, <<>>),
                                   !.stack = Append(@, e.d), !.run = <<>>, !.prev = 0, !.inn = TRUE, !.pos = "tok"]
    [] e.op = "body" -> [st EXCEPT !.inn = FALSE, !.run = <<>>, !.pos = "tok"]
    [] e.op = "end" -> [st EXCEPT !.inn = FALSE, !.run = <<>>, !.prev = Top(st), !.pos = "end", !.stack = SubSeq(@, 1, Len(@) - 1)]
    [] e.op = "opt" -> [st EXCEPT !.opts[Top(st) + 1] = Append(@, [n |-> e.n, v |-> e.v, any |-> e.any]), !.run = <<>>, !.prev = 0, !.pos = "tok"]
    [] e.op = "tok" -> [st EXCEPT !.run = <<>>, !.prev = 0, !.pos = "tok", !.first = FALSE, !.file = IF st.first THEN st.run ELSE @]

-----------------------------------------------------------------------------
(* Oneofs have no comments of their own; those of services and rpcs do not   *)
(* go into Go code.                                                          *)

HasNotes(k) == k # "oneof"
InCode(k) == k \in {"msg", "enum", "field", "member", "value"}

Attached(st) == {d \in DOMAIN st.head : HasNotes(st.kind[d])}
HeadOf(st, d) == IF HasNotes(st.kind[d]) THEN st.head[d] ELSE <<>>
InlOf(st, d) == IF HasNotes(st.kind[d]) THEN st.inl[d] ELSE <<>>

SeqToSet(q) == {q[i] : i \in DOMAIN q}
CodeNotes(st) == UNION {SeqToSet(HeadOf(st, d)) \cup SeqToSet(InlOf(st, d)) : d \in {d \in DOMAIN st.head : InCode(st.kind[d])}}

\* the directives that the comments of d give, com[t] being those of comment t
RECURSIVE Dirs(_, _)
Dirs(q, com) == IF q = <<>> THEN <<>> ELSE com[q[1]] \o Dirs(Tail(q), com)

-----------------------------------------------------------------------------
(* Constants: a string is written as pieces, each of which stands for bytes. *)

Utf8(c) ==
  LET Cont(k) == 128 + ((c \div k) % 64)
  IN  CASE c < 128 -> <<c>>
        [] c < 2048 -> <<192 + (c \div 64), Cont(1)>>
        [] c < 65536 -> <<224 + (c \div 4096), Cont(64), Cont(1)>>
        [] OTHER -> <<240 + (c \div 262144), Cont(4096), Cont(64), Cont(1)>>

\* "raw" stands for its character code as a byte, "esc" for \n and the like, "num" for \ooo and \xhh, "uni" for a character that is written as it is
Piece(p) ==
  CASE p.f \in {"raw", "num"} -> <<p.c>>
    [] p.f = "uni" -> Utf8(p.c)
    [] p.f = "esc" -> CASE p.c = 97 -> <<7>> [] p.c = 98 -> <<8>> [] p.c = 102 -> <<12>> [] p.c = 110 -> <<10>>
                        [] p.c = 114 -> <<13>> [] p.c = 116 -> <<9>> [] p.c = 118 -> <<11>> [] OTHER -> <<p.c>>   \* \\ \' \" \?
RECURSIVE Const(_)
Const(v) == IF v = <<>> THEN <<>> ELSE Piece(v[1]) \o Const(Tail(v))
=============================================================================
