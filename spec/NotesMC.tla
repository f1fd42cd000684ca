------------------------------- MODULE NotesMC -------------------------------
(***************************************************************************)
(* Notes.tla explored exhaustively: every clear layout of at most           *)
(* Job.max letters around the definitions of each kind, where               *)
(*   C  a line comment, B a block comment, 1 a line end, 2 an empty line,   *)
(*   D  a definition, T another statement.                                  *)
(* What the specification says step by step is compared with what it says   *)
(* of a layout as a whole (Declared); every layout is also printed, the     *)
(* driver writes it, and NotesTrace.tla validates what comes of it.         *)
(***************************************************************************)
EXTENDS Notes, TLC, Json, IOUtils

Job == JsonDeserialize(IOEnv.JOB)

VARIABLES k,        \* the kind of the definitions
          w,        \* the layout
          st,       \* the state of Notes.tla
          com       \* for each letter of w the number of its comment, or of its definition
vars == <<k, w, st, com>>

Kinds == {"field", "value", "member", "rpc", "top", "nested"}
Letters == {"C", "B", "1", "2", "D", "T"}

Nl(n) == [op |-> "nl", n |-> n]
Outer(kk) == CASE kk = "field" -> "msg" [] kk = "value" -> "enum" [] kk = "member" -> "oneof" [] kk = "rpc" -> "service" [] kk = "nested" -> "msg" [] OTHER -> ""
Made(kk) == IF kk \in {"top", "nested"} THEN "msg" ELSE kk

RECURSIVE Run(_, _)
Run(s, es) == IF es = <<>> THEN s ELSE Run(IF Clear(s, es[1]) THEN Step(s, es[1]) ELSE Assert(FALSE, es[1]), Tail(es))

Open(d, kk) == <<[op |-> "open", d |-> d, k |-> kk], [op |-> "body"], Nl(1)>>
Def(d, kk) == IF kk = "msg" THEN <<[op |-> "open", d |-> d, k |-> kk], [op |-> "body"], [op |-> "end"]>>
              ELSE <<[op |-> "open", d |-> d, k |-> kk], [op |-> "end"]>>

Before(kk) ==
  <<[op |-> "tok"], Nl(1)>>
  \o (IF kk = "member" THEN Open(1, "msg") ELSE <<>>)
  \o (IF Outer(kk) = "" THEN <<>> ELSE Open(IF kk = "member" THEN 2 ELSE 1, Outer(kk)))
  \o (IF kk \in {"value", "member"} THEN Def(IF kk = "member" THEN 3 ELSE 2, kk) \o <<Nl(1)>> ELSE <<>>)

Cs(x) == Cardinality({i \in DOMAIN x : x[i] \in {"C", "B"}})

Items(c) ==
  CASE c \in {"C", "B"} -> <<[op |-> "c", t |-> Cs(w) + 1, line |-> c = "C"]>>
    [] c = "1" -> <<Nl(1)>>
    [] c = "2" -> <<Nl(2)>>
    [] c = "T" -> <<[op |-> "tok"]>>
    [] c = "D" -> Def(Len(st.head) + 1, Made(k))

Init == k \in Kinds /\ w = <<>> /\ com = <<>> /\ st = Run(New, Before(k))
Next ==
  /\ Len(w) < Job.max
  /\ \E c \in Letters :
       /\ Clear(st, Items(c)[1])
       /\ w' = Append(w, c)
       /\ st' = Run(st, Items(c))
       /\ com' = Append(com, CASE c \in {"C", "B"} -> Cs(w) + 1 [] c = "D" -> Len(st.head) + 1 [] OTHER -> 0)
       /\ k' = k
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
IsC(i) == w[i] \in {"C", "B"}
Defs == {j \in DOMAIN w : w[j] = "D"}

\* behind a definition, on its line
Inline(i, j) == IsC(i) /\ w[j] = "D" /\ i = j + 1
\* in front of it, with nothing but comments and line ends between, and not behind another
Leads(i, j) == IsC(i) /\ w[j] = "D" /\ i < j /\ (\A m \in i..(j - 1) : IsC(m) \/ w[m] = "1") /\ ~(\E m \in Defs : Inline(i, m))

Declared ==
  \A j \in Defs : LET d == com[j]
                  IN  /\ SeqToSet(st.head[d]) = {com[i] : i \in {i \in DOMAIN w : Leads(i, j)}}
                      /\ \A x, y \in DOMAIN st.head[d] : x < y => st.head[d][x] < st.head[d][y]     \* in the order of the file
                      /\ SeqToSet(st.inl[d]) = {com[i] : i \in {i \in DOMAIN w : Inline(i, j)}}

\* a comment has at most one owner, in one place
Once ==
  \A t \in 1..Cs(w) : Cardinality({<<d, p>> \in (DOMAIN st.head) \X {"head", "inl"} :
                                   t \in SeqToSet(IF p = "head" THEN st.head[d] ELSE st.inl[d])}) <= 1

\* definitions that were there before the layout get nothing of it
Others == \A d \in DOMAIN st.head : (\A j \in Defs : com[j] # d) => st.head[d] = <<>> /\ st.inl[d] = <<>>

RECURSIVE Word(_)
Word(x) == IF x = <<>> THEN "" ELSE x[1] \o Word(Tail(x))

\* those worth performing: a line end at the end adds nothing
Plan == (Cs(w) > 0 /\ Defs # {} /\ w[Len(w)] \notin {"1", "2"}) => PrintT("PLAN" \o k \o ":" \o Word(w))
=============================================================================
