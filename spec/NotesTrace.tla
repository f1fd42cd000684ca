------------------------------ MODULE NotesTrace -----------------------------
(***************************************************************************)
(* Files read by the real prutalgen against Notes.tla: the items a file was *)
(* written from, then what the loader and the generated code have of its    *)
(* comments, directives and options.                                        *)
(***************************************************************************)
EXTENDS Notes, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l, st
Ev == Trace[s].ev
Com == Trace[s].S

Init == s \in DOMAIN Trace /\ l = 1 /\ st = New

Say(ok, what) == IF ok THEN {} ELSE {what}
SameOpts(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in DOMAIN a : a[i].n = b[i].n /\ (a[i].any \/ Const(a[i].v) = b[i].v)

\* without repetitions, in ascending order
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o Ascending(S \ {m})

FileC(e) ==
  IF ~e.ok THEN {"a valid file rejected"}
  ELSE IF ~e.parses THEN {"the generated code does not parse"}
  ELSE Say(e.n = Len(st.head) /\ Len(e.defs) = Len(st.head), "definitions lost or added")
       \cup Say(SameOpts(st.opts[1], e.fopts), "options of a file differ")
       \cup Say(e.fdirs = Dirs(st.file, Com), "directives of a file differ")
       \cup UNION {LET o == e.defs[d]
                       k == st.kind[d]
                   IN  IF ~o.ok THEN {"a definition is lost"}
                       ELSE Say(o.head = HeadOf(st, d), "head comment of a " \o k \o " differs")
                            \cup Say(o.inl = InlOf(st, d), "inline comment of a " \o k \o " differs")
                            \cup Say(HasNotes(k) => o.dirs = Dirs(HeadOf(st, d) \o InlOf(st, d), Com), "directives of a " \o k \o " differ")
                            \cup Say(SameOpts(st.opts[d + 1], o.opts), "options of a " \o k \o " differ")
                            \cup (IF ~InCode(k) THEN {}
                                  ELSE Say(o.go, "a declaration is missing in the code")
                                       \cup Say(o.go => o.doc = HeadOf(st, d), "comment above the Go declaration of a " \o k \o " differs")
                                       \cup Say(o.go => o.line = InlOf(st, d), "comment behind the Go declaration of a " \o k \o " differs"))
                   : d \in DOMAIN st.head}
       \cup Say(e.all = Ascending(CodeNotes(st)), "comments in the code that belong nowhere, or are missing")

Next ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l]
     IN  CASE e.op = "file" -> /\ \A c \in FileC(e) : PrintT(<<"REJECT", s, l, e.op, c>>)
                               /\ PrintT(<<"STAT", "file", e.ok, IF Len(Com) > 9 THEN "many" ELSE "few">>)
                               /\ st' = st
           [] e.op = "crash" -> PrintT(<<"REJECT", s, l, e.op, "crash">>) /\ st' = st
           [] OTHER -> /\ IF Clear(st, e) THEN TRUE ELSE PrintT(<<"REJECT", s, l, e.op, "HARNESS">>)
                       /\ st' = Step(st, e)
  /\ l' = l + 1 /\ s' = s

Spec == Init /\ [][Next]_<<s, l, st>>
=============================================================================
