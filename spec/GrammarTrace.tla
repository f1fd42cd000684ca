---------------------------- MODULE GrammarTrace ----------------------------
(***************************************************************************)
(* Texts given to the real prutalgen against Grammar.tla: each is read      *)
(* token by token, then what prutalgen made of it is judged.                *)
(***************************************************************************)
EXTENDS Grammar, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s,      \* the session
          p,      \* where in the text; 0 when done
          rd,     \* the reader
          grey,   \* something was met that readers differ on
          n       \* tokens
vars == <<s, p, rd, grey, n>>
Ev == Trace[s].ev[1]
T == Ev.text

Init == s \in DOMAIN Trace /\ p = (IF Ev.op = "text" THEN Begin(T) ELSE 1) /\ rd = Start /\ grey = FALSE /\ n = 0

Say(ok, what) == IF ok THEN {} ELSE {what}
\* r: what a command answered; ok: whether the file is one to accept
RunC(r, ok1) ==
  LET ok == ok1 /\ ~r.blocked      \* blocked: where the code would go something else is
  IN
  Say(~r.crash, "the command crashes")
  \cup Say(ok <=> r.code = 0, "the command's exit status is not that of its work")
  \cup Say(~ok => r.files = 0, "files written for a file refused")
  \cup Say(~ok => r.told, "refused without a message")
  \cup Say(ok => r.files = 1, "no file written for a file accepted")

Judge(v, e) ==
  Say(v = "out" => ~e.ok, "not in the language, but accepted")
  \cup Say(v = "in" => ~e.syntax, "in the language, but refused for its syntax")
  \cup Say(e.valid => (v # "in" \/ e.ok), "a valid file refused")
  \cup Say(e.valid => v # "out", "HARNESS")
  \cup Say(e.ok => e.parses, "accepted, but the code does not parse")
  \cup UNION {RunC(e.runs[i], e.ok) : i \in DOMAIN e.runs}

Size == IF n > 400 THEN "long" ELSE IF n > 40 THEN "middle" ELSE "short"
Done(v) == /\ \A c \in Judge(v, Ev) : PrintT(<<"REJECT", s, 1, "text", c>>)
           /\ PrintT(<<"STAT", "text", v, IF Ev.ok THEN "accepted" ELSE IF Ev.syntax THEN "syntax" ELSE "refused", Ev.how, Size>>)
           /\ p' = 0 /\ UNCHANGED <<rd, grey, n>>

Next ==
  /\ p > 0
  /\ s' = s
  /\ IF Ev.op = "crash" THEN /\ PrintT(<<"REJECT", s, 1, "crash", "crash">>)
                             /\ PrintT(<<"STAT", "text", "crash">>)
                             /\ p' = 0 /\ UNCHANGED <<rd, grey, n>>
     ELSE LET q == Skip(T, p)
          IN  IF q = 0 THEN Done(IF grey THEN "grey" ELSE "out")
              ELSE LET t == Lex(T, q)
                   IN  CASE t.k = "EOF" -> Done(Verdict(rd, grey))
                         [] t.k = "?" -> Done(IF t.grey \/ grey THEN "grey" ELSE "out")
                         [] OTHER -> LET r == After(rd, t.k)
                                     IN  IF r = {} THEN Done("out")
                                         ELSE p' = t.e /\ rd' = r /\ grey' = (grey \/ t.grey) /\ n' = n + 1

Spec == Init /\ [][Next]_vars
=============================================================================
