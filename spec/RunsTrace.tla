------------------------------- MODULE RunsTrace ----------------------------
(***************************************************************************)
(* Sessions of the real prutalgen against Runs.tla and CodeWriter.tla.      *)
(***************************************************************************)
EXTENDS Runs, Json, IOUtils
CW == INSTANCE CodeWriter

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l, st, cw
Ev == Trace[s].ev
S == Trace[s].S

Init == /\ s \in DOMAIN Trace
        /\ l = 1
        /\ st = IF S = <<>> THEN <<>> ELSE Start(S)
        /\ cw = CW!NewWriter(0, <<>>)

Say(ok, what) == IF ok THEN {} ELSE {what}
DiskOf(e) == [p \in {e.disk[k][1] : k \in DOMAIN e.disk} |-> (CHOOSE k \in DOMAIN e.disk : e.disk[k][1] = p)]
Disk(e) == LET at == DiskOf(e) IN [p \in DOMAIN at |-> e.disk[at[p]][2]]

(* Each event gives the next state and the complaints. *)
R(next, why) == [st |-> next, why |-> why]

LoadR(e) ==
  LET ok == Loadable(S, st.ver, e.f)
      k == OrderKey(S, st.ver, e.f)
      next == Load(S, st, e.slot, e.f)
  IN  IF e.ok # ok THEN R(st, {IF ok THEN "files that loaded are refused" ELSE "broken or missing files are loaded"})
      ELSE IF ~ok THEN R(st, {})
      ELSE R(Learn(next, k, e.order), Say(Fits(st, k, e.order), "the same files are loaded in another order")
                                      \cup Say(SeqSet(e.order) = SeqSet(S.f[e.f].clo), "other files are loaded"))

GenR(e) ==
  LET ver == st.slot[e.slot].ver
      k == Key(S, ver, e.f, e.o)
      kf == FmtKey(S, ver, e.f, e.o)
      D == Disk(e)
      p == Place(S, ver, e.f, e.o)
      x == Learn(Learn(st, kf, e.fh), k, e.h)
  IN  IF ~e.ok THEN R(st, {"generating code failed"})
      ELSE R([x EXCEPT !.disk = D],
             Say(Fits(st, k, e.h) /\ Fits(st, kf, e.fh), "the same definitions and options give other code")
             \cup Say(e.o.fmt => e.fh = e.h, "the code is not formatted")
             \cup Say(e.hdr, "the header differs")
             \cup (IF e.writer THEN Say(D = st.disk, "files changed for no reason")
                   ELSE IF p \notin DOMAIN D THEN {"the code is not at its place"}
                   ELSE Say(D = Written(S, st, ver, e.f, e.o, e.h).disk, "other files changed, or old contents remained")))

RECURSIVE Fold(_, _, _, _, _)
\* the command on files fs, up to and without the first that cannot be loaded
Fold(x, fs, o, D, why) ==
  IF fs = <<>> \/ ~Loadable(S, x.ver, fs[1]) THEN R(x, why)
  ELSE LET f == fs[1]
           p == Place(S, x.ver, f, o)
           k == Key(S, x.ver, f, o)
       IN  IF p \notin DOMAIN D THEN R(x, why \cup {"the code is not at its place"})
           ELSE Fold(Written(S, x, x.ver, f, o, D[p]), Tail(fs), o, D, why \cup Say(Fits(x, k, D[p]), "the same definitions and options give other code"))

CmdR(e) ==
  LET good == \A k \in DOMAIN e.fs : Loadable(S, st.ver, e.fs[k])
      D == Disk(e)
      r == Fold(st, e.fs, e.o, D, {})
      \* when it fails, the code of other files may have been written or not
      may == {Place(S, st.ver, e.fs[k], e.o) : k \in {k \in DOMAIN e.fs : Loadable(S, st.ver, e.fs[k])}}
      new == {p \in may : p \in DOMAIN D /\ (p \notin DOMAIN st.disk \/ D[p] # st.disk[p])}
      rest(X) == [p \in DOMAIN X \ new |-> X[p]]
  IN  IF e.ok # good THEN R([st EXCEPT !.disk = D], {IF good THEN "the command failed" ELSE "the command did not fail"})
      ELSE IF good THEN R([r.st EXCEPT !.disk = D], r.why \cup Say(D = r.st.disk, "other files changed, or old contents remained") \cup Say(e.hdr, "the header differs"))
      ELSE R([st EXCEPT !.disk = D],
             Say(rest(D) = rest(st.disk), "a command that failed changed files")
             \cup UNION {LET k == Key(S, st.ver, e.fs[q], e.o)
                             p == Place(S, st.ver, e.fs[q], e.o)
                         IN  Say(p \in new => Fits(st, k, D[p]), "the same definitions and options give other code")
                         : q \in {q \in DOMAIN e.fs : Loadable(S, st.ver, e.fs[q])}})

BytesC(e) ==
  IF ~e.ok THEN {"what was written is not there"}
  ELSE Say(e.pkg = cw.pkg, "package clause differs")
       \cup Say(e.hdr = cw.hdr, "header differs")
       \cup Say(e.imps = CW!ImportGroups(cw), "imports differ")
       \cup Say(e.lines = cw.lines, "lines differ")

Result(e) ==
  CASE e.op = "crash" -> [st |-> st, cw |-> cw, why |-> {"crash"}]
    [] e.op \in {"edit", "load", "gen", "cmd"} ->
         LET r == CASE e.op = "edit" -> LET n == Edit(S, st, e.f, e.v) IN R(n, Say(Disk(e) = n.disk, "HARNESS"))
                    [] e.op = "load" -> LoadR(e)
                    [] e.op = "gen" -> IF Holds(S, st, e.slot, e.f) THEN GenR(e) ELSE R(st, {"HARNESS"})
                    [] e.op = "cmd" -> CmdR(e)
         IN  [st |-> r.st, cw |-> cw, why |-> r.why]
    [] e.op = "new" -> [st |-> st, cw |-> CW!NewWriter(e.hdr, e.pkg), why |-> {}]
    [] e.op = "reset" -> [st |-> st, cw |-> CW!ResetWriter(cw, e.hdr, e.pkg), why |-> {}]
    [] e.op = "use" -> [st |-> st, cw |-> CW!Use(cw, e.p, e.a), why |-> {}]
    [] e.op = "line" -> [st |-> st, cw |-> CW!Line(cw, e.t), why |-> {}]
    [] e.op = "group" -> [st |-> st, cw |-> CW!Group(cw, e.g), why |-> {}]
    [] e.op = "bytes" -> [st |-> st, cw |-> cw, why |-> BytesC(e)]

Next ==
  /\ l <= Len(Ev)
  /\ LET r == TLCEval(Result(Ev[l]))
     IN  /\ \A c \in r.why : PrintT(<<"REJECT", s, l, Ev[l].op, c>>)
         /\ st' = r.st
         /\ cw' = r.cw
  /\ l' = l + 1
  /\ s' = s

Spec == Init /\ [][Next]_<<s, l, st, cw>>
=============================================================================
