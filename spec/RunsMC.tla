-------------------------------- MODULE RunsMC -------------------------------
(***************************************************************************)
(* All behaviours of Runs.tla of a few steps for two files, the first of    *)
(* which imports the second: two loaders, two places to keep what they      *)
(* loaded, versions 0, 2 (another Go package), 3 (broken), 4 (absent) and 5 *)
(* (directives that change the code of other files as well).  Each is       *)
(* printed, to be performed on the real code.                               *)
(***************************************************************************)
EXTENDS Runs, Json, IOUtils

Job == JsonDeserialize(IOEnv.JOB)
\* paths: 1, 2 sources; 10 i + v the code of file i.  contents: 100 i + v sources; code is made up of its key
S == [f |-> <<[clo |-> <<1, 2>>, src |-> 1, text |-> [v \in 1..6 |-> 100 + v], imp |-> [v \in 1..6 |-> IF v = 3 THEN 12 ELSE 10], rel |-> 19],
              [clo |-> <<2>>, src |-> 2, text |-> [v \in 1..6 |-> 200 + v], imp |-> [v \in 1..6 |-> IF v = 3 THEN 22 ELSE 20], rel |-> 29]>>]
O == [getter |-> TRUE, kitex |-> FALSE, fmt |-> TRUE, rel |-> FALSE]

VARIABLES st, hist
Init == st = Start(S) /\ hist = <<>>

Do(x, a) == st' = x /\ hist' = Append(hist, a)
Step(op, f, v, ld, slot) == [op |-> op, f |-> f, v |-> v, ld |-> ld, slot |-> slot]
Write(x, ver, f) == Written(S, x, ver, f, O, Key(S, ver, f, O))

Next ==
  /\ Len(hist) < Job.max
  /\ \/ \E f \in 1..2, v \in {0, 2, 3, 4, 5} : st.ver[f] # v /\ Do(Edit(S, st, f, v), Step("edit", f, v, 0, 0))
     \/ \E f \in 1..2, ld \in 1..2 : Do(Load(S, st, ld, f), Step("load", f, 0, ld, ld))
     \/ \E slot \in 1..2, f \in 1..2 : Holds(S, st, slot, f) /\ Do(Write(st, st.slot[slot].ver, f), Step("gen", f, 0, 0, slot))
     \/ \E f \in 1..2 : Do(IF Loadable(S, st.ver, f) THEN Write(st, st.ver, f) ELSE st, Step("cmd", f, 0, 0, 0))

Spec == Init /\ [][Next]_<<st, hist>>

\* What is held, and what there is code of, was well formed.
SlotsGood == \A k \in DOMAIN st.slot : Loadable(S, st.slot[k].ver, st.slot[k].f)
Code(p) == st.disk[p]
OnDisk ==
  \A p \in DOMAIN st.disk :
    IF p <= 2 THEN st.disk[p] = S.f[p].text[st.ver[p] + 1]
    ELSE \E f \in 1..2 : Code(p)[2] = f /\ (\A k \in DOMAIN Code(p)[3] : Good(Code(p)[3][k]))
                         /\ p = S.f[f].imp[Code(p)[3][1] + 1]
\* The code of a file depends on nothing but what it consists of.
Functional == \A k \in DOMAIN st.memo : st.memo[k] = k

\* behaviours worth performing: those that end with code written (the others are part of these), and of
\* edits without anything between only the last of each file, in one order
Edits(k) == k < Len(hist) /\ hist[k].op = "edit" /\ hist[k + 1].op = "edit"
Plan == (Len(hist) = Job.max /\ hist[Len(hist)].op \in {"gen", "cmd"} /\ \A k \in DOMAIN hist : Edits(k) => hist[k].f < hist[k + 1].f)
          => PrintT("PLAN" \o ToJson(hist))
=============================================================================
