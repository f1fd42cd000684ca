--------------------------------- MODULE Runs -------------------------------
(***************************************************************************)
(* A build that uses prutalgen again and again: .proto files are edited,    *)
(* loaded by loaders that live on, generated from what was loaded earlier   *)
(* or by the command, into the same directories.                            *)
(*                                                                         *)
(* S.f[i] is file i: clo, itself and all it imports; src, its path; text,   *)
(* its content in each version; imp, the path of its code in each version   *)
(* (the Go import path may change); rel, the path beside the source.        *)
(* Versions 0, 1, 2 and 5 are well formed; 3 is not, 4 is none at all.      *)
(* Paths and contents are numbers.                                          *)
(*                                                                         *)
(* The code of a file is an unknown function of the contents of the files   *)
(* it consists of and of the options: memo has what is known of it.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Good(v) == v \in {0, 1, 2, 5}
Absent == 4
SeqSet(q) == {q[i] : i \in DOMAIN q}

\* ver: version of each file; slot: what has been loaded and is still held; disk: path -> content
Start(S) ==
  [ver |-> [i \in DOMAIN S.f |-> 0],
   slot |-> <<>>,
   disk |-> [p \in {S.f[i].src : i \in DOMAIN S.f} |-> LET i == CHOOSE i \in DOMAIN S.f : S.f[i].src = p IN S.f[i].text[1]],
   memo |-> <<>>]

Put(fn, k, x) == (k :> x) @@ fn
Drop(fn, k) == [q \in DOMAIN fn \ {k} |-> fn[q]]

Loadable(S, ver, f) == \A k \in DOMAIN S.f[f].clo : Good(ver[S.f[f].clo[k]])

Edit(S, st, f, v) ==
  [st EXCEPT !.ver[f] = v,
             !.disk = IF v = Absent THEN Drop(@, S.f[f].src) ELSE Put(@, S.f[f].src, S.f[f].text[v + 1])]

\* What is loaded is a snapshot: later edits and loads do not change it.
Load(S, st, slot, f) ==
  IF Loadable(S, st.ver, f) THEN [st EXCEPT !.slot = Put(@, slot, [f |-> f, ver |-> st.ver])] ELSE st

Holds(S, st, slot, f) == slot \in DOMAIN st.slot /\ f \in SeqSet(S.f[st.slot[slot].f].clo)

\* all that the code of f may depend on
Key(S, ver, f, o) == <<"code", f, [k \in DOMAIN S.f[f].clo |-> ver[S.f[f].clo[k]]], o.getter, o.kitex, o.fmt>>
\* the same however it is formatted
FmtKey(S, ver, f, o) == <<"gofmt", f, [k \in DOMAIN S.f[f].clo |-> ver[S.f[f].clo[k]]], o.getter, o.kitex>>
OrderKey(S, ver, f) == <<"order", f, [k \in DOMAIN S.f[f].clo |-> ver[S.f[f].clo[k]]]>>
Place(S, ver, f, o) == IF o.rel THEN S.f[f].rel ELSE S.f[f].imp[ver[f] + 1]

Known(st, k) == k \in DOMAIN st.memo
Fits(st, k, h) == Known(st, k) => st.memo[k] = h
Learn(st, k, h) == IF Known(st, k) THEN st ELSE [st EXCEPT !.memo = Put(@, k, h)]
\* code h of f is written
Written(S, st, ver, f, o, h) == [Learn(st, Key(S, ver, f, o), h) EXCEPT !.disk = Put(@, Place(S, ver, f, o), h)]
=============================================================================
