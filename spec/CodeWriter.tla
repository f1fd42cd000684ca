----------------------------- MODULE CodeWriter -----------------------------
(***************************************************************************)
(* The writer that generated code is put together with: packages are used,  *)
(* lines written, and Bytes gives the source: header, package clause, one   *)
(* import of each package used, grouped by weight and sorted, then the      *)
(* lines.  Names and paths are tuples of character codes, lines numbers.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Slash == 47
RECURSIVE Base(_)
Base(p) == IF \E i \in DOMAIN p : p[i] = Slash
           THEN Base(SubSeq(p, (CHOOSE i \in DOMAIN p : p[i] = Slash /\ \A j \in 1..(i - 1) : p[j] # Slash) + 1, Len(p)))
           ELSE p

NewWriter(hdr, pkg) == [hdr |-> hdr, pkg |-> pkg, use |-> <<>>, lines |-> <<>>, group |-> "default"]
ResetWriter(w, hdr, pkg) == [NewWriter(hdr, pkg) EXCEPT !.group = w.group]
Use(w, p, a) == IF p = <<>> THEN w ELSE [w EXCEPT !.use = (p :> (IF Base(p) = a THEN <<>> ELSE a)) @@ @]
Line(w, t) == [w EXCEPT !.lines = Append(@, t)]
Group(w, g) == [w EXCEPT !.group = g]

HasPrefix(p, q) == Len(p) >= Len(q) /\ SubSeq(p, 1, Len(q)) = q
\* "github.com/cloudwego/"
Cloudwego == <<103, 105, 116, 104, 117, 98, 46, 99, 111, 109, 47, 99, 108, 111, 117, 100, 119, 101, 103, 111, 47>>
Weight(g, p) ==
  CASE g = "default" -> IF HasPrefix(p, Cloudwego) THEN 10 ELSE 0
    [] g = "length" -> (Len(p) % 3) - 1       \* groupings that the sessions set
    [] g = "one" -> 7

RECURSIVE Before(_, _)
Before(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Before(Tail(a), Tail(b))

RECURSIVE Sorted(_)
Sorted(P) == IF P = {} THEN <<>> ELSE LET m == CHOOSE m \in P : \A q \in P : q = m \/ Before(m, q) IN <<m>> \o Sorted(P \ {m})
RECURSIVE Weights(_)
Weights(W) == IF W = {} THEN <<>> ELSE LET m == CHOOSE m \in W : \A q \in W : m <= q IN <<m>> \o Weights(W \ {m})

\* groups of imports [a |-> alias, p |-> path]
ImportGroups(w) ==
  LET P == DOMAIN w.use
      W == Weights({Weight(w.group, p) : p \in P})
  IN  [k \in DOMAIN W |-> LET q == Sorted({p \in P : Weight(w.group, p) = W[k]})
                          IN  [i \in DOMAIN q |-> [a |-> w.use[q[i]], p |-> q[i]]]]
=============================================================================
