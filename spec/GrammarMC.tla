------------------------------ MODULE GrammarMC ------------------------------
(***************************************************************************)
(* The grammar's reader (Grammar.tla) explored exhaustively: every          *)
(* configuration it can get into with at most Job.deep braces open, by one  *)
(* shortest text each.  Checked on the way: what is left can always be      *)
(* completed, a configuration that can end is one the empty completion      *)
(* ends, FIRST sets are right, and the wide grammar loses nothing of the    *)
(* strict one.  For every configuration and every token, the text with that *)
(* token next is printed, completed to a file if it can be; the driver      *)
(* writes these texts, and GrammarTrace.tla validates what comes of them.   *)
(***************************************************************************)
EXTENDS Grammar, TLC, Json, IOUtils, SequencesExt

Job == JsonDeserialize(IOEnv.JOB)

VARIABLES w, S
vars == <<w, S>>
View == S

\* shortest completions: of symbols, then of stacks, in the strict grammar
Rep(x) == IF x = "ident" THEN "ID" ELSE CHOOSE k \in Class[x] : TRUE
Long == 1000000
Cost(m, y) == IF y \in NonTerms THEN m[y] ELSE 1
RECURSIVE CostSeq(_, _)
CostSeq(m, a) == IF a = <<>> THEN 0 ELSE LET c == Cost(m, a[1]) + CostSeq(m, Tail(a)) IN IF c > Long THEN Long ELSE c
Least(X) == CHOOSE n \in X : \A y \in X : n <= y
RECURSIVE CostFix(_)
CostFix(m) == LET m2 == [x \in NonTerms |-> Least({Long} \cup {CostSeq(m, a) : a \in Strict[x]})] IN IF m2 = m THEN m ELSE CostFix(m2)
MinCost == CostFix([x \in NonTerms |-> Long])

RECURSIVE Complete(_)
Complete(a) ==
  IF a = <<>> THEN <<>>
  ELSE LET x == a[1]
       IN  IF x \in NonTerms THEN Complete((CHOOSE b \in Strict[x] : CostSeq(MinCost, b) = MinCost[x]) \o Tail(a))
           ELSE <<IF x \in Classes THEN Rep(x) ELSE x>> \o Complete(Tail(a))

Stricts(X) == {y[2] : y \in {y \in X : y[1]}}
Finish(X) == LET A == Stricts(X) IN Complete(CHOOSE a \in A : \A b \in A : CostSeq(MinCost, a) <= CostSeq(MinCost, b))

Braces(x) == Cardinality({i \in DOMAIN x : x[i] = "{"}) - Cardinality({i \in DOMAIN x : x[i] = "}"})

Init == w = <<>> /\ S = Start
Next ==
  \E k \in Tokens :
    LET r == After(S, k)
    IN  /\ Stricts(r) # {}
        /\ k \in Keywords \cup Loose \cup {"BOOL"} => r # After(S, "ID")      \* plain names where they do
        /\ Braces(Append(w, k)) <= Job.deep
        /\ Len(w) < Job.max
        /\ w' = Append(w, k)
        /\ S' = r
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE Read(_, _)
Read(X, x) == IF x = <<>> THEN X ELSE Read(After(X, x[1]), Tail(x))

\* every configuration can be completed to a file
Completes == TRUE \in Final(Read(S, Finish(S)))
\* FIRST is right: a token can come next exactly if some stack can start with it
Firsts == \A k \in Tokens : (After(S, k) # {}) <=> \E y \in S : CanStart(y[2], k)
\* no token is lost by the stacks that are only there widely
Wider == \A k \in Tokens : Stricts(After(S, k)) = Stricts(After({y \in S : y[1]}, k))

RECURSIVE Text(_)
Text(x) == IF x = <<>> THEN "" ELSE " " \o x[1] \o Text(Tail(x))
\* the text of a configuration, with k next
With(k) == LET r == After(S, k)
           IN  Append(w, k) \o (IF Stricts(r) # {} THEN Finish(r) ELSE Finish(S))
Plan == /\ PrintT("PLAN" \o Text(w))         \* it ends here
        /\ \A k \in Tokens : PrintT("PLAN" \o Text(With(k)))
=============================================================================
