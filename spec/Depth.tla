--------------------------------- MODULE Depth ------------------------------
(***************************************************************************)
(* The nesting limit.  A message tree is a sequence of branches             *)
(*   [k |-> kind of the field that links, n |-> how many links in a row,    *)
(*    sub |-> the tree at the end]                                          *)
(* below a root message.  Every way to nest one message in another costs    *)
(* exactly one level - pointer, list element, map value, oneof member,      *)
(* non-pointer field - for Marshal, Size and Unmarshal alike, and only the  *)
(* messages on one path count, not the siblings.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Limit

\* Levels a link takes: a non-pointer message that wraps the next one is two messages.
Cost(k) == IF k = "E" THEN 2 ELSE 1

RECURSIVE Below(_)
MaxOf(s) == CHOOSE x \in s \cup {0} : \A y \in s : y <= x
Below(tree) == MaxOf({Cost(tree[i].k) * tree[i].n + Below(tree[i].sub) : i \in DOMAIN tree})

Messages(tree) == 1 + Below(tree)

Allowed(tree) == Messages(tree) <= Limit
=============================================================================
