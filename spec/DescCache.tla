------------------------------- MODULE DescCache ----------------------------
(***************************************************************************)
(* How goroutines obtain and share type descriptors.                        *)
(*                                                                         *)
(* A descriptor is an object with links to the descriptors of the types its *)
(* fields mention; it is built under a lock, in steps (allocate and link    *)
(* every reachable type, then finalize each), and published in a table that *)
(* readers consult without the lock.  A type that mentions an unsupported   *)
(* type, directly or not, must be refused - by every goroutine, every time. *)
(*                                                                         *)
(* DropAll says what happens to the half-built descriptors of a refused     *)
(* type: TRUE forgets everything built so far, FALSE forgets only the types *)
(* still under construction (what the code once did).                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Threads, Types, Bad, Ops, DropAll

\* the types each type mentions: t1 <-> t2 are fine, t3 is unsupported,
\* t4 <-> t5 lead to it (and t5 shares t1)
Refs(t) == CASE t = "t1" -> {"t2"} [] t = "t2" -> {"t1"} [] t = "t3" -> {}
             [] t = "t4" -> {"t5", "t3"} [] t = "t5" -> {"t4", "t1"} [] OTHER -> {}

RECURSIVE Reach(_)
Reach(R) == LET N == R \cup UNION {Refs(t) : t \in R} IN IF N = R THEN R ELSE Reach(N)
Refused(t) == Reach({t}) \cap Bad # {}

VARIABLES objs,      \* descriptor objects: [t, link (type -> object), fin]
          cache,     \* type -> object under construction or done, 0 if none
          table,     \* type -> published object, 0 if none
          lock,      \* holder, "" if free
          pc, want, todo, made, left, outcome
vars == <<objs, cache, table, lock, pc, want, todo, made, left, outcome>>

Init == /\ objs = <<>> /\ cache = [t \in Types |-> 0] /\ table = [t \in Types |-> 0]
        /\ lock = "" /\ pc = [p \in Threads |-> "idle"] /\ want = [p \in Threads |-> ""]
        /\ todo = [p \in Threads |-> <<>>] /\ made = [p \in Threads |-> {}]
        /\ left = [p \in Threads |-> Ops] /\ outcome = [p \in Threads |-> "none"]

Start(p, t) == /\ pc[p] = "idle" /\ left[p] > 0
               /\ pc' = [pc EXCEPT ![p] = IF table[t] # 0 THEN "use" ELSE "wait"]
               /\ want' = [want EXCEPT ![p] = t]
               /\ left' = [left EXCEPT ![p] = @ - 1]
               /\ outcome' = [outcome EXCEPT ![p] = "none"]
               /\ UNCHANGED <<objs, cache, table, lock, todo, made>>

Acquire(p) == /\ pc[p] = "wait" /\ lock = ""
              /\ lock' = p
              /\ pc' = [pc EXCEPT ![p] = IF table[want[p]] # 0 THEN "unlock" ELSE "parse"]
              /\ todo' = [todo EXCEPT ![p] = <<want[p]>>]
              /\ made' = [made EXCEPT ![p] = {}]
              /\ UNCHANGED <<objs, cache, table, want, left, outcome>>

\* Depth first: parse the type on top of the stack; a cached one is taken as it is.
Parse(p) ==
  /\ pc[p] = "parse" /\ todo[p] # <<>>
  /\ LET t == todo[p][Len(todo[p])]
         \* a descriptor from an earlier parse is trusted, not looked into
         rest == IF t \in made[p] THEN {r \in Refs(t) : cache[r] = 0} ELSE {}
     IN  IF cache[t] = 0
         THEN \* allocate, before looking at the fields (cyclic types)
              /\ objs' = Append(objs, [t |-> t, fin |-> FALSE])
              /\ cache' = [cache EXCEPT ![t] = Len(objs) + 1]
              /\ made' = [made EXCEPT ![p] = @ \cup {t}]
              /\ UNCHANGED <<pc, todo, outcome>>
         ELSE IF t \in Bad
         THEN /\ cache' = IF DropAll THEN [u \in Types |-> 0]
                          ELSE [u \in Types |-> IF \E i \in DOMAIN todo[p] : todo[p][i] = u THEN 0 ELSE cache[u]]
              /\ pc' = [pc EXCEPT ![p] = "unlock"]
              /\ outcome' = [outcome EXCEPT ![p] = "refused"]
              /\ UNCHANGED <<objs, todo, made>>
         ELSE IF rest # {}
         THEN /\ \E r \in rest : todo' = [todo EXCEPT ![p] = Append(@, r)]
              /\ UNCHANGED <<objs, cache, made, pc, outcome>>
         ELSE /\ todo' = [todo EXCEPT ![p] = SubSeq(@, 1, Len(@) - 1)]
              /\ UNCHANGED <<objs, cache, made, pc, outcome>>
  /\ UNCHANGED <<table, lock, want, left>>

Linked(p) == /\ pc[p] = "parse" /\ todo[p] = <<>>
             /\ pc' = [pc EXCEPT ![p] = "finalize"]
             /\ UNCHANGED <<objs, cache, table, lock, want, todo, made, left, outcome>>

Finalize(p) ==
  /\ pc[p] = "finalize"
  /\ LET U == {t \in Reach({want[p]}) : cache[t] # 0 /\ ~objs[cache[t]].fin}
     IN  IF U = {} THEN /\ table' = [table EXCEPT ![want[p]] = cache[want[p]]]
                        /\ pc' = [pc EXCEPT ![p] = "unlock"]
                        /\ UNCHANGED objs
         ELSE /\ \E t \in U : objs' = [objs EXCEPT ![cache[t]].fin = TRUE]
              /\ UNCHANGED <<table, pc>>
  /\ UNCHANGED <<cache, lock, want, todo, made, left, outcome>>

Release(p) == /\ pc[p] = "unlock" /\ lock = p /\ lock' = ""
              /\ pc' = [pc EXCEPT ![p] = IF outcome[p] = "refused" THEN "idle" ELSE "use"]
              /\ UNCHANGED <<objs, cache, table, want, todo, made, left, outcome>>

Use(p) == /\ pc[p] = "use"
          /\ outcome' = [outcome EXCEPT ![p] = "used"]
          /\ pc' = [pc EXCEPT ![p] = "idle"]
          /\ UNCHANGED <<objs, cache, table, lock, want, todo, made, left>>

Next == \E p \in Threads : \/ \E t \in Types : Start(p, t)
                           \/ Acquire(p) \/ Parse(p) \/ Linked(p) \/ Finalize(p) \/ Release(p) \/ Use(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
        /\ \A p \in Threads : SF_vars(Acquire(p)) /\ WF_vars(Parse(p) \/ Linked(p) \/ Finalize(p) \/ Release(p) \/ Use(p))

\* What a goroutine works with is complete: published, finalized.
UseComplete == \A p \in Threads : pc[p] = "use" => table[want[p]] # 0 /\ objs[table[want[p]]].fin
\* Nothing built from an unsupported type is ever used or published...
NoBadUse == \A t \in Types : table[t] # 0 => ~Refused(t)
\* ... and nothing good is refused, whatever failed before.
NoGoodRefusal == \A p \in Threads : outcome[p] = "refused" => Refused(want[p])
\* Published descriptors do not change any more.
Frozen == [][\A t \in Types : table[t] # 0 => table'[t] = table[t] /\ objs'[table[t]] = objs[table[t]]]_vars
\* Only the lock holder builds.
Exclusive == \A p \in Threads : pc[p] \in {"parse", "finalize", "unlock"} => lock = p
Terminates == \A p \in Threads : pc[p] = "wait" ~> pc[p] \in {"use", "idle"}
=============================================================================
