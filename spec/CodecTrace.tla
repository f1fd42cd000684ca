------------------------------ MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Validates sessions recorded from the real prutal against Codec.tla.      *)
(*                                                                         *)
(* A session works on numbered slots, each a Go variable of some message    *)
(* type; the state is the abstract value of every slot.  Every recorded     *)
(* event is one action: its effect on the slots follows from the            *)
(* specification, and what the code returned has to agree with it.          *)
(* Which agreement is demanded depends on Prop, the property under check;   *)
(* a disagreement prints a REJECT line, and the session goes on from what   *)
(* the code really did, so that one defect does not hide the next.          *)
(***************************************************************************)
EXTENDS Codec, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES s,        \* session
          l,        \* next event
          obj       \* slot -> [t |-> type, m |-> value]

vars == <<s, l, obj>>

NSlots == 6
Ev(i) == Trace[i].ev
\* a session may use two schemas (an old and a new version of the same messages)
Sch(e) == IF e.sv = 2 THEN Trace[s].S2 ELSE Trace[s].S

Init == /\ s \in DOMAIN Trace
        /\ l = 1
        /\ obj = [i \in 1..NSlots |-> [sv |-> 0, t |-> 0, m |-> <<>>]]

-----------------------------------------------------------------------------
(* Views of a value, to demand agreement on one aspect only. *)

\* Which fields are present, at every level: scalars are reduced to <<>> or <<0>>.
RECURSIVE Presence(_, _, _)
Presence(S, t, m) ==
  [i \in DOMAIN m.f |->
     LET f == S[t].f[i]
         v == m.f[i]
         P(x) == IF f.k = "msg" THEN Presence(S, f.m, x) ELSE <<>>
     IN CASE f.c = "imp" -> IF v = ZeroOf(f.k) THEN <<>> ELSE <<0>>
          [] f.c \in {"exp", "one", "emb"} -> [j \in DOMAIN v |-> P(v[j])]
          [] f.c \in {"rep", "pak"} -> [j \in DOMAIN v |-> P(v[j])]
          [] f.c = "map" -> [j \in DOMAIN v |-> P(v[j][2])]]

\* Field numbers of the top-level records of b, in order.
RECURSIVE Ids(_, _, _)
Ids(b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE LET r == Record(b, i, Len(b))
       IN  IF r.st # "ok" THEN Append(acc, 0) ELSE Ids(b, r.next, Append(acc, r.id))
SeqSet(q) == {q[i] : i \in DOMAIN q}

\* Fields that must and must not show up in the encoding of m.
PresentIds(S, t, m) ==
  {S[t].f[i].id : i \in {i \in DOMAIN m.f :
      LET f == S[t].f[i] v == m.f[i]
      IN IF f.c = "imp" THEN v # ZeroOf(f.k)
         ELSE f.c # "emb" /\ v # <<>>}}
AbsentIds(S, t, m) ==
  {S[t].f[i].id : i \in {i \in DOMAIN m.f :
      LET f == S[t].f[i] v == m.f[i]
      IN IF f.c = "imp" THEN v = ZeroOf(f.k) ELSE v = <<>>}}

\* The records of b whose field numbers type t does not have, concatenated.
RECURSIVE UnkPart(_, _, _, _, _)
UnkPart(S, t, b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE LET r == Record(b, i, Len(b))
       IN  IF r.st # "ok" THEN <<-1>>
           ELSE UnkPart(S, t, b, r.next,
                        IF FieldIdx(S, t, r.id) = 0 THEN acc \o SubSeq(b, r.pos, r.next - 1) ELSE acc)

\* The unknown fields at every level.
RECURSIVE Unknowns(_, _, _)
Unknowns(S, t, m) ==
  [u |-> m.u,
   f |-> [i \in DOMAIN m.f |->
            LET f == S[t].f[i]
                v == m.f[i]
            IN IF f.k # "msg" THEN <<>>
               ELSE IF f.c = "map" THEN [j \in DOMAIN v |-> Unknowns(S, f.m, v[j][2])]
               ELSE [j \in DOMAIN v |-> Unknowns(S, f.m, v[j])]]]

-----------------------------------------------------------------------------
(* Verdicts: "" when the event agrees with the specification. *)

Fits(e) == Depth(Sch(e), e.t, obj[e.slot].m) <= MaxDepth

\* Marshal, MarshalAppend or the gRPC codec on slot e.slot
EncVerdict(e) ==
  LET m == obj[e.slot].m
      S == Sch(e)
      body == SubSeq(e.out, Len(e.pre) + 1, Len(e.out))
  IN  IF Prop = "P06"
      THEN IF ~e.ok THEN "marshal failed"
           ELSE IF UnkPart(S, e.t, body, 1, <<>>) # m.u THEN "unknown fields not written back" ELSE ""
      ELSE IF Prop = "P07"
      THEN IF ~e.ok THEN "marshal failed"
           ELSE LET ids == SeqSet(Ids(body, 1, <<>>))
                IN  IF ~(PresentIds(S, e.t, m) \subseteq ids) THEN "a present field is not encoded"
                    ELSE IF (AbsentIds(S, e.t, m) \cap ids) # {} THEN "an absent field is encoded"
                    ELSE ""
      ELSE IF Fits(e) # e.ok THEN "marshal result"
      ELSE IF ~e.ok THEN ""
      ELSE IF Len(e.out) < Len(e.pre) \/ SubSeq(e.out, 1, Len(e.pre)) # e.pre THEN "prefix changed"
      ELSE IF ~IsEncoding(S, e.t, m, body) THEN "not an encoding of the message"
      ELSE ""

\* Size of slot e.slot, and the length Marshal gave
SizeVerdict(e) ==
  IF Fits(e) # e.ok THEN "size result"
  ELSE IF e.ok # e.mok THEN "only one of Size and Marshal succeeds"
  ELSE IF e.ok /\ e.n # e.len THEN "size differs from the length of the encoding"
  ELSE ""

\* Unmarshal into slot e.slot
DecResult(e) == Unmarshal(Sch(e), e.t, obj[e.slot].m, e.in)
DecVerdict(e, r) ==
  CASE Prop = "P05" ->
         IF r.st = "err" /\ e.ok THEN "malformed input accepted"
         ELSE IF e.alloc > 1024 + 10 * Len(e.in) THEN "allocates far more than the input can need"  \* KiB
         ELSE ""
    [] Prop = "P06" ->
         IF r.st # "ok" THEN ""
         ELSE IF ~e.ok THEN "well-formed input rejected"
         ELSE IF Unknowns(Sch(e), e.t, e.post) # Unknowns(Sch(e), e.t, r.m) THEN "unknown fields not kept"
         ELSE ""
    [] Prop = "P07" ->
         IF r.st # "ok" THEN ""
         ELSE IF ~e.ok THEN "well-formed input rejected"
         ELSE IF Presence(Sch(e), e.t, e.post) # Presence(Sch(e), e.t, r.m) THEN "presence differs"
         ELSE ""
    [] OTHER ->
         IF r.st # "ok" THEN ""
         ELSE IF ~e.ok THEN "well-formed input rejected"
         ELSE IF ~WF(Sch(e), e.t, e.post) THEN "not a well-formed value"
         ELSE IF e.post # r.m THEN "decoded value differs"
         ELSE ""

\* Marshal slot e.slot, Unmarshal into a fresh message: must give the same value.
RtVerdict(e) ==
  LET m == obj[e.slot].m
  IN  IF ~e.ok THEN "round trip failed"
      ELSE IF Prop = "P07"
           THEN IF Presence(Sch(e), e.t, e.post) # Presence(Sch(e), e.t, m) THEN "presence lost" ELSE ""
      ELSE IF e.post # m THEN "round trip changed the message" ELSE ""

Verdict(e, r) ==
  CASE e.op = "enc"  -> EncVerdict(e)
    [] e.op = "size" -> SizeVerdict(e)
    [] e.op = "dec"  -> DecVerdict(e, r)
    [] e.op = "rt"   -> RtVerdict(e)
    [] e.op = "same" -> IF obj[e.slot].m # obj[e.slot2].m THEN "values differ" ELSE ""
    [] e.op = "read" -> IF ~e.same /\ e.post # obj[e.slot].m THEN "value changed behind its owner's back" ELSE ""
    \* the user wrote over everything reachable from several slots, each place once:
    \* a place that holds something else afterwards is shared with another one
    [] e.op = "own" -> IF e.bad # 0 THEN "two parts of decoded messages share memory" ELSE ""
    \* what the caller took out of the message (strings, list elements, pointers to scalars, ...)
    \* is its own: decoding into the message again does not change it
    [] e.op = "held" -> IF e.bad # 0 THEN "a value taken out of the message changed" ELSE ""
    [] e.op = "mset" -> ""
    [] e.op = "new"  -> IF WF(Sch(e), e.t, e.m) THEN "" ELSE "HARNESS"
    [] OTHER -> "crash"

\* Effect on the slots: what the specification says, or, when the code is known
\* to have gone its own way (or the outcome is open), what it really did.
Effect(e, r) ==
  CASE e.op = "read" /\ e.same -> obj
    [] e.op \in {"new", "mset"} -> [obj EXCEPT ![e.slot] = [sv |-> e.sv, t |-> e.t, m |-> e.m]]
    [] e.op \in {"dec", "read"} -> [obj EXCEPT ![e.slot] = [sv |-> e.sv, t |-> e.t, m |-> e.post]]
    [] OTHER -> obj

Step ==
  /\ l <= Len(Ev(s))
  /\ LET e == Ev(s)[l]
         r == IF e.op = "dec" THEN DecResult(e) ELSE [st |-> "none"]
         v == Verdict(e, r)
     IN  /\ IF v = "" THEN TRUE ELSE PrintT(<<"REJECT", s, l, e.op, v>>)
         /\ obj' = Effect(e, r)
         /\ IF e.op = "dec" THEN PrintT(<<"DEC", r.st>>) ELSE TRUE
  /\ l' = l + 1
  /\ s' = s

Next == Step
Spec == Init /\ [][Next]_vars

=============================================================================
