------------------------------ MODULE TypesTrace ----------------------------
(***************************************************************************)
(* Sessions that use Go types in some order: whether a type is accepted     *)
(* depends on the type alone, whatever was used before it (and failed).     *)
(***************************************************************************)
EXTENDS Types, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l,
          used      \* types used so far, and how that ended
Ev(i) == Trace[i].ev

Init == s \in DOMAIN Trace /\ l = 1 /\ used = {}

Verdict(e) ==
  IF e.op = "use"
  THEN LET a == Accept(Trace[s].S, e.t)
       IN  IF a = "yes" /\ ~e.ok THEN "message type rejected"
           ELSE IF a = "yes" /\ ~e.same THEN "accepted type does not round trip"
           ELSE IF a = "no" /\ e.ok THEN "unsupported type accepted"
           ELSE IF <<e.t, ~e.ok>> \in used THEN "verdict changed"
           ELSE ""
  ELSE IF e.op = "arg"
  THEN IF e.ok THEN "bad argument accepted" ELSE ""
  ELSE "crash"

Next ==
  /\ l <= Len(Ev(s))
  /\ LET e == Ev(s)[l]
         v == Verdict(e)
     IN  /\ IF v = "" THEN TRUE ELSE PrintT(<<"REJECT", s, l, e.op, v>>)
         /\ IF e.op = "use" THEN PrintT(<<"STAT", Accept(Trace[s].S, e.t), e.ok>>) ELSE TRUE
         /\ used' = IF e.op = "use" THEN used \cup {<<e.t, e.ok>>} ELSE used
  /\ l' = l + 1
  /\ s' = s

Spec == Init /\ [][Next]_<<s, l, used>>
=============================================================================
