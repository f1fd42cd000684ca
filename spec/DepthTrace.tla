------------------------------ MODULE DepthTrace ----------------------------
EXTENDS Depth, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, size    \* size: what the last Marshal of the session gave, -1 for an error
Ev(i) == Trace[i].ev
Init == s \in DOMAIN Trace /\ l = 1 /\ size = 0

Verdict(e) ==
  CASE e.op = "marshal"   -> IF Allowed(e.tree) # e.ok THEN "marshal at the nesting limit" ELSE ""
    [] e.op = "size"      -> IF Allowed(e.tree) # e.ok THEN "size at the nesting limit"
                             ELSE IF e.ok /\ e.n # size THEN "size of a nested message" ELSE ""
    [] e.op = "unmarshal" -> IF Allowed(e.tree) # e.ok THEN "unmarshal at the nesting limit"
                             ELSE IF e.ok /\ e.depth # Messages(e.tree) THEN "levels lost" ELSE ""
    \* a value that contains itself has no encoding
    [] e.op = "cycle"     -> IF e.ok THEN "cyclic value accepted" ELSE ""
    \* nested groups in unknown fields: some limit, but no crash
    [] e.op = "groups"    -> IF e.n <= 100 /\ ~e.ok THEN "shallow groups rejected" ELSE ""
    [] OTHER -> "crash"

Next ==
  /\ l <= Len(Ev(s))
  /\ LET e == Ev(s)[l]
         v == Verdict(e)
     IN  /\ IF v = "" THEN TRUE ELSE PrintT(<<"REJECT", s, l, e.op, v>>)
         /\ IF e.op \in {"marshal", "unmarshal"} THEN PrintT(<<"STAT", e.op, Allowed(e.tree)>>) ELSE TRUE
         /\ size' = IF e.op = "marshal" THEN e.n ELSE size
  /\ l' = l + 1
  /\ s' = s
Spec == Init /\ [][Next]_<<s, l, size>>
=============================================================================
