------------------------------ MODULE BigTrace ------------------------------
(***************************************************************************)
(* Validates what the real prutal does with large messages against Big.tla. *)
(***************************************************************************)
EXTENDS Big, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES s, l
Ev(i) == Trace[i].ev
Init == s \in DOMAIN Trace /\ l = 1

Verdict(e) ==
  IF e.op = "crash" THEN "crash"
  ELSE IF ~e.ok THEN "failed"
  ELSE CASE e.op = "enc" -> IF e.out # Enc(e.m) THEN "not an encoding of the message" ELSE ""
         [] e.op = "size" -> IF e.n # SizeOf(e.m) \/ e.len # e.n THEN "size differs from the length of the encoding" ELSE ""
         [] e.op = "rt" -> IF e.post # e.m THEN "round trip changed the message" ELSE ""
         \* in is what the driver's own encoder made of m
         [] e.op = "dec" -> IF Spelt(e.m) /\ e.in # Enc(e.m) THEN "HARNESS" ELSE IF e.post # e.m THEN "decoded value differs" ELSE ""
         \* decoded, the input overwritten, and encoded again, by a type that knows the fields or by one that does not
         [] e.op = "keep" -> IF e.in # Enc(e.m) THEN "HARNESS" ELSE IF e.out # e.in THEN "unknown fields are not as they were" ELSE ""
         [] e.op = "merge" -> IF ~Mergeable(e.m, e.w) THEN "HARNESS" ELSE IF e.post # Merge(e.m, e.w) THEN "merged value differs" ELSE ""
         \* decoded, the input overwritten and other messages decoded
         [] e.op = "own" -> IF e.post # e.m THEN "decoded message changed with its input" ELSE ""
         \* in, cut by one byte, or with one of the lengths raised by one
         [] e.op = "bad" -> IF e.accepted THEN "malformed input accepted" ELSE ""

\* The two ways of counting agree, too
Sound(e) == e.op \in {"enc", "keep"} => Total(Enc(e.m)) = SizeOf(e.m)

Next ==
  /\ l <= Len(Ev(s))
  /\ LET e == Ev(s)[l]
         v == IF ~Sound(e) THEN "HARNESS" ELSE Verdict(e)
     IN  IF v = "" THEN TRUE ELSE PrintT(<<"REJECT", s, l, e.op, v>>)
  /\ l' = l + 1
  /\ s' = s
Spec == Init /\ [][Next]_<<s, l>>
=============================================================================
