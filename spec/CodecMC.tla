------------------------------- MODULE CodecMC -------------------------------
(***************************************************************************)
(* Codec.tla explored exhaustively at a small scope: for each message type  *)
(* of a catalogue (every cardinality with every kind), every sequence of at *)
(* most Job.max records out of a vocabulary of valid, unusual and malformed *)
(* ones, received in one or two calls of Unmarshal.                          *)
(*                                                                         *)
(* The invariants are what the codec's properties amount to on the model:   *)
(* they hold of the specification itself.  Every maximal behaviour is also  *)
(* printed; the driver performs it on the real code, and CodecTrace.tla     *)
(* validates what comes of it.                                              *)
(***************************************************************************)
EXTENDS Codec, TLC, Json, IOUtils

Job == JsonDeserialize(IOEnv.JOB)

VARIABLES c,        \* case of the catalogue
          q,        \* the calls: sequences of records
          n,        \* records so far
          a,        \* the value, as a result of Unmarshal
          whole     \* what one call with all the bytes gives
vars == <<c, q, n, a, whole>>

RECURSIVE Concat(_, _)
Concat(x, k) == IF k = 0 THEN <<>> ELSE Concat(x, k - 1) \o x[k]

-----------------------------------------------------------------------------
(* The vocabulary *)

Fill(k, x) == [i \in 1..Width(k) |-> x]
Vals(k) == CASE k = "bool" -> {<<0>>, <<1>>}
             [] Width(k) > 0 -> {ZeroOf(k), [ZeroOf(k) EXCEPT ![1] = 1], [Fill(k, 255) EXCEPT ![1] = 127]}
             [] OTHER -> {<<>>, <<97>>}

Tagged(id, wt, x) == EncTag(id, wt) \o x
Delim(x) == EncNat(Len(x)) \o x

\* Payloads of a message of type t: empty, a known field, an unknown one, both, a broken one.
Payloads(S, t) ==
  LET F == S[t].f
      sc == {i \in DOMAIN F : F[i].k # "msg" /\ F[i].c # "map"}
      one == {EncOne(S, F[i].id, F[i].k, 0, CHOOSE v \in Vals(F[i].k) : v # ZeroOf(F[i].k)) : i \in {IF sc = {} THEN 0 ELSE CHOOSE i \in sc : \A j \in sc : i <= j} \ {0}}
      unk == Tagged(700, WVarint, <<1>>)
  IN  {<<>>, unk, <<8>>} \cup one \cup {x \o unk : x \in one}

\* Records that carry field number id with values of a kind; and such that do not quite.
Values(S, id, k, t) ==
  LET w == WireType(k)
  IN  (IF k = "msg" THEN {Tagged(id, WLen, Delim(x)) : x \in Payloads(S, t)}
       ELSE {EncOne(S, id, k, 0, v) : v \in Vals(k)})
      \cup (IF w = WVarint THEN {Tagged(id, w, <<129, 128, 0>>), Tagged(id, w, <<255, 255, 255, 255, 255, 255, 255, 255, 255, 2>>), Tagged(id, w, <<>>)}
            ELSE IF w = WLen THEN {Tagged(id, w, <<2, 97>>), Tagged(id, w, <<255, 255, 255, 255, 15>>)}
            ELSE {Tagged(id, w, <<1, 2, 3>>)})
      \cup {IF w = WVarint THEN Tagged(id, WFixed32, <<1, 0, 0, 0>>) ELSE Tagged(id, WVarint, <<1>>), Tagged(id, WSGroup, EncTag(id, WEGroup))}

Packs(f) ==
  IF ~Packable(f.k) THEN {}
  ELSE LET e == {EncVal(f.k, v) : v \in Vals(f.k)}
           z == EncVal(f.k, ZeroOf(f.k))
       IN  {Tagged(f.id, WLen, Delim(x)) : x \in {<<>>} \cup {z \o y : y \in e} \cup {y \o <<128>> : y \in e}}

Entries(S, f) ==
  LET ks == Values(S, 1, f.kk, 0)
      vs == Values(S, 2, f.k, f.m)
      good(x) == Record(x, 1, Len(x)).st = "ok"
      k0 == EncOne(S, 1, f.kk, 0, ZeroOf(f.kk))
      k1 == EncOne(S, 1, f.kk, 0, CHOOSE v \in Vals(f.kk) : v # ZeroOf(f.kk))
      v1 == EncOne(S, 2, f.k, f.m, CHOOSE v \in (IF f.k = "msg" THEN {EmptyMsg(S, f.m)} ELSE Vals(f.k) \ {ZeroOf(f.k)}) : TRUE)
      x1 == Tagged(3, WLen, <<1, 8>>)
  IN  {k \o v1 : k \in ks} \cup {k1 \o v : v \in vs} \cup {<<>>, k1, v1, v1 \o k1, k1 \o k0 \o v1, k1 \o v1 \o x1, x1 \o k1 \o v1, k1 \o v1 \o <<128>>}
      \cup {k1 \o v \o v1 : v \in {x \in vs : good(x)}} \cup {k1 \o v1 \o v : v \in {x \in vs : good(x)}}

Field(S, f) ==
  CASE f.c = "map" -> {Tagged(f.id, WLen, Delim(x)) : x \in Entries(S, f)} \cup {Tagged(f.id, WVarint, <<1>>), Tagged(f.id, WLen, <<9>>)}
    [] f.c \in {"rep", "pak"} -> Values(S, f.id, f.k, f.m) \cup Packs(f)
    [] OTHER -> Values(S, f.id, f.k, f.m)

Unknown == {Tagged(701, WVarint, <<1>>), Tagged(701, WSGroup, Tagged(1, WSGroup, EncTag(1, WEGroup)) \o EncTag(701, WEGroup)), Tagged(702, WFixed64, <<1, 2, 3, 4, 5, 6, 7, 8>>)}
Broken == {<<128>>, <<0, 1>>, EncTag(3, WEGroup), EncTag(703, 6), Tagged(703, WSGroup, EncTag(704, WEGroup)), Tagged(703, WSGroup, <<>>)}

\* The records about the fields of a type; one field in full, and a little of every other.
Few(S, f) == {Tagged(f.id, WLen, Delim(<<>>))} \cup
          (IF f.c = "map" \/ f.k = "msg" THEN {} ELSE {EncOne(S, f.id, f.k, 0, CHOOSE v \in Vals(f.k) : v # ZeroOf(f.k))})
Vocabulary(S, main) ==
  LET F == S[1].f
  IN  UNION {IF i = main THEN Field(S, F[i]) ELSE Few(S, F[i]) : i \in DOMAIN F} \cup Unknown \cup Broken

Vocab == TLCEval([x \in DOMAIN Job.cases |-> Vocabulary(Job.cases[x].S, Job.cases[x].main)])

-----------------------------------------------------------------------------

S == Job.cases[c].S
Zero == EmptyMsg(S, 1)
Bytes == Concat([i \in DOMAIN q |-> Concat(q[i], Len(q[i]))], Len(q))

Init == /\ c \in DOMAIN Job.cases
        /\ q = <<<<>>>>
        /\ n = 0
        /\ a = Ok(EmptyMsg(Job.cases[c].S, 1))
        /\ whole = Ok(EmptyMsg(Job.cases[c].S, 1))

\* The value before the last call.
Before(calls) == IF Len(calls) = 1 THEN Ok(Zero)
                 ELSE Unmarshal(S, 1, Zero, Concat(calls[1], Len(calls[1])))

Receive(r) ==
  /\ n < Job.max /\ a.st = "ok"
  /\ LET calls == [q EXCEPT ![Len(q)] = Append(@, r)]
     IN  /\ q' = calls
         /\ a' = Unmarshal(S, 1, Before(calls).m, Concat(calls[Len(calls)], Len(calls[Len(calls)])))
         /\ whole' = Unmarshal(S, 1, Zero, Bytes \o r)
  /\ n' = n + 1 /\ c' = c

Again ==    \* another call
  /\ n < Job.max /\ a.st = "ok" /\ Len(q) < 2 /\ q[1] # <<>>
  /\ q' = Append(q, <<>>)
  /\ UNCHANGED <<c, n, a, whole>>

Next == (\E r \in Vocab[c] : Receive(r)) \/ Again
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What holds of every value that decoding can produce. *)

Enc == EncMsg(S, 1, a.m)
RoundTrip == a.st = "ok" => Unmarshal(S, 1, Zero, Enc) = a
Encodes == a.st = "ok" => IsEncoding(S, 1, a.m, Enc)
Sized == a.st = "ok" => SizeMsg(S, 1, a.m) = Len(Enc)
WellFormed == a.st = "ok" => WF(S, 1, a.m)
\* Two calls are one call with all the bytes, but for the unknown fields of the first.
Merges == (a.st = "ok" /\ q[Len(q)] # <<>>) =>
            /\ whole.st = "ok"
            /\ whole.m.f = a.m.f
            /\ whole.m.u = (IF Len(q) = 1 THEN <<>> ELSE Before(q).m.u) \o a.m.u
\* What went wrong stays wrong, whatever follows.
ErrStays == a.st = "err" => whole.st = "err"

Leaf == (n = Job.max \/ a.st # "ok") /\ q[Len(q)] # <<>>
Plan == Leaf => PrintT("PLAN" \o ToJson(<<Job.cases[c].id, [i \in DOMAIN q |-> Concat(q[i], Len(q[i]))]>>))
=============================================================================
