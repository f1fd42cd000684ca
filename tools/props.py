#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so that the statements stay readable)."""
import json, os
W = "internal/wire/"
P = "internal/prutal/"
D = "internal/desc/"
props = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    props.append({"id": id, "title": title, "statement": " ".join(statement.split()),
                  "quantifier": {"over": over, "text": " ".join(text.split())}, "why_tests_cant": " ".join(why.split()),
                  "anchors": {"files": files, "state": state or [], "mechanism": [{"name": a, "where": b} for a, b in mech],
                              "observe_at": observe, "hook_needed": hook}})


prop("P01", "Round trip: Unmarshal(Marshal(m)) reproduces m",
     """For every supported Go message type and every value m of it within the nesting limit, Marshal succeeds and Unmarshal of
     its output into a zero message succeeds and gives a message equal to m: the same scalars bit for bit, the same strings,
     byte slices, lists, maps, nested messages, oneof members, pointer presence and unknown fields (a nil and an empty list or
     map, and a nil and an empty byte slice outside pointers, oneofs and lists, count as equal).""",
     ["inputs", "programs"], "every message type (all scalar kinds x cardinalities, maps, oneofs, pointers and embedded messages, recursive types, any legal field numbers) and every value",
     "The tests encode and decode a dozen hand-written structs with a few values each; the codec picks a different specialised function for each kind, cardinality, map key and value, so the space is types times values.",
     ["prutal.go", P + "encoder.go", P + "decoder.go", W + "encoder.go", W + "encoder_list.go", W + "encoder_packed.go", W + "encoder_map.go", W + "decoder_map.go", W + "decoder_packed.go"],
     [("encode by field descriptor", P + "encoder.go"), ("decode by field descriptor", P + "decoder.go"), ("choice of specialised functions", D + "funcs.go")],
     ["prutal.Marshal", "prutal.Unmarshal"])

prop("P02", "Marshal writes the protobuf encoding of the message, and only that",
     """The bytes that Marshal, MarshalAppend and the gRPC codec produce are a protobuf encoding of the message: for each set field,
     in ascending field number order, records with the right tag, wire type, minimal varints, zigzag, fixed-width little-endian
     or length-delimited payload, packed where declared, one key-then-value record per map entry in any order, followed by the
     kept unknown fields unchanged, with nothing left out or added.
     MarshalAppend leaves the bytes of its argument as they were and in front, and the three entry points agree.""",
     ["inputs", "programs"], "every message type and value; every prefix and spare capacity of the append buffer",
     "The tests compare the output with golang/protobuf for a few structs; agreement on the wire for every kind, boundary value (varint length steps, negative numbers, NaN payloads, 2- to 5-byte tags) and container is a statement over all values.",
     ["prutal.go", P + "encoder.go", W + "encoder.go", W + "encoder_list.go", W + "encoder_packed.go", W + "encoder_map.go", "internal/protowire/wire.go", "pkg/grpccodec/grpccodec.go"],
     [("field loop", P + "encoder.go:(*Encoder).appendStruct"), ("varint and tag writers", "internal/protowire/wire.go"), ("list, packed and map writers", W)],
     ["prutal.Marshal", "prutal.MarshalAppend", "grpccodec.PrutalCodec.Marshal"])

prop("P03", "Size equals the length of the encoding",
     "For every supported message type and value, Size succeeds exactly when Marshal does, and the number it returns is the length of what Marshal writes.",
     ["inputs", "programs"], "every message type and value",
     "Size is a second, separately written walk over the value with its own per-kind functions; the tests compare the two on a few structs, but a wrong length shows up only for the one kind, container or boundary that its case gets wrong.",
     [P + "sizer.go", W + "size.go", W + "size_map.go"],
     [("size walk", P + "sizer.go"), ("per-kind sizes", W + "size.go"), ("map sizes", W + "size_map.go")],
     ["prutal.Size", "prutal.Marshal"])

prop("P04", "Unmarshal accepts every valid encoding of a message and decodes it right",
     """Every well-formed sequence of protobuf records within the nesting limit whose known fields have the declared wire type (for repeated scalars:
     packed or expanded, whatever the declaration, mixed at will) is accepted, and the result is the one the protobuf rules define:
     records in any order, last value wins for scalars, lists concatenate, repeated records of a singular message or of the same
     oneof message member merge, map entries may miss or repeat key and value, non-minimal varints, 64-bit varints truncated to 32-bit kinds, and any non-zero
     bool is true.""",
     ["inputs", "programs"], "every type and every well-formed record sequence, not only those prutal itself writes",
     "Other implementations legally write what prutal never writes (reordered, repeated, split, non-minimal, unpacked). The tests decode almost only canonical output.",
     [P + "decoder.go", W + "decoder_packed.go", W + "decoder_map.go", W + "wire.go", "internal/protowire/wire.go"],
     [("record loop", P + "decoder.go:DecodeStruct"), ("packed readers", W + "decoder_packed.go"), ("map entry readers", W + "decoder_map.go")],
     ["prutal.Unmarshal", "grpccodec.PrutalCodec.Unmarshal"])

prop("P05", "Malformed input yields an error, never a crash, wild read or runaway memory",
     """Unmarshal returns on every byte string, without panicking, reading outside the input or modifying it: it fails on every input that is not a well-formed
     sequence of records for the type (truncated, overlong or overflowing varints, lengths beyond the end at any level, bad or zero field numbers,
     reserved wire types, unbalanced groups, wrong wire types for known fields), and memory use stays proportional to the input however large the declared lengths.""",
     ["inputs", "programs"], "every byte string against every message type",
     "The decoder works on raw pointers, so a missing bound check at one nesting level or for one kind is invisible until an input hits exactly that; the tests try a few truncations.",
     [P + "decoder.go", P + "errors.go", W + "wire.go", W + "decoder_packed.go", W + "decoder_map.go", "internal/protowire/wire.go"],
     [("bounds and wire type checks", P + "decoder.go"), ("consume functions", "internal/protowire/wire.go")],
     ["prutal.Unmarshal"])

prop("P06", "Unknown fields survive decode and re-encode, byte for byte",
     """A message type that keeps unknown fields holds, after Unmarshal, the exact concatenation in input order of the records whose field
     numbers it does not declare (groups included), at every nesting level, and Marshal writes them back unchanged; so data passing
     through an older version of a message loses nothing for a reader of the newer version.
     Types that do not keep them drop them without an error.""",
     ["inputs", "programs", "histories"], "every pair of old and new versions of a message type, every input, every decode and encode sequence",
     "The tests use one struct with one or two unknown fields; coverage of positions (first, interleaved, last), nested levels, oneofs, lists, map values and groups is a product space.",
     [P + "decoder.go", P + "encoder.go", D + "desc.go"],
     [("unknown field collection", P + "decoder.go"), ("unknown fields written last", P + "encoder.go")],
     ["prutal.Unmarshal", "prutal.Marshal"])

prop("P07", "Field presence and oneof exclusivity are preserved",
     """Pointer fields, oneof members and messages that are set, even to a zero or empty value, are encoded, and after decoding they are set;
     those that are not set are not encoded and stay unset; fields without presence are encoded exactly when they differ from zero.
     After any decode at most one member of each oneof is set: the last one on the wire.""",
     ["inputs", "programs", "histories"], "every type with presence-tracking fields, every value, every order of records",
     "The interesting cases are zero values inside presence-tracking fields and interleavings of oneof members of different kinds; tests set non-zero values.",
     [P + "decoder.go", P + "encoder.go", P + "sizer.go", D + "desc.go"],
     [("nil and zero tests per field", P + "encoder.go"), ("oneof setters", P + "decoder.go")],
     ["prutal.Marshal", "prutal.Unmarshal"])

prop("P08", "Maps of every key and value kind encode and decode exactly",
     """For each of the supported map key kinds and each value kind (scalars, strings, bytes, enums, messages), Marshal writes exactly one entry per key, holding that key and its value
     (zero ones included), and Unmarshal builds the map with exactly the entries on the wire, the last entry of a key winning as a whole,
     absent keys and values taking their defaults.""",
     ["inputs", "programs"], "every (key kind, value kind) pair, every map content, every entry encoding",
     "More than 200 combinations, most with hand-specialised code; the tests cover a fraction, with one or two entries.",
     [W + "encoder_map.go", W + "decoder_map.go", W + "size_map.go", P + "decoder.go", P + "encoder.go", D + "map.go"],
     [("specialised map writers", W + "encoder_map.go"), ("specialised map readers", W + "decoder_map.go"), ("generic map path", P + "decoder.go")],
     ["prutal.Marshal", "prutal.Unmarshal", "prutal.Size"])

prop("P09", "Unmarshal merges into what the target holds, and earlier calls never leak in",
     """Unmarshal into a message that already holds data gives the protobuf merge of both (scalars replaced, lists appended, maps updated, messages merged recursively, oneof replaced unless the same message member);
     decoding the concatenation of two encodings gives the same as decoding one after the other.
     The outcome depends only on the target and the input: pooled or reused memory, failed calls or other types used before never show.""",
     ["histories", "inputs"], "every sequence of decodes (successful and failed) into fresh or reused messages",
     "Decoder state is pooled and slices are grown in place, so a wrong result needs a particular sequence of calls; the tests decode into fresh values.",
     [P + "decoder.go", P + "span.go", P + "prutal.go"],
     [("slice growth and reuse", P + "decoder.go"), ("pooled decoders and span allocator", P + "span.go")],
     ["prutal.Unmarshal"],
     [{"name": "decoder pool", "meaning": "decoders with scratch memory, reused across calls", "where": P + "decoder.go"}])

prop("P10", "Decoded messages own their memory and stay intact under garbage collection",
     """After Unmarshal returns, the message does not change when the caller overwrites the input, decodes other messages, or modifies, appends to or drops other
     decoded messages or parts of the same message; garbage collection never frees or overwrites anything reachable from it.
     Strings, byte slices, list elements and pointers to scalars the caller took out of a message do not change when it is decoded into again.
     Marshal returns memory of its own and does not change the message.""",
     ["histories", "schedules", "inputs"], "every sequence of decodes, writes to inputs and outputs, appends to decoded slices, collections",
     "Aliasing and missing GC pointers (the decoder carves objects out of shared spans and writes through unsafe pointers) show only under particular later operations or collections, which tests do not provoke.",
     [P + "span.go", P + "decoder.go", P + "encoder.go", "internal/hack/hack.go"],
     [("span allocator for pointer-free data", P + "span.go"), ("allocation of typed memory", P + "decoder.go:Malloc"), ("string and bytes copies", P + "decoder.go")],
     ["prutal.Unmarshal", "prutal.Marshal"],
     [{"name": "span", "meaning": "shared blocks from which strings, byte slices and scalars of many messages are carved", "where": P + "span.go"}])

prop("P11", "Concurrent use is race-free and gives the results of sequential use",
     """Any number of goroutines may Marshal, Size and Unmarshal different messages, and Marshal and Size the same unchanging message, of any types at the same time, including types used for the first time and types that
     are rejected; every call returns what it would return alone, no goroutine sees a half-built type description, and no data race or deadlock occurs.""",
     ["schedules", "histories"], "every interleaving of calls on any mix of new, known, cyclic and unsupported types",
     "Type descriptions are built lazily under a lock, linked cyclically and read without the lock; the tests use one goroutine.",
     [D + "desc.go", D + "type.go", D + "utils.go", D + "map.go", P + "decoder.go", P + "encoder.go"],
     [("lock around parsing, publication", D + "desc.go"), ("lock-free reader map", D + "map.go"), ("pools", P + "decoder.go")],
     ["prutal.Marshal", "prutal.Unmarshal", "prutal.Size"],
     [{"name": "descriptor cache", "meaning": "type to description, published after completion", "where": D + "desc.go"}])

prop("P12", "Which message types are accepted does not depend on what happened before",
     """A Go type is accepted by Marshal, Size and Unmarshal exactly when it is a pointer to a struct all of whose tagged fields, transitively, have supported Go types that match their declared
     kinds and valid, distinct field numbers (1 to 2^29-1), where the members of a oneof count as fields and are single values (their wrappers being, as in generated code, pointers to structs of that one field); everything else is refused with an error, not misread or crashed on.
     Both answers are the same on every call, whatever types were accepted or refused earlier.""",
     ["programs", "histories"], "every Go struct type, every order of first uses",
     "The set of Go types and tags is open-ended, descriptions are cached, and cyclic types share parts of them; tests check a handful of bad structs, each once.",
     [D + "desc.go", D + "tag.go", D + "type.go", D + "funcs.go", P + "prutal.go"],
     [("tag parser", D + "tag.go"), ("type parser and cache", D + "desc.go")],
     ["prutal.Marshal", "prutal.Unmarshal", "prutal.Size"],
     [{"name": "descriptor cache", "meaning": "type to description", "where": D + "desc.go"}])

prop("P13", "The nesting limit is enforced alike for every way of nesting, in all calls",
     """Messages nested up to 1,000 deep (the root included) can be marshalled, sized and unmarshalled; one level more is an error (not a stack overflow) in all three,
     whichever mix of singular messages, lists, map values, oneofs and embedded messages makes the levels.
     Width does not count: siblings never use up the limit; nested groups in unknown fields are skipped or refused, but never overflow the stack.""",
     ["inputs", "programs"], "every nesting shape and depth",
     "Each container kind has its own recursive path, which must count levels once; the tests check one shape.",
     [P + "encoder.go", P + "decoder.go", P + "sizer.go", P + "prutal.go", "internal/protowire/wire.go"],
     [("depth parameters", P + "encoder.go"), ("depth parameters", P + "decoder.go"), ("depth parameters", P + "sizer.go")],
     ["prutal.Marshal", "prutal.Size", "prutal.Unmarshal"])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "gprops.py")).read()) if os.path.exists(
    os.path.join(os.path.dirname(os.path.abspath(__file__)), "gprops.py")) else None

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
