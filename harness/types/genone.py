#!/usr/bin/env python3
"""Generates oneof_gen.go: struct types with oneofs, supported and unsupported ones."""
ENC = ["varint", "zigzag32", "zigzag64", "fixed32", "fixed64", "bytes", "group"]
SHAPES = ["bool", "int32", "int64", "uint32", "uint64", "float32", "float64", "string", "[]byte", "Color", "*Leaf", "Leaf", "int", "[]int32", "[]string", "[]*Leaf",
          "map[string]string", "map[int32]*Leaf", "**Leaf", "[4]byte", "any", "chan int", "*[]byte", "[][]byte", "uint8", "*int32", "*string"]
out = ["// Code generated by genone.py. DO NOT EDIT.", "package types", "", "import (", '\t"reflect"', "", '\t"verifharness/abs"', ")", ""]
names = []


def struct(wrappers, plain='int32 `protobuf:"varint,1,opt,name=p"`', new=False, holder=False, oneofs=1):
    """wrappers: the fields of each wrapper struct"""
    n = "One%d" % len(names)
    out.append("type %s struct {\n\tP %s" % (n, plain))
    for o in range(oneofs):
        out.append("\tO%d is%s_%d `protobuf_oneof:\"o%d\"`" % (o, n, o, o))
    out.append("}")
    for o in range(oneofs):
        out.append("type is%s_%d interface{ is%s_%d() }" % (n, o, n, o))
    ws = []
    for i, w in enumerate(wrappers):
        out.append("type %s_W%d struct {%s}" % (n, i, "; ".join(w)))
        out.append("func (*%s_W%d) is%s_%d() {}" % (n, i, n, i % oneofs))
        ws.append("(*%s_W%d)(nil)" % (n, i))
    out.append("var wrappers%s = []any{%s}" % (n, ", ".join(ws)))
    out.append("func (*%s) ProtoReflect() any { return newReflect(wrappers%s) }" % (n, n) if new else "func (*%s) XXX_OneofWrappers() []any { return wrappers%s }" % (n, n))
    names.append(n)
    if holder:
        out.append("type %sIn struct {\n\tM %s `protobuf:\"bytes,3,rep,name=m\"%s`\n}" % (n, holder % n, ' protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"' if "map" in holder else ""))
        names.append(n + "In")


def member(t, enc, id=2, label="opt", more=",oneof"):
    tag = '`protobuf:"%s,%s,%s,name=v%s"' % (enc, id, label, more)
    if t.startswith("map"):
        tag += ' protobuf_key:"%s,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"' % ("varint" if "int32" in t else "bytes")
    return "V " + t + " " + tag + "`"


k = 0
for t in SHAPES:
    for e in ENC:
        for l in ["opt", "rep"] if t[0] in "[m*" else ["opt"]:
            k += 1
            struct([[member("int32", "varint", 9)], [member(t, e, label=l)]][k % 3 != 0:], new=k % 5 == 0)
ok, ok3 = member("string", "bytes"), member("int64", "zigzag64", 3)
H = [False, "[]*%s", "map[int32]*%s"]
for new in (False, True):
    for h in H:
        struct([[ok], [ok3]], new=new, holder=h)
        struct([[ok], []], new=new, holder=h)                                   # an empty wrapper
        struct([[ok], [ok3, "X int32"]], new=new, holder=h)                     # two fields
        struct([["X int32", ok3]], new=new, holder=h)
        struct([[ok, ok3.replace("V ", "W ")]], new=new, holder=h)
        struct([[ok], ["V int32"]], new=new, holder=h)                          # no tag
        struct([['V int32 `json:"v"`'], [ok]], new=new, holder=h)
        struct([[ok], [member("int32", "varint", 1)]], new=new, holder=h)       # the number of the plain field
        struct([[ok], [ok3], [member("bool", "varint", 2)]], new=new, holder=h) # the number of another member
        struct([[ok], [ok3], [member("bool", "varint", 2)]], new=new, holder=h, oneofs=2)  # in another oneof
        struct([[ok], [ok3], [member("bool", "varint", 4)]], new=new, holder=h, oneofs=2)
        struct([[member("string", "bytes", 70000)], [member("bool", "varint", 70000)]], new=new, holder=h)
        for id in ["0", "", "536870911", "536870912", "4294967298", "-1"]:
            struct([[ok3], [member("bool", "varint", id)]], new=new, holder=h)
        struct([[ok3], [member("bool", "varint", 4, more=",packed,oneof")]], new=new, holder=h)
        struct([[ok3], [member("bool", "varint", 4, more=",proto3,oneof")]], new=new, holder=h, plain='chan int `protobuf:"varint,1,opt,name=p"`')
out.append("// Oneofs lists the types.")
out.append("var Oneofs = []reflect.Type{")
out += ["\treflect.TypeOf(%s{})," % n for n in names]
out.append("}\n\nfunc init() {")
out += ["\tabs.OneofWrappers[reflect.TypeOf(%s{})] = wrappers%s" % (n, n) for n in names if not n.endswith("In")]
out.append("}")
open(__file__.replace("genone.py", "oneof_gen.go"), "w").write("\n".join(out) + "\n")
