#!/usr/bin/env python3
"""Generates types_gen.go: static message types (oneofs of every kind, recursion, named enums)."""
K = {"int32":("int32","varint"),"int64":("int64","varint"),"uint32":("uint32","varint"),"uint64":("uint64","varint"),
"sint32":("int32","zigzag32"),"sint64":("int64","zigzag64"),"fixed32":("uint32","fixed32"),"fixed64":("uint64","fixed64"),
"sfixed32":("int32","fixed32"),"sfixed64":("int64","fixed64"),"float":("float32","fixed32"),"double":("float64","fixed64"),
"bool":("bool","varint"),"string":("string","bytes"),"bytes":("[]byte","bytes"),"enum":("Color","varint"),"msg":("*Leaf","bytes")}
out = ["// Code generated by gen.py. DO NOT EDIT.","package types","",'import "verifharness/abs"','import "reflect"',""]
reg = []
def oneof(name, old, groups, extra=""):
    """groups: list of (oneof field name, [(id, kind, gotype or None)])"""
    out.append(f"type {name} struct {{")
    for g, _ in groups: out.append(f'\t{g} is{name}_{g} `protobuf_oneof:"{g.lower()}"`')
    out.append(extra); out.append("}")
    ws = []
    for g, ms in groups:
        out.append(f"type is{name}_{g} interface {{ is{name}_{g}() }}")
        for id, kind, gt in ms:
            t, tag = K[kind]; t = gt or t
            w = f"{name}_{g}{id}"
            out.append(f'type {w} struct {{ V {t} `protobuf:"{tag},{id},opt,name=v{id},proto3,oneof"` }}')
            out.append(f"func (*{w}) is{name}_{g}() {{}}")
            ws.append(f"(*{w})(nil)")
    lst = "[]any{" + ", ".join(ws) + "}"
    out.append(f"func (*{name}) XXX_OneofWrappers() []any {{ return {lst} }}" if old else
               f"var wrappers{name} = {lst}\nfunc (*{name}) ProtoReflect() any {{ return newReflect(wrappers{name}) }}")
    reg.append(f"\tabs.OneofWrappers[reflect.TypeOf({name}{{}})] = {lst}")
ks = [k for k in K]
oneof("OneofOld", True, [("A", [(i+1, k, None) for i, k in enumerate(ks)])], '\tX int32 `protobuf:"varint,20,opt,name=x"`\n\tXXX_unrecognized []byte')
oneof("OneofNew", False, [("A", [(3*i+2, k, None) for i, k in enumerate(ks) if i % 2 == 0]), ("B", [(3*i+2, k, None) for i, k in enumerate(ks) if i % 2 == 1])],
      '\tName string `protobuf:"bytes,1,opt,name=name"`\n\tunknownFields []byte')
oneof("OneofTree", True, [("N", [(1, "msg", "*OneofTree"), (2, "msg", "*Leaf"), (3, "int32", None), (4, "string", None), (1001, "double", None), (5000, "bool", None)])],
      '\tKids []*OneofTree `protobuf:"bytes,7,rep,name=kids"`\n\tByName map[string]*OneofTree `protobuf:"bytes,8,rep,name=bn" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`')
out.append("func init() {"); out += reg; out.append("}")
open(__file__.replace("gen.py","types_gen.go"),"w").write("\n".join(out)+"\n")
