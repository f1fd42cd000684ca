#!/usr/bin/env python3
"""Generates cyclic_gen.go: groups of mutually recursive struct types, some with unsupported fields."""
import random
R = random.Random(7)
BAD = ['chan int `protobuf:"varint,%d,opt,name=x"`', 'int `protobuf:"varint,%d,opt,name=x"`', 'string `protobuf:"varint,%d,opt,name=x"`',
       '[]*int32 `protobuf:"varint,%d,rep,name=x"`', 'int32 `protobuf:"group,%d,opt,name=x"`', '[][]int32 `protobuf:"varint,%d,rep,name=x"`',
       'map[string]int32 `protobuf:"bytes,%d,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`', 'int32 `protobuf:"varint,1,opt,name=x"`',
       '**int32 `protobuf:"varint,%d,opt,name=x"`', '[]int32 `protobuf:"varint,%d,opt,name=x"`', 'map[int32]string `protobuf:"bytes,%d,opt,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`']
GOOD = ['int32 `protobuf:"varint,%d,opt,name=x"`', '*string `protobuf:"bytes,%d,opt,name=x,def=a,rep,7"`', '[]float64 `protobuf:"fixed64,%d,rep,packed,name=x"`',
        'map[string]bool `protobuf:"bytes,%d,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`', '[]byte `protobuf:"bytes,%d,opt,name=x"`']
out = ["// Code generated by gencyc.py. DO NOT EDIT.", "package types", "", 'import "reflect"', ""]
groups = []
for g in range(48):
    n = R.randint(2, 5)
    names = ["Cyc%d%s" % (g, "ABCDE"[i]) for i in range(n)]
    bad = set(R.sample(range(n), R.choice([0, 1, 1, 1, 2]) if n > 1 else 1))
    for i, nm in enumerate(names):
        out.append("type %s struct {" % nm)
        fs, k = [], 1
        for _ in range(R.randint(1, 3)):
            t = R.choice(names)
            c = R.choice(["*%s `protobuf:\"bytes,%d,opt,name=x\"`", "[]*%s `protobuf:\"bytes,%d,rep,name=x\"`",
                          "[]%s `protobuf:\"bytes,%d,rep,name=x\"`",
                          "map[int32]*%s `protobuf:\"bytes,%d,rep,name=x\" protobuf_key:\"varint,1,opt\" protobuf_val:\"bytes,2,opt\"`",
                          "map[string]%s `protobuf:\"bytes,%d,rep,name=x\" protobuf_key:\"bytes,1,opt\" protobuf_val:\"bytes,2,opt\"`"])
            fs.append(c % (t, k)); k += 1
        fs.append(R.choice(GOOD) % k); k += 1
        if i in bad:
            b = R.choice(BAD)
            fs.append(b % k if "%d" in b else b); k += 1
        R.shuffle(fs)
        for j, f in enumerate(fs):
            out.append("\tF%d %s" % (j, f))
        out.append("}")
    groups.append("{" + ", ".join("reflect.TypeOf(%s{})" % n for n in names) + "}")
out.append("// Cyclic lists the groups.")
out.append("var Cyclic = [][]reflect.Type{")
out += ["\t%s," % g for g in groups]
out.append("}")
open(__file__.replace("gencyc.py", "cyclic_gen.go"), "w").write("\n".join(out) + "\n")
