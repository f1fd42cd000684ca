package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"verifharness/abs"
	"verifharness/pgen"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
)

// emit generates the code of n sets of files below dir, with a registry of
// the generated types for the end-to-end sessions of cmd/codec.  Everything
// goes into the build through an overlay: see lib/checks.py.
func emit(dir string, seed int64, n int) {
	tmp, err := os.MkdirTemp(dir, "src-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	for k := 0; k < n; k++ {
		x := &sess{id: k, prof: "emit", g: abs.NewGen(seed*1000003 + int64(k)*7919 + 17), dir: filepath.Join(tmp, fmt.Sprint("s", k))}
		pre := fmt.Sprintf("verifharness/zgen/s%d", k)
		x.set = pgen.Gen(x.g, pgen.Opt{Simple: true, Tidy: 1, GoPrefix: pre, Files: 3, Big: x.g.P(0.4), Decor: x.g.P(0.3)})
		x.emitSet(dir, k)
		os.RemoveAll(x.dir)
	}
}

func (x *sess) emitSet(dir string, k int) {
	j, _ := json.Marshal(x.set)
	var reg, imports bytes.Buffer
	defer func() {
		text := fmt.Sprintf("package main\n\nimport (\n%s)\n\nfunc init() {\n\ts := &e2eSet{ID: %d, A: `%s`}\n%s\te2eSets = append(e2eSets, s)\n}\n", imports.String(), k, j, reg.String())
		x.write(filepath.Join(dir, "cmd/codec", fmt.Sprintf("zz_s%d.go", k)), text)
	}()
	ps, at, msg, ok := x.load(x.dir, x.g)
	if !ok || msg != "" {
		fmt.Fprintf(&reg, "\ts.Load = %q\n", "refused: "+clean(msg, x.dir))
		return
	}
	b := newBinding(x, ps, at)
	c := newCode(x, ps, at)
	if c == nil {
		fmt.Fprintf(&reg, "\ts.Load = %q\n", "crash")
		return
	}
	if r := c.compile(); !r["ok"].(bool) {
		fmt.Fprintf(&reg, "\ts.Compile = %q\n", r["msg"])
		return
	}
	alias := map[string]string{}
	for _, p := range ps {
		i := at[p.ProtoFile]
		x.write(filepath.Join(dir, "zgen", p.GoImport[len("verifharness/zgen/"):], fmt.Sprintf("f%d.pb.go", i)), c.src[p])
		if alias[p.GoImport] == "" {
			alias[p.GoImport] = fmt.Sprintf("p%d", len(alias))
			fmt.Fprintf(&imports, "\t%s %q\n", alias[p.GoImport], p.GoImport)
		}
		fmt.Fprintf(&reg, "\t_ = %s.ZzUsed\n", alias[p.GoImport])
		var ds []int
		for d := range x.set.F[i-1].D {
			ds = append(ds, d+1)
		}
		sort.Ints(ds)
		for _, d := range ds {
			switch v := b.of[[2]int{i, d}].(type) {
			case *prutalgen.Message:
				fs, os := []string{}, []string{}
				for _, f := range v.Fields {
					fs = append(fs, f.GoName)
				}
				for _, o := range v.Oneofs {
					os = append(os, o.FieldName())
				}
				fmt.Fprintf(&reg, "\ts.Msgs = append(s.Msgs, &e2eMsg{F: %d, D: %d, V: (*%s.%s)(nil), Fields: %#v, Oneofs: %#v})\n", i, d, alias[p.GoImport], v.GoName, fs, os)
			case *prutalgen.Enum:
				fmt.Fprintf(&reg, "\ts.Enums = append(s.Enums, &e2eEnum{F: %d, D: %d, V: func(v int32) any { return %s.%s(v) }})\n", i, d, alias[p.GoImport], v.GoName)
			}
		}
	}
	done := map[string]bool{}
	for _, p := range ps {
		if !done[p.GoImport] {
			done[p.GoImport] = true
			x.write(filepath.Join(dir, "zgen", p.GoImport[len("verifharness/zgen/"):], "zz_used.go"), "package "+p.GoPackage+"\n\nconst ZzUsed = 0\n")
		}
	}
}
