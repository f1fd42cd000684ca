package main

import (
	"verifharness/pgen"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
)

// binding tells which definition of the abstract syntax the loader's
// messages, enums and services stand for.
type binding struct {
	x     *sess
	ps    []*prutalgen.Proto
	at    map[string]int
	def   map[any][2]int // *Message, *Enum, *Service -> file, definition
	extra map[int]int
	of    map[[2]int]any
}

func newBinding(x *sess, ps []*prutalgen.Proto, at map[string]int) *binding {
	b := &binding{x: x, ps: ps, at: at, def: map[any][2]int{}, extra: map[int]int{}, of: map[[2]int]any{}}
	for _, p := range ps {
		i := at[p.ProtoFile]
		if i == 0 {
			continue
		}
		f := x.set.F[i-1]
		// the n-th definition of its kind in the same place
		find := func(kind string, up, n int) int {
			for j, d := range f.D {
				if d.K == kind && d.Up == up {
					if n == 0 {
						return j + 1
					}
					n--
				}
			}
			return 0
		}
		put := func(v any, kind string, up, n int) int {
			d := find(kind, up, n)
			if d == 0 {
				b.extra[i]++
				return -1
			}
			b.def[v] = [2]int{i, d}
			b.of[[2]int{i, d}] = v
			return d
		}
		var msgs func(up int, ms []*prutalgen.Message, es []*prutalgen.Enum)
		msgs = func(up int, ms []*prutalgen.Message, es []*prutalgen.Enum) {
			for n, e := range es {
				put(e, "enum", up, n)
			}
			for n, m := range ms {
				if d := put(m, "msg", up, n); d > 0 {
					msgs(d, m.Messages, m.Enums)
				}
			}
		}
		msgs(0, p.Messages, p.Enums)
		for n, s := range p.Services {
			put(s, "svc", 0, n)
		}
	}
	return b
}

func (b *binding) files() (out []M) {
	for _, p := range b.ps {
		imps := []M{}
		for _, m := range p.Imports {
			imps = append(imps, M{"f": b.at[m.ProtoFile], "pub": m.Public})
		}
		syn := p.Edition
		out = append(out, M{"f": b.at[p.ProtoFile], "pkg": pgen.Path(p.Package, "."), "goimp": segs(p.GoImport), "gopkg": pgen.N(p.GoPackage),
			"syn": syn, "imps": imps, "p2": p.IsProto2(), "p3": p.IsProto3(), "e23": p.IsEdition2023()})
	}
	return out
}

func (b *binding) typ(t *prutalgen.Type) M {
	m := M{"f": 0, "d": 0, "s": "", "imp": segs(t.GoImport()), "ext": t.IsExternalType()}
	var v any
	if t.IsMessage() {
		v = t.Message()
	} else if t.IsEnum() {
		v = t.Enum()
	}
	if v == nil {
		m["s"] = t.Name
	} else {
		d := b.def[v]
		m["f"], m["d"] = d[0], d[1]
	}
	return m
}

func (b *binding) ast(i int, p *prutalgen.Proto) M {
	ds := []M{}
	for j := range b.x.set.F[i-1].D {
		e := M{"k": "", "n": pgen.Name{}, "full": []pgen.Name{}, "gn": pgen.Name{}, "f": []M{}, "o": []M{}, "v": []M{}, "m": []M{}}
		switch v := b.of[[2]int{i, j + 1}].(type) {
		case *prutalgen.Message:
			e["k"], e["n"], e["full"], e["gn"] = "msg", pgen.N(v.Name), pgen.Path(v.FullName(), "."), pgen.N(v.GoName)
			fs, os := []M{}, []M{}
			for _, f := range v.Fields {
				o := 0
				for k, x := range v.Oneofs {
					if x == f.Oneof {
						o = k + 1
					}
				}
				if f.Oneof != nil && o == 0 {
					o = -1
				}
				key, lab := "", ""
				switch {
				case f.Key != nil:
					key, lab = f.Key.Name, "map"
				case f.Repeated:
					lab = "repeated"
				case f.Required:
					lab = "required"
				case f.Optional:
					lab = "optional"
				}
				fs = append(fs, M{"n": pgen.N(f.Name), "num": f.FieldNumber, "lab": lab, "key": key, "o": o, "gn": pgen.N(f.GoName), "t": b.typ(f.Type),
					"ismap": f.IsMap(), "isenum": f.IsEnum(), "ismsg": f.IsMessage(), "packed": f.Repeated && f.IsPackedEncoding()})
			}
			for _, o := range v.Oneofs {
				os = append(os, M{"n": pgen.N(o.Name), "gn": pgen.N(o.FieldName()), "c": len(o.Fields)})
			}
			e["f"], e["o"] = fs, os
		case *prutalgen.Enum:
			e["k"], e["n"], e["full"], e["gn"] = "enum", pgen.N(v.Name), pgen.Path(v.FullName(), "."), pgen.N(v.GoName)
			vs := []M{}
			for _, f := range v.Fields {
				vs = append(vs, M{"n": pgen.N(f.Name), "v": f.Value, "gn": pgen.N(f.GoName)})
			}
			e["v"] = vs
		case *prutalgen.Service:
			e["k"], e["n"], e["gn"] = "svc", pgen.N(v.Name), pgen.N(v.GoName)
			ms := []M{}
			for _, f := range v.Methods {
				ms = append(ms, M{"n": pgen.N(f.Name), "gn": pgen.N(f.GoName), "req": b.typ(f.Request), "ret": b.typ(f.Return), "rs": f.RequestStream, "ss": f.ReturnStream})
			}
			e["m"] = ms
		}
		ds = append(ds, e)
	}
	return M{"op": "ast", "f": i, "d": ds, "extra": b.extra[i]}
}
