package main

import (
	"go/ast"
	"go/parser"
	"math"
	"strings"

	"verifharness/pgen"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
)

// What a program that uses the loader as a library asks of the definitions.

var directives = []string{"no_pointer", "no_enum_prefix", "no_enum_mapping", "unknown_fields"}

func dirs(dd prutalgen.Directives) []M {
	out := []M{}
	for _, d := range directives {
		v, ok := dd.IsSet(d)
		out = append(out, M{"d": d, "has": dd.Has(d), "v": v, "ok": ok})
	}
	return out
}

// opts are the answers of Get and Is for some options, under short names.
func opts(oo prutalgen.Options, names ...string) []M {
	out := []M{}
	for i := 0; i < len(names); i += 2 {
		v, ok := oo.Get(names[i+1])
		is := []string{}
		asked := map[string]bool{}
		for _, w := range []string{"true", "false", "EXPLICIT", "IMPLICIT", "LEGACY_REQUIRED", "PACKED", "EXPANDED", "",
			v, strings.ToUpper(v), strings.ToLower(v), strings.Title(v), v + " ", "1", "TRUE", "False"} {
			if !asked[w] && oo.Is(names[i+1], w) {
				is = append(is, w)
			}
			asked[w] = true
		}
		out = append(out, M{"o": names[i], "v": v, "ok": ok, "is": is})
	}
	return out
}

// probes are numbers at which to ask what is reserved.
func (b *binding) probes(res [][2]int, in func(int32) bool) []M {
	g := b.x.g
	vs := []int{0, 1, 18999, 19000, 19999, 20000, 1<<29 - 1, g.Intn(40), g.Intn(30000), -1 - g.Intn(9)}
	for _, r := range res {
		vs = append(vs, r[0], r[0]-1, r[1], r[1]+1, r[0]+(r[1]-r[0])/2)
	}
	out := []M{}
	for _, v := range vs {
		if v >= math.MinInt32 && v <= math.MaxInt32 {
			out = append(out, M{"v": v, "in": in(int32(v))})
		}
	}
	return out
}

// expr reads a Go type or value that the loader spelt.
func (b *binding) expr(p *prutalgen.Proto, t *prutalgen.Type, s string) (ast.Expr, *src) {
	e, err := parser.ParseExpr(s)
	if err != nil {
		e = &ast.BadExpr{}
	}
	x := &src{p: p, imps: map[string]string{}}
	if t.IsExternalType() {
		x.imps[t.GoImportAlias()] = t.GoImport()
	}
	return e, x
}

func zero(e ast.Expr, x *src) M {
	m := M{"z": "bad", "g": []pgen.Name{}, "n": pgen.Name{}}
	named := func(z string, e ast.Expr) {
		t := x.typ(e)
		if t["b"] == "ref" {
			m["z"], m["g"], m["n"] = z, t["g"], t["n"]
		}
	}
	switch t := e.(type) {
	case *ast.BasicLit:
		m["z"] = t.Value
	case *ast.Ident:
		if t.Name == "nil" || t.Name == "false" {
			m["z"] = t.Name
		} else {
			named("const", t)
		}
	case *ast.SelectorExpr:
		named("const", t)
	case *ast.CompositeLit:
		if len(t.Elts) == 0 {
			named("struct", t.Type)
		}
	}
	return m
}

func (b *binding) query(i int, p *prutalgen.Proto) M {
	links := true
	link := func(ok bool) { links = links && ok }
	als := map[string]string{}
	ds := []M{}
	f := b.x.set.F[i-1]
	parent := func(m *prutalgen.Message, up int) bool {
		if up == 0 {
			return m == nil
		}
		return m != nil && b.def[m] == [2]int{i, up}
	}
	for j := range f.D {
		e := M{"k": "", "d": []M{}, "o": []M{}, "res": []M{}, "f": []M{}, "of": []pgen.Name{}, "vd": [][]M{}}
		switch v := b.of[[2]int{i, j + 1}].(type) {
		case *prutalgen.Message:
			e["k"], e["d"] = "msg", dirs(v.Directives)
			e["o"] = opts(v.Options, "unrec", "(gogoproto.goproto_unrecognized)")
			e["res"] = b.probes(f.D[j].Res, v.IsReservedField)
			link(v.Proto == p && parent(v.Msg, f.D[j].Up))
			fs := []M{}
			for _, f := range v.Fields {
				link(f.Msg == v)
				q := M{"d": dirs(f.Directives), "ptr": f.IsPointer(), "enc": f.Type.EncodingType(), "wrap": pgen.Name{}, "kgo": "", "kenc": "", "al": pgen.Name{},
					"o": opts(f.Options, "pk", "packed", "fp", "features.field_presence", "enc", "features.repeated_field_encoding", "null", "(gogoproto.nullable)")}
				te, x := b.expr(p, f.Type, f.GoTypeName())
				q["t"] = x.typ(te)
				te, x = b.expr(p, f.Type, f.Type.GoName())
				q["b"] = x.typ(te)
				te, x = b.expr(p, f.Type, f.GoZero())
				q["z"] = zero(te, x)
				if f.Oneof != nil {
					q["wrap"] = pgen.N(f.OneofStructName())
				}
				if f.IsMap() {
					q["kgo"], q["kenc"] = f.Key.GoName(), f.Key.EncodingType()
					link(!f.Key.IsExternalType() && f.Key.Message() == nil && f.Key.Enum() == nil)
				}
				if a := f.Type.GoImportAlias(); f.Type.IsExternalType() {
					link(als[a] == "" || als[a] == f.Type.GoImport())
					als[a] = f.Type.GoImport()
				} else {
					link(a == "")
				}
				link((f.Type.Message() != nil) == f.Type.IsMessage() && (f.Type.Enum() != nil) == f.Type.IsEnum())
				fs = append(fs, q)
			}
			of := []pgen.Name{}
			for _, o := range v.Oneofs {
				link(o.Msg == v)
				for _, f := range o.Fields {
					link(f.Oneof == o)
				}
				of = append(of, pgen.N(o.FieldType()))
			}
			e["f"], e["of"] = fs, of
		case *prutalgen.Enum:
			e["k"], e["d"] = "enum", dirs(v.Directives)
			e["o"] = opts(v.Options, "alias", "allow_alias", "prefix", "(gogoproto.goproto_enum_prefix)")
			e["res"] = b.probes(f.D[j].Res, v.IsReservedField)
			link(v.Proto == p && parent(v.Msg, f.D[j].Up))
			vd := [][]M{}
			for _, x := range v.Fields {
				link(x.Enum == v)
				vd = append(vd, dirs(x.Directives))
			}
			e["vd"] = vd
		case *prutalgen.Service:
			e["k"] = "svc"
			link(v.Proto == p)
			for _, m := range v.Methods {
				link(m.Service == v)
			}
		}
		ds = append(ds, e)
	}
	return M{"op": "query", "f": i, "d": ds, "dirs": dirs(p.Directives),
		"o": opts(p.Options, "fp", "features.field_presence", "enc", "features.repeated_field_encoding",
			"unrec", "(gogoproto.goproto_unrecognized_all)", "prefix", "(gogoproto.goproto_enum_prefix_all)"), "links": links}
}
