package pgen

import (
	"fmt"
	"strings"

	"verifharness/abs"
)

// rend writes one file in some layout.
type rend struct {
	strings.Builder
	g    *abs.Gen
	wild float64 // how often something other than a plain separator
	ind  int
	s    *Set
	f    *File
	kids map[int][]int
	// nothing but directives and comments may stand between them and the next token
	stick bool
}

// Render writes file i as text.  The layout is g's choice.
func Render(s *Set, i int, g *abs.Gen) string {
	r := &rend{g: g, s: s, f: s.F[i-1], kids: map[int][]int{}}
	switch g.Intn(4) {
	case 0:
		r.wild = 0
	case 1, 2:
		r.wild = 0.05
	default:
		r.wild = 0.4
	}
	for j, d := range r.f.D {
		r.kids[d.Up] = append(r.kids[d.Up], j+1)
	}
	r.file()
	t := r.String()
	if r.wild > 0 && g.P(0.1) && !strings.Contains(t, "\r") {
		t = strings.ReplaceAll(t, "\n", "\r\n")
	}
	if r.f.Broken {
		t = r.damage(t)
	}
	return t
}

func (r *rend) damage(t string) string {
	switch r.g.Intn(5) {
	case 0:
		return t + "\nmessage {"
	case 1:
		return t + "\nmessage Zz { int32 = 4; }"
	case 2:
		return t + "\nmessage Zz { map<float, int32> x = 4; }"
	case 3:
		return t + "\nmessage Zz { oneof o { repeated int32 x = 4; } }"
	}
	return t + "\nenum Zz { A = 0 }"
}

var noiseText = []string{"note", "TODO: 100% of x %s %d", "message X { int32 y = 1; }", "option go_package = \"no\";", "a // b", "'\"", "`", "import \"x\";", "é", ""}

func (r *rend) comment() string {
	t := noiseText[r.g.Intn(len(noiseText))]
	if r.g.P(0.5) {
		return "/* " + t + " */"
	}
	if r.g.P(0.1) {
		return "/* " + t + "\n * " + t + "\n */"
	}
	return "// " + t + "\n"
}

// sep is what stands between two tokens.
func (r *rend) sep() string {
	if !r.g.P(r.wild) {
		return " "
	}
	switch r.g.Intn(6) {
	case 0:
		return "\n"
	case 1:
		return "\t"
	case 2:
		return "  \n\n  "
	case 3:
		return " " + r.comment()
	case 4:
		return "\f "
	}
	return "   "
}

// w writes tokens.
func (r *rend) w(toks ...string) {
	for _, t := range toks {
		if t == "" {
			continue
		}
		tight := strings.ContainsAny(t[:1], ";,)]>") || t == "("
		if !r.stick && (!tight || r.g.P(r.wild)) {
			r.WriteString(r.sep())
		}
		r.stick = false
		r.WriteString(t)
	}
}

// nl ends a line; what comes next may carry directives.
func (r *rend) nl() {
	r.WriteString("\n")
	if r.g.P(r.wild) {
		r.WriteString("\n")
	}
	if r.g.P(r.wild / 6) { // a directive of nothing
		r.WriteString(r.dirText([]string{pickS(r.g, "no_pointer", "unknown_fields", "no_enum_prefix", "no_enum_mapping", "no_unknown_fields")}) + "\n\n")
	} else if r.g.P(r.wild / 2) {
		r.WriteString(strings.TrimRight(r.comment(), "\n") + "\n")
		if r.g.P(0.5) {
			r.WriteString("\n")
		}
	}
	r.WriteString(strings.Repeat("  ", r.ind))
}

func (r *rend) dirText(ds []string) string {
	sep := ","
	if r.g.P(0.3) {
		sep = " , "
	}
	return "//prutalgen:" + strings.Join(ds, sep)
}

// head writes directives above a declaration; what is left over goes behind it.
func (r *rend) head(ds []string, inline bool) (rest []string) {
	n := len(ds)
	if inline && n > 0 {
		n = r.g.Intn(len(ds) + 1)
	}
	if n == 0 {
		return ds
	}
	r.WriteString("\n")
	if r.g.P(0.3) {
		r.WriteString("// about it\n")
	}
	if n > 1 && r.g.P(0.5) {
		r.WriteString(r.dirText(ds[:1]) + "\n" + strings.Repeat(" ", r.g.Intn(4)) + r.dirText(ds[1:n]) + "\n")
	} else {
		r.WriteString(strings.Repeat(" ", r.g.Intn(4)) + r.dirText(ds[:n]) + "\n")
	}
	if r.g.P(0.3) {
		r.WriteString("// more about it\n")
	}
	r.stick = true
	return ds[n:]
}

func (r *rend) tail(ds []string) {
	if len(ds) > 0 {
		r.WriteString(" " + r.dirText(ds) + "\n")
	} else if r.g.P(r.wild) {
		r.WriteString(" " + strings.TrimRight(r.comment(), "\n") + "\n")
	}
}

func (r *rend) num(n int, big bool) string {
	if big {
		return pickS(r.g, "4294967297", "99999999999999999999", "0x100000001", "2147483648")
	}
	neg := ""
	if n < 0 {
		neg, n = "-", -n
		if r.g.P(r.wild) {
			neg += " "
		}
	}
	switch {
	case r.g.P(0.1):
		return neg + fmt.Sprintf("0x%x", n)
	case r.g.P(0.05):
		return neg + fmt.Sprintf("0X%X", n)
	case r.g.P(0.1):
		return neg + fmt.Sprintf("0%o", n)
	}
	return neg + fmt.Sprint(n)
}

func pickS(g *abs.Gen, ss ...string) string { return ss[g.Intn(len(ss))] }

// str writes a string literal.
func (r *rend) str(s string) string {
	q := pickS(r.g, `"`, `"`, `'`)
	if r.wild == 0 || !r.g.P(0.5) || strings.ContainsAny(s, `"'\`) {
		return q + s + q
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch {
		case r.g.P(0.1):
			fmt.Fprintf(&b, `\x%02x`, s[i])
		case r.g.P(0.1):
			fmt.Fprintf(&b, `\%03o`, s[i])
		default:
			b.WriteByte(s[i])
		}
		if r.g.P(0.03) {
			b.WriteString(q + " " + q)
		}
	}
	return q + b.String() + q
}

func (r *rend) option(name, val string) {
	r.nl()
	r.w("option", name, "=", val, ";")
}

// features may be written one by one or as an aggregate.
func (r *rend) features(fp, enc string) []string {
	var a [][2]string
	if fp != "" {
		a = append(a, [2]string{"field_presence", fp})
	}
	if enc != "" {
		a = append(a, [2]string{"repeated_field_encoding", enc})
	}
	if len(a) == 0 {
		return nil
	}
	if r.g.P(0.15) {
		s := "features = {"
		for i, x := range a {
			if i > 0 {
				s += pickS(r.g, ", ", " ", "; ")
			}
			s += x[0] + ": " + x[1]
		}
		return []string{s + "}"}
	}
	var out []string
	for _, x := range a {
		out = append(out, "features."+x[0]+" = "+x[1])
	}
	return out
}

func (r *rend) file() {
	f, g := r.f, r.g
	if g.P(r.wild) {
		r.WriteString("// Copyright\n\n")
	}
	if len(f.Dirs) > 0 {
		r.head(f.Dirs, false)
	}
	switch f.Syn {
	case "":
	case "2023":
		r.w("edition", "=", r.str("2023"), ";")
	default:
		r.w("syntax", "=", r.str(f.Syn), ";")
	}
	// statement groups: order among groups is free
	var gs []func()
	if len(f.Pkg) > 0 {
		gs = append(gs, func() { r.nl(); r.w("package", r.dotted(f.Pkg), ";") })
	}
	if len(f.GoImp) > 0 {
		gs = append(gs, func() {
			s := Join(f.GoImp, "/")
			if len(f.GoName) > 0 {
				s += pickS(g, ";", ";", " ; ") + string(f.GoName)
			}
			r.option("go_package", r.str(s))
		})
	}
	gs = append(gs, func() {
		for _, i := range f.Imps {
			p := "nowhere/none.proto"
			if i.F > 0 {
				p = r.s.F[i.F-1].Path
			}
			r.nl()
			r.w("import", i.Kind, r.str(p), ";")
		}
	}, func() {
		for _, x := range r.features(f.FP, f.Enc) {
			r.nl()
			r.w("option", x, ";")
		}
		if f.Unrec != "" {
			r.option("(gogoproto.goproto_unrecognized_all)", f.Unrec)
		}
		if f.Prefix != "" {
			r.option("(gogoproto.goproto_enum_prefix_all)", f.Prefix)
		}
		for _, x := range f.Noise {
			r.nl()
			r.w(x)
		}
	})
	for _, d := range r.kids[0] {
		d := d
		gs = append(gs, func() { r.def(d) })
	}
	if r.wild > 0.3 && f.Syn != "" && len(f.Dirs) == 0 { // any order, definitions among themselves in order
		n := len(gs) - len(r.kids[0])
		hd, tl := gs[:n], gs[n:]
		g.Shuffle(n, func(i, j int) { hd[i], hd[j] = hd[j], hd[i] })
		for len(hd) > 0 || len(tl) > 0 {
			if len(tl) == 0 || (len(hd) > 0 && g.P(0.5)) {
				hd[0]()
				hd = hd[1:]
			} else {
				tl[0]()
				tl = tl[1:]
			}
		}
	} else {
		for _, x := range gs {
			x()
		}
	}
	if g.P(0.8) {
		r.WriteString("\n")
	}
}

func (r *rend) dotted(p []Name) string {
	s := ""
	for i, x := range p {
		if i > 0 {
			s += "."
			if r.g.P(r.wild / 4) {
				s += " "
			}
		}
		s += string(x)
	}
	return s
}

func (r *rend) ref(t Ref) string {
	if t.S != "" {
		return t.S
	}
	s := ""
	if t.Dot {
		s = "."
	}
	return s + r.dotted(t.R)
}

func (r *rend) opts(oo []string) {
	if len(oo) == 0 {
		return
	}
	r.w("[")
	for i, o := range oo {
		if i > 0 {
			r.w(",")
		}
		r.w(o)
	}
	r.w("]")
}

func (r *rend) field(x *Field) {
	r.nl()
	rest := r.head(x.Dirs, true)
	switch x.Lab {
	case "map":
		r.w("map", "<", x.Key, ",", r.ref(x.T), ">")
	default:
		r.w(x.Lab, r.ref(x.T))
	}
	r.w(string(x.N), "=", r.num(x.Num, x.Big))
	var oo []string
	if x.Pk != "" {
		oo = append(oo, "packed = "+x.Pk)
	}
	oo = append(oo, r.features(x.FP, x.Enc)...)
	if x.Null != "" {
		oo = append(oo, "(gogoproto.nullable) = "+x.Null)
	}
	oo = append(oo, x.Noise...)
	r.g.Shuffle(len(oo), func(i, j int) { oo[i], oo[j] = oo[j], oo[i] })
	r.opts(oo)
	r.w(";")
	r.tail(rest)
}

func (r *rend) reserved(d *Def) {
	if len(d.Res) > 0 {
		r.nl()
		r.w("reserved")
		for i, x := range d.Res {
			if i > 0 {
				r.w(",")
			}
			r.w(r.num(x[0], false))
			if x[1] != x[0] || r.g.P(0.1) {
				if (x[1] == 536870911 && d.K == "msg" || x[1] == 2147483647) && r.g.P(0.8) {
					r.w("to", "max")
				} else {
					r.w("to", r.num(x[1], false))
				}
			}
		}
		r.w(";")
	}
	if len(d.ResN) > 0 {
		r.nl()
		r.w("reserved")
		for i, x := range d.ResN {
			if i > 0 {
				r.w(",")
			}
			r.w(r.str(string(x)))
		}
		r.w(";")
	}
}

func (r *rend) def(di int) {
	d, g := r.f.D[di-1], r.g
	r.nl()
	rest := r.head(d.Dirs, d.K != "svc" && g.P(0.3))
	var gs []func()
	switch d.K {
	case "msg":
		r.w("message", string(d.N), "{")
		r.ind++
		// three sequences, merged at random: fields, nested definitions, the rest
		var fs, ds, os []func()
		for i := 0; i < len(d.F); i++ {
			x := d.F[i]
			if x.O == 0 {
				fs = append(fs, func() { r.field(x) })
				continue
			}
			grp := []*Field{x}
			for i+1 < len(d.F) && d.F[i+1].O == x.O {
				i++
				grp = append(grp, d.F[i])
			}
			fs = append(fs, func() {
				r.nl()
				r.w("oneof", string(d.O[x.O-1]), "{")
				r.ind++
				if g.P(0.05) {
					r.option("(a.b)", "1")
				}
				for _, y := range grp {
					r.field(y)
				}
				r.ind--
				r.nl()
				r.w("}")
			})
		}
		for _, k := range r.kids[di] {
			ds = append(ds, func() { r.def(k) })
		}
		if len(d.Res)+len(d.ResN) > 0 {
			os = append(os, func() { r.reserved(d) })
		}
		if d.Unrec != "" {
			os = append(os, func() { r.option("(gogoproto.goproto_unrecognized)", d.Unrec) })
		}
		if g.P(r.wild / 2) {
			os = append(os, func() { r.nl(); r.w(";") })
		}
		if g.P(r.wild / 2) {
			os = append(os, func() { r.option("deprecated", "false") })
		}
		if g.P(0.3) { // nested definitions last
			gs = append(append(fs, os...), ds...)
		} else {
			for len(fs)+len(ds)+len(os) > 0 {
				switch k := g.Intn(3); {
				case k == 0 && len(fs) > 0:
					gs, fs = append(gs, fs[0]), fs[1:]
				case k == 1 && len(ds) > 0:
					gs, ds = append(gs, ds[0]), ds[1:]
				case k == 2 && len(os) > 0:
					gs, os = append(gs, os[0]), os[1:]
				}
			}
		}
	case "enum":
		r.w("enum", string(d.N), "{")
		r.ind++
		if d.Alias != "" {
			gs = append(gs, func() { r.option("allow_alias", d.Alias) })
		}
		if d.Prefix != "" {
			gs = append(gs, func() { r.option("(gogoproto.goproto_enum_prefix)", d.Prefix) })
		}
		if len(d.Res)+len(d.ResN) > 0 {
			gs = append(gs, func() { r.reserved(d) })
		}
		n := g.Intn(len(gs) + 1)
		pre, post := gs[:n], gs[n:]
		gs = append([]func(){}, pre...)
		for _, v := range d.V {
			gs = append(gs, func() {
				r.nl()
				rest := r.head(v.Dirs, true)
				r.w(string(v.N), "=", r.num(v.V, v.Big))
				if g.P(0.1) {
					r.opts([]string{"deprecated = true"})
				}
				r.w(";")
				r.tail(rest)
			})
		}
		gs = append(gs, post...)
	case "svc":
		r.w("service", string(d.N), "{")
		r.ind++
		for _, m := range d.M {
			gs = append(gs, func() {
				st := func(b bool) string {
					if b {
						return "stream"
					}
					return ""
				}
				r.nl()
				r.w("rpc", string(m.N), "(", st(m.RS), r.ref(m.Req), ")", "returns", "(", st(m.SS), r.ref(m.Ret), ")")
				if g.P(0.3) {
					r.w("{")
					if g.P(0.5) {
						r.option("deprecated", "true")
					}
					if g.P(0.5) {
						r.option("(google.api.http)", `{ get: "/v1/x" }`)
					}
					r.w("}")
				} else {
					r.w(";")
				}
			})
		}
	}
	for _, x := range gs {
		x()
	}
	r.ind--
	r.nl()
	r.w("}")
	r.tail(rest)
}
