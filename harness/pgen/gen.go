package pgen

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"verifharness/abs"
)

// Opt steers generation.
type Opt struct {
	GoPrefix string  // of all Go import paths
	Files    int     // at most
	Invalid  float64 // how often one thing is made invalid
	Simple   bool    // end-to-end sessions: nothing whose Go form is open
	Big      bool    // larger messages
	Refs     bool    // many packages and nesting levels, for name resolution
	Tidy     float64 // how often sets without clashes of Go names and without structs that contain themselves
	Decor    bool    // many directives and gogoproto options
}

type gen struct {
	*abs.Gen
	o    Opt
	s    *Set
	used map[string]map[string]bool // scope -> names
	tidy bool
	n    int             // files that do not come with prutalgen
	few  bool            // few names, which therefore hide each other
	decl map[string]bool // Go package + "." + Go name
	huge string          // what there is a lot of
}

// camel is the Go name of a protobuf name, to see clashes coming.
func camel(s string) string {
	var b []byte
	up := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		lower := i+1 < len(s) && 'a' <= s[i+1] && s[i+1] <= 'z'
		switch {
		case c == '.' && lower, c == '_' && lower && i > 0 && s[i-1] != '.':
			up = true
			continue
		case c == '_' && (i == 0 || s[i-1] == '.'):
			b = append(b, 'X')
		case c == '.':
			b = append(b, '_')
		case 'a' <= c && c <= 'z' && up:
			b = append(b, c-32)
		default:
			b = append(b, c)
		}
		up = !('a' <= c && c <= 'z' || 'A' <= c && c <= 'Z')
	}
	return string(b)
}

func (g *gen) local(f *File, d int) string {
	return Join(f.FullName(d)[len(f.Pkg):], ".")
}

// fresh tells whether the Go names are new in f's Go package, and takes them.
func (g *gen) fresh(f *File, names ...string) bool {
	if !g.tidy {
		return true
	}
	p := Join(f.GoImp, "/")
	if len(f.MImp) > 0 {
		p = Join(f.MImp, "/")
	}
	for _, n := range names {
		if g.decl[p+"."+n] {
			return false
		}
	}
	for _, n := range names {
		g.decl[p+"."+n] = true
	}
	return true
}

var msgNames = []string{"M", "Foo", "Bar", "foo", "bar", "Baz", "Msg_1", "msg_x", "N", "Node", "_u", "A1b", "fooBar", "Foo_bar", "String", "message", "Http2Url"}
var enumNames = []string{"E", "Kind", "kind", "Foo", "bar", "Color_1", "Status", "E2", "e_x"}
var fieldNames = []string{"a", "b", "c", "foo", "foo_bar", "Foo", "fooBar", "x1", "x_1", "_x", "x__y", "id", "name", "reset", "string", "marshal", "unmarshal",
	"get_foo", "get_id", "proto_message", "descriptor", "message", "to", "max", "enum", "map", "option", "UPPER", "a1b2", "kind", "val", "trailing_", "size", "extension_map", "my_id", "URL", "package", "rpc", "int32", "repeated", "syntax"}
var valNames = []string{"ZERO", "ONE", "TWO", "foo", "Bar", "a_b", "UNKNOWN", "X1", "V_2", "neg", "max", "option", "lower", "_u", "C3", "D4"}
var pkgs = []string{"", "foo", "foo.bar", "foo.bar.baz", "bar", "bar.foo", "foo.baz", "Foo", "a.b.c"}
var scalars = abs.Kinds
var keyKinds = []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"}

func pick[T any](g *gen, xs []T) T { return xs[g.Intn(len(xs))] }

// Gen makes a set of files.
func Gen(ag *abs.Gen, o Opt) *Set {
	g := &gen{Gen: ag, o: o, used: map[string]map[string]bool{}, decl: map[string]bool{}, tidy: ag.P(o.Tidy)}
	g.s = &Set{Root: 1, Getter: g.P(0.7), Kitex: g.P(0.2)}
	n := 1
	if o.Files > 1 {
		n = 1 + g.Intn(o.Files)
	}
	if g.P(0.04) {
		g.huge = pick(g, []string{"files", "nesting", "fields", "values", "oneofs", "defs"})
		if g.huge == "files" && o.Files > 1 {
			n = 9 + g.Intn(8)
		}
	}
	pkgs := pkgs
	if o.Refs && g.P(0.6) {
		g.few = true
		pkgs = []string{"", "A", "B", "A.B", "B.A", "C.A", "A.A", "A.B.C"}
	}
	base := pick(g, pkgs)
	for i := 1; i <= n; i++ {
		f := &File{Path: fmt.Sprintf("%sf%d%s.proto", pick(g, []string{"", "", "dir/", "x/y/", "i2/", "v1.2/"}), i, pick(g, []string{"", "", "", ".v1", ".proto", "-x"})), Dirs: []string{}, Imps: []Imp{}, MImp: []Name{}, D: []*Def{}}
		f.Syn = pick(g, []string{"proto2", "proto3", "proto3", "2023", "2023"})
		if g.P(0.03) {
			f.Syn = ""
		}
		p := base
		if g.P(0.5) {
			p = pick(g, pkgs)
		}
		f.Pkg = Path(p, ".")
		g.s.F = append(g.s.F, f)
		if f.Syn == "2023" {
			if g.P(0.4) {
				f.FP = pick(g, []string{"IMPLICIT", "EXPLICIT"})
			}
			if g.P(0.4) {
				f.Enc = pick(g, []string{"EXPANDED", "PACKED"})
			}
		}
		f.Unrec, f.Prefix = g.opt3(0.1), g.opt3(0.1)
		if f.Syn != "" {
			if g.P(g.decor(0.1)) {
				f.Dirs = append(f.Dirs, pick(g, []string{"unknown_fields", "unknown_fields", "no_unknown_fields"}))
			}
			if g.P(g.decor(0.05)) {
				f.Dirs = append(f.Dirs, "no_enum_prefix")
			}
			if g.P(g.decor(0.05)) {
				f.Dirs = append(f.Dirs, "no_enum_mapping")
			}
			if g.P(g.decor(0.05)) {
				f.Dirs = append(f.Dirs, pick(g, []string{"no_pointer", "whatever"}))
			}
		}
		for g.P(0.2) {
			f.Noise = append(f.Noise, pick(g, []string{`option java_package = "com.x";`, `option optimize_for = SPEED;`, `;`, `option (my.opt) = { a: 1, b: "x" c: { d: true } };`,
				`option (my.f) = -1.5e3;`, `option (a.b).c = foo.BAR;`, `option cc_enable_arenas = true;`}))
		}
	}
	g.goPackages()
	for i := 1; i <= n; i++ { // imports, acyclic
		for j := i + 1; j <= n; j++ {
			if g.P(0.55) || (i == 1 && j == 2) {
				g.s.F[i-1].Imps = append(g.s.F[i-1].Imps, Imp{j, pick(g, []string{"", "", "public", "public", "weak"})})
			}
		}
		g.Shuffle(len(g.s.F[i-1].Imps), func(a, b int) {
			x := g.s.F[i-1].Imps
			x[a], x[b] = x[b], x[a]
		})
	}
	g.n = n
	if !o.Simple && (g.P(0.25) || o.Files > 4 && g.P(0.3)) {
		g.known()
	}
	if !o.Simple && g.P(0.15) || len(g.s.F) > n && g.P(0.4) { // a path that ends like that of a file prutalgen comes with (which itself wins over the include directories)
		name := "google/protobuf/" + pick(g, knownNames) + ".proto"
		if k := g.Intn(len(g.s.F)); k >= n {
			name = g.s.F[k].Path
		}
		g.s.F[g.Intn(n)].Path = pick(g, []string{"x/", "third_party/"}) + name
	}
	for i := 1; i <= n; i++ {
		g.defs(i)
	}
	for i := 1; i <= n; i++ {
		g.fill(i)
	}
	if g.P(o.Invalid) {
		g.invalidate()
	}
	return g.s
}

// decor is how often to use a directive or option.
func (g *gen) decor(p float64) float64 {
	if g.o.Decor {
		return min(3*p, 0.5)
	}
	return p
}

func (g *gen) opt3(p float64) string {
	if !g.P(g.decor(p)) {
		return ""
	}
	return pick(g, []string{"true", "false"})
}

func (g *gen) goPackages() {
	pre := Path(g.o.GoPrefix, "/")
	for i, f := range g.s.F {
		last := pick(g, []string{"a", "b", "v1", "pb", "foo"})
		segs := append(append([]Name{}, pre...), N(fmt.Sprintf("d%d", g.Intn(len(g.s.F)+1))), N(last))
		if !g.o.Simple && g.P(0.15) {
			segs[len(segs)-1] = N(pick(g, []string{"foo-bar", "my.pkg", "type", "x_y", "go", "strconv", "prutal"}))
		}
		if g.P(0.1) && len(pre) == 0 && string(segs[1]) != "strconv" {
			segs = segs[1:]
		}
		f.GoImp, f.GoName = segs, Name{}
		if g.P(0.25) {
			f.GoName = N(pick(g, []string{"foo", "bar", "foov1", "other"}))
			if !g.o.Simple && g.P(0.2) {
				f.GoName = N(pick(g, []string{"a-b", "func", "1x"}))
			}
		}
		if g.o.Simple { // a name of its own for every Go package
			segs[len(segs)-2] = N(fmt.Sprintf("d%d", i))
		}
		if i > 0 && g.P(0.25) && (!g.o.Simple || Join(f.Pkg, ".") != Join(g.s.F[i-1].Pkg, ".")) {
			q := g.s.F[i-1]
			f.GoImp, f.GoName = q.GoImp, q.GoName
		}
		if g.P(0.08) {
			f.MImp = append(append([]Name{}, pre...), N(fmt.Sprintf("m%d", i)), N("mp"))
			if g.P(0.3) {
				f.MName = N("mname")
			}
			if g.P(0.3) {
				f.GoImp, f.GoName = []Name{}, Name{}
			}
		}
	}
	// the same Go package under two names is a mistake of the user's
	names := map[string]Name{}
	for _, f := range g.s.F {
		if len(f.GoImp) == 0 {
			continue
		}
		k := Join(f.GoImp, "/")
		if n, ok := names[k]; ok {
			f.GoName = n
		}
		names[k] = f.GoName
	}
}

// name is any name that is no word of the language.
func (g *gen) name() string {
	set := pick(g, []string{"abAB_1", "abcxyz_", "ABXYZ09_", "aZ_0", "a_", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"})
	for {
		n := 2 + g.Intn(10)
		if g.P(0.04) {
			n = 60 + g.Intn(200)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = set[g.Intn(len(set))]
		}
		if s := string(b); (b[0] < '0' || b[0] > '9') && strings.ContainsAny(s, "_0123456789") {
			return s
		}
	}
}

func (g *gen) take(scope string, pool []string, ok ...func(n string) bool) Name {
	if g.used[scope] == nil {
		g.used[scope] = map[string]bool{}
	}
	n := pick(g, pool)
	if g.P(0.07) {
		n = g.name()
	}
	for i := 0; g.used[scope][n] || (len(ok) > 0 && !ok[0](n)); i++ {
		if i > 3 {
			n = fmt.Sprintf("%s%d", strings.TrimRight(pick(g, pool), "0123456789_"), 2+g.Intn(60))
		} else {
			n = pick(g, pool)
		}
	}
	g.used[scope][n] = true
	return N(n)
}

func (g *gen) scopeOf(f *File, d int) string {
	if d == 0 {
		return Join(f.Pkg, ".")
	}
	return Join(f.FullName(d), ".")
}

// defs makes the definitions of file i, without contents.
func (g *gen) defs(i int) {
	f := g.s.F[i-1]
	// sub-packages of this package are names in it
	for _, q := range g.s.F {
		for k := range q.Pkg {
			sc := Join(q.Pkg[:k], ".")
			if g.used[sc] == nil {
				g.used[sc] = map[string]bool{}
			}
			g.used[sc][string(q.Pkg[k])] = true
		}
	}
	var add func(up, depth int)
	add = func(up, depth int) {
		n := 1 + g.Intn(3)
		if depth > 0 {
			n = g.Intn(3)
		}
		if g.huge == "defs" && i == 1 && depth == 0 {
			n = 10 + g.Intn(20)
		}
		deep := g.huge == "nesting" && i <= 2 && up == len(f.D) && depth < 9
		if deep {
			n = 1
		}
		for ; n > 0; n-- {
			d := &Def{Up: up, Dirs: []string{}, Res: [][2]int{}, ResN: []Name{}, F: []*Field{}, O: []Name{}, V: []*Val{}, M: []*Rpc{}}
			d.K = pick(g, []string{"msg", "msg", "enum"})
			if depth == 0 && n == 1 && i == 1 || deep {
				d.K = "msg"
			}
			if depth == 0 && g.P(0.1) {
				d.K = "svc"
			}
			pool := msgNames
			if d.K == "enum" {
				pool = enumNames
			}
			if g.few {
				pool = []string{"A", "B", "C"}
				if g.P(0.2) {
					pool = []string{"AxB", "BxA", "AB", "AAB", "CxA", "A2"}
				}
			}
			d.N = g.take(g.scopeOf(f, up), pool, func(n string) bool {
				if up > 0 {
					n = g.local(f, up) + "." + n
				}
				if d.K == "enum" {
					return g.fresh(f, camel(n), camel(n)+"_name", camel(n)+"_value")
				}
				return g.fresh(f, camel(n))
			})
			f.D = append(f.D, d)
			if d.K == "msg" && (deep || depth < 3 && len(f.D) < 9) {
				if depth == 0 || deep || g.P(0.6) {
					add(len(f.D), depth+1)
				}
			}
		}
	}
	add(0, 0)
}

func (g *gen) fill(i int) {
	f := g.s.F[i-1]
	for j, d := range f.D {
		switch d.K {
		case "enum":
			g.enum(f, d)
		case "msg":
			g.msg(i, j+1)
		case "svc":
			sc := g.scopeOf(f, j+1)
			for n := g.Intn(4); n > 0; n-- {
				m := &Rpc{N: g.take(sc, []string{"Get", "get", "list_all", "Do", "stream", "X1"}), RS: g.P(0.3), SS: g.P(0.3)}
				var ok bool
				if m.Req, ok = g.ref(i, f.FullName(j+1), "msg"); !ok {
					continue
				}
				m.Ret, _ = g.ref(i, f.FullName(j+1), "msg")
				d.M = append(d.M, m)
			}
		}
	}
}

func (g *gen) enum(f *File, d *Def) {
	sc := g.scopeOf(f, d.Up)
	d.Prefix = g.opt3(0.08)
	if g.P(g.decor(0.08)) {
		d.Dirs = append(d.Dirs, "no_enum_prefix")
	}
	if g.P(g.decor(0.08)) {
		d.Dirs = append(d.Dirs, "no_enum_mapping")
	}
	n := 1 + g.Intn(4)
	if g.huge == "values" {
		n = 15 + g.Intn(30)
	}
	seen := map[int]bool{}
	val := func(v int) *Val {
		x := &Val{V: v, Dirs: []string{}}
		if g.P(g.decor(0.03)) {
			x.Dirs = append(x.Dirs, pick(g, []string{"no_enum_prefix", "no_enum_prefix", "no_pointer", "no_enum_prefixes"}))
		}
		np := d.Prefix == "false" || (d.Prefix == "" && f.Prefix == "false")
		for _, s := range append(append(append([]string{}, x.Dirs...), d.Dirs...), f.Dirs...) {
			np = np || s == "no_enum_prefix"
		}
		x.N = g.take(sc, valNames, func(n string) bool {
			if np {
				return g.fresh(f, camel(n))
			}
			up := d.Up
			if up == 0 {
				for j := range f.D {
					if f.D[j] == d {
						up = j + 1
					}
				}
			}
			return g.fresh(f, camel(g.local(f, up))+"_"+n)
		})
		return x
	}
	for k := 0; k < n; k++ {
		v := k
		if (f.Syn == "proto2" || f.Syn == "" || k > 0) && g.P(0.3) {
			v = pick(g, []int{-1, 5, 100, math.MaxInt32, math.MinInt32, 19000, 19500, 19999, 20000, -19000, 1 << 20, 0x7f, 0x80})
		}
		for k > 0 && seen[v] {
			v = g.Intn(1000) + 200
		}
		seen[v] = true
		d.V = append(d.V, val(v))
	}
	if g.P(0.15) {
		d.Alias = "true"
		d.V = append(d.V, val(d.V[g.Intn(len(d.V))].V))
	} else if g.P(0.05) {
		d.Alias = "false"
	}
	if g.P(0.2) {
		d.Res = g.ranges(func(a, b int) bool {
			for v := range seen {
				if a <= v && v <= b {
					return false
				}
			}
			return true
		}, math.MaxInt32)
	}
	if g.P(0.1) {
		d.ResN = append(d.ResN, N("GONE"), N("OLD_ONE"))
	}
}

// ranges makes disjoint reserved ranges that miss what is in use.
func (g *gen) ranges(free func(a, b int) bool, max int) [][2]int {
	out := [][2]int{}
	at := 1 + g.Intn(10)
	for k := g.Intn(4); k > 0; k-- {
		w := g.Intn(3) * g.Intn(5)
		if free(at, at+w) {
			out = append(out, [2]int{at, at + w})
		}
		at += w + 1 + g.Intn(8)
	}
	if g.P(0.3) {
		to := max
		if g.P(0.3) {
			to = pick(g, []int{max - 1, maxNum, maxNum - 1, 65535, 1 << 20})
		}
		if a := 30000 + g.Intn(1000); free(a, to) {
			out = append(out, [2]int{a, to})
		}
	}
	if g.P(0.3) {
		g.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	return out
}

const maxNum = 1<<29 - 1

func (g *gen) number(seen map[int]bool) int {
	for {
		n := 1 + g.Intn(20)
		if g.P(0.15) {
			n = pick(g, []int{15, 16, 2047, 2048, 18999, 20000, 262143, 262144, 33554431, 33554432, maxNum, maxNum - 1, 1000, 100000})
		}
		if len(seen) > 14 {
			n = 1 + g.Intn(4000)
		}
		if !seen[n] {
			seen[n] = true
			return n
		}
	}
}

// ref makes a reference from scope to some definition of the kind, "" any type.
func (g *gen) ref(fi int, scope []Name, kind string) (Ref, bool) {
	type cand struct{ f, d int }
	var cs []cand
	for _, v := range g.s.Visible(fi) {
		for j, d := range g.s.F[v-1].D {
			if d.K != "svc" && (kind == "" || d.K == kind) {
				cs = append(cs, cand{v, j + 1})
			}
		}
	}
	if len(cs) == 0 {
		return Ref{}, false
	}
	if g.few && g.P(0.04) { // anything
		r := Ref{Dot: g.P(0.1)}
		for n := 1 + g.Intn(3); n > 0; n-- {
			r.R = append(r.R, N(pick(g, []string{"A", "B", "C", "A", "B", "C", "AxB"})))
		}
		return r, true
	}
	for tries := 0; tries < 20; tries++ {
		c := pick(g, cs)
		full := g.s.F[c.f-1].FullName(c.d)
		k := g.Intn(len(full))
		if g.P(0.4) {
			k = len(full) - 1
		}
		r := Ref{R: full[k:]}
		if k == 0 && g.P(0.4) {
			r.Dot = true
		}
		if f2, d2, ok := g.s.Lookup(fi, scope, r); ok {
			if k2 := g.s.F[f2-1].D[d2-1].K; k2 != "svc" && (kind == "" || k2 == kind) {
				return r, true
			}
		}
	}
	c := pick(g, cs)
	return Ref{R: g.s.F[c.f-1].FullName(c.d), Dot: true}, true
}

func (g *gen) kindAt(fi int, scope []Name, r Ref) (string, *File, *Def) {
	if r.S != "" {
		return r.S, nil, nil
	}
	f, d, ok := g.s.Lookup(fi, scope, r)
	if !ok {
		return "", nil, nil
	}
	return g.s.F[f-1].D[d-1].K, g.s.F[f-1], g.s.F[f-1].D[d-1]
}

// nested is names that have the Go names of types nested in message di.
func nested(f *File, di int) (out []string) {
	for _, k := range f.D {
		if k.Up == di && k.K != "svc" {
			n := string(k.N)
			if l := strings.ToLower(n[:1]); l != n[:1] {
				out = append(out, l+n[1:])
			} else {
				out = append(out, strings.ToUpper(n[:1])+n[1:])
			}
		}
	}
	return
}

func (g *gen) msg(fi, di int) {
	f := g.s.F[fi-1]
	d := f.D[di-1]
	sc := g.scopeOf(f, di)
	full := f.FullName(di)
	n := g.Intn(6)
	if g.o.Big {
		n = 3 + g.Intn(12)
	}
	oneofs, members := 0.12, 4
	switch {
	case g.huge == "fields" && fi == 1 && di <= 2:
		n = 15 + g.Intn(50)
	case g.huge == "oneofs" && fi == 1 && di <= 2:
		n, oneofs = 4+g.Intn(12), 0.7
		if g.P(0.5) {
			n, members = 1+g.Intn(4), 30
		}
	}
	seen := map[int]bool{}
	noPtr := g.P(g.decor(0.05))
	emb := func(r Ref) bool { // may a field hold it by value?
		if !g.tidy || r.S != "" {
			return true
		}
		f2, d2, ok := g.s.Lookup(fi, full, r)
		return ok && (f2 > fi || (f2 == fi && d2 > di))
	}
	member := func(n string) bool {
		if !g.tidy {
			return true
		}
		if strings.HasPrefix(strings.ToLower(n), "get_") {
			return false
		}
		w := camel(g.local(f, di)) + "_" + camel(n)
		for _, k := range f.D { // the wrapper gives way to nested types
			if k.Up == di && k.K != "svc" && camel(g.local(f, di)+"."+string(k.N)) == w {
				w += "_"
			}
		}
		return g.fresh(f, w)
	}
	fieldNames, oneofNames := fieldNames, []string{"o", "choice", "foo", "one_of", "Kind", "reset", "get_id"}
	if g.P(0.12) { // names that clash as Go names, with each other and with methods
		b := pick(g, []string{"foo", "id", "a", "x1", "reset", "string", "kind"})
		fieldNames = nil
		for _, n := range []string{"foo", "Foo", "foo_", "Foo_", "get_foo", "getFoo", "GetFoo", "foo__", "Foo__"} {
			fieldNames = append(fieldNames, strings.ReplaceAll(strings.ReplaceAll(n, "foo", b), "Foo", strings.ToUpper(b[:1])+b[1:]))
		}
		oneofNames = fieldNames
	}
	plain := func(n string) bool { return !g.tidy || !strings.HasPrefix(strings.ToLower(n), "get") }
	if g.P(g.decor(0.1)) {
		d.Dirs = append(d.Dirs, pick(g, []string{"unknown_fields", "unknown_fields", "no_unknown_fields", "unknown_fields_x", "Unknown_fields"}))
	}
	d.Unrec = g.opt3(0.1)
	typ := func() (Ref, string, bool) {
		if g.P(0.55) {
			s := pick(g, scalars)
			return Ref{S: s, R: []Name{}}, s, true
		}
		for tries := 0; tries < 10; tries++ {
			r, ok := g.ref(fi, full, pick(g, []string{"msg", "msg", "enum"}))
			if !ok {
				continue
			}
			k, df, dd := g.kindAt(fi, full, r)
			if k == "enum" && f.Syn == "proto3" && (df.Syn == "proto2" || df.Syn == "") {
				continue // protoc does not allow it
			}
			if k == "enum" && (f.FP == "IMPLICIT") && (df.Syn == "proto2" || df.Syn == "") {
				continue
			}
			if k == "enum" && f.Syn != "proto2" && len(dd.V) > 0 && dd.V[0].V != 0 {
				continue // fields without presence need a zero value
			}
			return r, k, true
		}
		s := pick(g, scalars)
		return Ref{S: s, R: []Name{}}, s, true
	}
	for i := 0; i < n; i++ {
		if g.P(oneofs) { // oneof
			d.O = append(d.O, g.take(sc, oneofNames, plain))
			for k := 1 + g.Intn(members); k > 0; k-- {
				t, _, _ := typ()
				names := fieldNames
				if g.P(0.15) { // like a nested type
					names = append(nested(f, di), fieldNames...)[:1+g.Intn(3)]
				}
				x := &Field{N: g.take(sc, names, member), Num: g.number(seen), T: t, O: len(d.O), Dirs: []string{}}
				if g.P(0.03) {
					x.Null = "false"
				}
				d.F = append(d.F, x)
			}
			continue
		}
		t, k, _ := typ()
		x := &Field{N: g.take(sc, fieldNames, plain), Num: g.number(seen), T: t, Dirs: []string{}}
		packable := k == "enum" || (t.S != "" && abs.Packable(k))
		switch c := g.Intn(10); {
		case c < 3:
			x.Lab = "repeated"
			if packable {
				if f.Syn != "2023" {
					if g.P(0.5) {
						x.Pk = pick(g, []string{"true", "false"})
					}
				} else if g.P(0.4) {
					x.Enc = pick(g, []string{"EXPANDED", "PACKED"})
				}
			}
		case c < 4:
			x.Lab, x.Key = "map", pick(g, keyKinds)
		default:
			switch f.Syn {
			case "proto2", "":
				x.Lab = pick(g, []string{"optional", "optional", "required"})
			case "proto3":
				if g.P(0.35) {
					x.Lab = "optional"
				}
			case "2023":
				if g.P(0.4) {
					x.FP = pick(g, []string{"EXPLICIT", "IMPLICIT", "LEGACY_REQUIRED"})
					if k == "msg" && x.FP == "IMPLICIT" {
						x.FP = ""
					}
				}
			}
		}
		if g.P(g.decor(0.06)) {
			x.Null = pick(g, []string{"false", "false", "true"})
		}
		if g.P(g.decor(0.06)) {
			x.Dirs = append(x.Dirs, pick(g, []string{"no_pointer", "no_pointer", "other", "no_pointers"}))
		}
		if x.Lab == "" || x.Lab == "optional" || x.Lab == "required" {
			if !emb(t) {
				if x.Null == "false" {
					x.Null = ""
				}
				x.Dirs = []string{}
			}
		}
		for g.P(0.1) {
			x.Noise = append(x.Noise, pick(g, []string{"deprecated = true", "deprecated = false", `json_name = "jj"`, "(a.b) = 1", `(my.opt).x = "s"`, "(my.agg) = { x: 1 y: \"z\" }", "ctype = CORD", "lazy = true"}))
		}
		d.F = append(d.F, x)
	}
	if noPtr {
		for _, x := range d.F {
			noPtr = noPtr && (x.O > 0 || x.Lab == "repeated" || x.Lab == "map" || emb(x.T))
		}
		if noPtr {
			d.Dirs = append(d.Dirs, "no_pointer")
		}
	}
	if g.P(0.25) {
		d.Res = g.ranges(func(a, b int) bool {
			for v := range seen {
				if a <= v && v <= b {
					return false
				}
			}
			return true
		}, maxNum)
	}
	if g.P(0.15) {
		d.ResN = append(d.ResN, N("gone"), N("old_field"))
		sort.Slice(d.ResN, func(i, j int) bool { return g.P(0.5) })
	}
}

// invalidate makes one thing wrong.
func (g *gen) invalidate() {
	var msgs, enums []*Def
	var mf []*File
	fi := []int{}
	for i, f := range g.s.F[:g.n] {
		for _, d := range f.D {
			if d.K == "msg" {
				msgs, mf, fi = append(msgs, d), append(mf, f), append(fi, i+1)
			} else if d.K == "enum" {
				enums = append(enums, d)
			}
		}
	}
	f := pick(g, g.s.F[:g.n])
	var d, e *Def
	var x, y *Field
	if len(msgs) > 0 {
		k := g.Intn(len(msgs))
		d, f = msgs[k], mf[k]
		_ = fi
		if len(d.F) > 0 {
			x, y = pick(g, d.F), pick(g, d.F)
		}
	}
	if len(enums) > 0 {
		e = pick(g, enums)
	}
	switch g.Intn(26) {
	case 0:
		if x != nil && x != y {
			x.Num = y.Num
		}
	case 1:
		if x != nil {
			d.Res = append(d.Res, [2]int{x.Num, x.Num})
		}
	case 2:
		if x != nil {
			d.Res = append(d.Res, [2]int{x.Num - g.Intn(x.Num), min(maxNum, x.Num+g.Intn(3))})
		}
	case 3:
		if x != nil {
			x.Num = pick(g, []int{19000, 19999, 19500})
		}
	case 4:
		if x != nil {
			x.Num = pick(g, []int{0, maxNum + 1, math.MaxInt32, 0})
		}
	case 5:
		if x != nil {
			x.Big = true
		}
	case 6:
		if x != nil {
			d.ResN = append(d.ResN, x.N)
		}
	case 7:
		if e != nil {
			e.V = append(e.V, &Val{N: N("DUP"), V: e.V[g.Intn(len(e.V))].V, Dirs: []string{}})
		}
	case 8:
		if e != nil {
			v := pick(g, e.V).V
			if v >= 0 {
				e.Res = append(e.Res, [2]int{v, v})
			}
		}
	case 9:
		if e != nil {
			e.ResN = append(e.ResN, pick(g, e.V).N)
		}
	case 10:
		if e != nil {
			pick(g, e.V).Big = true
		}
	case 11:
		if x != nil && f.Syn != "proto2" && x.O == 0 && x.Lab == "" {
			x.Lab = "required"
		}
	case 12:
		f.Imps = append(f.Imps, Imp{0, ""})
	case 13, 14: // an import back: a cycle, if it can be reached
		k := 1 + g.Intn(g.n)
		g.s.F[k-1].Imps = append(g.s.F[k-1].Imps, Imp{1 + g.Intn(k), pick(g, []string{"", "public"})})
	case 15:
		f.GoImp, f.GoName, f.MImp, f.MName = []Name{}, Name{}, []Name{}, Name{}
	case 16:
		f.Syn = pick(g, []string{"proto4", "2024", "Proto3", "proto"})
	case 17:
		f.Syn, f.FP = "2023", pick(g, []string{"NONE", "explicit", "LEGACY", ""})
	case 18:
		f.Syn, f.Enc = "2023", pick(g, []string{"UNPACKED", "packed", "DELIMITED"})
	case 19:
		f.Broken = true
	case 20, 21, 22: // a reference to nothing
		if x != nil {
			switch g.Intn(4) {
			case 0:
				x.T = Ref{R: Path("Nope", ".")}
			case 1:
				x.T = Ref{R: append(append([]Name{}, f.Pkg...), N("Nope")), Dot: g.P(0.5)}
			default: // some existing definition, maybe out of sight
				q := pick(g, g.s.F[:g.n])
				if len(q.D) > 0 {
					full := q.FullName(1 + g.Intn(len(q.D)))
					x.T = Ref{R: full[g.Intn(len(full)):], Dot: g.P(0.3)}
				}
			}
		}
	case 23:
		if x != nil && x.Lab == "repeated" && f.Syn != "2023" && (x.T.S == "" || abs.Packable(x.T.S)) {
			x.Pk = pick(g, []string{"maybe", "1", "True"})
		}
	case 24:
		if x != nil && f.Syn == "2023" && x.O == 0 && x.Lab == "" {
			x.FP = pick(g, []string{"explicit", "REQUIRED"})
		}
	case 25:
		for _, d := range f.D {
			if d.K == "svc" && len(d.M) > 0 {
				d.M[0].Req = Ref{S: pick(g, []string{"int32", "string"}), R: []Name{}}
			}
		}
	}
}

// known adds imports of files that come with prutalgen.
func (g *gen) known() {
	at := map[string]int{}
	var add func(n string) int
	add = func(n string) int {
		if at[n] == 0 {
			f := knownFile(n)
			g.s.F = append(g.s.F, f)
			at[n] = len(g.s.F)
			for _, m := range knownImports[n] {
				k := add(m)
				f.Imps = append(f.Imps, Imp{k, ""})
			}
			if g.P(0.1) {
				f.MImp = append(Path(g.o.GoPrefix, "/"), N("mk"), N(n+"pb"))
			}
		}
		return at[n]
	}
	for k := 1 + g.Intn(3); k > 0; k-- {
		f := g.s.F[g.Intn(g.n)]
		i := add(pick(g, knownNames))
		dup := false
		for _, m := range f.Imps {
			dup = dup || m.F == i
		}
		if !dup {
			f.Imps = append(f.Imps, Imp{i, pick(g, []string{"", "", "", "public"})})
		}
	}
}
