// Command runs uses the real prutalgen again and again, as Runs.tla has it:
// files are edited, loaded by loaders that live on, and generated from what
// was loaded earlier or by the command.  It records what is on disk after
// each step.  Other sessions use a code writer, see CodeWriter.tla.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifharness/abs"
	"verifharness/pgen"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
)

type M = map[string]any

const versions = 6

type opts struct {
	Getter bool `json:"getter"`
	Kitex  bool `json:"kitex"`
	Fmt    bool `json:"fmt"`
	Rel    bool `json:"rel"`
}

type held struct {
	ps  []*prutalgen.Proto
	ver []int
	f   int
}

type sess struct {
	id  int
	g   *abs.Gen
	set *pgen.Set
	dir string
	ev  []M
	s   any

	texts  [][]string
	clo    [][]int
	conts  map[string]int
	paths  map[string]int
	ver    []int
	slots  map[int]*held
	loader map[int]prutalgen.Loader
	gens   []*prutalgen.GoCodeGen
	cw     *prutalgen.CodeWriter
	logger logger
	bad    bool
}

type fatal struct{ msg string }
type logger struct{}

func (logger) Printf(string, ...any)          {}
func (logger) Fatalf(format string, a ...any) { panic(fatal{fmt.Sprintf(format, a...)}) }

func (x *sess) emit(m M) { x.ev = append(x.ev, m) }

func (x *sess) guard(what string, f func()) (msg string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if e, is := r.(fatal); is {
				msg = e.msg
				return
			}
			x.emit(M{"op": "crash", "what": what + ": " + strings.Split(fmt.Sprint(r), "\n")[0]})
			x.bad = true
		}
	}()
	f()
	return "", true
}

func intern(m map[string]int, s string) int {
	if _, ok := m[s]; !ok {
		m[s] = len(m) + 1
	}
	return m[s]
}

// body is generated code without its second line, which has the command's arguments.
func body(b string) string {
	l := strings.SplitN(b, "\n", 3)
	if len(l) == 3 && strings.HasPrefix(b, "// Code generated") && strings.HasPrefix(l[1], "// ") {
		return l[0] + "\n" + l[2]
	}
	return b
}

func (x *sess) disk() [][2]int {
	out := [][2]int{}
	filepath.Walk(x.dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			out = append(out, [2]int{intern(x.paths, p), intern(x.conts, body(string(b)))})
		}
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	return out
}

func (x *sess) src(i int) string { return filepath.Join(x.dir, "in", x.set.F[i-1].Path) }

func (x *sess) mopt() map[string]string {
	m := map[string]string{}
	for _, f := range x.set.F {
		if len(f.MImp) > 0 {
			m[f.Path] = pgen.Join(f.MImp, "/")
			if len(f.MName) > 0 {
				m[f.Path] += ";" + string(f.MName)
			}
		}
	}
	return m
}

// variant is file f in version v.
func variant(f *pgen.File, v int) *pgen.File {
	c := *f
	switch v {
	case 1:
		c.D = append(append([]*pgen.Def{}, f.D...), &pgen.Def{K: "msg", N: pgen.N("ZzExtra"), Dirs: []string{}, F: []*pgen.Field{}})
	case 2:
		if n := len(f.GoImp); n > 0 {
			c.GoImp = append(append([]pgen.Name{}, f.GoImp[:n-1]...), pgen.N(string(f.GoImp[n-1])+"v2"))
		}
	case 3:
		c.Broken = true
	case 5:
		if f.Syn != "" {
			c.Dirs = append(append([]string{}, f.Dirs...), "no_enum_prefix", "unknown_fields")
		}
	}
	return &c
}

func goImp(f *pgen.File) string {
	if len(f.MImp) > 0 {
		return pgen.Join(f.MImp, "/")
	}
	return pgen.Join(f.GoImp, "/")
}

func (x *sess) start() {
	x.conts, x.paths, x.slots, x.loader = map[string]int{}, map[string]int{}, map[int]*held{}, map[int]prutalgen.Loader{}
	fs := []M{}
	n := len(x.set.F)
	for i := 1; i <= n; i++ {
		f := x.set.F[i-1]
		x.texts = append(x.texts, make([]string, versions))
		x.ver = append(x.ver, 0)
		seed := x.g.Int63()
		imps, conts := []int{}, []int{}
		for v := 0; v < versions; v++ {
			c := variant(f, v)
			x.set.F[i-1] = c
			t := pgen.Render(x.set, i, abs.NewGen(seed))
			x.set.F[i-1] = f
			x.texts[i-1][v] = t
			conts = append(conts, intern(x.conts, body(t)))
			imps = append(imps, intern(x.paths, filepath.Join(x.dir, "out", goImp(c), strings.TrimSuffix(filepath.Base(f.Path), ".proto")+".pb.go")))
		}
		seen := map[int]bool{}
		clo := []int{}
		var add func(j int)
		add = func(j int) {
			if j > 0 && !seen[j] {
				seen[j] = true
				clo = append(clo, j)
				for _, m := range x.set.F[j-1].Imps {
					add(m.F)
				}
			}
		}
		add(i)
		x.clo = append(x.clo, clo)
		fs = append(fs, M{"clo": clo, "src": intern(x.paths, x.src(i)), "text": conts, "imp": imps,
			"rel": intern(x.paths, strings.TrimSuffix(x.src(i), ".proto")+".pb.go")})
		x.write(i)
	}
	x.s = M{"f": fs}
}

func (x *sess) write(i int) {
	p := x.src(i)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if x.ver[i-1] == 4 {
		os.Remove(p)
		return
	}
	if err := os.WriteFile(p, []byte(x.texts[i-1][x.ver[i-1]]), 0o644); err != nil {
		panic(err)
	}
}

func (x *sess) edit(f, v int) {
	if x.ver[f-1] == v {
		return
	}
	x.ver[f-1] = v
	x.write(f)
	x.emit(M{"op": "edit", "f": f, "v": v, "disk": x.disk()})
}

func (x *sess) newLoader() prutalgen.Loader {
	l := prutalgen.NewLoader([]string{filepath.Join(x.dir, "in")}, x.mopt())
	l.SetLogger(x.logger)
	return l
}

// load loads file f with loader ld (0: a new one) and keeps the result.
func (x *sess) load(ld, slot, f int) {
	l := x.loader[ld]
	if ld == 0 || l == nil {
		l = x.newLoader()
		if ld > 0 {
			x.loader[ld] = l
		}
	}
	var ps []*prutalgen.Proto
	msg, ok := x.guard("load", func() { ps = l.LoadProto(x.set.F[f-1].Path) })
	if x.bad {
		return
	}
	if ok {
		x.slots[slot] = &held{ps, append([]int{}, x.ver...), f}
	}
	x.emit(M{"op": "load", "msg": msg, "slot": slot, "f": f, "ok": ok, "order": x.order(ps)})
}

// order is the numbers of the files.
func (x *sess) order(ps []*prutalgen.Proto) []int {
	order := []int{}
	for _, p := range ps {
		k := 0
		for i := range x.set.F {
			if x.src(i+1) == p.ProtoFile {
				k = i + 1
			}
		}
		order = append(order, k)
	}
	return order
}

func (h *held) proto(x *sess, f int) *prutalgen.Proto {
	for _, p := range h.ps {
		if p.ProtoFile == x.src(f) {
			return p
		}
	}
	return nil
}

const genHeader = "// Code generated by prutalgen. DO NOT EDIT.\n// x"

func gofmt(s string) string {
	b, err := format.Source([]byte(s))
	if err != nil {
		return "bad: " + s
	}
	return string(b)
}

func header(s string) bool {
	l := strings.SplitN(s, "\n", 3)
	return len(l) == 3 && l[0] == "// Code generated by prutalgen. DO NOT EDIT." && strings.HasPrefix(l[1], "// ")
}

// gen generates file f of what slot holds; writer: into a code writer that is used again and again.
func (x *sess) gen(slot, f, gn int, o opts, writer bool) {
	h := x.slots[slot]
	if h == nil {
		return
	}
	p := h.proto(x, f)
	if p == nil {
		return
	}
	for len(x.gens) <= gn {
		x.gens = append(x.gens, prutalgen.NewGoCodeGen())
	}
	g := x.gens[gn]
	if gn == 0 {
		g = prutalgen.NewGoCodeGen()
	}
	g.Getter, g.Format, g.Marshaler = o.Getter, o.Fmt, 0
	if o.Kitex {
		g.Marshaler = prutalgen.MarshalerKitexProtobuf
	}
	gt := prutalgen.GenByImport
	if o.Rel {
		gt = prutalgen.GenBySourceRelative
	}
	text := ""
	_, ok := x.guard("gen", func() {
		if writer {
			if x.cw == nil {
				x.cw = prutalgen.NewCodeWriter(genHeader, p.GoPackage)
			} else {
				x.cw.Reset(genHeader, p.GoPackage)
			}
			g.ProtoGen(p, x.cw)
			text = string(x.cw.Bytes())
			return
		}
		if err := g.Gen(p, gt, filepath.Join(x.dir, "out")); err != nil {
			panic(fatal{err.Error()})
		}
		b, _ := os.ReadFile(g.SourcePath(p, gt, filepath.Join(x.dir, "out"), ".pb.go"))
		text = string(b)
	})
	if x.bad {
		return
	}
	if writer {
		o.Fmt = false
	}
	x.emit(M{"op": "gen", "slot": slot, "f": f, "o": o, "writer": writer, "ok": ok, "h": intern(x.conts, body(text)), "fh": intern(x.conts, body(gofmt(text))),
		"hdr": header(text), "disk": x.disk()})
}

func (x *sess) cmd(fs []int, o opts) {
	exe := os.Getenv("PRUTALGEN")
	if exe == "" {
		return
	}
	args := []string{"-I", filepath.Join(x.dir, "in"), "--go_out", filepath.Join(x.dir, "out")}
	o.Fmt, o.Kitex = true, false
	if o.Rel {
		args = append(args, "--go_opt=paths=source_relative")
	}
	if o.Getter {
		args = append(args, "-gen_getter")
	}
	for k, v := range x.mopt() {
		args = append(args, "--go_opt=M"+k+"="+v)
	}
	for _, f := range fs {
		args = append(args, x.set.F[f-1].Path)
	}
	c := exec.Command(exe, args...)
	c.Dir = x.dir
	err := c.Run()
	hdr := true
	if err == nil {
		for _, f := range fs {
			p := strings.TrimSuffix(x.src(f), ".proto") + ".pb.go"
			if !o.Rel {
				p = filepath.Join(x.dir, "out", goImp(variant(x.set.F[f-1], x.ver[f-1])), filepath.Base(p))
			}
			b, err := os.ReadFile(p)
			hdr = hdr && (err != nil || header(string(b)))
		}
	}
	x.emit(M{"op": "cmd", "fs": fs, "o": o, "ok": err == nil, "hdr": hdr, "disk": x.disk()})
}

func goPackages(s *pgen.Set) bool {
	for _, f := range s.F {
		if goImp(f) == "" {
			return false
		}
	}
	return true
}

// par has loaders and code writers of their own at work at the same time.
func (x *sess) par(o opts) {
	type result struct {
		ps    []*prutalgen.Proto
		order []int
		msg   string
		crash string
		text  string
	}
	n := 2 + x.g.Intn(3)
	fs, rs := make([]int, n), make([]result, n)
	for j := range fs {
		fs[j] = 1 + x.g.Intn(len(x.set.F))
	}
	var wg sync.WaitGroup
	for j := range fs {
		wg.Add(1)
		go func(f int, r *result) {
			defer wg.Done()
			defer func() {
				if v := recover(); v != nil {
					if e, is := v.(fatal); is {
						r.msg = e.msg
					} else {
						r.crash = fmt.Sprint(v)
					}
				}
			}()
			r.ps = x.newLoader().LoadProto(x.set.F[f-1].Path)
			for _, p := range r.ps {
				if p.ProtoFile == x.src(f) {
					g := prutalgen.NewGoCodeGen()
					g.Getter = o.Getter
					if o.Kitex {
						g.Marshaler = prutalgen.MarshalerKitexProtobuf
					}
					w := prutalgen.NewCodeWriter(genHeader, p.GoPackage)
					g.ProtoGen(p, w)
					r.text = string(w.Bytes())
				}
			}
		}(fs[j], &rs[j])
	}
	wg.Wait()
	o.Fmt = false
	for j, f := range fs {
		r := &rs[j]
		if r.crash != "" {
			x.emit(M{"op": "crash", "what": "par: " + strings.Split(r.crash, "\n")[0]})
			x.bad = true
			return
		}
		if r.msg == "" {
			x.slots[10+j] = &held{r.ps, append([]int{}, x.ver...), f}
		}
		x.emit(M{"op": "load", "msg": r.msg, "slot": 10 + j, "f": f, "ok": r.msg == "", "order": x.order(r.ps)})
		if r.msg == "" {
			x.emit(M{"op": "gen", "slot": 10 + j, "f": f, "o": o, "writer": true, "ok": true, "h": intern(x.conts, body(r.text)), "fh": intern(x.conts, body(gofmt(r.text))),
				"hdr": header(r.text), "disk": x.disk()})
		}
	}
}

func (x *sess) random() {
	g := x.g
	for x.set == nil || !goPackages(x.set) {
		x.set = pgen.Gen(g, pgen.Opt{Simple: true, Tidy: 1, GoPrefix: "example.com/x", Files: 4, Decor: g.P(0.3)})
	}
	x.start()
	n := len(x.set.F)
	kitex := g.P(0.3)
	o := func() opts {
		return opts{Getter: g.P(0.5), Kitex: kitex && g.P(0.5), Fmt: g.P(0.7), Rel: g.P(0.3)}
	}
	for k := 8 + g.Intn(16); k > 0 && !x.bad; k-- {
		f := 1 + g.Intn(n)
		switch g.Intn(11) {
		case 10:
			x.par(o())
		case 0, 1, 2:
			x.edit(f, []int{0, 0, 0, 0, 1, 2, 2, 3, 4, 5, 5}[g.Intn(11)])
		case 3, 4, 5:
			x.load(g.Intn(3), g.Intn(3), f)
		case 6, 7, 8:
			slot := g.Intn(3)
			if h := x.slots[slot]; h != nil {
				if g.P(0.5) {
					f = h.f
				} else {
					c := x.clo[h.f-1]
					f = c[g.Intn(len(c))]
				}
				x.gen(slot, f, g.Intn(3), o(), g.P(0.3))
			}
		default:
			fs := []int{f}
			for g.P(0.4) {
				fs = append(fs, 1+g.Intn(n))
			}
			x.cmd(fs, o())
		}
	}
	q := o()
	q.Fmt, q.Kitex = true, false
	x.again(q, true)
}

// again is everything once more: with a loader that is new, with one that is not, and by the command.
func (x *sess) again(q opts, cmd bool) {
	g := x.g
	for i := range x.set.F {
		if v := x.ver[i]; v == 3 || v == 4 {
			x.edit(i+1, 0)
		}
	}
	fs := []int{}
	for f := len(x.set.F); f > 0 && !x.bad; f-- {
		for ld := 0; ld < 2; ld++ {
			x.load(ld, 5, f)
			for _, d := range x.clo[f-1] {
				if g.P(0.6) {
					x.gen(5, d, g.Intn(3), q, g.P(0.2))
				}
			}
		}
		fs = append(fs, f)
	}
	if !x.bad && cmd {
		x.cmd(fs, q)
	}
}

// step is one of a behaviour of RunsMC.tla.
type step struct {
	Op   string `json:"op"`
	F    int    `json:"f"`
	V    int    `json:"v"`
	Ld   int    `json:"ld"`
	Slot int    `json:"slot"`
}

func (x *sess) planned(p []step) {
	for { // two files, the first of which imports the second
		x.set = pgen.Gen(x.g, pgen.Opt{Simple: true, Tidy: 1, GoPrefix: "example.com/x", Files: 2, Decor: true})
		if len(x.set.F) == 2 && len(x.set.F[0].Imps) == 1 && goPackages(x.set) {
			break
		}
	}
	x.start()
	o := opts{Getter: true, Fmt: true}
	for _, s := range p {
		if x.bad {
			return
		}
		switch s.Op {
		case "edit":
			x.edit(s.F, s.V)
		case "load":
			x.load(s.Ld, s.Slot, s.F)
		case "gen":
			x.gen(s.Slot, s.F, 1, o, false)
		case "cmd":
			x.cmd([]int{s.F}, o)
		}
	}
	if x.id%4 == 0 {
		x.again(o, false)
	}
}

// writer is a session of CodeWriter.tla.
func (x *sess) writer() {
	g := x.g
	pick := func(s ...string) string { return s[g.Intn(len(s))] }
	pkgs := []string{"a", "b/a", "b/b", "github.com/cloudwego/prutal", "github.com/cloudwego/x/y", "github.com/cloudwegox", "github.com/x/y", "x.y/z-w", "fmt", "", "strconv", "b/a/a", "b"}
	heads := []string{"", "// header 1", "// header 2\n// 100% {PRUTALGEN}", "// h3\n"}
	n := 0
	var w *prutalgen.CodeWriter
	start := func() (int, string) { return g.Intn(len(heads)), pick("p", "q_1", "main") }
	h, p := start()
	x.guard("new", func() { w = prutalgen.NewCodeWriter(heads[h], p) })
	x.emit(M{"op": "new", "hdr": h, "pkg": pgen.N(p)})
	for k := 5 + g.Intn(25); k > 0 && !x.bad; k-- {
		switch g.Intn(12) {
		case 0:
			if g.P(0.5) {
				h, p := start()
				x.guard("reset", func() { w.Reset(heads[h], p) })
				x.emit(M{"op": "reset", "hdr": h, "pkg": pgen.N(p)})
			}
		case 1:
			gr := pick("length", "one", "nil")
			x.guard("group", func() {
				switch gr {
				case "length":
					w.SetGroupingFunc(func(p string) int { return len(p)%3 - 1 })
				case "one":
					w.SetGroupingFunc(func(p string) int { return 7 })
				default:
					w.SetGroupingFunc(nil) // changes nothing
				}
			})
			if gr != "nil" {
				x.emit(M{"op": "group", "g": gr})
			}
		case 2, 3, 4, 5:
			p, a := pkgs[g.Intn(len(pkgs))], pick("", "", "a", "b", "y", "prutal", "other")
			x.guard("use", func() { w.UsePkg(p, a) })
			x.emit(M{"op": "use", "p": pgen.N(p), "a": pgen.N(a)})
		case 6, 7, 8, 9:
			n++
			x.guard("line", func() {
				v := fmt.Sprintf("var v%d = ", n)
				switch g.Intn(8) {
				case 0:
					w.F("%s%q", v, "a%d")
				case 1:
					w.F(v + `"100%"`)
				case 2:
					w.F(v + "1\n")
				case 3:
					w.F("%s%s", v, "1\n")
				case 4:
					w.Write([]byte(v))
					w.F("%d", 5)
				case 5:
					w.F("")
					w.F(v + `"{PRUTALGEN_GO_IMPORTS}"`)
				case 6:
					fmt.Fprintf(w, "%s7\n", v)
					w.F("")
				default:
					w.F(v+"%d // %s", n, "%d")
				}
			})
			x.emit(M{"op": "line", "t": n})
		default:
			x.source(w, heads)
		}
	}
	if !x.bad {
		x.source(w, heads)
	}
}

// source reads what the writer has.
func (x *sess) source(w *prutalgen.CodeWriter, heads []string) {
	var b []byte
	x.guard("bytes", func() { b = w.Bytes() })
	if x.bad {
		return
	}
	e := M{"op": "bytes", "ok": false, "pkg": pgen.Name{}, "hdr": 0, "imps": [][]M{}, "lines": []int{}}
	defer func() { x.emit(e) }()
	t := string(b)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", t, parser.ParseComments)
	if err != nil {
		return
	}
	at := fset.Position(f.Package).Offset
	hdr := -1
	for i, h := range heads {
		if strings.TrimRight(t[:at], "\n") == strings.TrimRight(h, "\n") {
			hdr = i
		}
	}
	var imps [][]M
	last, seen, ok := 0, map[string]bool{}, true
	lines := []int{}
	decls := 0
	for _, d := range f.Decls {
		gd, is := d.(*ast.GenDecl)
		if !is {
			return
		}
		for _, s := range gd.Specs {
			switch s := s.(type) {
			case *ast.ImportSpec:
				p, _ := strconv.Unquote(s.Path.Value)
				a := pgen.Name{}
				if s.Name != nil {
					a = pgen.N(s.Name.Name)
				}
				l := fset.Position(s.Pos()).Line
				if len(imps) == 0 || l > last+1 {
					imps = append(imps, []M{})
				}
				last = l
				imps[len(imps)-1] = append(imps[len(imps)-1], M{"a": a, "p": pgen.N(p)})
				ok = ok && !seen[p]
				seen[p] = true
			case *ast.ValueSpec:
				decls++
				n, err := strconv.Atoi(strings.TrimPrefix(s.Names[0].Name, "v"))
				ok = ok && err == nil && len(s.Values) == 1
				lines = append(lines, n)
				if ok {
					v := s.Values[0].(*ast.BasicLit).Value
					ok = v == `"a%d"` || v == `"100%"` || v == "1" || v == "5" || v == `"{PRUTALGEN_GO_IMPORTS}"` || v == "7" || v == fmt.Sprint(n)
				}
			}
		}
	}
	e["ok"], e["pkg"], e["hdr"], e["lines"] = ok && hdr >= 0, pgen.N(f.Name.Name), hdr, lines
	if imps != nil {
		e["imps"] = imps
	}
}

func main() {
	flag.String("profile", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 100, "sessions")
	from := flag.Int("from", 0, "first session")
	stp := flag.Int("step", 1, "run every step-th session")
	out := flag.String("out", "", "trace file, appended to")
	cur := flag.String("cur", "", "file that names the session being run")
	plan := flag.String("plan", "", "file of behaviours to perform")
	flag.Parse()
	var plans [][]step
	if *plan != "" {
		b, err := os.ReadFile(*plan)
		if err != nil {
			panic(err)
		}
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			var p []step
			if l == "" {
				continue
			}
			if err := json.Unmarshal([]byte(l), &p); err != nil {
				panic(err)
			}
			plans = append(plans, p)
		}
		*n = len(plans)
	}
	f, err := os.OpenFile(*out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	beat := make(chan int, 1)
	go func() { // a session that does not end is a hang
		last := time.Now()
		for {
			select {
			case <-beat:
				last = time.Now()
			case <-time.After(time.Second):
				if time.Since(last) > 90*time.Second {
					fmt.Fprintln(os.Stderr, "fatal error: HANG in session")
					os.Exit(97)
				}
			}
		}
	}()
	tmp, err := os.MkdirTemp(filepath.Dir(*cur), "runs-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	for k := *from; k < *n; k += *stp {
		if *cur != "" && *cur != "/dev/null" {
			w.Flush()
			os.WriteFile(*cur, []byte(fmt.Sprint(k)), 0o644)
		}
		x := &sess{id: k, g: abs.NewGen(*seed*1000003 + int64(k)*7919 + 1), dir: filepath.Join(tmp, fmt.Sprint("s", k)), ev: []M{}, s: []int{}}
		os.MkdirAll(x.dir, 0o755)
		switch {
		case plans != nil:
			x.planned(plans[k])
		case k%4 == 3:
			x.writer()
		default:
			x.random()
		}
		os.RemoveAll(x.dir)
		select {
		case beat <- 1:
		default:
		}
		j, err := json.Marshal(M{"id": k, "S": x.s, "ev": x.ev})
		if err != nil {
			panic(err)
		}
		w.Write(append(j, '\n'))
	}
	w.Flush()
	f.Close()
	os.WriteFile(*cur, []byte("done"), 0o644)
}
