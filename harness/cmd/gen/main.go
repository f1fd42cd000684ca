// Command gen runs the real prutalgen on random sets of .proto files and
// records what it makes of them for ProtoTrace.tla: one JSON object per line
// and session, "S" the files as abstract syntax, "ev" what happened.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"time"

	"verifharness/abs"
	"verifharness/pgen"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
)

type sess struct {
	id   int
	prof string
	g    *abs.Gen
	set  *pgen.Set
	ev   []string
	dir  string // scratch

	incs  []string
	where map[int]string // directory the path of file i is relative to
}

func (x *sess) emit(v M) {
	if ops := events[x.prof]; ops != "" && v["op"] != "crash" && !strings.Contains(ops, v["op"].(string)) {
		return
	}
	j, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	x.ev = append(x.ev, string(j))
}

type M = map[string]any

type fatal struct{ msg string }

type logger struct{}

func (logger) Printf(string, ...any)          {}
func (logger) Fatalf(format string, a ...any) { panic(fatal{fmt.Sprintf(format, a...)}) }

// guard runs f, which calls into prutalgen: "" or the message of its Fatalf.
func (x *sess) guard(what string, f func()) (msg string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if e, is := r.(fatal); is {
				msg, ok = e.msg, true
				return
			}
			x.emit(M{"op": "crash", "what": what + ": " + strings.Split(fmt.Sprint(r), "\n")[0]})
			if os.Getenv("GEN_STACK") != "" {
				debug.PrintStack()
			}
			ok = false
		}
	}()
	f()
	return "", true
}

func (x *sess) write(path, text string) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		panic(err)
	}
}

// layout writes the files below two include directories, with decoys behind.
func (x *sess) layout(dir string, g *abs.Gen) (incs []string, at map[string]int) {
	d1, d2 := filepath.Join(dir, "i1"), filepath.Join(dir, "i2")
	os.MkdirAll(d1, 0o755)
	if g.P(0.3) { // relative to the working directory
		d1, d2 = "i1", "i2"
		if err := os.Chdir(dir); err != nil {
			panic(err)
		}
	}
	at = map[string]int{}
	x.where = map[int]string{}
	for i, f := range x.set.F {
		if f.Known {
			at[f.Path] = i + 1
			continue
		}
		t := pgen.Render(x.set, i+1, g)
		d := d1
		if g.P(0.4) {
			d = d2
		}
		p := filepath.Join(d, f.Path)
		x.write(p, t)
		p, _ = filepath.Abs(p)
		at[p] = i + 1
		x.where[i+1] = strings.TrimSuffix(p, "/"+f.Path)
		if d == d1 && g.P(0.3) {
			x.write(filepath.Join(d2, f.Path), "syntax = \"proto3\"; option go_package = \"decoy\"; message Decoy {}")
		}
	}
	return []string{d1, d2}, at
}

func (x *sess) mopt() map[string]string {
	m := map[string]string{}
	for _, f := range x.set.F {
		if len(f.MImp) > 0 {
			m[f.Path] = pgen.Join(f.MImp, "/")
			if len(f.MName) > 0 {
				m[f.Path] += ";" + string(f.MName)
			}
		}
	}
	return m
}

// load runs the loader.
func (x *sess) load(dir string, g *abs.Gen) (ps []*prutalgen.Proto, at map[string]int, msg string, ok bool) {
	incs, at := x.layout(dir, g)
	x.incs = incs
	l := prutalgen.NewLoader(incs, x.mopt())
	l.SetLogger(logger{})
	if other := 1 + g.Intn(len(x.set.F)); g.P(0.3) { // a loader that has been used before
		if msg, ok := x.guard("load", func() { l.LoadProto(x.set.F[other-1].Path) }); !ok {
			return nil, nil, "", false
		} else if msg != "" {
			l = prutalgen.NewLoader(incs, x.mopt())
			l.SetLogger(logger{})
		}
	}
	msg, ok = x.guard("load", func() { ps = l.LoadProto(x.set.F[x.set.Root-1].Path) })
	return
}

// paths records where the code of a file would go.
func (x *sess) paths(i int, p *prutalgen.Proto) {
	g := prutalgen.NewGoCodeGen()
	msg, ok := x.guard("path", func() {
		stem := strings.TrimSuffix(x.set.F[i-1].Path, ".proto")
		x.emit(M{"op": "path", "f": i, "byimport": segs(g.SourcePath(p, prutalgen.GenByImport, "out", ".pb.go")), "base": pgen.N(filepath.Base(stem) + ".pb.go"),
			"byrel": segs(strings.TrimPrefix(g.SourcePath(p, prutalgen.GenBySourceRelative, "out", ".pb.go"), x.where[i])), "src": segs("/" + stem + ".pb.go")})
	})
	if ok && msg != "" {
		x.emit(M{"op": "crash", "what": "path: " + msg})
	}
}

// cli runs the command line tool on the same files.
func (x *sess) cli(c *code, ps []*prutalgen.Proto) {
	exe := os.Getenv("PRUTALGEN")
	if exe == "" {
		return
	}
	g := x.g
	out := filepath.Join(x.dir, "cli out")
	args := []string{}
	wd := x.dir
	one := "" // the include directory that has all files
	for i := range x.set.F {
		if w := x.where[i+1]; w != "" && one == "" {
			one = w
		} else if w != "" && one != w {
			one = "-"
		}
	}
	if one != "" && one != "-" && g.P(0.3) { // no include directory: the working directory
		wd = one
	} else {
		for _, i := range x.incs {
			args = append(args, pick(g, "-I", "--proto_path"), i)
		}
	}
	rel := g.P(0.3)
	if rel {
		args = append(args, "--go_opt=paths=source_relative")
	} else {
		if g.P(0.2) { // no output directory: the working directory
			out = wd
		} else {
			args = append(args, "--go_out", out)
		}
		if g.P(0.3) {
			args = append(args, "--go_opt", "paths=import")
		}
	}
	if x.set.Getter {
		args = append(args, "-gen_getter")
	}
	for k, v := range x.mopt() {
		args = append(args, "--go_opt=M"+k+"="+v)
	}
	dot := func(p string) string {
		if g.P(0.15) {
			return "./" + p
		}
		return p
	}
	args = append(args, dot(x.set.F[x.set.Root-1].Path))
	want := map[string]string{}
	add := func(p *prutalgen.Proto) {
		i := c.at[p.ProtoFile]
		stem := strings.TrimSuffix(x.set.F[i-1].Path, ".proto") + ".pb.go"
		if rel {
			want[filepath.Join(x.where[i], stem)] = c.src[p]
		} else {
			want[filepath.Join(out, p.GoImport, filepath.Base(stem))] = c.src[p]
		}
	}
	add(ps[0])
	if len(ps) > 1 && g.P(0.4) { // a second file
		if p := ps[1+g.Intn(len(ps)-1)]; c.at[p.ProtoFile] > 0 && !x.set.F[c.at[p.ProtoFile]-1].Known {
			args = append(args, dot(x.set.F[c.at[p.ProtoFile]-1].Path))
			add(p)
		}
	}
	cmd := exec.Command(exe, args...)
	cmd.Dir = wd
	o, err := cmd.CombinedOutput()
	found, at, same := 0, true, true
	filepath.Walk(x.dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && !strings.HasSuffix(p, ".proto") {
			found++
			w, ok := want[p]
			at = at && ok
			b, _ := os.ReadFile(p)
			same = same && ok && declarations(string(b)) == declarations(w)
		}
		return nil
	})
	msg := ""
	if err != nil {
		msg = clean(string(o)+err.Error(), x.dir)
	}
	x.emit(M{"op": "cli", "ok": err == nil, "msg": msg, "files": found, "want": len(want), "at": at, "same": same})
	if out != wd {
		os.RemoveAll(out)
	}
}

func pick(g *abs.Gen, ss ...string) string { return ss[g.Intn(len(ss))] }

// declarations is Go source without comments, in a canonical format.
func declarations(src string) string {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, 0)
	if err != nil {
		return "bad: " + err.Error()
	}
	var b bytes.Buffer
	format.Node(&b, fs, f)
	return b.String()
}

func segs(s string) []pgen.Name { return pgen.Path(s, "/") }

func (x *sess) run() {
	ps, at, msg, ok := x.load(x.dir, x.g)
	if !ok {
		return
	}
	if msg != "" {
		x.emit(M{"op": "load", "ok": false, "msg": clean(msg, x.dir), "files": []int{}})
		return
	}
	b := newBinding(x, ps, at)
	x.emit(M{"op": "load", "ok": true, "msg": "", "files": b.files()})
	for _, p := range ps {
		if i := at[p.ProtoFile]; i > 0 {
			x.emit(b.ast(i, p))
			if x.prof == "G13" {
				if msg, ok := x.guard("query", func() { x.emit(b.query(i, p)) }); ok && msg != "" {
					x.emit(M{"op": "crash", "what": "query: " + msg})
				}
			}
			if x.prof == "G04" && !x.set.F[i-1].Known {
				x.paths(i, p)
			}
		}
	}
	c := newCode(x, ps, at)
	if c == nil {
		return
	}
	for _, p := range ps {
		if i := at[p.ProtoFile]; i > 0 {
			x.emit(c.event(i, p))
		}
	}
	x.emit(c.compile())
	if x.prof == "G04" && !x.set.Kitex {
		x.cli(c, ps)
	}
	// another layout of the same files
	ps2, at2, msg2, ok := x.load(x.dir+"-again", x.g)
	if !ok {
		return
	}
	same := msg2 == ""
	if same {
		c2 := newCode(x, ps2, at2)
		if c2 == nil {
			return
		}
		for i := range x.set.F {
			same = same && c2.bare(i+1) == c.bare(i+1)
		}
	}
	x.emit(M{"op": "again", "same": same, "msg": clean(msg2, x.dir+"-again")})
}

func clean(s, dir string) string {
	s = strings.ReplaceAll(s, dir, "")
	if len(s) > 300 {
		s = s[:300]
	}
	return strings.ToValidUTF8(s, "?")
}

func (x *sess) line() []byte {
	var b bytes.Buffer
	j, _ := json.Marshal(x.set)
	fmt.Fprintf(&b, `{"id":%d,"S":%s,"ev":[%s]}`, x.id, j, strings.Join(x.ev, ","))
	return append(bytes.ReplaceAll(b.Bytes(), []byte("\n"), nil), '\n')
}

func main() {
	prof := flag.String("profile", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 100, "sessions")
	from := flag.Int("from", 0, "first session")
	step := flag.Int("step", 1, "run every step-th session")
	out := flag.String("out", "", "trace file, appended to")
	cur := flag.String("cur", "", "file that names the session being run")
	show := flag.Bool("show", false, "print the files and the code")
	emitDir := flag.String("emit", "", "write code and registry for the end-to-end sessions")
	flag.Parse()
	if *emitDir != "" {
		emit(*emitDir, *seed, *n)
		return
	}
	f, err := os.OpenFile(*out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	beat := make(chan int, 1)
	go func() { // a session that does not end is a hang
		last := time.Now()
		for {
			select {
			case <-beat:
				last = time.Now()
			case <-time.After(time.Second):
				if time.Since(last) > 90*time.Second {
					fmt.Fprintln(os.Stderr, "fatal error: HANG in session")
					os.Exit(97)
				}
			}
		}
	}()
	tmp, err := os.MkdirTemp(filepath.Dir(*cur), "gen-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	total, sw := *n, sweeps[*prof]
	if sw != nil {
		total += sw.n
	}
	for k := *from; k < total; k += *step {
		if *cur != "" && *cur != "/dev/null" {
			w.Flush()
			os.WriteFile(*cur, []byte(fmt.Sprint(k)), 0o644)
		}
		h := *seed*1000003 + int64(k)*7919
		for _, c := range *prof {
			h = h*31 + int64(c)
		}
		x := &sess{id: k, prof: *prof, g: abs.NewGen(h), dir: filepath.Join(tmp, fmt.Sprint("s", k))}
		if k >= *n {
			x.set = sw.make(x.g, k-*n)
		} else {
			x.set = pgen.Gen(x.g, profiles[*prof](x.g))
		}
		x.run()
		if *show {
			filepath.Walk(tmp, func(p string, i os.FileInfo, err error) error {
				if i.Mode().IsRegular() {
					b, _ := os.ReadFile(p)
					fmt.Fprintf(os.Stderr, "==== %s\n%s\n", strings.TrimPrefix(p, tmp), b)
				}
				return nil
			})
		}
		os.Chdir(tmp)
		os.RemoveAll(x.dir)
		os.RemoveAll(x.dir + "-again")
		select {
		case beat <- 1:
		default:
		}
		w.Write(x.line())
	}
	w.Flush()
	f.Close()
	os.WriteFile(*cur, []byte("done"), 0o644)
}

var profiles = map[string]func(g *abs.Gen) pgen.Opt{
	"G01": func(g *abs.Gen) pgen.Opt { return pgen.Opt{Files: 4, Invalid: 0.3, Refs: true, Tidy: 0.2} },
	"G02": func(g *abs.Gen) pgen.Opt { return pgen.Opt{Files: 2, Big: true, Tidy: 0.9} },
	"G03": func(g *abs.Gen) pgen.Opt { return pgen.Opt{Files: 3, Invalid: 0.8, Tidy: 0.3} },
	"G04": func(g *abs.Gen) pgen.Opt { return pgen.Opt{Files: 6, Invalid: 0.1, Tidy: 0.5} },
	"G05": func(g *abs.Gen) pgen.Opt { return pgen.Opt{Files: 3, Tidy: 0.8} },
	"G07": func(g *abs.Gen) pgen.Opt { return pgen.Opt{Files: 2, Tidy: 0.8} },
	"G09": func(g *abs.Gen) pgen.Opt { return pgen.Opt{Files: 2, Tidy: 0.9, Decor: true} },
	"G13": func(g *abs.Gen) pgen.Opt { return pgen.Opt{Files: 3, Big: g.P(0.3), Tidy: 0.85, Decor: g.P(0.3)} },
	"G10": func(g *abs.Gen) pgen.Opt { return pgen.Opt{Files: 3, Tidy: 0.5, Decor: g.P(0.5)} },
}

type sweep struct {
	n    int
	make func(g *abs.Gen, k int) *pgen.Set
}

var sweeps = map[string]*sweep{
	"G02": {pgen.NFields, pgen.Fields},
	"G03": {pgen.NValid, pgen.Valid},
	"G04": {pgen.NImports, pgen.Imports},
	"G05": {pgen.NFields, pgen.Fields},
	"G09": {pgen.NDecor, pgen.Decor},
	"G13": {pgen.NDecor + pgen.NFields, func(g *abs.Gen, k int) *pgen.Set {
		if k < pgen.NDecor {
			return pgen.Decor(g, k)
		}
		return pgen.Fields(g, k-pgen.NDecor)
	}},
}

// the events that matter to a property, where not all do
var events = map[string]string{
	"G01": "load ast code",
	"G02": "load ast code",
	"G03": "load",
	"G04": "load path cli",
	"G05": "load ast code compile",
	"G07": "load ast code",
	"G09": "load code",
	"G10": "load again",
	"G13": "load ast query",
}
