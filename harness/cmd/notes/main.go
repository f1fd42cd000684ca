// Command notes runs the real prutalgen on files full of comments and options,
// written from items as Notes.tla has them, and records where it puts them.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verifharness/abs"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
)

type M = map[string]any

// note is a comment: its text as written, and the directives it gives.
type note struct {
	text string
	dirs []string
}

type sess struct {
	id    int
	g     *abs.Gen
	b     strings.Builder
	items []M
	notes []note   // number t is notes[t-1]
	names []string // of definitions
	kinds []string
	ups   []int
	gaps  float64 // how often comments and blank lines
	plan  string  // what stands between the members of the definition under test, from TLC
	nl    bool    // at the start of a line
}

func (x *sess) put(m M)                 { x.items = append(x.items, m) }
func (x *sess) pick(s ...string) string { return s[x.g.Intn(len(s))] }

var noise = []string{"note", "TODO: 100% of x %s %d", "message X { int32 y = 1; }", "a // b", "'\"", "`", "é", "prutalgen: no_pointer", "}"}

// comment writes one.
func (x *sess) comment(line bool) {
	t := len(x.notes) + 1
	n := note{dirs: []string{}}
	txt := fmt.Sprintf("%s c%d.", noise[x.g.Intn(len(noise))], t)
	switch {
	case line && x.g.P(0.15):
		n.dirs = []string{x.pick("no_pointer", "unknown_fields", "no_unknown_fields", "no_enum_prefix", "no_enum_mapping", "no_such_thing"), fmt.Sprintf("d%d-", t)}
		n.text = "//prutalgen:" + strings.Join(n.dirs, x.pick(",", ", ", " ,"))
	case line && txt[0] != 'p' && x.g.P(0.2):
		n.text = "//" + txt
	case line:
		n.text = "// " + txt
	case x.g.P(0.3):
		n.text = "/* " + txt + "\n" + x.pick("", " ", "\t", "\n") + "* " + txt + "\n" + x.pick("", " ") + "*/"
	case x.g.P(0.3):
		n.text = "/**" + txt + "**/"
	default:
		n.text = "/* " + txt + " */"
	}
	x.notes = append(x.notes, n)
	x.put(M{"op": "c", "t": t, "line": line})
	x.b.WriteString(n.text)
	if line && x.g.P(0.1) {
		x.b.WriteString(x.pick(" ", "\t"))
	}
}

func (x *sess) newline(n int) {
	if k := len(x.items) - 1; k >= 0 && x.items[k]["op"] == "nl" {
		x.items[k]["n"] = x.items[k]["n"].(int) + n
	} else {
		x.put(M{"op": "nl", "n": n})
	}
	x.b.WriteString(x.pick("", "", "", " ", "\t"))
	for ; n > 0; n-- {
		x.b.WriteString("\n" + x.pick("", "", "  ", "\t"))
	}
}

// gap is what stands before a member.
func (x *sess) gap() {
	x.newline(1 + x.more())
	for x.g.P(x.gaps) {
		if x.g.P(0.6) {
			x.comment(true)
			x.newline(1 + x.more())
		} else {
			x.comment(false)
			if x.g.P(0.8) {
				x.newline(1 + x.more())
			} else {
				x.b.WriteString(x.pick("", " ", "\t "))
			}
		}
	}
}

func (x *sess) more() int {
	if x.g.P(0.25) {
		return 1 + x.g.Intn(2)
	}
	return 0
}

// in is what stands inside a definition, between its tokens.
func (x *sess) in() {
	if !x.g.P(x.gaps / 6) {
		x.b.WriteString(" ")
		return
	}
	x.b.WriteString(" ")
	if x.g.P(0.5) {
		x.comment(false)
		x.b.WriteString(" ")
	} else {
		x.comment(true)
		x.newline(1 + x.more())
	}
}

func (x *sess) toks(ts ...string) {
	for i, t := range ts {
		if i > 0 {
			x.in()
		}
		x.b.WriteString(t)
	}
}

// open starts a definition.
func (x *sess) open(kind string, up int) (d int, name string) {
	d = len(x.kinds) + 1
	name = fmt.Sprintf("n%d", d)
	if kind == "msg" || kind == "enum" || kind == "service" {
		name = fmt.Sprintf("N%d", d)
	}
	x.kinds, x.names, x.ups = append(x.kinds, kind), append(x.names, name), append(x.ups, up)
	x.put(M{"op": "open", "d": d, "k": kind})
	return
}

// end ends it; tail: whether an inline comment may follow.
func (x *sess) end(tok string, tail bool) {
	x.b.WriteString(tok)
	x.put(M{"op": "end"})
	if tail && x.g.P(x.gaps) {
		x.b.WriteString(x.pick("", " ", "  ", "\t"))
		x.comment(x.g.P(0.7))
		x.newline(1 + x.more())
	} else if tail && x.g.P(0.1) {
		x.b.WriteString(" ")
	}
}

type piece struct {
	F string `json:"f"`
	C int    `json:"c"`
}

var optNames = []string{"deprecated", "java_package", "(foo.bar)", "(foo.bar).baz", "cc_generic_services", "(gogoproto.typedecl)", "message_set_wire_format", "(v)"}

// constant writes one; nil: its text is left open.
func (x *sess) constant() (text string, v []piece) {
	raw := func(s string) (string, []piece) {
		v := []piece{}
		for i := 0; i < len(s); i++ {
			v = append(v, piece{"raw", int(s[i])})
		}
		return s, v
	}
	g := x.g
	switch g.Intn(8) {
	case 0:
		return raw(x.pick("true", "false", "SPEED", "a.b.c", "inf"))
	case 1:
		return raw(x.pick("0", "42", "0x1F", "017", "18446744073709551615"))
	case 2:
		return raw(x.pick("-1", "-1.5", "1.5e3", ".5", "+7"))
	case 3:
		return x.pick("{ get: \"/v1/x\" }", "{ a: 1, b: { c: true } }", "{}"), nil
	}
	var b strings.Builder
	v = []piece{}
	lits := 1
	for ; lits < 4 && g.P(0.2); lits++ {
	}
	for k := 0; k < lits; k++ {
		if k > 0 {
			b.WriteString(x.pick("", " ", "\n", "\t "))
		}
		q := x.pick(`"`, `'`)
		b.WriteString(q)
		for n := g.Intn(6); n > 0; n-- {
			switch g.Intn(6) {
			case 0:
				e := x.pick("a", "b", "f", "n", "r", "t", "v", "\\", "'", "\"")
				b.WriteString("\\" + e)
				v = append(v, piece{"esc", int(e[0])})
			case 1:
				c := g.Intn(256)
				f := x.pick("\\x%02x", "\\x%02X", "\\%03o")
				fmt.Fprintf(&b, f, c)
				v = append(v, piece{"num", c})
			case 2:
				c := []int{'a', 0xe9, 0x20ac, 0x1f600}[g.Intn(4)]
				b.WriteRune(rune(c))
				v = append(v, piece{"uni", c})
			default:
				c := x.pick("a", "z", " ", "/", "0", "%", "`", "//", "/*", "]", ";", "}")
				if c == "/*" {
					c = "*/"
				}
				b.WriteString(c)
				for _, y := range []byte(c) {
					v = append(v, piece{"raw", int(y)})
				}
			}
		}
		b.WriteString(q)
	}
	return b.String(), v
}

func (x *sess) optItem(br bool) {
	n := optNames[x.g.Intn(len(optNames))]
	t, v := x.constant()
	if t[0] >= '0' && t[0] <= '9' { // no predefined option is a number: "option name = 1" reads as a field
		n = "(foo.bar)"
	}
	a := []int{}
	for _, c := range []byte(n) {
		a = append(a, int(c))
	}
	if n = strings.ReplaceAll(n, ".", x.pick(".", ".", " . ")); br {
		x.toks(n, "=", t)
	} else {
		x.b.WriteString(n + x.pick(" = ", "=", "\n=\t") + t)
	}
	x.put(M{"op": "opt", "n": a, "v": append([]piece{}, v...), "br": br, "any": v == nil})
}

// option is a statement.
func (x *sess) option() {
	x.b.WriteString("option ")
	x.optItem(false)
	x.b.WriteString(";")
}

func (x *sess) brackets() {
	if !x.g.P(0.3) {
		return
	}
	x.b.WriteString(" [")
	for i := 1 + x.g.Intn(3); i > 0; i-- {
		x.optItem(true)
		if i > 1 {
			x.b.WriteString(", ")
		}
	}
	x.b.WriteString("]")
}

// other writes a statement that is no definition.
func (x *sess) other(kind string, k int) {
	switch kind {
	case "service", "rpc", "oneof":
		x.b.WriteString(";")
		x.put(M{"op": "tok"})
	default:
		if x.g.P(0.5) {
			x.b.WriteString(";")
		} else if kind == "" {
			x.b.WriteString(";")
		} else {
			fmt.Fprintf(&x.b, "reserved %d;", 900+k)
		}
		x.put(M{"op": "tok"})
	}
}

func (x *sess) simple(kind string, up, num int) {
	x.open(kind, up)
	name := x.names[len(x.names)-1]
	switch kind {
	case "field":
		switch x.g.Intn(4) {
		case 0:
			x.toks("map<", "int32", ",", "string", ">", name, "=", fmt.Sprint(num))
		case 1:
			x.toks("repeated", "string", name, "=", fmt.Sprint(num))
		default:
			x.toks(x.pick("int32", "bytes"), name, "=", fmt.Sprint(num))
		}
	case "member":
		x.toks("int32", name, "=", fmt.Sprint(num))
	case "value":
		x.toks(name, "=", fmt.Sprint(num-1))
	}
	x.brackets()
	x.in()
	x.end(";", true)
}

func (x *sess) rpc(up int) {
	x.open("rpc", up)
	name := x.names[len(x.names)-1]
	x.toks("rpc", name, "(", x.pick("", "stream"), "Q", ")", "returns", "(", x.pick("", "stream"), "Q", ")")
	if !x.g.P(0.5) {
		x.end(";", true)
		return
	}
	x.b.WriteString(" {")
	x.put(M{"op": "body"})
	for i := x.g.Intn(3); i > 0; i-- {
		x.gap()
		if x.g.P(0.7) {
			x.option()
		} else {
			x.other("rpc", 0)
		}
	}
	x.end("}", true)
}

var members = map[string][]string{
	"":        {"msg", "msg", "enum", "service", "opt", "other"},
	"msg":     {"field", "field", "field", "msg", "enum", "oneof", "opt", "other"},
	"enum":    {"value", "value", "value", "opt", "other"},
	"oneof":   {"member", "member", "opt", "other"},
	"service": {"rpc", "rpc", "opt", "other"},
}

// group writes a definition with members.
func (x *sess) group(kind string, up, depth int) {
	d, name := x.open(kind, up)
	word := map[string]string{"msg": "message"}[kind]
	if word == "" {
		word = kind
	}
	x.toks(word, name, "{")
	x.put(M{"op": "body"})
	if kind == "enum" || kind == "oneof" { // they need one
		x.gap()
		x.member(kind, members[kind][0], d, 1, depth)
	}
	x.members(kind, d, depth, 2)
	x.gap()
	x.end("}", kind != "oneof")
}

// member writes one.
func (x *sess) member(kind, k string, d, num, depth int) {
	switch k {
	case "opt":
		x.option()
	case "other":
		x.other(kind, num)
	case "rpc":
		x.rpc(d)
	case "field", "value":
		x.simple(k, d, num)
	case "member":
		x.simple(k, d, 20000+1000*d+num) // numbers of oneof members count in the message
	default:
		if depth > 2 && kind == "msg" {
			x.simple("field", d, num)
		} else {
			x.group(k, d, depth+1)
		}
	}
}

func (x *sess) members(kind string, d, depth, first int) {
	n := x.g.Intn(5)
	if depth == 0 {
		n = 1 + x.g.Intn(3)
	}
	for i := 0; i < n; i++ {
		if kind == "" || x.g.P(0.9) || x.items[len(x.items)-1]["op"] == "c" {
			x.gap()
		} else {
			x.b.WriteString(" ") // on the same line
		}
		x.member(kind, members[kind][x.g.Intn(len(members[kind]))], d, first+i, depth)
	}
}

func (x *sess) file() {
	x.gaps = []float64{0.2, 0.5, 0.7}[x.g.Intn(3)]
	if x.g.P(0.5) {
		x.b.WriteString(x.pick("", " ", "\t"))
		for x.g.P(0.7) {
			x.comment(true)
			x.newline(1 + x.more())
		}
	}
	x.b.WriteString(x.pick(`syntax = "proto3";`, `edition = "2023";`))
	x.put(M{"op": "tok"})
	x.newline(1)
	x.b.WriteString("package notes;")
	x.put(M{"op": "tok"})
	x.newline(1)
	x.b.WriteString(`option go_package = "x/notes";`)
	v := []piece{}
	for _, c := range []byte("x/notes") {
		v = append(v, piece{"raw", int(c)})
	}
	x.put(M{"op": "opt", "n": codes("go_package"), "v": v, "br": false, "any": false})
	if x.plan == "" {
		x.members("", 0, 0, 0)
	} else {
		x.planned()
	}
	x.gap()
	d, name := x.open("msg", 0) // for the rpcs
	_ = name
	x.names[d-1] = "Q"
	x.b.WriteString("message Q {")
	x.put(M{"op": "body"})
	x.end("}", true)
	if x.g.P(0.5) {
		x.gap()
	}
}

// planned writes what TLC chose: C a line comment, B a block comment, 1 and 2 line ends, D a definition, T another statement.
func (x *sess) planned() {
	x.gaps = 0
	kind, letters, _ := strings.Cut(x.plan, ":")
	outer := map[string]string{"field": "msg", "value": "enum", "member": "oneof", "rpc": "service", "nested": "msg"}[kind]
	up := 0
	x.newline(1)
	if outer == "oneof" {
		up, _ = x.open("msg", 0)
		x.b.WriteString("message " + x.names[up-1] + " {")
		x.put(M{"op": "body"})
		x.newline(1)
	}
	if outer != "" {
		o := up
		up, _ = x.open(outer, o)
		x.b.WriteString(map[string]string{"msg": "message", "enum": "enum", "oneof": "oneof", "service": "service"}[outer] + " " + x.names[up-1] + " {")
		x.put(M{"op": "body"})
		x.newline(1)
	}
	num := 1
	if outer == "enum" || outer == "oneof" { // they need a member
		x.simple(kind, up, num)
		x.newline(1)
		num++
	}
	for _, c := range letters {
		switch c {
		case 'C', 'B':
			x.comment(c == 'C')
		case '1':
			x.newline(1)
		case '2':
			x.newline(2)
		case 'T':
			x.other(outer, num)
			num++
		case 'D':
			k := kind
			if kind == "top" {
				k = x.pick("msg", "enum", "service")
			} else if kind == "nested" {
				k = x.pick("msg", "enum")
			}
			switch k {
			case "msg", "service", "enum":
				d, n := x.open(k, up)
				x.b.WriteString(map[string]string{"msg": "message", "service": "service", "enum": "enum"}[k] + " " + n + " {")
				x.put(M{"op": "body"})
				if k == "enum" {
					x.simple("value", d, 1)
				}
				x.end("}", false)
			case "rpc":
				x.rpc(up)
			default:
				x.simple(k, up, num)
			}
			num++
		}
	}
	if last := x.items[len(x.items)-1]; last["op"] != "nl" {
		x.newline(1)
	}
	if outer != "" {
		x.end("}", false)
		if outer == "oneof" {
			x.end("}", false)
		}
		x.newline(1)
	}
}

func codes(s string) []int {
	a := []int{}
	for i := 0; i < len(s); i++ {
		a = append(a, int(s[i]))
	}
	return a
}

type fatal struct{ msg string }

type logger struct{ said string }

func (l *logger) Printf(format string, a ...any) { l.said += fmt.Sprintf(format, a...) + " " }
func (l *logger) Fatalf(format string, a ...any) { panic(fatal{l.said + fmt.Sprintf(format, a...)}) }

// ids finds the comments a text is made of: -1 stands for anything else.
func (x *sess) ids(s string) []int {
	out := []int{}
	s = strings.ReplaceAll(s, "\r\n", "\n")
	for s != "" {
		hit := 0
		for i, n := range x.notes {
			if strings.HasPrefix(s, n.text) && (len(s) == len(n.text) || s[len(n.text)] == '\n') {
				hit = i + 1
			}
		}
		if hit == 0 {
			return append(out, -1)
		}
		out = append(out, hit)
		s = strings.TrimPrefix(s[len(x.notes[hit-1].text):], "\n")
	}
	return out
}

func (x *sess) group2(c *ast.CommentGroup) []int {
	if c == nil {
		return []int{}
	}
	var ss []string
	for _, y := range c.List {
		ss = append(ss, y.Text)
	}
	return x.ids(strings.Join(ss, "\n"))
}

type seen struct {
	head, inl string
	dirs      []string
	opts      prutalgen.Options
	has       bool // comments
	golang    string
	within    string
}

func optList(oo prutalgen.Options) []M {
	out := []M{}
	for _, o := range oo {
		out = append(out, M{"n": codes(o.Name), "v": codes(o.Value)})
	}
	return out
}

func (x *sess) run(dir string) (ev M) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(fatal); ok {
				ev = M{"op": "file", "ok": false, "msg": f.msg}
				return
			}
			ev = M{"op": "crash", "what": strings.Split(fmt.Sprint(r), "\n")[0]}
		}
	}()
	text := x.b.String()
	if x.plan == "" && x.g.P(0.15) && !strings.Contains(text, "\r") {
		text = strings.ReplaceAll(text, "\n", "\r\n")
	}
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, "notes.proto"), []byte(text), 0o644); err != nil {
		panic(err)
	}
	l := prutalgen.NewLoader([]string{dir}, nil)
	l.SetLogger(&logger{})
	p := l.LoadProto("notes.proto")[0]
	g := prutalgen.NewGoCodeGen()
	w := prutalgen.NewCodeWriter("// Code", p.GoPackage)
	g.ProtoGen(p, w)
	code := string(w.Bytes())

	at := map[string]seen{}
	add := func(n string, s seen) {
		if s.dirs == nil {
			s.dirs = []string{}
		}
		at[n] = s
	}
	enum := func(e *prutalgen.Enum) {
		add(e.Name, seen{e.HeadComment, e.InlineComment, e.Directives, e.Options, true, e.GoName, ""})
		for _, v := range e.Fields {
			add(v.Name, seen{v.HeadComment, v.InlineComment, v.Directives, v.Options, true, v.GoName, "const"})
		}
	}
	var msg func(m *prutalgen.Message)
	msg = func(m *prutalgen.Message) {
		add(m.Name, seen{m.HeadComment, m.InlineComment, m.Directives, m.Options, true, m.GoName, ""})
		for _, f := range m.Fields {
			within := m.GoName
			if f.Oneof != nil {
				within = f.OneofStructName()
			}
			add(f.Name, seen{f.HeadComment, f.InlineComment, f.Directives, f.Options, true, f.GoName, within})
		}
		for _, o := range m.Oneofs {
			add(o.Name, seen{opts: o.Options})
		}
		for _, e := range m.Enums {
			enum(e)
		}
		for _, y := range m.Messages {
			msg(y)
		}
	}
	for _, e := range p.Enums {
		enum(e)
	}
	for _, m := range p.Messages {
		msg(m)
	}
	for _, s := range p.Services {
		add(s.Name, seen{s.HeadComment, s.InlineComment, s.Directives, s.Options, true, "", ""})
		for _, m := range s.Methods {
			add(m.Name, seen{m.HeadComment, m.InlineComment, m.Directives, m.Options, true, "", ""})
		}
	}

	// the comments of the Go declarations
	type pair struct{ doc, line []int }
	goes := map[string]pair{}
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", code, parser.ParseComments)
	if err == nil {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, sp := range gd.Specs {
				switch sp := sp.(type) {
				case *ast.TypeSpec:
					doc := sp.Doc
					if doc == nil {
						doc = gd.Doc
					}
					if _, ok := sp.Type.(*ast.InterfaceType); ok {
						continue
					}
					goes["."+sp.Name.Name] = pair{x.group2(doc), x.group2(sp.Comment)}
					if st, ok := sp.Type.(*ast.StructType); ok {
						for _, y := range st.Fields.List {
							if len(y.Names) == 1 {
								goes[sp.Name.Name+"."+y.Names[0].Name] = pair{x.group2(y.Doc), x.group2(y.Comment)}
							}
						}
					}
				case *ast.ValueSpec:
					if gd.Tok == token.CONST {
						goes["const."+sp.Names[0].Name] = pair{x.group2(sp.Doc), x.group2(sp.Comment)}
					}
				}
			}
		}
	}
	defs := []M{}
	for i, n := range x.names {
		s, ok := at[n]
		m := M{"ok": ok, "head": x.ids(s.head), "inl": x.ids(s.inl), "dirs": s.dirs, "opts": optList(s.opts), "doc": []int{}, "line": []int{}, "go": false}
		if s.dirs == nil {
			m["dirs"] = []string{}
		}
		if k := x.kinds[i]; ok && (k == "msg" || k == "enum" || k == "field" || k == "member" || k == "value") {
			q, ok := goes[s.within+"."+s.golang]
			m["go"] = ok
			if ok {
				m["doc"], m["line"] = q.doc, q.line
			}
		}
		defs = append(defs, m)
	}
	// all the comments that are in the code
	all := []int{}
	for i, n := range x.notes {
		for k := strings.Count(strings.ReplaceAll(code, "\r\n", "\n"), n.text); k > 0; k-- {
			all = append(all, i+1)
		}
	}
	sort.Ints(all)
	fd := []string(p.Directives)
	if fd == nil {
		fd = []string{}
	}
	msgText := ""
	if err != nil {
		msgText = err.Error()
	}
	return M{"op": "file", "ok": true, "msg": msgText, "parses": err == nil, "defs": defs, "fopts": optList(p.Options), "fdirs": fd, "all": all, "n": len(at)}
}

func main() {
	prof := flag.String("profile", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 100, "sessions")
	from := flag.Int("from", 0, "first session")
	step := flag.Int("step", 1, "run every step-th session")
	out := flag.String("out", "", "trace file, appended to")
	cur := flag.String("cur", "", "file that names the session being run")
	plan := flag.String("plan", "", "layouts from NotesMC, instead of random ones")
	show := flag.Bool("show", false, "print the files")
	flag.Parse()
	_ = prof
	f, err := os.OpenFile(*out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	beat := make(chan int, 1)
	go func() { // a session that does not end is a hang
		last := time.Now()
		for {
			select {
			case <-beat:
				last = time.Now()
			case <-time.After(time.Second):
				if time.Since(last) > 90*time.Second {
					fmt.Fprintln(os.Stderr, "fatal error: HANG in session")
					os.Exit(97)
				}
			}
		}
	}()
	tmp, err := os.MkdirTemp(filepath.Dir(*cur), "notes-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	var plans []string
	if *plan != "" {
		b, err := os.ReadFile(*plan)
		if err != nil {
			panic(err)
		}
		plans = strings.Fields(string(b))
		*n = len(plans)
	}
	for k := *from; k < *n; k += *step {
		if *cur != "" && *cur != "/dev/null" && (k/(*step))%20 == 0 {
			w.Flush()
			os.WriteFile(*cur, []byte(fmt.Sprint(k)), 0o644)
		}
		x := &sess{id: k, g: abs.NewGen(*seed*1000003 + int64(k)*7919 + 5)}
		if plans != nil {
			x.plan = plans[k]
		}
		x.file()
		if *show {
			fmt.Fprintf(os.Stderr, "==== %d %s\n%s\n", k, x.plan, x.b.String())
		}
		ev := x.run(filepath.Join(tmp, "s"))
		for i := range x.items {
			if x.items[i]["op"] == "opt" {
				if _, ok := x.items[i]["any"]; !ok {
					x.items[i]["any"] = false
				}
			}
		}
		com := [][]string{}
		for _, c := range x.notes {
			com = append(com, c.dirs)
		}
		evs := append(x.items, ev)
		j, err := json.Marshal(M{"id": k, "S": com, "ev": evs})
		if err != nil {
			panic(err)
		}
		w.Write(append(j, '\n'))
		select {
		case beat <- 1:
		default:
		}
	}
	w.Flush()
	f.Close()
	os.WriteFile(*cur, []byte("done"), 0o644)
}
