// Command syntax gives texts to the real prutalgen, most of them no proper
// .proto files, and records what it makes of them for GrammarTrace.tla.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
	"unicode/utf8"

	"verifharness/abs"
	"verifharness/pgen"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
)

type M = map[string]any

type sess struct {
	g    *abs.Gen
	toks []string
	names,
	num int
	how   string
	valid bool
}

func (x *sess) pick(s ...string) string { return s[x.g.Intn(len(s))] }
func (x *sess) put(s ...string)         { x.toks = append(x.toks, s...) }

// ------------------------------------------------------------- valid files

// words that are keywords somewhere, and good names everywhere
var words = []string{"syntax", "edition", "import", "weak", "public", "package", "option", "optional", "repeated", "oneof", "map",
	"int32", "uint64", "fixed32", "bool", "double", "bytes", "reserved", "extensions", "to", "max", "enum", "message",
	"service", "extend", "rpc", "stream", "returns", "true", "false", "group", "export", "inf_", "nan0", "_", "x1", "E5", "e", "x"}

// name makes a fresh one.
func (x *sess) name() string {
	x.names++
	return fmt.Sprintf("%s%d", x.pick("a", "Foo", "_q", "snake_case_", "messages", "inf", "e", "x", "int32_", "ABC"), x.names)
}

// some distinct words, whose Go names are distinct too
func (x *sess) wordList() []string {
	ws := append([]string{}, words...)
	for i := range ws {
		j := x.g.Intn(i + 1)
		ws[i], ws[j] = ws[j], ws[i]
	}
	seen := map[string]bool{}
	var out []string
	for _, w := range ws {
		k := strings.ToLower(strings.ReplaceAll(w, "_", ""))
		if !seen[k] {
			out, seen[k] = append(out, w), true
		}
	}
	return out
}

func (x *sess) integer(n int) string {
	if n == 0 {
		return x.pick("0", "00", "0x0", "0X00")
	}
	return fmt.Sprintf(x.pick("%d", "%d", "0%o", "0x%x", "0X%X", "0x0%x", "00%o"), n)
}

func (x *sess) str(plain string) {
	if plain != "" {
		q := x.pick(`"`, `'`)
		k := x.g.Intn(len(plain) + 1)
		if x.g.P(0.3) {
			x.put(q+plain[:k]+q, q+plain[k:]+q)
		} else {
			x.put(q + plain + q)
		}
		return
	}
	for {
		q := x.pick(`"`, `'`)
		s := q
		for n := x.g.Intn(6); n > 0; n-- {
			s += x.pick("a", "\\n", "\\\\", "\\'", "\\\"", "\\x1f", "\\X00", "\\377", "\\000", "//", "/*", "*/", "é", "日本", " ", "\t", "#", "@", "$", "\\a", "\\b", "\\f", "\\r", "\\t", "\\v",
				"{", "}", ";", "\\x7fg", "\\0011", "\u2028", "\U0001f600", map[string]string{`"`: "'", "'": `"`}[q])
		}
		x.put(s + q)
		if x.g.P(0.7) {
			return
		}
	}
}

func (x *sess) constant(depth int) {
	switch x.g.Intn(9) {
	case 0:
		x.put(x.pick("true", "false"))
	case 1:
		x.put(x.pick("SPEED", "x", "to", "inf", "nan", "message"))
	case 2:
		x.put("a", ".", "b", ".", x.pick("c", "rpc"))
	case 3, 4:
		if x.g.P(0.3) {
			x.put(x.pick("-", "+"))
		}
		x.put(x.pick(x.integer(x.g.Intn(1000)), "18446744073709551615", "0xffffffffffffffff"))
	case 5:
		if x.g.P(0.3) {
			x.put(x.pick("-", "+"))
		}
		x.put(x.pick("1.5", ".5", "1.", "1e3", "1E+3", "1.5e-3", ".5E10", "0.0", "inf", "nan", "09.5", "1.e3", "00e0"))
	case 6:
		if depth < 3 {
			x.put("{")
			for n := x.g.Intn(4); n > 0; n-- {
				x.put(x.pick("a", "get", "max", "option", "_"), ":")
				x.constant(depth + 1)
				if x.g.P(0.6) {
					x.put(x.pick(",", ";"))
				}
			}
			x.put("}")
			return
		}
		fallthrough
	default:
		x.str("")
	}
}

func (x *sess) optItem() {
	x.put("(", x.pick("a", "option", "message"))
	if x.g.P(0.5) {
		x.put(".", x.pick("b", "to"))
	}
	x.put(")")
	if x.g.P(0.4) {
		x.put(".", x.pick("b", "max"))
		if x.g.P(0.3) {
			x.put(".", "c")
		}
	}
	x.put("=")
	x.constant(0)
}

func (x *sess) option() {
	x.put("option")
	x.optItem()
	x.put(";")
}

func (x *sess) opts() {
	if !x.g.P(0.25) {
		return
	}
	x.put("[")
	x.optItem()
	for x.g.P(0.4) {
		x.put(",")
		x.optItem()
	}
	x.put("]")
}

func (x *sess) enum(syn string) {
	x.put("enum", "E"+x.name(), "{")
	n := 1 + x.g.Intn(4)
	for i := 0; i < n; i++ {
		if x.g.P(0.1) {
			x.put(";")
		}
		if x.g.P(0.1) {
			x.option()
		}
		x.put("V"+x.name(), "=")
		if i > 0 && x.g.P(0.2) {
			x.put("-")
		}
		x.put(x.integer(i))
		x.opts()
		x.put(";")
	}
	if x.g.P(0.2) {
		x.put("reserved", x.integer(40), x.pick("to"), x.pick("max", "50"), ",", x.integer(30), ";")
	}
	if x.g.P(0.1) {
		x.put("reserved")
		x.str("gone")
		x.put(";")
	}
	x.put("}")
}

var scalars = []string{"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"}

func (x *sess) message(syn string, depth int) string {
	n := "M" + x.name()
	x.put("message", n, "{")
	num := 0
	ws := x.wordList()
	fname := func() string { num++; w := ws[0]; ws = ws[1:]; return w }
	simple := func(label bool) {
		if label {
			switch {
			case syn == "2023":
				if x.g.P(0.3) {
					x.put("repeated")
				}
			case syn == "proto2":
				x.put(x.pick("optional", "required", "repeated"))
			case x.g.P(0.4):
				x.put(x.pick("optional", "repeated"))
			}
		}
		if x.g.P(0.2) {
			x.put(strings.Fields(x.pick(n, ". p . "+n, "p . "+n))...)
			if x.toks[len(x.toks)-2] == "." && depth > 0 {
				x.toks = x.toks[:len(x.toks)-2]
				for x.toks[len(x.toks)-1] == "." || x.toks[len(x.toks)-1] == "p" {
					x.toks = x.toks[:len(x.toks)-1]
				}
				x.put(n)
			}
		} else {
			x.put(scalars[x.g.Intn(len(scalars))])
		}
		f := fname()
		x.put(f, "=", x.integer(num))
		x.opts()
		x.put(";")
	}
	for k := x.g.Intn(6); k > 0 && len(ws) > 6; k-- {
		switch x.g.Intn(9) {
		case 0:
			x.put(";")
		case 1:
			x.option()
		case 2:
			x.put("map", "<", x.pick("int32", "string", "bool", "sfixed64"), ",", scalars[x.g.Intn(15)], ">")
			f := fname()
			x.put(f, "=", x.integer(num))
			x.opts()
			x.put(";")
		case 3:
			x.put("oneof", "o"+x.name(), "{")
			simple(false)
			for x.g.P(0.4) && len(ws) > 6 {
				if x.g.P(0.2) {
					x.option()
				}
				simple(false)
			}
			x.put("}")
		case 4:
			if depth < 3 {
				x.message(syn, depth+1)
			} else {
				x.enum(syn)
			}
		case 5:
			x.num += 10
			x.put("reserved", x.integer(1000+x.num), ",", x.integer(2000+x.num), "to", x.integer(2005+x.num), ";")
		default:
			simple(true)
		}
	}
	if x.g.P(0.1) {
		x.put("reserved", x.integer(90000), "to", "max", ";")
	}
	if syn == "proto2" && x.g.P(0.3) {
		x.put("extensions", x.integer(70000), "to", x.integer(80000), ";")
	}
	x.put("}")
	return n
}

// lexical writes a small valid file as tokens.
func (x *sess) lexical() {
	x.how, x.valid = "spelled", true
	syn := x.pick("proto2", "proto3", "2023")
	if syn == "2023" {
		x.put("edition", "=")
	} else if syn == "proto3" || x.g.P(0.8) {
		x.put("syntax", "=")
	}
	if len(x.toks) > 0 {
		x.str(syn)
		x.put(";")
	}
	if x.g.P(0.1) {
		x.put(";")
	}
	x.put("package", "p", ";", "option", "go_package", "=", `"x/y"`, ";")
	m := ""
	for n := 1 + x.g.Intn(3); n > 0; n-- {
		switch x.g.Intn(5) {
		case 0:
			x.enum(syn)
		case 1:
			x.option()
		case 2:
			if m != "" {
				x.put("service", "S"+x.name(), "{")
				for x.g.P(0.5) {
					x.put("rpc", x.name(), "(")
					if x.g.P(0.3) {
						x.put("stream")
					}
					x.put(m, ")", "returns", "(")
					if x.g.P(0.3) {
						x.put("stream")
					}
					x.put(m, ")")
					if x.g.P(0.5) {
						x.put(";")
					} else {
						x.put("{")
						if x.g.P(0.5) {
							x.option()
						}
						x.put("}")
					}
				}
				x.put("}")
			}
		case 3:
			if x.g.P(0.3) {
				x.put(";")
			}
			fallthrough
		default:
			m = x.message(syn, 0)
		}
	}
}

func wordy(c byte) bool {
	return c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// join puts something between the tokens, often as little as possible.
func (x *sess) join(wild float64) string {
	var b strings.Builder
	last := byte(' ')
	for _, t := range x.toks {
		sep := ""
		if wordy(last) && wordy(t[0]) && (t != "." || last >= '0' && last <= '9') && (last != '.' || t[0] >= '0' && t[0] <= '9') {
			sep = " "
		}
		if x.g.P(wild) {
			sep = x.pick(" ", "\n", "\t", "\f", "  ", "\r\n", "//\n", "// \"'/* é\n", "/**/", "/* // \" */", "/***/", "/*/*/", "/*\n*\n*/", "\n\n", " // x\r\n", "/*\u2028*/")
		} else if sep == "" && x.g.P(0.3) {
			sep = " "
		}
		b.WriteString(sep)
		b.WriteString(t)
		last = t[len(t)-1]
	}
	if x.g.P(wild) {
		b.WriteString(x.pick("\n", "// the end", "/* the end */", " ", "//"))
	}
	return b.String()
}

// ------------------------------------------------------------- damage

var every = strings.Fields(`syntax edition import weak public package option optional required repeated oneof map int32 sint64 fixed32 bool string
 double bytes reserved extensions to max enum message service extend rpc stream returns ; = ( ) [ ] { } < > . , : + - name Foo 1 0 017 0x1f 1.5 1e3 inf nan
 true false "s" 's' "" group export @ # $ " ' \ / /* // ! ? % é 09 1a 0x`)

func (x *sess) damageToks() {
	x.how, x.valid = "tokens", false
	for n := 1 + x.g.Intn(2)*x.g.Intn(3); n > 0; n-- {
		i := x.g.Intn(len(x.toks))
		t := x.toks
		switch x.g.Intn(7) {
		case 0:
			t = append(t[:i:i], t[i+1:]...)
		case 1:
			t = append(t[:i+1:i+1], t[i:]...)
		case 2:
			if i+1 < len(t) {
				t[i], t[i+1] = t[i+1], t[i]
			}
		case 3:
			t = append(append(t[:i:i], every[x.g.Intn(len(every))]), t[i:]...)
		case 4:
			j := x.g.Intn(len(t))
			t[i], t[j] = t[j], t[i]
		case 5:
			if x.g.P(0.5) {
				t = t[:i]
			} else if j := i + x.g.Intn(5); j < len(t) {
				t = append(t[:i:i], t[j:]...)
			}
		default:
			t[i] = every[x.g.Intn(len(every))]
		}
		if x.toks = t; len(t) == 0 {
			x.toks = []string{";"}
		}
	}
}

var bits = []string{"\"", "'", "\\", "/", "*", "//", "/*", "*/", "{", "}", "[", "]", "(", ")", "<", ">", ";", ":", "=", ",", ".", "+", "-", "@", "#", "$", "%", "^", "&", "!",
	"?", "~", "`", "|", "a", "Z", "_", "0", "9", "\n", "\r\n", "\t", "\v", "\x00", "é", "\ufeff", "\u2028", "\u00a0", "\\x", "\\x4", "0x", "1e", "\\0", "\\?", "\\u0041", " ", "\x7f", "\u200b", "\\q", "\\8"}

func (x *sess) damageChars(t string) string {
	x.how, x.valid = "characters", false
	rs := []rune(t)
	for n := 1 + x.g.Intn(2)*x.g.Intn(3); n > 0 && len(rs) > 2; n-- {
		i := x.g.Intn(len(rs))
		b := []rune(bits[x.g.Intn(len(bits))])
		switch x.g.Intn(6) {
		case 0:
			rs = append(rs[:i:i], rs[i+1:]...)
		case 1, 2:
			rs = append(append(rs[:i:i], b...), rs[i:]...)
		case 3:
			rs = append(append(rs[:i:i], b...), rs[i+1:]...)
		case 4:
			rs = rs[:i]
		case 5:
			j := i + x.g.Intn(30)
			if j > len(rs) {
				j = len(rs)
			}
			if x.g.P(0.5) {
				rs = append(rs[:i:i], rs[j:]...)
			} else {
				rs = append(rs[:j:j], rs[i:]...)
			}
		}
	}
	return string(rs)
}

// text makes the file of a session.
func (x *sess) text() string {
	switch k := x.g.Intn(20); {
	case k < 3:
		x.lexical()
		t := x.join([]float64{0, 0.1, 0.4}[x.g.Intn(3)])
		if x.g.P(0.1) {
			t = "\ufeff" + t
		}
		return t
	case k < 12:
		x.lexical()
		x.damageToks()
		return x.join([]float64{0, 0, 0.1}[x.g.Intn(3)])
	case k < 16:
		x.lexical()
		return x.damageChars(x.join([]float64{0, 0.05, 0.2}[x.g.Intn(3)]))
	case k < 19:
		s := pgen.Gen(x.g, pgen.Opt{Files: 1, Tidy: 0.5})
		return x.damageChars(pgen.Render(s, s.Root, x.g))
	}
	x.how = "soup" // of tokens
	for n := x.g.Intn(12); n >= 0; n-- {
		x.put(every[x.g.Intn(len(every))])
	}
	return x.join(0.1)
}

// planned writes the tokens that TLC chose.
func (x *sess) planned(line string) string {
	x.how = "planned"
	id, num := 0, 0
	ks := strings.Fields(line)
	for i, k := range ks {
		switch k {
		case "ID":
			if id++; i+2 < len(ks) && wordy(ks[i+1][0]) && ks[i+1] != "." && ks[i+2] == "=" && x.g.P(0.8) {
				k = scalars[x.g.Intn(len(scalars))] // a type
			} else {
				k = fmt.Sprintf("N%d", id)
			}
		case "INT":
			k = x.integer(num)
			num++
		case "FLOAT":
			k = x.pick("1.5", ".5", "1e3")
		case "STR":
			k = x.pick(`"s"`, `'s'`)
		case "BOOL":
			k = x.pick("true", "false")
		case "inf":
			k = x.pick("inf", "nan")
		}
		x.put(k)
	}
	if len(x.toks) == 0 {
		return ""
	}
	return x.join(0.05)
}

// ------------------------------------------------------------- runs

type fatal struct{ msg string }

type logger struct{ said string }

func (l *logger) Printf(format string, a ...any) { l.said += fmt.Sprintf(format, a...) + " " }
func (l *logger) Fatalf(format string, a ...any) { panic(fatal{l.said + fmt.Sprintf(format, a...)}) }

func (x *sess) run(dir, text string) (ev M) {
	cps := []int{}
	for _, r := range text {
		cps = append(cps, int(r))
	}
	ev = M{"op": "text", "how": x.how, "text": cps, "valid": x.valid, "ok": false, "syntax": false, "parses": true, "runs": []M{}, "msg": ""}
	os.MkdirAll(dir, 0o755)
	write := func(n, t string) {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(t), 0o644); err != nil {
			panic(err)
		}
	}
	write("t.proto", text)
	root := "t.proto"
	if x.g.P(0.25) { // the text is imported
		root = "main.proto"
		imp := x.pick("import", "import", "import public", "import weak")
		imps := imp + " \"t.proto\";\n"
		if x.g.P(0.5) { // by a file that is imported
			write("mid.proto", "syntax = \"proto3\"; package mid;\n"+imps+"option go_package = \"x/mid\"; message Mid {}\n")
			imps = "import \"mid.proto\";\n"
		}
		write("main.proto", "syntax = \"proto3\"; package main;\n"+imps+"option go_package = \"x/main\"; message Main {}\n")
	}
	m := map[string]string{"t.proto": "x/y"}
	func() {
		lg := &logger{}
		defer func() {
			if r := recover(); r != nil {
				if f, ok := r.(fatal); ok {
					ev["msg"] = strings.ToValidUTF8(f.msg[:min(len(f.msg), 300)], "?")
					ev["syntax"] = strings.Contains(f.msg, "syntax error") || strings.Contains(f.msg, "during parsing")
					return
				}
				ev = M{"op": "crash", "what": strings.Split(fmt.Sprint(r), "\n")[0], "how": x.how, "text": cps}
			}
		}()
		l := prutalgen.NewLoader([]string{dir}, m)
		l.SetLogger(lg)
		ps := l.LoadProto(root)
		g := prutalgen.NewGoCodeGen()
		for _, p := range ps {
			if b := filepath.Base(p.ProtoFile); b != root && b != "t.proto" {
				continue
			}
			w := prutalgen.NewCodeWriter("// Code", p.GoPackage)
			g.ProtoGen(p, w)
			if _, err := parser.ParseFile(token.NewFileSet(), "x.go", w.Bytes(), 0); err != nil {
				ev["parses"], ev["msg"] = false, err.Error()
			}
		}
		ev["ok"] = true
	}()
	exe := os.Getenv("PRUTALGEN")
	if exe == "" || ev["op"] == "crash" || !x.g.P(map[bool]float64{true: 0.05, false: 0.3}[x.how == "planned"]) {
		return
	}
	out := filepath.Join(dir, "out")
	args := []string{"-I", dir, "--go_out", out, "--go_opt=Mt.proto=x/y"}
	if x.g.P(0.3) {
		args = append(args, "-gen_getter")
	}
	if x.g.P(0.3) { // after one that is all right
		write("good.proto", "syntax = \"proto3\"; option go_package = \"x/good\"; message Good { int32 a = 1; }\n")
		args = append(args, "good.proto")
	}
	blocked := x.g.P(0.1)
	if blocked {
		write("out", "")
	}
	cmd := exec.Command(exe, append(args, root)...)
	cmd.Dir = dir
	o, err := cmd.CombinedOutput()
	code := cmd.ProcessState.ExitCode()
	if err != nil && code < 0 {
		code = 255
	}
	files := 0
	at := "y"
	if root == "main.proto" {
		at = "main"
	}
	filepath.Walk(filepath.Join(out, "x", at), func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			files++
		}
		return nil
	})
	s := string(o)
	crash := strings.Contains(s, "goroutine ") && (strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:"))
	ev["runs"] = []M{{"code": code, "files": files, "crash": crash, "blocked": blocked, "told": strings.TrimSpace(s) != ""}}
	return
}

func main() {
	prof := flag.String("profile", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 100, "sessions")
	from := flag.Int("from", 0, "first session")
	step := flag.Int("step", 1, "run every step-th session")
	out := flag.String("out", "", "trace file, appended to")
	cur := flag.String("cur", "", "file that names the session being run")
	plan := flag.String("plan", "", "token sequences from GrammarMC, instead of random texts")
	show := flag.Bool("show", false, "print the files")
	flag.Parse()
	_ = prof
	f, err := os.OpenFile(*out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	beat := make(chan int, 1)
	go func() { // a session that does not end is a hang
		last := time.Now()
		for {
			select {
			case <-beat:
				last = time.Now()
			case <-time.After(time.Second):
				if time.Since(last) > 90*time.Second {
					fmt.Fprintln(os.Stderr, "fatal error: HANG in session")
					os.Exit(97)
				}
			}
		}
	}()
	tmp, err := os.MkdirTemp(filepath.Dir(*cur), "syntax-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	var plans []string
	if *plan != "" {
		b, err := os.ReadFile(*plan)
		if err != nil {
			panic(err)
		}
		plans = strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		*n = len(plans)
	}
	for k := *from; k < *n; k += *step {
		if *cur != "" && *cur != "/dev/null" {
			w.Flush()
			os.WriteFile(*cur, []byte(fmt.Sprint(k)), 0o644)
		}
		x := &sess{g: abs.NewGen(*seed*1000003 + int64(k)*7919 + 11)}
		var t string
		if plans != nil {
			t = x.planned(plans[k])
		} else {
			t = x.text()
		}
		if !utf8.ValidString(t) {
			t = strings.ToValidUTF8(t, "?")
		}
		if *show {
			fmt.Fprintf(os.Stderr, "==== %d %s\n%s\n", k, x.how, t)
		}
		d := filepath.Join(tmp, fmt.Sprint("s", k))
		ev := x.run(d, t)
		os.RemoveAll(d)
		j, err := json.Marshal(M{"id": k, "S": []int{}, "ev": []M{ev}})
		if err != nil {
			panic(err)
		}
		w.Write(append(j, '\n'))
		select {
		case beat <- 1:
		default:
		}
	}
	w.Flush()
	f.Close()
	os.WriteFile(*cur, []byte("done"), 0o644)
}
