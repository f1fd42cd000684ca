package main

import (
	"errors"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"verifharness/pgen"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
)

// code is the Go source generated for a set of files.
type code struct {
	x    *sess
	ps   []*prutalgen.Proto
	src  map[*prutalgen.Proto]string
	file map[*prutalgen.Proto]*ast.File
	err  map[*prutalgen.Proto]string
	fset *token.FileSet
	pkg  map[string]string // import path -> package name
	at   map[string]int
}

func newCode(x *sess, ps []*prutalgen.Proto, at map[string]int) *code {
	c := &code{x: x, ps: ps, at: at, src: map[*prutalgen.Proto]string{}, file: map[*prutalgen.Proto]*ast.File{}, err: map[*prutalgen.Proto]string{},
		fset: token.NewFileSet(), pkg: map[string]string{"strconv": "strconv", "github.com/cloudwego/prutal": "prutal"}}
	g := prutalgen.NewGoCodeGen()
	g.Getter = x.set.Getter
	if x.set.Kitex {
		g.Marshaler = prutalgen.MarshalerKitexProtobuf
	}
	for _, p := range ps {
		msg, ok := x.guard("generate", func() {
			w := prutalgen.NewCodeWriter("// generated", p.GoPackage)
			g.ProtoGen(p, w)
			c.src[p] = string(w.Bytes())
		})
		if !ok {
			return nil
		}
		if msg != "" {
			c.err[p] = msg
			continue
		}
		f, err := parser.ParseFile(c.fset, path.Join("/gen", p.GoImport, path.Base(p.ProtoFile)+".go"), c.src[p], parser.SkipObjectResolution)
		if err != nil {
			c.err[p] = err.Error()
			if f == nil || f.Name == nil {
				continue
			}
		} else {
			c.file[p] = f
		}
		c.pkg[p.GoImport] = f.Name.Name
	}
	return c
}

// compile type-checks the generated packages.
func (c *code) compile() M {
	fail := func(s string) M { return M{"op": "compile", "ok": false, "msg": clean(s, c.x.dir)} }
	for _, p := range c.ps {
		if c.err[p] != "" {
			return fail(c.err[p])
		}
	}
	byPath := map[string][]*ast.File{}
	for _, p := range c.ps {
		byPath[p.GoImport] = append(byPath[p.GoImport], c.file[p])
	}
	im := &imp{c: c, files: byPath, done: map[string]*types.Package{}}
	var paths []string
	for p := range byPath {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		if _, err := im.Import(p); err != nil {
			return fail(err.Error())
		}
	}
	return M{"op": "compile", "ok": true, "msg": ""}
}

type imp struct {
	c     *code
	files map[string][]*ast.File
	done  map[string]*types.Package
	stack []string
}

var stubs = map[string]string{
	"strconv":                     "package strconv\nfunc Itoa(int) string\nfunc FormatInt(int64, int) string\nfunc FormatUint(uint64, int) string\nfunc AppendInt([]byte, int64, int) []byte\nfunc Quote(string) string",
	"github.com/cloudwego/prutal": "package prutal\nfunc Marshal(any) ([]byte, error)\nfunc MarshalAppend([]byte, any) ([]byte, error)\nfunc Unmarshal([]byte, any) error\nfunc Size(any) (int, error)",
}

// other packages of the standard library
var std = importer.ForCompiler(token.NewFileSet(), "source", nil)

func (m *imp) Import(p string) (*types.Package, error) {
	if x, ok := m.done[p]; ok {
		if x == nil {
			return nil, errors.New("import of broken package " + p)
		}
		return x, nil
	}
	for _, s := range m.stack {
		if s == p {
			return nil, errors.New("go import cycle")
		}
	}
	m.stack = append(m.stack, p)
	defer func() { m.stack = m.stack[:len(m.stack)-1] }()
	fs := m.files[p]
	if fs == nil {
		s, ok := stubs[p]
		if !ok && !strings.Contains(strings.Split(p, "/")[0], ".") {
			if _, err := os.Stat(filepath.Join(build.Default.GOROOT, "src", p)); err == nil {
				x, err := std.Import(p)
				m.done[p] = x
				return x, err
			}
		}
		if !ok {
			return nil, fmt.Errorf("import of unknown package %q", p)
		}
		f, err := parser.ParseFile(m.c.fset, p+"/stub.go", s, 0)
		if err != nil {
			panic(err)
		}
		fs = []*ast.File{f}
	}
	cfg := &types.Config{Importer: m, IgnoreFuncBodies: m.files[p] == nil}
	x, err := cfg.Check(p, m.c.fset, fs, nil)
	if err != nil {
		m.done[p] = nil
		return nil, err
	}
	m.done[p] = x
	return x, nil
}

// bare is the code of file i without its comments.
func (c *code) bare(i int) string {
	for _, p := range c.ps {
		if c.at[p.ProtoFile] == i {
			if c.err[p] != "" {
				return "error"
			}
			return fmt.Sprint(c.event(i, p))
		}
	}
	return "none"
}

type src struct {
	c    *code
	p    *prutalgen.Proto
	imps map[string]string // name used -> path
}

var basic = map[string]bool{"int32": true, "int64": true, "uint32": true, "uint64": true, "float32": true, "float64": true, "bool": true, "string": true}

func (s *src) typ(e ast.Expr) M {
	m := M{"p": false, "l": false, "k": "", "b": "bad", "g": []pgen.Name{}, "n": pgen.Name{}}
	if mt, ok := e.(*ast.MapType); ok {
		k, _ := mt.Key.(*ast.Ident)
		if k == nil {
			return m
		}
		m["k"] = k.Name
		e = mt.Value
	} else if at, ok := e.(*ast.ArrayType); ok && !isBytes(e) && at.Len == nil {
		m["l"] = true
		e = at.Elt
	}
	if st, ok := e.(*ast.StarExpr); ok {
		m["p"] = true
		e = st.X
	}
	switch t := e.(type) {
	case *ast.ArrayType:
		if isBytes(t) {
			m["b"] = "[]byte"
		}
	case *ast.Ident:
		if basic[t.Name] {
			m["b"] = t.Name
		} else {
			m["b"], m["g"], m["n"] = "ref", segs(s.p.GoImport), pgen.N(t.Name)
		}
	case *ast.SelectorExpr:
		if id, ok := t.X.(*ast.Ident); ok {
			if ip, ok := s.imps[id.Name]; ok {
				m["b"], m["g"], m["n"] = "ref", segs(ip), pgen.N(t.Sel.Name)
			}
		}
	}
	return m
}

func isBytes(e ast.Expr) bool {
	a, ok := e.(*ast.ArrayType)
	if !ok || a.Len != nil {
		return false
	}
	id, ok := a.Elt.(*ast.Ident)
	return ok && id.Name == "byte"
}

// enc,num,lab[,packed],name=N
func tag(s string) M {
	m := M{"enc": "", "num": -1, "lab": "", "packed": false, "name": pgen.Name{}}
	for i, x := range strings.Split(s, ",") {
		switch {
		case i == 0:
			m["enc"] = x
		case i == 1:
			n, err := strconv.Atoi(x)
			if err != nil {
				n = -1
			}
			m["num"] = n
		case x == "packed":
			m["packed"] = true
		case strings.HasPrefix(x, "name="):
			m["name"] = pgen.N(x[5:])
		case m["lab"] == "":
			m["lab"] = x
		default:
			m["lab"] = m["lab"].(string) + "," + x
		}
	}
	return m
}

func (s *src) fields(l *ast.FieldList) []M {
	out := []M{}
	for _, f := range l.List {
		t := ""
		if f.Tag != nil {
			t, _ = strconv.Unquote(f.Tag.Value)
		}
		st := reflect.StructTag(t)
		if len(f.Names) != 1 {
			out = append(out, M{"n": pgen.Name{}, "c": "embedded"})
			continue
		}
		m := M{"n": pgen.N(f.Names[0].Name), "t": s.typ(f.Type)}
		js := st.Get("json")
		jn, jo, _ := strings.Cut(js, ",")
		m["json"], m["jo"] = pgen.N(jn), jo
		switch {
		case st.Get("protobuf_oneof") != "":
			m["c"], m["one"] = "one", pgen.N(st.Get("protobuf_oneof"))
		case st.Get("protobuf") != "":
			m["c"], m["tag"] = "field", tag(st.Get("protobuf"))
			if v, ok := st.Lookup("protobuf_key"); ok {
				m["ktag"] = tag(v)
				m["c"] = "map"
				m["vtag"] = tag(st.Get("protobuf_val"))
			}
		default:
			m["c"] = "plain"
		}
		out = append(out, m)
	}
	return out
}

func intLit(e ast.Expr) (int, bool) {
	neg := false
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.SUB {
		neg = true
		e = u.X
	}
	b, ok := e.(*ast.BasicLit)
	if !ok || b.Kind != token.INT {
		return 0, false
	}
	n, err := strconv.ParseInt(b.Value, 0, 64)
	if neg {
		n = -n
	}
	return int(n), err == nil
}

// event lists the declarations of a generated file.
func (c *code) event(i int, p *prutalgen.Proto) M {
	f := c.file[p]
	if f == nil {
		return M{"op": "code", "f": i, "ok": false, "msg": clean(c.err[p], c.x.dir)}
	}
	s := &src{c: c, p: p, imps: map[string]string{}}
	for _, im := range f.Imports {
		ip, _ := strconv.Unquote(im.Path.Value)
		n := c.pkg[ip]
		if im.Name != nil {
			n = im.Name.Name
		}
		s.imps[n] = ip
	}
	structs, enums, ifaces, consts, maps, funcs, other := []M{}, []M{}, []M{}, []M{}, []M{}, []M{}, 0
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			for _, sp := range d.Specs {
				switch sp := sp.(type) {
				case *ast.TypeSpec:
					n := pgen.N(sp.Name.Name)
					switch t := sp.Type.(type) {
					case *ast.StructType:
						structs = append(structs, M{"n": n, "f": s.fields(t.Fields)})
					case *ast.Ident:
						enums = append(enums, M{"n": n, "b": t.Name})
					case *ast.InterfaceType:
						m := pgen.Name{}
						if len(t.Methods.List) == 1 && len(t.Methods.List[0].Names) == 1 {
							m = pgen.N(t.Methods.List[0].Names[0].Name)
						}
						ifaces = append(ifaces, M{"n": n, "m": m})
					default:
						other++
					}
				case *ast.ValueSpec:
					if d.Tok == token.CONST && len(sp.Names) == 1 && len(sp.Values) == 1 {
						v, ok := intLit(sp.Values[0])
						t, _ := sp.Type.(*ast.Ident)
						if !ok || t == nil {
							other++
							continue
						}
						consts = append(consts, M{"n": pgen.N(sp.Names[0].Name), "t": pgen.N(t.Name), "v": v})
						continue
					}
					cl, ok := (ast.Expr)(nil), false
					if len(sp.Values) == 1 {
						cl = sp.Values[0]
					}
					lit, ok := cl.(*ast.CompositeLit)
					if !ok {
						other++
						continue
					}
					m := M{"n": pgen.N(sp.Names[0].Name), "byname": false, "kv": [][2]any{}}
					kv := [][2]any{}
					for _, el := range lit.Elts {
						x, ok := el.(*ast.KeyValueExpr)
						if !ok {
							other++
							continue
						}
						a, b := x.Key, x.Value
						if bl, ok := a.(*ast.BasicLit); ok && bl.Kind == token.STRING {
							m["byname"] = true
							a, b = b, a
						}
						v, _ := intLit(a)
						nm := ""
						if bl, ok := b.(*ast.BasicLit); ok {
							nm, _ = strconv.Unquote(bl.Value)
						}
						kv = append(kv, [2]any{v, pgen.N(nm)})
					}
					m["kv"] = kv
					maps = append(maps, m)
				}
			}
		case *ast.FuncDecl:
			m := M{"n": pgen.N(d.Name.Name), "r": pgen.Name{}, "ptr": false, "ret": s.typ(nil), "nret": 0, "nin": d.Type.Params.NumFields(), "wr": []pgen.Name{}}
			if d.Recv != nil {
				t := d.Recv.List[0].Type
				if st, ok := t.(*ast.StarExpr); ok {
					m["ptr"], t = true, st.X
				}
				if id, ok := t.(*ast.Ident); ok {
					m["r"] = pgen.N(id.Name)
				}
			}
			if r := d.Type.Results; r != nil {
				m["nret"] = r.NumFields()
				m["ret"] = s.typ(r.List[0].Type)
			}
			if d.Name.Name == "XXX_OneofWrappers" {
				wr := []pgen.Name{}
				ast.Inspect(d.Body, func(n ast.Node) bool {
					if c, ok := n.(*ast.CallExpr); ok { // (*T)(nil)
						if pe, ok := c.Fun.(*ast.ParenExpr); ok {
							if st, ok := pe.X.(*ast.StarExpr); ok {
								if id, ok := st.X.(*ast.Ident); ok {
									wr = append(wr, pgen.N(id.Name))
								}
							}
						}
					}
					return true
				})
				m["wr"] = wr
			}
			funcs = append(funcs, m)
		}
	}
	return M{"op": "code", "f": i, "ok": true, "msg": "", "pkg": pgen.N(f.Name.Name), "structs": structs, "enums": enums, "ifaces": ifaces, "consts": consts,
		"maps": maps, "funcs": funcs, "other": other}
}
