package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"

	"verifharness/abs"
)

// End-to-end sessions: message types that the real prutalgen generated from
// random .proto files (see cmd/gen -emit), under the real codec.

type e2eMsg struct {
	F, D           int // file and definition
	V              any // nil pointer to the struct
	Fields, Oneofs []string
}

type e2eEnum struct {
	F, D int
	V    func(int32) any
}

type e2eSet struct {
	ID            int
	A             string // the files as abstract syntax
	Load, Compile string // what went wrong
	Msgs          []*e2eMsg
	Enums         []*e2eEnum
}

var e2eSets []*e2eSet

type kitexMessage interface {
	Marshal(in []byte) ([]byte, error)
	Unmarshal(in []byte) error
}

// the parts of the abstract syntax that the driver needs
type e2eAST struct {
	F []struct {
		D []struct {
			K string `json:"k"`
			F []struct {
				Num int `json:"num"`
			} `json:"f"`
			V []struct {
				V int64 `json:"v"`
			} `json:"v"`
		} `json:"d"`
	} `json:"f"`
	Getter bool `json:"getter"`
	Kitex  bool `json:"kitex"`
}

// e2e sets the session up: nil when there is nothing to run.
func (x *sess) e2e() (*e2eSet, *e2eMsg, *e2eAST) {
	if len(e2eSets) == 0 {
		panic("harness: built without generated code")
	}
	st := e2eSets[x.id%len(e2eSets)]
	x.s[1] = &abs.Schema{T: []*abs.Type{}}
	x.extra = fmt.Sprintf(`,"A":%s,"T":[]`, st.A)
	x.emit("built", "load", st.Load == "", "compile", st.Load == "" && st.Compile == "", "why", st.Load+st.Compile)
	if st.Load != "" || st.Compile != "" || len(st.Msgs) == 0 {
		return nil, nil, nil
	}
	ast := &e2eAST{}
	if err := json.Unmarshal([]byte(st.A), ast); err != nil {
		panic(err)
	}
	byType := map[reflect.Type]*e2eMsg{}
	for _, m := range st.Msgs {
		t := reflect.TypeOf(m.V)
		byType[t.Elem()] = m
		if w, ok := m.V.(interface{ XXX_OneofWrappers() []interface{} }); ok {
			abs.OneofWrappers[t.Elem()] = w.XXX_OneofWrappers()
		}
	}
	m := st.Msgs[(x.id/len(e2eSets))%len(st.Msgs)]
	x.s[1] = abs.SchemaOf(reflect.TypeOf(m.V).Elem())
	var ts []string
	for _, t := range x.s[1].T {
		d := byType[t.GT]
		if d == nil {
			d = &e2eMsg{}
		}
		ts = append(ts, fmt.Sprintf("[%d,%d]", d.F, d.D))
	}
	x.extra = fmt.Sprintf(`,"A":%s,"T":[%s]`, st.A, strings.Join(ts, ","))
	x.emit("schema")
	x.methods = ast.Kitex
	return st, m, ast
}

// wireFormat is G06: what the generated types look like on the wire.
func wireFormat(x *sess) {
	st, _, ast := x.e2e()
	if st == nil {
		return
	}
	g := x.g
	for i := 0; i < 2; i++ {
		x.New(1, 1, 1, g.Msg(x.s[1], 1, 3))
		x.Enc(1)
		x.Rt(1)
		x.Size(1)
		x.Fresh(2, 1, 1)
		b := g.Wire(x.s[1], 1, g.Intn(10), 3)
		if g.P(0.3) {
			b = g.Mutate(b)
		}
		if x.Dec(2, b) && x.Dec(2, g.Wire(x.s[1], 1, g.Intn(5), 2)) {
			x.Enc(2)
		}
	}
	x.New(1, 1, 1, g.Zeroish(x.s[1], 1, 3))
	x.Enc(1)
	if ast.Kitex {
		_, ok := x.slot[1].v.Interface().(kitexMessage)
		x.emit("kitex", "ok", ok)
	}
}

// accessors is G08: getters, Reset, String of enums.
func accessors(x *sess) {
	st, m, ast := x.e2e()
	if st == nil {
		return
	}
	g := x.g
	for i := 0; i < 3; i++ {
		switch i {
		case 0:
			x.Fresh(1, 1, 1)
		case 1:
			x.New(1, 1, 1, g.Zeroish(x.s[1], 1, 3))
		default:
			x.New(1, 1, 1, g.Msg(x.s[1], 1, 3))
		}
		if ast.Getter {
			x.gets(1, m, ast, false)
		}
	}
	if ast.Getter {
		x.gets(1, m, ast, true)
	}
	x.guard("reset", func() { x.slot[1].v.MethodByName("Reset").Call(nil) })
	x.emit("reset", "slot", 1, "sv", 1, "t", 1, "post", x.proj(1))
	for _, e := range st.Enums {
		vs := map[int32]bool{0: true, 1: true, -1: true, math.MaxInt32: true, math.MinInt32: true, int32(g.Intn(1000)) - 500: true}
		for _, v := range ast.F[e.F-1].D[e.D-1].V {
			vs[int32(v.V)] = true
			vs[int32(v.V+1)] = true
			vs[int32(v.V^0x80)] = true
		}
		out := []any{}
		var has bool
		for v := range vs {
			var s fmt.Stringer
			if s, has = e.V(v).(fmt.Stringer); has {
				x.guard("enum string", func() { out = append(out, []any{v, abs.Bytes(s.String())}) })
			}
		}
		x.emit("estr", "f", e.F, "d", e.D, "has", has, "v", out)
	}
}

// gets records what the getters return, of a slot or of a nil message.
func (x *sess) gets(i int, m *e2eMsg, ast *e2eAST, null bool) {
	s := x.slot[i]
	p := s.v
	if null {
		p = reflect.Zero(s.v.Type())
	}
	vals, ones := []abs.Val{}, []int{}
	ok := x.guard("getter", func() {
		for j, n := range m.Fields {
			r := p.MethodByName("Get" + n).Call(nil)[0]
			vals = append(vals, x.s[s.sv].ProjectResult(s.t, ast.F[m.F-1].D[m.D-1].F[j].Num, r))
		}
		for _, n := range m.Oneofs {
			r := p.MethodByName("Get" + n).Call(nil)[0]
			id := 0
			if !r.IsNil() {
				id = x.s[s.sv].MemberOf(s.t, r.Elem().Type().Elem())
			}
			ones = append(ones, id)
		}
	})
	if ok {
		x.emit("gets", "slot", i, "sv", s.sv, "t", s.t, "null", null, "v", vals, "o", ones)
	}
}
