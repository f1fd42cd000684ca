package main

import (
	"fmt"
	"reflect"
	"runtime"
	"sync"

	"verifharness/abs"
	"verifharness/types"

	"github.com/cloudwego/prutal"
)

var profiles = map[string]func(*sess){
	"P01": roundTrip,
	"P02": encode,
	"P03": size,
	"P04": decode,
	"P05": malformed,
	"P06": unknown,
	"P07": presence,
	"P08": maps,
	"P09": merge,
	"P10": isolation,
	"P11": concurrent,
	"G06": wireFormat,
	"G08": accessors,
}

var staticTypes = []reflect.Type{
	reflect.TypeOf(types.Leaf{}), reflect.TypeOf(types.Node{}), reflect.TypeOf(types.Ping{}), reflect.TypeOf(types.Pong{}),
	reflect.TypeOf(types.Enums{}), reflect.TypeOf(types.All{}), reflect.TypeOf(types.OneofOld{}), reflect.TypeOf(types.OneofNew{}),
	reflect.TypeOf(types.OneofTree{}),
}

// randomSchema makes a schema, or takes a static type.
func (x *sess) randomSchema(o abs.SchemaOpt) {
	g := x.g
	if g.P(0.25) && o.Cards == nil {
		x.s[1] = abs.SchemaOf(staticTypes[g.Intn(len(staticTypes))])
		return
	}
	if o.Types == 0 {
		o.Types = 1 + g.Intn(3)
	}
	if o.Fields == 0 {
		o.Fields = 3 + g.Intn(6)
		if g.P(0.1) {
			o.Fields = 20
		}
	}
	if o.Unk == 0 {
		o.Unk = 0.4
	}
	if o.Cards == nil {
		o.Static = staticTypes
	}
	x.s[1] = g.Schema(o)
}

func roundTrip(x *sess) {
	x.randomSchema(abs.SchemaOpt{})
	for i := 0; i < 4; i++ {
		x.New(1, 1, 1, x.g.Msg(x.s[1], 1, x.g.MaxDepth))
		x.Rt(1)
	}
}

func encode(x *sess) {
	x.randomSchema(abs.SchemaOpt{})
	for i := 0; i < 4; i++ {
		x.New(1, 1, 1, x.g.Msg(x.s[1], 1, x.g.MaxDepth))
		x.Enc(1)
		x.Enc(1)
	}
}

func size(x *sess) {
	x.randomSchema(abs.SchemaOpt{})
	for i := 0; i < 6; i++ {
		x.New(1, 1, 1, x.g.Msg(x.s[1], 1, x.g.MaxDepth))
		x.Size(1)
	}
}

func decode(x *sess) {
	x.randomSchema(abs.SchemaOpt{})
	for i := 0; i < 6; i++ {
		x.Fresh(1, 1, 1)
		x.Dec(1, x.g.Wire(x.s[1], 1, x.g.Intn(12), 3))
	}
}

func malformed(x *sess) {
	x.randomSchema(abs.SchemaOpt{})
	g := x.g
	for i := 0; i < 12; i++ {
		x.Fresh(1, 1, 1)
		b := g.Wire(x.s[1], 1, 1+g.Intn(5), 3)
		switch g.Intn(7) {
		case 0:
			b = g.Bytes(g.Intn(12))
		case 2:
			b = g.WrongWire(x.s[1], 1)
		case 1: // damage inside a nested payload
			id := 1 + g.Intn(20)
			if fs := x.s[1].T[0].F; len(fs) > 0 {
				id = fs[g.Intn(len(fs))].ID
			}
			b = append(abs.AppendVarint(abs.AppendTag(b, id, 2), uint64(len(b))), g.Mutate(b)...)
		default:
			b = g.Mutate(b)
		}
		x.Dec(1, b)
	}
}

func unknown(x *sess) {
	g := x.g
	s1, s2 := g.SchemaPair()
	x.s[1], x.s[2] = s1, s2
	for i := 0; i < 3; i++ {
		x.New(1, 2, 1, g.Msg(s2, 1, 3)) // the new peer
		b, ok := x.Enc(1)
		if !ok {
			continue
		}
		x.Fresh(2, 1, 1) // the old peer reads it, and passes it on
		if !x.Dec(2, b) {
			continue
		}
		b, ok = x.Enc(2)
		if !ok {
			continue
		}
		x.Fresh(3, 2, 1)
		if !x.Dec(3, b) {
			continue
		}
		if s1.AllUnk() {
			x.emit("same", "slot", 1, "slot2", 3, "sv", 2, "t", 1)
		}
	}
	// unknown records in between known ones, into a reused target
	x.Fresh(2, 1, 1)
	for i := 0; i < 3; i++ {
		if x.Dec(2, g.Wire(s1, 1, 1+g.Intn(8), 2)) {
			x.Enc(2)
		}
	}
}

func presence(x *sess) {
	g := x.g
	if g.P(0.5) {
		x.s[1] = abs.SchemaOf(staticTypes[g.Intn(len(staticTypes))])
	} else {
		x.randomSchema(abs.SchemaOpt{Cards: []string{"imp", "exp", "exp", "rep", "emb"}})
	}
	for i := 0; i < 4; i++ {
		x.New(1, 1, 1, g.Zeroish(x.s[1], 1, 3))
		x.Enc(1)
		x.Rt(1)
		x.Fresh(2, 1, 1)
		x.Dec(2, g.ZeroWire(x.s[1], 1, 1+g.Intn(5), 2))
	}
}

func maps(x *sess) {
	g := x.g
	keys := []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"}
	vals := append(append([]string{}, abs.Kinds...), "msg", "msg*", "enum", "empty*")
	n := len(keys) * len(vals)
	c := x.id % n
	kk, vk := keys[c%len(keys)], vals[c/len(keys)]
	mk := func(id int) reflect.StructField {
		name := fmt.Sprintf("M%d", id)
		switch vk {
		case "msg":
			return abs.MakeField(name, id, "map", "msg", kk, reflect.TypeOf(types.Leaf{}), true)
		case "msg*":
			return abs.MakeField(name, id, "map", "msg", kk, reflect.TypeOf(types.Leaf{}), false)
		case "empty*":
			return abs.MakeField(name, id, "map", "msg", kk, reflect.TypeOf(struct{}{}), g.P(0.3))
		case "enum":
			f := abs.MakeField(name, id, "map", "int32", kk, nil, false)
			f.Type = reflect.MapOf(f.Type.Key(), reflect.TypeOf(types.Color(0)))
			return f
		}
		return abs.MakeField(name, id, "map", vk, kk, nil, false)
	}
	fs := []reflect.StructField{mk(1 + g.Intn(20)), mk(100 + g.Intn(3000))}
	x.s[1] = abs.SchemaOf(reflect.StructOf(fs))
	s := x.s[1]
	for i := 0; i < 2; i++ {
		g.MaxList = 3
		x.New(1, 1, 1, g.Msg(s, 1, 2))
		x.Enc(1)
		x.Size(1)
		x.Rt(1)
		x.Fresh(2, 1, 1)
		x.Dec(2, g.Wire(s, 1, 1+g.Intn(6), 2))
		x.Dec(2, g.Wire(s, 1, 1+g.Intn(6), 2)) // add to the same maps
	}
}

func merge(x *sess) {
	x.randomSchema(abs.SchemaOpt{})
	g := x.g
	s := x.s[1]
	x.New(1, 1, 1, g.Msg(s, 1, 2))
	for i := 0; i < 4; i++ {
		x.Dec(1, g.Wire(s, 1, g.Intn(7), 2))
		if g.P(0.4) { // a failed decode elsewhere must not leave traces
			x.Fresh(2, 1, 1)
			x.Dec(2, g.Mutate(g.Wire(s, 1, 1+g.Intn(6), 2)))
		}
		if g.P(0.25) { // reuse a target after cutting its slices to zero length
			x.slot[1].v.Elem().Set(abs.CutSlices(x.slot[1].v.Elem()))
			x.mset(1)
		}
	}
}

// mset records that the user changed a slot.
func (x *sess) mset(i int) {
	m := x.proj(i)
	x.last[i] = abs.Str(m)
	x.emit("mset", "slot", i, "sv", x.slot[i].sv, "t", x.slot[i].t, "m", m)
}

// churn collects garbage, and fills what became free with other data.
func churn(g *abs.Gen) {
	for i := 0; i < 3; i++ { // pools drop what they hold
		runtime.GC()
	}
	keep := make([][]byte, 0, 8192)
	for sz := 8; sz <= 40960; sz += max(8, sz/6) {
		for n := min(1024, max(8, 262144/sz)); n > 0; n-- {
			b := make([]byte, sz)
			for k := copy(b, "\xee\xee\xee\xee\xee\xee\xee\xee"); k < sz; k *= 2 {
				copy(b[k:], b[:k])
			}
			keep = append(keep, b)
		}
	}
	runtime.KeepAlive(keep)
}

func isolation(x *sess) {
	g := x.g
	if x.id%3 == 0 {
		x.randomSchema(abs.SchemaOpt{})
	} else { // mostly things that own memory
		o := abs.SchemaOpt{Types: 1 + g.Intn(2), Fields: 1 + g.Intn(4), Unk: 0.3,
			Cards: []string{"imp", "exp", "rep", "rep", "map", "one"}, Kinds: []string{"string", "bytes", "bytes", "fixed64", "bool"}}
		if x.id%3 == 1 {
			o.Types, o.Fields, o.Cards, o.Kinds = 1, 2, []string{"rep", "map"}, []string{"bytes", "string"}
		}
		if x.id%6 == 2 { // and things held by pointer
			o.Cards = []string{"exp", "one", "one"}
		}
		x.s[1] = g.Schema(o)
	}
	s := x.s[1]
	g.MaxList, g.MaxStr, g.Budget = 6, 40, 5000
	if g.P(0.4) {
		g.MaxStr = 200
	}
	if g.P(0.4) {
		g.MaxList = 20
	}
	g.BigProb = 0.06
	n := 3
	for i := 1; i <= n; i++ {
		x.Fresh(i, 1, 1)
		var b0 []byte
		k := 1 + g.Intn(3)
		if x.id%6 == 2 {
			k += 3
		}
		for ; k > 0; k-- {
			var b []byte
			if b0 != nil && g.P(0.4) {
				b = b0 // sets the same fields again
			} else if g.P(0.5) {
				b = g.Wire(s, 1, 2+g.Intn(8), 3)
			} else {
				x.New(5, 1, 1, g.Msg(s, 1, 3))
				b, _ = x.Enc(5)
			}
			b0 = b
			in := append(make([]byte, 0, len(b)+16), b...)
			held := abs.Hold(x.slot[i].v.Elem()) // what the caller took out so far
			x.Dec(i, in)
			x.emit("held", "bad", held.Bad())
			in = in[:cap(in)] // the caller may reuse its buffer
			for j := range in {
				in[j] = 0x5a
			}
		}
	}
	var outs, keep [][]byte
	for i := 1; i <= n; i++ {
		if b, ok := x.Enc(i); ok {
			outs = append(outs, b)
			keep = append(keep, append([]byte{}, b...))
		}
	}
	churn(g)
	for i := 1; i <= n; i++ {
		x.Read(i)
	}
	// write over everything slot i owns: no other slot may notice, nor anything else in the same one
	own := abs.NewOwner(g)
	for i := 1; i <= n; i++ {
		own.Write(x.slot[i].v.Elem())
		for j := i + 1; j <= n; j++ {
			x.Read(j)
		}
		x.mset(i)
	}
	x.emit("own", "bad", own.Bad())
	churn(g)
	for i := 1; i <= n; i++ {
		x.Read(i)
	}
	for i := range outs {
		if string(outs[i]) != string(keep[i]) {
			x.emit("crash", "what", "marshalled bytes changed later", "slot", 1, "sv", 1, "t", 1)
		}
	}
}

// concurrent runs goroutines on types nobody used before.  Each records its own
// session: what it sees must be what it would see alone.
func concurrent(x *sess) {
	g := x.g
	o := abs.SchemaOpt{Types: 4, Fields: 6, Unk: 0.5, Prefix: fmt.Sprintf("S%dx%d", x.id, g.Intn(1<<30))}
	if g.P(0.5) {
		o.Static = staticTypes
	}
	_, ts := g.Structs(o)
	// types that mention the good ones and something unsupported
	var bad []reflect.Type
	for i, t := range ts {
		fs := []reflect.StructField{
			{Name: fmt.Sprintf("%sB%d", o.Prefix, i), Type: reflect.PtrTo(t), Tag: `protobuf:"bytes,1,opt,name=a"`},
			{Name: "C", Type: reflect.TypeOf(make(chan int)), Tag: `protobuf:"varint,2,opt,name=b"`},
		}
		if i%2 == 0 {
			fs[0], fs[1] = fs[1], fs[0]
		}
		bad = append(bad, reflect.StructOf(fs))
	}
	n := 6 + g.Intn(6)
	schemas := make([]*abs.Schema, len(ts))
	for i, t := range ts {
		schemas[i] = abs.SchemaOf(t)
	}
	// one message everybody reads
	shared := schemas[len(ts)-1]
	sm := g.Msg(shared, 1, 3)
	sv := (&abs.Builder{S: shared, Rnd: g.Rand}).New(1, sm)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		y := &sess{id: x.id*100 + i, prof: x.prof, g: abs.NewGen(g.Int63())}
		y.g.MaxList, y.g.BigProb = 3, 0.005
		y.s[1], y.s[2] = schemas[y.g.Intn(len(schemas))], shared
		x.subs = append(x.subs, y)
		wg.Add(1)
		go func() {
			defer wg.Done()
			h := y.g
			y.slot[5] = slot{2, 1, sv}
			y.last[5] = abs.Str(sm)
			y.emit("new", "slot", 5, "sv", 2, "t", 1, "m", sm)
			<-start
			for k := 0; k < 3; k++ {
				if h.P(0.3) {
					t := bad[h.Intn(len(bad))]
					y.guard("unsupported type", func() {
						if _, err := prutal.Marshal(reflect.New(t).Interface()); err == nil {
							panic("unsupported type accepted")
						}
					})
				}
				switch h.Intn(3) {
				case 0:
					y.New(1, 1, 1, h.Msg(y.s[1], 1, 3))
					y.Enc(1)
					y.Rt(1)
				case 1:
					y.Fresh(2, 1, 1)
					y.Dec(2, h.Wire(y.s[1], 1, h.Intn(6), 2))
					y.Dec(2, h.Wire(y.s[1], 1, h.Intn(6), 2))
				case 2:
					y.Size(5)
					y.Enc(5)
				}
				if h.P(0.2) {
					runtime.Gosched()
				}
			}
			y.Read(5)
			if y.slot[2].v.IsValid() {
				y.Read(2)
			}
		}()
	}
	close(start)
	wg.Wait()
}
