package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"

	"verifharness/abs"
	"verifharness/types"
)

// Systematic sessions: every kind with every cardinality, under field numbers of
// every tag length, holding every value at which an encoding changes shape.

type sweepCase struct {
	card, kind, key string
	nonptr          bool
	oneof           reflect.Type // a static type: sweep its oneof members
}

func sweepCases() (out []sweepCase) {
	kinds := append(append([]string{}, abs.Kinds...), "msg", "enum")
	for _, c := range []string{"imp", "exp", "rep", "pak", "emb"} {
		for _, k := range kinds {
			switch {
			case c == "pak" && k != "enum" && !abs.Packable(k), c == "emb" && k != "msg", c == "imp" && k == "msg", c == "exp" && k == "bytes":
				continue
			}
			out = append(out, sweepCase{card: c, kind: k})
			if c == "rep" && k == "msg" {
				out = append(out, sweepCase{card: c, kind: k, nonptr: true})
			}
		}
	}
	for i, key := range []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"} {
		out = append(out, sweepCase{card: "map", kind: kinds[(3*i)%len(kinds)], key: key}, sweepCase{card: "map", kind: kinds[(3*i+1)%len(kinds)], key: key},
			sweepCase{card: "map", kind: kinds[(3*i+2)%len(kinds)], key: key, nonptr: true})
	}
	for _, k := range kinds {
		out = append(out, sweepCase{card: "map", kind: k, key: "string"}, sweepCase{card: "map", kind: k, key: "int32"})
	}
	for _, t := range []reflect.Type{reflect.TypeOf(types.OneofOld{}), reflect.TypeOf(types.OneofNew{}), reflect.TypeOf(types.OneofTree{})} {
		out = append(out, sweepCase{card: "one", oneof: t})
	}
	return
}

var sweepIDs = [][2]int{{1, 15}, {2, 16}, {3, 2047}, {15, 2048}, {16, 262143}, {14, 262144}, {9, 33554431}, {5, 33554432}, {1, 536870911}, {31, 127}, {128, 1023}, {1000, 1024}}

func le(u uint64, n int) abs.Bytes {
	b := make(abs.Bytes, n)
	for i := range b {
		b[i] = byte(u >> (8 * i))
	}
	return b
}

// boundary lists the values of a kind at which its encoding changes shape.
func (x *sess) boundary(s *abs.Schema, kind string, m int) (out []abs.Val) {
	switch w := abs.Width(kind); {
	case kind == "msg":
		out = append(out, s.Empty(m))
		for i := 0; i < 8; i++ {
			out = append(out, x.g.Msg(s, m, 2))
		}
		return
	case w == 1:
		return []abs.Val{abs.Bytes{0}, abs.Bytes{1}}
	case kind == "float":
		for _, u := range []uint32{0, 1 << 31, math.Float32bits(1), math.Float32bits(-1), 0x7f800000, 0xff800000, 0x7fc00000, 0x7fc00001, 0xffc12345, 1, 0x007fffff, 0x7f7fffff} {
			out = append(out, le(uint64(u), 4))
		}
		return
	case kind == "double":
		for _, u := range []uint64{0, 1 << 63, math.Float64bits(1), math.Float64bits(-1), 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff8000000000001, 0xfff8123456789abc, 1, 0x000fffffffffffff, 0x7fefffffffffffff} {
			out = append(out, le(u, 8))
		}
		return
	case w > 0:
		seen := map[string]bool{}
		add := func(u uint64) {
			b := le(u, w)
			if !seen[string(b)] {
				seen[string(b)] = true
				out = append(out, b)
			}
		}
		for i := 0; i < 8*w; i++ {
			for d := uint64(0); d < 3; d++ {
				if i%7 == 0 || i%8 == 7 || i%8 == 6 || i == 20 || i == 32 || i == 31 {
					add(1<<uint(i) + d - 1)
					add(-(1<<uint(i) + d - 1))
				}
			}
		}
		return
	}
	for _, n := range []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 127, 128, 129, 255, 256, 1023, 1024, 1025, 4096, 4097, 16383, 16384, 16385} {
		out = append(out, x.g.Bytes(n))
	}
	return
}

// sweep runs systematic session k.
func (x *sess) sweep(k int, cases []sweepCase, use func(t int, m *abs.Msg)) {
	c := cases[k%len(cases)]
	g := x.g
	g.MaxList, g.MaxStr, g.BigProb, g.Budget = 2, 6, 0.01, 800
	if c.oneof != nil {
		s := abs.SchemaOf(c.oneof)
		x.s[1] = s
		for i, f := range s.T[0].F {
			if f.C != "one" {
				continue
			}
			bs := x.boundary(s, f.K, f.M)
			for n := 0; n < 7; n++ {
				v := bs[0]
				if n > 0 {
					v = bs[g.Intn(len(bs))]
				}
				m := s.Empty(1)
				m.F[i] = abs.List{v}
				use(1, m)
			}
		}
		return
	}
	ids := sweepIDs[(k+k/len(cases))%len(sweepIDs)]
	var fs []reflect.StructField
	for i, id := range ids {
		kind, mt := c.kind, reflect.TypeOf(types.Leaf{})
		if kind == "enum" {
			kind = "int32"
		}
		f := abs.MakeField(fmt.Sprintf("F%d", i), id, c.card, kind, c.key, mt, c.nonptr)
		if c.kind == "enum" {
			f.Type = enumOf(f.Type, c.card == "map")
		}
		fs = append(fs, f)
	}
	if k%2 == 0 {
		fs = append(fs, reflect.StructField{Name: "XXX_unrecognized", Type: reflect.TypeOf([]byte(nil))})
	}
	s := abs.SchemaOf(reflect.StructOf(fs))
	x.s[1] = s
	f := s.T[0].F[0]
	bs := x.boundary(s, f.K, f.M)
	at := func(i int) abs.Val { return bs[i%len(bs)] }
	put := func(a, b abs.Val) {
		m := s.Empty(1)
		m.F[0], m.F[1] = a, b
		use(1, m)
	}
	sizes := []int{0, 1, 2, 3, 6, 7, 8, 9, 10, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65}
	small := bs
	if len(small) > 6 && abs.Width(f.K) == 0 && f.K != "msg" {
		small = bs[:9]
	}
	switch c.card {
	case "imp":
		for i := range bs {
			put(at(i), at(i+1+k))
		}
	case "emb":
		for i := range bs {
			put(abs.List{at(i)}, abs.List{at(i + 1 + k)})
		}
	case "exp":
		for i := range bs {
			put(abs.List{at(i)}, abs.List{at(i + 1 + k)})
		}
		put(abs.List{}, abs.List{at(0)})
		put(abs.List{at(1)}, abs.List{})
	case "rep", "pak":
		l := func(o, n int) (l abs.List) {
			l = abs.List{}
			for i := 0; i < n; i++ {
				l = append(l, small[(o+i)%len(small)])
			}
			return
		}
		for i := range bs { // every value, alone and with its neighbours
			put(abs.List{at(i)}, abs.List{at(i), at(i + 1), at(i + 2)})
		}
		for i, n := range sizes {
			if f.K == "msg" && n > 20 {
				break
			}
			put(l(i, n), l(i*3, sizes[(i+k)%8]))
		}
		if abs.Width(f.K) > 0 { // payloads whose length needs one byte more
			for _, n := range []int{126, 127, 128, 129} {
				l := abs.List{}
				for i := 0; i < n/max(1, fixedWidth(f.K)); i++ {
					l = append(l, small[i%2])
				}
				put(l, abs.List{at(1)})
			}
		}
	case "map":
		ks := x.boundary(s, f.KK, 0)
		e := func(i, j int) abs.Val { return abs.List{ks[i%len(ks)], bs[j%len(bs)]} }
		for i := 0; i < max(len(ks), len(bs)); i++ {
			put(abs.List{e(i, i)}, abs.List{})
		}
		for _, n := range []int{2, 3, 7, 8, 9, 17} {
			l := abs.List{}
			for i := 0; i < n && i < len(ks); i++ {
				l = append(l, abs.List{ks[i], small[(i+k)%len(small)]})
			}
			sort.Slice(l, func(i, j int) bool {
				return string(l[i].(abs.List)[0].(abs.Bytes)) < string(l[j].(abs.List)[0].(abs.Bytes))
			})
			put(l, abs.List{e(k, k)})
		}
	}
}

func fixedWidth(k string) int {
	if abs.WireType(k) == 0 {
		return 1
	}
	return abs.Width(k)
}

func enumOf(t reflect.Type, val bool) reflect.Type {
	switch t.Kind() {
	case reflect.Ptr:
		return reflect.PtrTo(enumOf(t.Elem(), false))
	case reflect.Slice:
		return reflect.SliceOf(enumOf(t.Elem(), false))
	case reflect.Map:
		return reflect.MapOf(t.Key(), enumOf(t.Elem(), false))
	}
	return reflect.TypeOf(types.Color(0))
}

var theCases = sweepCases()

// What a property's sweep does with each value.
var sweeps = map[string]func(x *sess) func(t int, m *abs.Msg){
	"P01": func(x *sess) func(int, *abs.Msg) {
		return func(t int, m *abs.Msg) { x.New(1, 1, t, m); x.Rt(1) }
	},
	"P02": func(x *sess) func(int, *abs.Msg) {
		return func(t int, m *abs.Msg) { x.New(1, 1, t, m); x.Enc(1) }
	},
	"P03": func(x *sess) func(int, *abs.Msg) {
		return func(t int, m *abs.Msg) { x.New(1, 1, t, m); x.Size(1) }
	},
	"P04": func(x *sess) func(int, *abs.Msg) {
		return func(t int, m *abs.Msg) {
			x.Fresh(1, 1, t)
			x.Dec(1, x.g.EncodeLoose(x.s[1], t, m))
		}
	},
	"P07": func(x *sess) func(int, *abs.Msg) {
		return func(t int, m *abs.Msg) { x.New(1, 1, t, m); x.Enc(1); x.Rt(1) }
	},
}
