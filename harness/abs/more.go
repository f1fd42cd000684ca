package abs

import (
	"fmt"
	"reflect"
	"unsafe"
)

// SchemaPair makes an old and a new version of the same messages: the new one
// has all the fields of the old one and more.
func (g *Gen) SchemaPair() (s1, s2 *Schema) {
	var old, new []reflect.Type
	keep := g.P(0.8)
	for i, n := 0, 1+g.Intn(3); i < n; i++ {
		ids := g.ids(3+g.Intn(6), false)
		var f1, f2 []reflect.StructField
		for k, id := range ids {
			name := fmt.Sprintf("F%d", k)
			var mi = -1
			var m1, m2 []reflect.Type
			if len(old) > 0 {
				mi = g.Intn(len(old))
				m1, m2 = old[mi:mi+1], new[mi:mi+1]
			}
			card := pick(g, AllCards)
			st := g.Int63()
			h := NewGen(st)
			f2 = append(f2, h.StructField(name, id, card, Kinds, m2))
			if g.P(0.55) {
				h = NewGen(st)
				f1 = append(f1, h.StructField(name, id, card, Kinds, m1))
			}
		}
		g.Shuffle(len(f1), func(i, j int) { f1[i], f1[j] = f1[j], f1[i] })
		g.Shuffle(len(f2), func(i, j int) { f2[i], f2[j] = f2[j], f2[i] })
		if keep || g.P(0.5) {
			f1 = append(f1, g.unkField())
		}
		old, new = append(old, reflect.StructOf(f1)), append(new, reflect.StructOf(f2))
	}
	k := len(old) - 1
	return SchemaOf(old[k]), SchemaOf(new[k])
}

// AllUnk: every message type keeps unknown fields.
func (s *Schema) AllUnk() bool {
	for _, t := range s.T {
		if !t.Unk {
			return false
		}
	}
	return true
}

// Zeroish is a message in which fields that can tell zero from unset hold zero often.
func (g *Gen) Zeroish(s *Schema, t, depth int) *Msg {
	m := g.Msg(s, t, depth)
	g.zeroish(s, t, m)
	return m
}

func (g *Gen) zeroish(s *Schema, t int, m *Msg) {
	for i, f := range s.T[t-1].F {
		switch f.C {
		case "imp":
			if g.P(0.5) {
				m.F[i] = s.Zero(f.K, f.M)
			}
		case "exp", "one":
			l := m.F[i].(List)
			if len(l) == 0 {
				continue
			}
			if g.P(0.6) {
				m.F[i] = List{s.Zero(f.K, f.M)}
			} else if f.K == "msg" {
				g.zeroish(s, f.M, l[0].(*Msg))
			}
		case "rep":
			for j := range m.F[i].(List) {
				if g.P(0.4) {
					m.F[i].(List)[j] = s.Zero(f.K, f.M)
				}
			}
		}
	}
}

// ZeroWire makes records that mostly carry zero values.
func (g *Gen) ZeroWire(s *Schema, t, n, depth int) []byte {
	var b []byte
	fs := s.T[t-1].F
	for ; n > 0 && len(fs) > 0; n-- {
		f := pick(g, fs)
		if f.C == "map" || g.P(0.3) {
			b = g.wireField(b, s, f, depth)
			continue
		}
		b = AppendTag(b, f.ID, WireType(f.K))
		if f.K == "msg" || WireType(f.K) == 2 {
			b = append(b, 0)
		} else {
			b = AppendValue(b, f.K, make(Bytes, Width(f.K)))
		}
	}
	return b
}

// CutSlices returns v with its top-level slices cut to length zero, capacity kept.
func CutSlices(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	for i := 0; i < c.NumField(); i++ {
		f := field(c, i)
		if f.Kind() == reflect.Slice && c.Type().Field(i).Tag.Get("protobuf") != "" {
			f.SetLen(0)
		}
	}
	return c
}

// Owner writes over everything values own, and can tell later whether it is
// still what was written.
type Owner struct {
	g      *Gen
	seen   map[unsafe.Pointer]bool
	places []place
}

type place struct{ mem, want []byte }

func NewOwner(g *Gen) *Owner { return &Owner{g: g, seen: map[unsafe.Pointer]bool{}} }

// Write overwrites every scalar, byte slice and scalar list v owns in place, and
// the spare capacity of all its slices, as append would.
func (o *Owner) Write(v reflect.Value) { o.write(v) }

// Bad counts the places that do not hold what was last written to them.
func (o *Owner) Bad() (n int) {
	for _, p := range o.places {
		if string(p.mem) != string(p.want) {
			n++
		}
	}
	return
}

func (o *Owner) fill(mem []byte) {
	o.g.Read(mem)
	o.places = append(o.places, place{mem, append([]byte{}, mem...)})
}

func (o *Owner) write(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && !o.seen[v.UnsafePointer()] {
			if v.Elem().Kind() == reflect.Struct && v.Elem().Type().Size() == 0 {
				return
			}
			o.seen[v.UnsafePointer()] = true
			o.write(v.Elem())
		}
	case reflect.Interface:
		if !v.IsNil() {
			o.write(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.CanAddr() {
				o.write(field(v, i))
			}
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			o.write(it.Key())
			o.write(it.Value())
		}
	case reflect.String:
		if s := v.String(); len(s) > 0 {
			mem := unsafe.Slice(unsafe.StringData(s), len(s))
			o.places = append(o.places, place{mem, append([]byte{}, mem...)})
		}
	case reflect.Slice:
		n, c := v.Len(), v.Cap()
		if c == 0 {
			return
		}
		full := v.Slice3(0, c, c)
		if scalarKind(v.Type().Elem().Kind()) {
			mem := unsafe.Slice((*byte)(v.UnsafePointer()), uintptr(c)*v.Type().Elem().Size())
			if v.Type().Elem().Kind() == reflect.Bool {
				for i := range mem {
					mem[i] = byte(o.g.Intn(2))
				}
				o.places = append(o.places, place{mem, append([]byte{}, mem...)})
				return
			}
			o.fill(mem)
			return
		}
		for i := 0; i < n; i++ {
			o.write(full.Index(i))
		}
		for i := n; i < c; i++ { // what append would overwrite
			full.Index(i).SetZero()
			size := v.Type().Elem().Size()
			mem := unsafe.Slice((*byte)(full.Index(i).Addr().UnsafePointer()), size)
			o.places = append(o.places, place{mem, make([]byte, size)})
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
			mem := unsafe.Slice((*byte)(v.Addr().UnsafePointer()), 1)
			o.places = append(o.places, place{mem, append([]byte{}, mem...)})
		}
	default:
		if v.CanSet() && scalarKind(v.Kind()) {
			o.fill(unsafe.Slice((*byte)(v.Addr().UnsafePointer()), v.Type().Size()))
		}
	}
}

func scalarKind(k reflect.Kind) bool {
	switch k {
	case reflect.Int32, reflect.Int64, reflect.Uint8, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64, reflect.Bool:
		return true
	}
	return false
}

// Held remembers values a caller took out of a message: strings, byte slices,
// lists, list elements, map values, pointers to scalars, scalar oneof wrappers.
// None of them may change when the message is decoded into again; singular
// messages may, they merge.
type Held struct {
	places []place
	keep   []any
}

func Hold(v reflect.Value) *Held {
	h := &Held{}
	h.hold(v, false)
	return h
}

// Bad counts the places that changed.
func (h *Held) Bad() (n int) {
	for _, p := range h.places {
		if string(p.mem) != string(p.want) {
			n++
		}
	}
	return
}

func (h *Held) mem(p unsafe.Pointer, n uintptr) {
	if n > 0 {
		mem := unsafe.Slice((*byte)(p), n)
		h.places = append(h.places, place{mem, append([]byte{}, mem...)})
	}
}

// hold records what v refers to; with frozen set, everything reachable from v
// stays as it is, not only what a caller would copy out.
func (h *Held) hold(v reflect.Value, frozen bool) {
	switch v.Kind() {
	case reflect.String:
		s := v.String()
		h.mem(unsafe.Pointer(unsafe.StringData(s)), uintptr(len(s)))
	case reflect.Slice:
		if n := v.Len(); n > 0 {
			h.mem(v.UnsafePointer(), uintptr(n)*v.Type().Elem().Size())
			h.keep = append(h.keep, v.Interface())
			if !scalarKind(v.Type().Elem().Kind()) {
				for i := 0; i < n; i++ {
					h.hold(v.Index(i), true)
				}
			}
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			h.hold(it.Key(), true)
			h.hold(it.Value(), true)
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		h.keep = append(h.keep, v.Interface())
		e := v.Elem()
		if frozen || e.Kind() != reflect.Struct {
			h.mem(v.UnsafePointer(), e.Type().Size())
		}
		h.hold(e, frozen)
	case reflect.Interface:
		if v.IsNil() || v.Elem().Kind() != reflect.Ptr || v.Elem().IsNil() {
			return
		}
		w := v.Elem() // *Wrapper
		h.keep = append(h.keep, w.Interface())
		f := field(w.Elem(), 0)
		msg := f.Kind() == reflect.Ptr && f.Type().Elem().Kind() == reflect.Struct || f.Kind() == reflect.Struct
		if frozen || !msg {
			h.mem(w.UnsafePointer(), w.Elem().Type().Size())
		}
		h.hold(f, frozen || !msg)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if n := v.Type().Field(i).Name; !frozen && (n == "unknownFields" || n == "XXX_unrecognized") {
				continue // Unmarshal starts these afresh, in the same memory
			}
			if v.CanAddr() {
				h.hold(field(v, i), frozen)
			}
		}
	}
}
