package abs

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"unsafe"
)

// Val is an abstract value: Bytes, List or *Msg.
type Val interface{ json(b []byte) []byte }

type Bytes []byte
type List []Val
type Msg struct {
	F []Val
	U Bytes
}

func (v Bytes) json(b []byte) []byte {
	b = append(b, '[')
	for i, c := range v {
		if i > 0 {
			b = append(b, ',')
		}
		b = strconv.AppendInt(b, int64(c), 10)
	}
	return append(b, ']')
}

func (v List) json(b []byte) []byte {
	b = append(b, '[')
	for i, c := range v {
		if i > 0 {
			b = append(b, ',')
		}
		b = c.json(b)
	}
	return append(b, ']')
}

func (v *Msg) json(b []byte) []byte {
	b = append(b, `{"f":`...)
	b = List(v.F).json(b)
	b = append(b, `,"u":`...)
	b = v.U.json(b)
	return append(b, '}')
}

func (v Bytes) MarshalJSON() ([]byte, error) { return v.json(nil), nil }
func (v List) MarshalJSON() ([]byte, error)  { return v.json(nil), nil }
func (v *Msg) MarshalJSON() ([]byte, error)  { return v.json(nil), nil }

func Str(v Val) string { return string(v.json(nil)) }

// Zero is the default value of a kind.
func (s *Schema) Zero(kind string, m int) Val {
	if kind == "msg" {
		return s.Empty(m)
	}
	return make(Bytes, Width(kind))
}

// Empty is the default message of type t.
func (s *Schema) Empty(t int) *Msg {
	d := s.T[t-1]
	m := &Msg{}
	for _, f := range d.F {
		switch f.C {
		case "imp":
			m.F = append(m.F, make(Bytes, Width(f.K)))
		case "emb":
			m.F = append(m.F, List{s.Empty(f.M)})
		default:
			m.F = append(m.F, List{})
		}
	}
	return m
}

// field gives access to struct field i, exported or not.
func field(v reflect.Value, i int) reflect.Value {
	f := v.Field(i)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

func putScalar(dst reflect.Value, b Bytes) {
	var u uint64
	if w := len(b); dst.Kind() != reflect.String && dst.Kind() != reflect.Slice {
		for i := w - 1; i >= 0; i-- {
			u = u<<8 | uint64(b[i])
		}
	}
	switch dst.Kind() {
	case reflect.Int32:
		dst.SetInt(int64(int32(uint32(u))))
	case reflect.Int64:
		dst.SetInt(int64(u))
	case reflect.Uint32, reflect.Uint64:
		dst.SetUint(u)
	case reflect.Float32: // keep NaN payloads
		*(*uint32)(dst.Addr().UnsafePointer()) = uint32(u)
	case reflect.Float64:
		*(*uint64)(dst.Addr().UnsafePointer()) = u
	case reflect.Bool:
		dst.SetBool(u != 0)
	case reflect.String:
		dst.SetString(string(b))
	case reflect.Slice:
		dst.SetBytes(append(make([]byte, 0, len(b)), b...))
	default:
		panic(dst.Kind())
	}
}

func getScalar(src reflect.Value) Bytes {
	le := func(u uint64, n int) Bytes {
		b := make(Bytes, n)
		for i := range b {
			b[i] = byte(u >> (8 * i))
		}
		return b
	}
	switch src.Kind() {
	case reflect.Int32:
		return le(uint64(src.Int()), 4)
	case reflect.Int64:
		return le(uint64(src.Int()), 8)
	case reflect.Uint32:
		return le(src.Uint(), 4)
	case reflect.Uint64:
		return le(src.Uint(), 8)
	case reflect.Float32, reflect.Float64, reflect.Bool:
		// through memory, to see exactly what was stored
		p := reflect.New(src.Type())
		p.Elem().Set(src)
		n := int(src.Type().Size())
		return append(Bytes{}, unsafe.Slice((*byte)(p.UnsafePointer()), n)...)
	case reflect.String:
		return append(Bytes{}, src.String()...)
	case reflect.Slice:
		return append(Bytes{}, src.Bytes()...)
	}
	panic(src.Kind())
}

// Builder builds Go values. Rnd (may be nil) picks between Go representations
// of the same abstract value: nil or empty slices, nil or zero message elements.
type Builder struct {
	S   *Schema
	Rnd *rand.Rand
	// ExtraCap leaves spare capacity behind slices, filled with garbage.
}

func (b *Builder) coin() bool { return b.Rnd != nil && b.Rnd.Intn(2) == 0 }

// New builds a fresh *T holding m.
func (b *Builder) New(t int, m *Msg) reflect.Value {
	p := reflect.New(b.S.T[t-1].GT)
	b.Fill(t, p.Elem(), m)
	return p
}

// Fill stores m into the (zero) struct v.
func (b *Builder) Fill(t int, v reflect.Value, m *Msg) {
	d := b.S.T[t-1]
	for i, f := range d.F {
		b.fillField(f, field(v, f.idx), m.F[i])
	}
	if d.unkIdx >= 0 && (len(m.U) > 0 || b.coin()) {
		x := append(make([]byte, 0, len(m.U)), m.U...)
		u := field(v, d.unkIdx)
		if d.unkPtr {
			u.Set(reflect.ValueOf(&x))
		} else {
			u.SetBytes(x)
		}
	}
}

func (b *Builder) one(f *Field, dst reflect.Value, v Val) {
	if dst.Kind() == reflect.Ptr {
		p := reflect.New(dst.Type().Elem())
		dst.Set(p)
		dst = p.Elem()
	}
	if f.K == "msg" {
		b.Fill(f.M, dst, v.(*Msg))
		return
	}
	x := v.(Bytes)
	if len(x) == 0 && dst.Kind() == reflect.Slice && b.coin() {
		return // nil []byte
	}
	putScalar(dst, x)
}

func (b *Builder) elem(f *Field, dst reflect.Value, v Val) {
	if m, ok := v.(*Msg); ok && dst.Kind() == reflect.Ptr && b.coin() && Equal(m, b.S.Empty(f.M)) {
		return // a nil element counts as an empty message
	}
	b.one(f, dst, v)
}

func (b *Builder) fillField(f *Field, dst reflect.Value, v Val) {
	switch f.C {
	case "imp":
		b.one(f, dst, v)
	case "emb":
		b.one(f, dst, v.(List)[0])
	case "exp":
		if l := v.(List); len(l) > 0 {
			b.one(f, dst, l[0])
		}
	case "one":
		if l := v.(List); len(l) > 0 {
			w := reflect.New(f.wrapper)
			b.one(f, w.Elem().Field(0), l[0])
			dst.Set(w)
		}
	case "rep", "pak":
		l := v.(List)
		if len(l) == 0 && !b.coin() {
			return
		}
		c := len(l)
		if b.coin() {
			c += b.Rnd.Intn(4)
		}
		s := reflect.MakeSlice(dst.Type(), len(l), c)
		for i, x := range l {
			b.elem(f, s.Index(i), x)
		}
		dst.Set(s)
	case "map":
		l := v.(List)
		if len(l) == 0 && !b.coin() {
			return
		}
		m := reflect.MakeMap(dst.Type())
		for _, e := range l {
			k := reflect.New(dst.Type().Key()).Elem()
			putScalar(k, e.(List)[0].(Bytes))
			x := reflect.New(dst.Type().Elem()).Elem()
			b.elem(f, x, e.(List)[1])
			m.SetMapIndex(k, x)
		}
		dst.Set(m)
	}
}

// Project reads the abstract value of struct v.
func (s *Schema) Project(t int, v reflect.Value) *Msg {
	d := s.T[t-1]
	m := &Msg{}
	for _, f := range d.F {
		m.F = append(m.F, s.projField(f, field(v, f.idx)))
	}
	if d.unkIdx >= 0 {
		u := field(v, d.unkIdx)
		if d.unkPtr {
			if !u.IsNil() {
				m.U = append(m.U, u.Elem().Bytes()...)
			}
		} else {
			m.U = append(m.U, u.Bytes()...)
		}
	}
	return m
}

func (s *Schema) projOne(f *Field, v reflect.Value) Val {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return s.Empty(f.M) // nil message element
		}
		v = v.Elem()
	}
	if f.K == "msg" {
		if !v.CanAddr() { // a struct held in a map
			c := reflect.New(v.Type()).Elem()
			c.Set(v)
			v = c
		}
		return s.Project(f.M, v)
	}
	return getScalar(v)
}

func (s *Schema) projField(f *Field, v reflect.Value) Val {
	switch f.C {
	case "imp":
		return s.projOne(f, v)
	case "emb":
		return List{s.projOne(f, v)}
	case "exp":
		if v.IsNil() {
			return List{}
		}
		return List{s.projOne(f, v)}
	case "one":
		if v.IsNil() || v.Elem().Type() != reflect.PointerTo(f.wrapper) {
			return List{}
		}
		x := v.Elem().Elem().Field(0)
		if x.Kind() == reflect.Ptr && x.IsNil() {
			return List{}
		}
		return List{s.projOne(f, x)}
	case "rep", "pak":
		l := List{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, s.projOne(f, v.Index(i)))
		}
		return l
	case "map":
		l := List{}
		for it := v.MapRange(); it.Next(); {
			l = append(l, List{getScalar(it.Key()), s.projOne(f, it.Value())})
		}
		sort.Slice(l, func(i, j int) bool {
			return bytes.Compare(l[i].(List)[0].(Bytes), l[j].(List)[0].(Bytes)) < 0
		})
		return l
	}
	panic(fmt.Sprint("card ", f.C))
}

func Equal(a, b Val) bool { return string(a.json(nil)) == string(b.json(nil)) }

// byID is the field with a number.
func (s *Schema) byID(t, id int) *Field {
	for _, f := range s.T[t-1].F {
		if f.ID == id {
			return f
		}
	}
	panic(fmt.Sprint("no field ", id))
}

// ProjectResult reads what the getter of a field returned: the value behind
// scalar pointers, a list of at most one message, a list or map.
func (s *Schema) ProjectResult(t, id int, v reflect.Value) Val {
	f := s.byID(t, id)
	switch f.C {
	case "rep", "pak", "map":
		return s.projField(f, v)
	}
	if f.K == "msg" {
		if v.Kind() == reflect.Ptr && v.IsNil() {
			return List{}
		}
		return List{s.projOne(f, v)}
	}
	if v.Kind() == reflect.Ptr {
		panic("getter returns a pointer")
	}
	return getScalar(v)
}

// MemberOf is the number of the oneof member with wrapper w.
func (s *Schema) MemberOf(t int, w reflect.Type) int {
	for _, f := range s.T[t-1].F {
		if f.wrapper == w {
			return f.ID
		}
	}
	return -1
}
