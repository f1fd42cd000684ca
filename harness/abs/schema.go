// Package abs maps Go message types and values onto the abstract schemas and
// values of Codec.tla: a schema is derived from a Go struct type by reading its
// struct tags (independently of prutal's own parser), a Go value is built from
// an abstract value, and projected back onto one.
package abs

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type Field struct {
	ID int    `json:"id"`
	C  string `json:"c"`
	K  string `json:"k"`
	M  int    `json:"m"`
	KK string `json:"kk"`
	O  int    `json:"o"`

	idx     int          // index of the Go struct field
	wrapper reflect.Type // oneof wrapper struct (not pointer)
	ptrElem bool         // rep/map message elements are pointers
	typ     reflect.Type // Go type of the field (inside the wrapper for oneof)
}

type Type struct {
	F   []*Field `json:"f"`
	Unk bool     `json:"unk"`

	GT     reflect.Type `json:"-"`
	unkIdx int
	unkPtr bool
}

type Schema struct {
	T     []*Type
	index map[reflect.Type]int
}

// OneofWrappers tells the wrappers of struct types with oneofs.
var OneofWrappers = map[reflect.Type][]any{}

var bytesT = reflect.TypeOf([]byte(nil))

// SchemaOf derives the schema rooted at struct type t (type number 1).
func SchemaOf(t reflect.Type) *Schema {
	s := &Schema{index: map[reflect.Type]int{}}
	s.add(t)
	return s
}

func (s *Schema) add(t reflect.Type) int {
	if i, ok := s.index[t]; ok {
		return i
	}
	d := &Type{GT: t, unkIdx: -1, F: []*Field{}}
	s.T = append(s.T, d)
	n := len(s.T)
	s.index[t] = n
	oneofs := map[int]int{}
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if sf.Name == "XXX_unrecognized" || sf.Name == "unknownFields" {
			// any other type is no place for unknown fields
			if sf.Type == bytesT || sf.Type == reflect.PtrTo(bytesT) {
				d.Unk, d.unkIdx, d.unkPtr = true, i, sf.Type.Kind() == reflect.Ptr
			}
			continue
		}
		if sf.Tag.Get("protobuf_oneof") != "" {
			oneofs[i] = len(oneofs) + 1
			for _, w := range OneofWrappers[t] {
				wt := reflect.TypeOf(w)
				if !wt.Implements(sf.Type) {
					continue
				}
				wt = wt.Elem()
				f := s.field(wt.Field(0).Type, wt.Field(0).Tag)
				f.C, f.O, f.idx, f.wrapper = "one", oneofs[i], i, wt
				d.F = append(d.F, f)
			}
			continue
		}
		if sf.Tag.Get("protobuf") == "" {
			continue
		}
		f := s.field(sf.Type, sf.Tag)
		f.idx = i
		d.F = append(d.F, f)
	}
	sort.Slice(d.F, func(i, j int) bool { return d.F[i].ID < d.F[j].ID })
	return n
}

func kindOf(tag string, t reflect.Type) string {
	enc := strings.Split(tag, ",")[0]
	if t == bytesT {
		return "bytes"
	}
	k := t.Kind()
	switch enc {
	case "varint":
		switch k {
		case reflect.Int32:
			return "int32"
		case reflect.Int64:
			return "int64"
		case reflect.Uint32:
			return "uint32"
		case reflect.Uint64:
			return "uint64"
		case reflect.Bool:
			return "bool"
		}
	case "zigzag32":
		return "sint32"
	case "zigzag64":
		return "sint64"
	case "fixed32":
		switch k {
		case reflect.Int32:
			return "sfixed32"
		case reflect.Uint32:
			return "fixed32"
		case reflect.Float32:
			return "float"
		}
	case "fixed64":
		switch k {
		case reflect.Int64:
			return "sfixed64"
		case reflect.Uint64:
			return "fixed64"
		case reflect.Float64:
			return "double"
		}
	case "bytes":
		if k == reflect.String {
			return "string"
		}
		if k == reflect.Struct {
			return "msg"
		}
	}
	panic(fmt.Sprintf("no kind for %q %v", tag, t))
}

func (s *Schema) elem(f *Field, tag string, t reflect.Type) {
	if t.Kind() == reflect.Ptr {
		f.ptrElem = true
		t = t.Elem()
	}
	f.K = kindOf(tag, t)
	if f.K == "msg" {
		f.M = s.add(t)
	}
}

func (s *Schema) field(t reflect.Type, tag reflect.StructTag) *Field {
	pt := tag.Get("protobuf")
	ss := strings.Split(pt, ",")
	f := &Field{typ: t}
	f.ID, _ = strconv.Atoi(ss[1])
	packed := false
	for _, x := range ss[2:] {
		if strings.HasPrefix(x, "def=") {
			break
		}
		packed = packed || x == "packed"
	}
	switch {
	case t.Kind() == reflect.Map:
		f.C = "map"
		f.KK = kindOf(tag.Get("protobuf_key"), t.Key())
		s.elem(f, tag.Get("protobuf_val"), t.Elem())
	case t != bytesT && t.Kind() == reflect.Slice:
		f.C = "rep"
		if packed {
			f.C = "pak"
		}
		s.elem(f, pt, t.Elem())
	case t.Kind() == reflect.Ptr:
		f.C = "exp"
		s.elem(f, pt, t)
	default:
		s.elem(f, pt, t)
		f.C = "imp"
		if f.K == "msg" {
			f.C = "emb"
		}
	}
	return f
}

var Kinds = []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
	"sfixed32", "sfixed64", "float", "double", "bool", "string", "bytes"}

var goTypes = map[string]reflect.Type{
	"int32": reflect.TypeOf(int32(0)), "sint32": reflect.TypeOf(int32(0)), "sfixed32": reflect.TypeOf(int32(0)),
	"int64": reflect.TypeOf(int64(0)), "sint64": reflect.TypeOf(int64(0)), "sfixed64": reflect.TypeOf(int64(0)),
	"uint32": reflect.TypeOf(uint32(0)), "fixed32": reflect.TypeOf(uint32(0)),
	"uint64": reflect.TypeOf(uint64(0)), "fixed64": reflect.TypeOf(uint64(0)),
	"float": reflect.TypeOf(float32(0)), "double": reflect.TypeOf(float64(0)),
	"bool": reflect.TypeOf(false), "string": reflect.TypeOf(""), "bytes": bytesT,
}

func GoType(kind string) reflect.Type { return goTypes[kind] }

func TagType(kind string) string {
	switch kind {
	case "int32", "int64", "uint32", "uint64", "bool":
		return "varint"
	case "sint32":
		return "zigzag32"
	case "sint64":
		return "zigzag64"
	case "fixed32", "sfixed32", "float":
		return "fixed32"
	case "fixed64", "sfixed64", "double":
		return "fixed64"
	}
	return "bytes"
}

// Width of a scalar kind in the abstract, 0 for strings, bytes and messages.
func Width(kind string) int {
	switch kind {
	case "int32", "uint32", "sint32", "fixed32", "sfixed32", "float":
		return 4
	case "int64", "uint64", "sint64", "fixed64", "sfixed64", "double":
		return 8
	case "bool":
		return 1
	}
	return 0
}

func WireType(kind string) int {
	switch TagType(kind) {
	case "varint", "zigzag32", "zigzag64":
		return 0
	case "fixed32":
		return 5
	case "fixed64":
		return 1
	}
	return 2
}

func Packable(kind string) bool { return WireType(kind) != 2 }
