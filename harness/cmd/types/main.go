// Command types uses Go struct types, supported and unsupported ones, in random
// order, and records whether prutal accepted them, for TypesTrace.tla.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"

	"verifharness/abs"
	"verifharness/types"

	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/pkg/grpccodec"
)

type goType struct {
	K   string  `json:"k"`
	E   *goType `json:"e,omitempty"`
	Key *goType `json:"key,omitempty"`
	S   int     `json:"s,omitempty"`
}

type field struct {
	PB     bool    `json:"pb"`
	ID     [2]int  `json:"id"`
	Tag    string  `json:"tag"`
	Rep    bool    `json:"rep"`
	Packed bool    `json:"packed"`
	KTag   string  `json:"ktag"`
	VTag   string  `json:"vtag"`
	One    bool    `json:"one"` // a member of a oneof
	Bad    bool    `json:"bad"` // not one tagged field
	T      *goType `json:"T"`
}

type universe struct {
	idx map[reflect.Type]int
	ts  []reflect.Type
	S   [][]field
}

var kinds = map[reflect.Kind]string{
	reflect.Bool: "bool", reflect.Int32: "int32", reflect.Int64: "int64", reflect.Uint32: "uint32", reflect.Uint64: "uint64",
	reflect.Float32: "float32", reflect.Float64: "float64", reflect.String: "string",
}

func (u *universe) describe(t reflect.Type) *goType {
	if t == reflect.TypeOf([]byte(nil)) {
		return &goType{K: "bytes"}
	}
	switch t.Kind() {
	case reflect.Ptr:
		return &goType{K: "ptr", E: u.describe(t.Elem())}
	case reflect.Slice:
		return &goType{K: "slice", E: u.describe(t.Elem())}
	case reflect.Array:
		return &goType{K: "array", E: u.describe(t.Elem())}
	case reflect.Map:
		return &goType{K: "map", E: u.describe(t.Elem()), Key: u.describe(t.Key())}
	case reflect.Struct:
		return &goType{K: "struct", S: u.add(t)}
	}
	if k, ok := kinds[t.Kind()]; ok {
		return &goType{K: k}
	}
	return &goType{K: "other"}
}

func (u *universe) add(t reflect.Type) int {
	if i, ok := u.idx[t]; ok {
		return i
	}
	u.ts = append(u.ts, t)
	u.S = append(u.S, nil)
	n := len(u.ts)
	u.idx[t] = n
	fs := []field{}
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if sf.Tag.Get("protobuf_oneof") != "" { // the members count as fields
			for _, w := range abs.OneofWrappers[t] {
				wt := reflect.TypeOf(w)
				if !wt.Implements(sf.Type) {
					continue
				}
				f := field{PB: true, Bad: true, T: &goType{K: "other"}}
				if wt = wt.Elem(); wt.NumField() == 1 && wt.Field(0).Tag.Get("protobuf") != "" {
					f = u.field(wt.Field(0))
				}
				f.One = true
				fs = append(fs, f)
			}
			continue
		}
		fs = append(fs, u.field(sf))
	}
	u.S[n-1] = fs
	return n
}

func (u *universe) field(sf reflect.StructField) field {
	f := field{T: &goType{K: "other"}}
	pb := sf.Tag.Get("protobuf")
	if pb == "" {
		return f
	}
	f.PB = true
	f.T = u.describe(sf.Type)
	// encoding, number, label, then options up to def=
	for _, x := range strings.Split(pb, ",") {
		if strings.HasPrefix(x, "def=") {
			break
		}
		switch x {
		case "varint", "zigzag32", "zigzag64", "fixed32", "fixed64", "bytes", "group":
			f.Tag = x
		case "rep":
			f.Rep = true
		case "packed":
			f.Packed = true
		default:
			if n, err := strconv.ParseUint(x, 10, 64); err == nil {
				if n >= 1<<32 {
					n = 0
				}
				f.ID = [2]int{int(n >> 16), int(n & 0xffff)}
			}
		}
	}
	f.KTag = strings.Split(sf.Tag.Get("protobuf_key"), ",")[0]
	f.VTag = strings.Split(sf.Tag.Get("protobuf_val"), ",")[0]
	return f
}

type gen struct{ *abs.Gen }

var encs = []string{"varint", "zigzag32", "zigzag64", "fixed32", "fixed64", "bytes"}

func pick[T any](g *gen, xs ...T) T { return xs[g.Intn(len(xs))] }

var basic = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf([]byte(nil)), reflect.TypeOf(types.Color(0)),
}
var odd = []reflect.Type{
	reflect.TypeOf(int(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint16(0)),
	reflect.TypeOf(complex64(0)), reflect.TypeOf((chan int)(nil)), reflect.TypeOf((func())(nil)), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf(uintptr(0)),
	reflect.TypeOf([4]byte{}), reflect.TypeOf([2]int32{}), reflect.TypeOf((*error)(nil)).Elem(),
}

func (g *gen) typ(depth int, structs []reflect.Type) reflect.Type {
	r := g.Float64()
	switch {
	case depth <= 0 || r < 0.5:
		if g.P(0.12) {
			return pick(g, odd...)
		}
		if len(structs) > 0 && g.P(0.3) {
			return pick(g, structs...)
		}
		return pick(g, basic...)
	case r < 0.65:
		return reflect.PtrTo(g.typ(depth-1, structs))
	case r < 0.85:
		return reflect.SliceOf(g.typ(depth-1, structs))
	}
	k := g.typ(depth-1, nil)
	if !k.Comparable() || k.Kind() == reflect.Interface {
		k = reflect.TypeOf("")
	}
	return reflect.MapOf(k, g.typ(depth-1, structs))
}

func match(g *gen, t reflect.Type) string {
	for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice && t != basic[8] {
		t = t.Elem()
	}
	var ok []string
	switch t.Kind() {
	case reflect.Bool:
		ok = []string{"varint"}
	case reflect.Int32:
		ok = []string{"varint", "zigzag32", "fixed32"}
	case reflect.Int64:
		ok = []string{"varint", "zigzag64", "fixed64"}
	case reflect.Uint32:
		ok = []string{"varint", "fixed32"}
	case reflect.Uint64:
		ok = []string{"varint", "fixed64"}
	case reflect.Float32:
		ok = []string{"fixed32"}
	case reflect.Float64:
		ok = []string{"fixed64"}
	default:
		ok = []string{"bytes"}
	}
	return pick(g, ok...)
}

// structField is mostly a supported field; chaos is the chance of each thing to go wrong.
func (g *gen) structField(i int, id uint64, structs []reflect.Type, chaos float64) reflect.StructField {
	name := fmt.Sprintf("F%d", i)
	if !g.P(chaos * 3) {
		cards := []string{"imp", "exp", "emb", "rep", "pak", "map"}
		f := g.StructField(name, int(id), pick(g, cards...), abs.Kinds, structs)
		if g.P(0.3) {
			f.Tag = reflect.StructTag(strings.Replace(string(f.Tag), ",name="+strings.ToLower(name), ",name="+strings.ToLower(name)+pick(g, ",proto3", ",json=f", ",proto3,enum=a.B", ",def=1,packed", ",def=a,bytes,77,rep", ",json=x,def=-5", ",def=", ",def=rep"), 1))
		}
		return f
	}
	t := g.typ(2, structs)
	enc := match(g, t)
	if g.P(chaos) {
		enc = pick(g, "varint", "zigzag32", "zigzag64", "fixed32", "fixed64", "bytes", "bytes", "group", "", "vint")
	}
	label := "opt"
	rep := t.Kind() == reflect.Map || t.Kind() == reflect.Slice && t != basic[8]
	if rep != g.P(chaos) {
		label = "rep"
	} else if g.P(0.3) {
		label = "req"
	}
	tag := fmt.Sprintf("%s,%d,%s", enc, id, label)
	if g.P(chaos / 2) {
		tag = fmt.Sprintf("%s,%s,%s", enc, pick(g, "0", "", "536870911", "536870912", "4294967295", "4294967296", "18446744073709551616", "2147483648", "-1"), label)
	}
	if rep && g.P(0.4) {
		tag += ",packed"
	}
	full := fmt.Sprintf(`protobuf:"%s,name=f"`, tag)
	if t.Kind() == reflect.Map {
		k, v := match(g, t.Key()), match(g, t.Elem())
		if g.P(chaos) {
			k = pick(g, "varint", "fixed32", "bytes", "group", "")
		}
		if g.P(chaos) {
			v = pick(g, "varint", "fixed64", "bytes", "group", "")
		}
		if k != "" {
			full += fmt.Sprintf(` protobuf_key:"%s,1,opt,name=key"`, k)
		}
		if v != "" {
			full += fmt.Sprintf(` protobuf_val:"%s,2,opt,name=value"`, v)
		}
	}
	return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(full)}
}

func (g *gen) structType(structs []reflect.Type, chaos float64) reflect.Type {
	var fs []reflect.StructField
	n := 1 + g.Intn(5)
	for i := 0; i < n; i++ {
		id := uint64(i + 1)
		if g.P(0.3) {
			id = uint64(1+g.Intn(40))*100 + uint64(i)
		}
		if i > 0 && g.P(chaos/6) {
			id = uint64(i)
		}
		fs = append(fs, g.structField(i, id, structs, chaos))
	}
	if g.P(0.3) {
		fs = append(fs, reflect.StructField{Name: "Plain", Type: pick(g, odd...), Tag: `json:"plain"`})
	}
	if g.P(0.2) { // not a place for unknown fields
		fs = append(fs, reflect.StructField{Name: "XXX_unrecognized", Type: pick(g, reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf([]int32{}), reflect.TypeOf([]byte{}))})
	}
	g.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	return reflect.StructOf(fs)
}

var ev []string

func emit(m map[string]any) { j, _ := json.Marshal(m); ev = append(ev, string(j)) }

func guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			emit(map[string]any{"op": "crash", "what": strings.Split(fmt.Sprint(r), "\n")[0]})
			err = fmt.Errorf("panic")
		}
	}()
	return f()
}

func use(g *gen, u *universe, i, msgs int) {
	rt := u.ts[i-1]
	v := reflect.New(rt)
	var err error
	api := g.Intn(5)
	err = guard(func() (err error) {
		switch api {
		case 0:
			_, err = prutal.Marshal(v.Interface())
		case 1:
			_, err = prutal.Size(v.Interface())
		case 2:
			err = prutal.Unmarshal(nil, v.Interface())
		case 3:
			_, err = prutal.MarshalAppend([]byte{1}, v.Interface())
		case 4:
			err = grpccodec.PrutalCodec{}.Unmarshal([]byte{}, v.Interface())
		}
		return
	})
	same := true
	if err == nil {
		same = false
		guard(func() error {
			defer func() {
				if r := recover(); r != nil && !strings.HasPrefix(fmt.Sprint(r), "no kind") {
					panic(r)
				}
			}()
			s := abs.SchemaOf(rt)
			same = true
			for ; msgs > 0 && same; msgs-- {
				same = false
				m := g.Msg(s, 1, 2)
				x := (&abs.Builder{S: s, Rnd: g.Rand}).New(1, m)
				b, err := prutal.Marshal(x.Interface())
				if err != nil {
					return err
				}
				n, err := prutal.Size(x.Interface())
				if err != nil || n != len(b) {
					return err
				}
				y := reflect.New(rt)
				if err := prutal.Unmarshal(b, y.Interface()); err != nil {
					return err
				}
				same = abs.Equal(m, s.Project(1, y.Elem()))
			}
			return nil
		})
	}
	emit(map[string]any{"op": "use", "t": i, "ok": err == nil, "same": same, "api": api})
}

// sweep lists every encoding with every shape of Go type, alone in a struct.
func sweep() (out []reflect.StructField) {
	encs := []string{"varint", "zigzag32", "zigzag64", "fixed32", "fixed64", "bytes", "group", ""}
	leaf := reflect.TypeOf(types.Leaf{})
	elems := append([]reflect.Type{leaf, reflect.PtrTo(leaf), reflect.PtrTo(reflect.PtrTo(leaf)), reflect.TypeOf([4]byte{}), reflect.TypeOf(int(0)),
		reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf([][]byte(nil)), reflect.TypeOf(map[string]string(nil))}, basic...)
	for _, t := range basic {
		elems = append(elems, reflect.PtrTo(t))
	}
	shapes := append(append([]reflect.Type{}, elems...), odd...)
	for _, e := range elems {
		shapes = append(shapes, reflect.SliceOf(e))
	}
	for _, t := range basic {
		shapes = append(shapes, reflect.PtrTo(reflect.SliceOf(t)), reflect.PtrTo(reflect.PtrTo(t)))
	}
	shapes = append(shapes, reflect.PtrTo(reflect.SliceOf(leaf)), reflect.PtrTo(reflect.MapOf(basic[7], basic[7])))
	i := 0
	add := func(t reflect.Type, tag string) {
		i++
		out = append(out, reflect.StructField{Name: "F", Type: t, Tag: reflect.StructTag(tag)})
	}
	for _, t := range shapes {
		for _, e := range encs {
			for _, l := range []string{"opt", "rep", "rep,packed", "opt,packed"} {
				add(t, fmt.Sprintf(`protobuf:"%s,%d,%s,name=f"`, e, 1+i%40, l))
			}
		}
	}
	mapTag := func(m, l, k, v string) string {
		return fmt.Sprintf(`protobuf:"%s,%d,%s,name=f" protobuf_key:"%s,1,opt,name=key" protobuf_val:"%s,2,opt,name=value"`, m, 1+i%40, l, k, v)
	}
	str := reflect.TypeOf("")
	for _, kt := range append(append([]reflect.Type{}, basic...), odd...) {
		if !kt.Comparable() || kt.Kind() == reflect.Func {
			continue
		}
		for _, e := range encs {
			add(reflect.MapOf(kt, str), mapTag("bytes", "rep", e, "bytes"))
			add(reflect.MapOf(kt, reflect.PtrTo(leaf)), mapTag("bytes", "rep", e, "bytes"))
			add(reflect.MapOf(kt, basic[2]), mapTag("bytes", "rep", e, "zigzag64"))
		}
	}
	for _, vt := range shapes {
		for _, e := range encs {
			add(reflect.MapOf(str, vt), mapTag("bytes", "rep", "bytes", e))
			add(reflect.MapOf(basic[1], vt), mapTag("bytes", "rep", "zigzag32", e))
		}
	}
	for _, m := range encs {
		for _, l := range []string{"opt", "rep", "rep,packed", "req", ""} {
			add(reflect.MapOf(str, str), mapTag(m, l, "bytes", "bytes"))
		}
	}
	return
}

func badArg(g *gen, rt reflect.Type) {
	var v any
	what := g.Intn(11)
	n := 7
	s := "x"
	switch what {
	case 0:
		v = reflect.New(rt).Elem().Interface()
	case 1:
		v = &n
	case 2:
		v = &s
	case 3:
		v = map[string]int{}
	case 4: // pointers to pointers, before and after the type itself is used
		v = reflect.New(reflect.PtrTo(rt)).Interface()
	case 5:
		p := reflect.New(reflect.PtrTo(rt))
		p.Elem().Set(reflect.New(rt))
		v = p.Interface()
	case 6:
		p := reflect.New(reflect.PtrTo(reflect.PtrTo(rt)))
		p.Elem().Set(reflect.New(reflect.PtrTo(rt)))
		v = p.Interface()
	case 7:
		v = reflect.New(reflect.SliceOf(rt)).Interface()
	case 8:
		v = reflect.New(reflect.MapOf(reflect.TypeOf(""), reflect.PtrTo(rt))).Interface()
	case 9:
		v = reflect.MakeSlice(reflect.SliceOf(reflect.PtrTo(rt)), 1, 1).Interface()
	case 10:
		v = reflect.New(reflect.ArrayOf(1, reflect.PtrTo(rt))).Interface()
	}
	for api := 0; api < 4; api++ {
		err := guard(func() (err error) {
			switch api {
			case 0:
				_, err = prutal.Marshal(v)
			case 1:
				_, err = prutal.Size(v)
			case 3:
				_, err = prutal.MarshalAppend(make([]byte, 0, 8), v)
			case 2:
				err = prutal.Unmarshal([]byte{8, 1}, v)
			}
			return
		})
		emit(map[string]any{"op": "arg", "ok": err == nil, "what": what, "api": api})
	}
}

func main() {
	_ = flag.String("profile", "", "")
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 100, "sessions")
	from := flag.Int("from", 0, "first session")
	step := flag.Int("step", 1, "")
	out := flag.String("out", "", "trace file, appended to")
	cur := flag.String("cur", "", "file that names the session being run")
	flag.Parse()
	f, err := os.OpenFile(*out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	sw := sweep()
	const per = 25
	chunks := (len(sw) + per - 1) / per
	ones := (len(types.Oneofs) + per - 1) / per
	for k := *from; k < *n+chunks+ones; k += *step {
		os.WriteFile(*cur, []byte(fmt.Sprint(k)), 0o644)
		ev = nil
		g := &gen{abs.NewGen(*seed*999983 + int64(k)*7907)}
		u := &universe{idx: map[reflect.Type]int{}}
		var own []int
		if k >= *n+chunks { // types with oneofs
			for _, t := range types.Oneofs[(k-*n-chunks)*per : min(len(types.Oneofs), (k-*n-chunks+1)*per)] {
				use(g, u, u.add(t), 4)
			}
		} else if k >= *n { // the sweep: every single-field struct
			c := sw[(k-*n)*per : min(len(sw), (k-*n+1)*per)]
			for _, f := range c {
				use(g, u, u.add(reflect.StructOf([]reflect.StructField{f})), 4)
			}
		} else if (k / *step)%3 == 0 {
			for _, t := range types.Cyclic[(k / *step / 3)%len(types.Cyclic)] {
				own = append(own, u.add(t))
			}
		} else {
			var ts []reflect.Type
			chaos := pick(g, 0.02, 0.1, 0.25)
			for i := 0; i < 2+g.Intn(4); i++ {
				t := g.structType(ts, chaos)
				ts = append(ts, t)
				own = append(own, u.add(t))
			}
		}
		if k < *n && g.P(0.3) {
			badArg(g, u.ts[g.Intn(len(u.ts))])
		}
		for i := 0; i < 3*len(own) && k < *n; i++ {
			use(g, u, own[g.Intn(len(own))], 1)
		}
		for _, i := range own { // and every one at the end
			use(g, u, i, 1)
		}
		if k < *n && g.P(0.3) {
			badArg(g, u.ts[g.Intn(len(u.ts))])
		}
		var b bytes.Buffer
		j, _ := json.Marshal(u.S)
		fmt.Fprintf(&b, `{"id":%d,"S":%s,"ev":[%s]}`+"\n", k, j, strings.Join(ev, ","))
		f.Write(b.Bytes())
	}
	f.Close()
	os.WriteFile(*cur, []byte("done"), 0o644)
}
