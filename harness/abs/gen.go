package abs

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
)

// Gen makes random schemas, values and wire data.
type Gen struct {
	*rand.Rand
	// value knobs
	MaxList  int // typical list length
	MaxStr   int // typical string length
	MaxDepth int // nesting of generated values
	BigProb  float64
	Budget   int // bytes of payload in one value or piece of wire data, roughly
	left     int
}

func NewGen(seed int64) *Gen {
	return &Gen{Rand: rand.New(rand.NewSource(seed)), MaxList: 4, MaxStr: 12, MaxDepth: 3, BigProb: 0.03, Budget: 8000, left: 8000}
}

func (g *Gen) P(p float64) bool { return g.Float64() < p }

func pick[T any](g *Gen, xs []T) T { return xs[g.Intn(len(xs))] }

// SchemaOpt steers schema generation.
type SchemaOpt struct {
	Types  int            // number of struct types
	Fields int            // fields per type, at most
	Cards  []string       // cardinalities to use
	Kinds  []string       // kinds to use
	Unk    float64        // probability that a struct keeps unknown fields
	Static []reflect.Type // static message types that may be referenced
	NoBig  bool           // no large field numbers
	Prefix string         // of field names, to make types nobody has seen
}

var AllCards = []string{"imp", "exp", "emb", "rep", "pak", "map"}

var idPool = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 100, 127, 128, 999, 1000, 1001, 1002, 2047, 2048, 5000, 262143, 262144, 33554432, 536870911}

func (g *Gen) ids(n int, noBig bool) []int {
	seen := map[int]bool{}
	var out []int
	max := len(idPool)
	if noBig {
		max = 20
	}
	if g.P(0.5) {
		max = 15
		if n > 12 {
			max = 20
		}
	}
	for len(out) < n {
		x := idPool[g.Intn(max)]
		if len(out) > 12 {
			x = 1 + g.Intn(1+g.Intn(1200))
		}
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	sort.Ints(out)
	return out
}

var mapKeyKinds = []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"}

// StructType makes a random Go struct type; msgs are the message types it may use.
func (g *Gen) StructType(o SchemaOpt, msgs []reflect.Type) reflect.Type {
	n := 1 + g.Intn(o.Fields)
	if g.P(0.01) && !o.NoBig {
		n = 20 + g.Intn(100)
		if g.P(0.15) {
			n = 250 + g.Intn(60)
		}
	}
	ids := g.ids(n, o.NoBig)
	var fs []reflect.StructField
	cards := o.Cards
	if cards == nil {
		cards = AllCards
	}
	kinds := o.Kinds
	if kinds == nil {
		kinds = Kinds
	}
	unk := o.Unk
	if o.Cards == nil && o.Kinds == nil {
		switch g.Intn(12) {
		case 0: // numbers only: memory without pointers
			cards, kinds, msgs, unk = []string{"imp"}, nil, nil, 0
			for _, k := range Kinds {
				if Packable(k) {
					kinds = append(kinds, k)
				}
			}
		case 1:
			cards = []string{pick(g, cards)}
		case 2:
			kinds = []string{pick(g, kinds)}
		}
	}
	for i, id := range ids {
		fs = append(fs, g.StructField(fmt.Sprintf("%sF%d", o.Prefix, i), id, pick(g, cards), kinds, msgs))
	}
	// declaration order is not field-number order
	g.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	if g.P(0.2) {
		x := reflect.TypeOf(0)
		switch g.Intn(30) { // one that puts the others far away, among others
		case 0:
			x = reflect.TypeOf([70000]byte{})
		case 1, 2:
			x = reflect.TypeOf([300]byte{})
		case 3:
			x = reflect.TypeOf("")
		case 4:
			x = reflect.TypeOf(func() {})
		}
		fs = append(fs, reflect.StructField{Name: "NotAField", Type: x})
		if g.P(0.5) {
			fs[0], fs[len(fs)-1] = fs[len(fs)-1], fs[0]
		}
	}
	if g.P(unk) {
		fs = append(fs, g.unkField())
		g.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	}
	return reflect.StructOf(fs)
}

func (g *Gen) unkField() reflect.StructField {
	switch g.Intn(4) {
	case 0:
		return reflect.StructField{Name: "XXX_unrecognized", Type: reflect.PtrTo(bytesT)}
	case 1:
		return reflect.StructField{Name: "unknownFields", PkgPath: "verifharness/abs", Type: bytesT}
	case 2:
		return reflect.StructField{Name: "unknownFields", PkgPath: "verifharness/abs", Type: reflect.PtrTo(bytesT)}
	}
	return reflect.StructField{Name: "XXX_unrecognized", Type: bytesT}
}

func (g *Gen) StructField(name string, id int, card string, kinds []string, msgs []reflect.Type) reflect.StructField {
	kind := pick(g, kinds)
	if len(msgs) > 0 && (card == "emb" || card != "pak" && card != "imp" && g.P(0.35)) {
		kind = "msg"
	}
	if card == "emb" && kind != "msg" {
		card = "imp"
	}
	if card == "pak" && !Packable(kind) {
		card = "rep"
	}
	if card == "exp" && kind == "bytes" {
		card = "imp"
	}
	if card == "imp" && kind == "msg" {
		card = "exp"
	}
	key := pick(g, mapKeyKinds)
	var mt reflect.Type
	if kind == "msg" {
		mt = pick(g, msgs)
	}
	return MakeField(name, id, card, kind, key, mt, g.P(0.3))
}

// MakeField describes a struct field of the given cardinality and kind.
func MakeField(name string, id int, card, kind, key string, mt reflect.Type, nonptr bool) reflect.StructField {
	el := GoType(kind)
	if kind == "msg" {
		el = mt
		if !nonptr || card == "exp" {
			el = reflect.PtrTo(mt)
		}
		if card == "emb" {
			el = mt
		}
	}
	label, extra := "opt", ""
	t := el
	switch card {
	case "exp":
		if kind != "msg" {
			t = reflect.PtrTo(el)
		}
	case "rep":
		label, t = "rep", reflect.SliceOf(el)
	case "pak":
		label, extra, t = "rep", ",packed", reflect.SliceOf(el)
	case "map":
		tag := fmt.Sprintf(`protobuf:"bytes,%d,rep,name=%s" protobuf_key:"%s,1,opt,name=key" protobuf_val:"%s,2,opt,name=value"`,
			id, strings.ToLower(name), TagType(key), TagType(kind))
		return reflect.StructField{Name: name, Type: reflect.MapOf(GoType(key), el), Tag: reflect.StructTag(tag)}
	}
	tag := fmt.Sprintf(`protobuf:"%s,%d,%s%s,name=%s"`, TagType(kind), id, label, extra, strings.ToLower(name))
	return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(tag)}
}

// Schema makes a random schema.
func (g *Gen) Schema(o SchemaOpt) *Schema {
	t, _ := g.Structs(o)
	return SchemaOf(t)
}

// Structs makes the struct types of a random schema, and returns the root and all of them.
func (g *Gen) Structs(o SchemaOpt) (reflect.Type, []reflect.Type) {
	var own []reflect.Type
	msgs := append([]reflect.Type{}, o.Static...)
	if len(msgs) > 2 {
		g.Shuffle(len(msgs), func(i, j int) { msgs[i], msgs[j] = msgs[j], msgs[i] })
		msgs = msgs[:2]
	}
	var t reflect.Type
	for i := 0; i < o.Types; i++ {
		t = g.StructType(o, msgs)
		msgs = append(msgs, t)
		own = append(own, t)
	}
	return t, own
}

func le(u uint64, n int) Bytes {
	b := make(Bytes, n)
	for i := range b {
		b[i] = byte(u >> (8 * i))
	}
	return b
}

// Word makes an integer around the boundaries of the encodings.
func (g *Gen) Word() uint64 {
	switch g.Intn(10) {
	case 0:
		return uint64(g.Intn(4))
	case 1:
		return -uint64(g.Intn(4))
	case 2, 3: // varint length boundaries
		return 1<<(7*uint(g.Intn(10))) + uint64(g.Intn(3)) - 1
	case 4, 5:
		return 1<<uint(g.Intn(64)) + uint64(g.Intn(3)) - 1
	case 6:
		return -(1<<uint(g.Intn(64)) + uint64(g.Intn(3)) - 1)
	case 7:
		return uint64(g.Intn(300))
	}
	return g.Uint64()
}

func (g *Gen) Bytes(n int) Bytes {
	b := make(Bytes, n)
	g.Read(b)
	return b
}

func (g *Gen) strLen() (n int) {
	defer func() { g.left -= n }()
	switch {
	case g.left < 0:
		return g.Intn(3)
	case g.P(0.15):
		return 0
	case g.P(g.BigProb):
		return pick(g, []int{126, 127, 128, 129, 255, 256, 1022, 1023, 1024, 1025, 1026, 2000, 4095, 4096, 4097, 5000})
	case g.P(g.BigProb / 20):
		return pick(g, []int{16380, 16383, 16384, 16390, 20000})
	}
	return 1 + g.Intn(g.MaxStr)
}

func (g *Gen) Scalar(kind string) Bytes {
	g.left -= 4
	switch w := Width(kind); w {
	case 1:
		return Bytes{byte(g.Intn(2))}
	case 4, 8:
		if (kind == "float" || kind == "double") && g.P(0.4) {
			f := pick(g, []float64{0, math.Copysign(0, -1), 1, -1, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64})
			if w == 4 {
				return le(uint64(math.Float32bits(float32(f))), 4)
			}
			return le(math.Float64bits(f), 8)
		}
		return le(g.Word(), w)
	}
	if kind == "string" && g.P(0.6) {
		n := g.strLen()
		b := make(Bytes, n)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyz"[g.Intn(26)]
		}
		return b
	}
	return g.Bytes(g.strLen())
}

func (g *Gen) val(s *Schema, f *Field, depth int) Val {
	if f.K == "msg" {
		return g.msg(s, f.M, depth-1)
	}
	return g.Scalar(f.K)
}

func (g *Gen) listLen() int {
	if g.left < 0 {
		return g.Intn(2)
	}
	if g.P(g.BigProb) {
		return pick(g, []int{7, 8, 9, 15, 16, 17, 33, 40, 64, 65})
	}
	return g.Intn(g.MaxList + 1)
}

// Msg makes a random message of type t.
func (g *Gen) Msg(s *Schema, t, depth int) *Msg {
	g.left = g.Budget
	return g.msg(s, t, depth)
}

func (g *Gen) msg(s *Schema, t, depth int) *Msg {
	d := s.T[t-1]
	m := s.Empty(t)
	oneof := map[int]int{}
	for i, f := range d.F {
		if f.C == "one" {
			// choose the set member of each oneof
			if _, ok := oneof[f.O]; !ok {
				oneof[f.O] = -1
				var c []int
				for j, f2 := range d.F {
					if f2.C == "one" && f2.O == f.O && (f2.K != "msg" || depth > 0) {
						c = append(c, j)
					}
				}
				if len(c) > 0 && g.P(0.85) {
					oneof[f.O] = pick(g, c)
				}
			}
			if oneof[f.O] != i {
				continue
			}
		}
		if f.K == "msg" && (depth <= 0 || g.left < 0) {
			continue
		}
		if g.P(0.25) && f.C != "one" {
			continue
		}
		zero := g.P(0.12)
		one := func() Val {
			if zero {
				return s.Zero(f.K, f.M)
			}
			return g.val(s, f, depth)
		}
		switch f.C {
		case "imp":
			m.F[i] = one()
		case "exp", "emb", "one":
			m.F[i] = List{one()}
		case "rep", "pak":
			n := g.listLen()
			if f.K == "msg" && n > 12 {
				n = 12
			}
			l := List{}
			for j := 0; j < n; j++ {
				zero = g.P(0.12)
				l = append(l, one())
			}
			m.F[i] = l
		case "map":
			m.F[i] = g.mapVal(s, f, depth)
		}
	}
	if d.Unk && g.P(0.4) {
		m.U = g.Unknown(s, t, 1+g.Intn(3))
	}
	return m
}

func (g *Gen) mapVal(s *Schema, f *Field, depth int) List {
	n := g.listLen()
	if f.K == "msg" && n > 8 {
		n = 8
	}
	seen := map[string]bool{}
	l := List{}
	for j := 0; j < n; j++ {
		k := g.Scalar(f.KK)
		if g.P(0.1) {
			k = make(Bytes, Width(f.KK))
		}
		if seen[string(k)] {
			continue
		}
		seen[string(k)] = true
		var v Val
		if g.P(0.12) {
			v = s.Zero(f.K, f.M)
		} else {
			v = g.val(s, f, depth)
		}
		l = append(l, List{k, v})
	}
	sort.Slice(l, func(i, j int) bool {
		return bytes.Compare(l[i].(List)[0].(Bytes), l[j].(List)[0].(Bytes)) < 0
	})
	return l
}

// ---- wire data ----

func AppendVarint(b []byte, u uint64) []byte {
	for u >= 128 {
		b = append(b, byte(u)|128)
		u >>= 7
	}
	return append(b, byte(u))
}

// varint, sometimes not minimal.
func (g *Gen) varint(b []byte, u uint64, nonmin float64) []byte {
	n := len(b)
	b = AppendVarint(b, u)
	if g.P(nonmin) {
		for k := g.Intn(3) + 1; k > 0 && len(b)-n < 10; k-- {
			b[len(b)-1] |= 128
			b = append(b, 0)
		}
	}
	return b
}

func AppendTag(b []byte, id, wt int) []byte { return AppendVarint(b, uint64(id)<<3|uint64(wt)) }

func lev(b Bytes) (u uint64) {
	for i := len(b) - 1; i >= 0; i-- {
		u = u<<8 | uint64(b[i])
	}
	return
}

// AppendValue encodes a scalar of a kind, without tag.
func AppendValue(b []byte, kind string, v Bytes) []byte {
	u := lev8(kind, v)
	switch WireType(kind) {
	case 0:
		return AppendVarint(b, u)
	case 2:
		return append(AppendVarint(b, uint64(len(v))), v...)
	}
	return append(b, v...)
}

func lev8(kind string, v Bytes) uint64 {
	if Width(kind) == 0 {
		return 0
	}
	u := lev(v)
	switch kind {
	case "int32":
		return uint64(int64(int32(uint32(u))))
	case "sint32":
		x := int32(uint32(u))
		return uint64(uint32(x<<1) ^ uint32(x>>31))
	case "sint64":
		x := int64(u)
		return uint64(x<<1) ^ uint64(x>>63)
	}
	return u
}

// wireVal makes the value part (without tag) of a record of the given kind.
func (g *Gen) wireVal(b []byte, s *Schema, kind string, m, depth int) []byte {
	switch {
	case kind == "msg":
		var x []byte
		if depth > 0 {
			x = g.wire(s, m, g.Intn(5), depth-1)
		}
		b = g.varint(b, uint64(len(x)), 0.05)
		return append(b, x...)
	case WireType(kind) == 0:
		u := g.Word()
		switch {
		case kind == "sint32":
			u = uint64(uint32(u))
		case kind == "bool" && g.P(0.7):
			u = uint64(g.Intn(2))
		}
		return g.varint(b, u, 0.1)
	case WireType(kind) == 2:
		x := g.Scalar(kind)
		b = g.varint(b, uint64(len(x)), 0.05)
		return append(b, x...)
	}
	return append(b, g.Scalar(kind)...)
}

// Unknown makes n well-formed records with field numbers type t does not have.
func (g *Gen) Unknown(s *Schema, t, n int) Bytes {
	known := map[int]bool{}
	for _, f := range s.T[t-1].F {
		known[f.ID] = true
	}
	var b []byte
	for i := 0; i < n; i++ {
		var id int
		for id = pick(g, idPool); known[id] && !g.P(0.001); id = 1 + g.Intn(3000) {
		}
		if known[id] {
			continue
		}
		b = g.unkRecord(b, id, 2)
	}
	return b
}

func (g *Gen) unkRecord(b []byte, id, depth int) []byte {
	wt := pick(g, []int{0, 0, 1, 2, 2, 5, 3})
	if depth == 0 && wt == 3 {
		wt = 0
	}
	b = g.varint(b, uint64(id)<<3|uint64(wt), 0.05)
	switch wt {
	case 0:
		b = g.varint(b, g.Word(), 0.1)
	case 1:
		b = append(b, g.Bytes(8)...)
	case 5:
		b = append(b, g.Bytes(4)...)
	case 2:
		x := g.Bytes(g.strLen())
		b = g.varint(b, uint64(len(x)), 0.05)
		b = append(b, x...)
	case 3:
		for n := g.Intn(3); n > 0; n-- {
			b = g.unkRecord(b, 1+g.Intn(20), depth-1)
		}
		b = AppendTag(b, id, 4)
	}
	return b
}

// Wire makes n well-formed records for type t: known fields in any order and
// number, repeated scalars packed and not, map entries with their parts missing,
// repeated or swapped, unknown fields in between.
func (g *Gen) Wire(s *Schema, t, n, depth int) []byte {
	g.left = g.Budget
	return g.wire(s, t, n, depth)
}

func (g *Gen) wire(s *Schema, t, n, depth int) []byte {
	d := s.T[t-1]
	var b []byte
	last := -1
	for i := 0; i < n; i++ {
		if g.P(0.12) || len(d.F) == 0 {
			b = append(b, g.Unknown(s, t, 1)...)
			continue
		}
		k := g.Intn(len(d.F))
		if last >= 0 && g.P(0.4) {
			k = last
		}
		last = k
		b = g.wireField(b, s, d.F[k], depth)
	}
	return b
}

func (g *Gen) wireField(b []byte, s *Schema, f *Field, depth int) []byte {
	tag := func(wt int) { b = g.varint(b, uint64(f.ID)<<3|uint64(wt), 0.04) }
	switch f.C {
	case "rep", "pak":
		if Packable(f.K) && g.P(0.55) {
			var x []byte
			for n := g.listLen(); n > 0; n-- {
				x = g.wireVal(x, s, f.K, 0, depth)
			}
			tag(2)
			b = g.varint(b, uint64(len(x)), 0.05)
			return append(b, x...)
		}
		fallthrough
	default:
		tag(WireType(f.K))
		return g.wireVal(b, s, f.K, f.M, depth)
	case "map":
		var x []byte
		key := func() {
			x = AppendTag(x, 1, WireType(f.KK))
			if g.P(0.5) && Width(f.KK) > 0 { // few distinct keys
				x = AppendValue(x, f.KK, le(uint64(g.Intn(3)), Width(f.KK)))
			} else {
				x = g.wireVal(x, s, f.KK, 0, depth)
			}
		}
		val := func() {
			x = AppendTag(x, 2, WireType(f.K))
			x = g.wireVal(x, s, f.K, f.M, depth)
		}
		switch g.Intn(12) {
		case 0:
			val()
			key()
		case 1:
			key()
		case 2:
			val()
		case 3:
		case 4:
			key()
			val()
			key()
		case 5:
			key()
			val()
			val()
		case 6:
			key()
			x = g.unkRecord(x, 3+g.Intn(5), 1)
			val()
		case 7:
			key()
			val()
			x = g.unkRecord(x, 3+g.Intn(5), 1)
		default:
			key()
			val()
		}
		tag(2)
		b = g.varint(b, uint64(len(x)), 0.04)
		return append(b, x...)
	}
}

// Mutate damages wire data.
func (g *Gen) Mutate(b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + g.Intn(2); n > 0; n-- {
		if len(b) == 0 {
			return g.Bytes(1 + g.Intn(4))
		}
		i := g.Intn(len(b))
		switch g.Intn(9) {
		case 0, 1:
			b = b[:i]
		case 2:
			b[i] ^= 1 << uint(g.Intn(8))
		case 3:
			b[i] = byte(g.Intn(256))
		case 4:
			b[i] = 0xff
		case 5:
			b = append(b[:i], b[i+1:]...)
		case 6:
			x := pick(g, [][]byte{{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff, 0xff, 0x0f}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 2}, {0}, {0x0c}, {0x0f}, {0x0e}})
			b = append(b[:i], append(append([]byte{}, x...), b[i:]...)...)
		case 7:
			b = append(b, g.Bytes(1+g.Intn(3))...)
		case 8:
			b = append(b[:i], g.Bytes(g.Intn(4))...)
		}
	}
	return b
}

// WrongWire returns records of message type t of which one, somewhere, has
// another wire type than its field.
func (g *Gen) WrongWire(s *Schema, t int) []byte {
	g.left = g.Budget
	b := g.wire(s, t, g.Intn(3), 2)
	fs := s.T[t-1].F
	if len(fs) == 0 {
		return b
	}
	f := fs[g.Intn(len(fs))]
	if f.M > 0 && (f.K == "msg") && g.P(0.5) {
		in := g.WrongWire(s, f.M)
		if f.C == "map" {
			in = append(AppendVarint(AppendTag(nil, 2, 2), uint64(len(in))), in...)
		}
		return append(AppendVarint(AppendTag(b, f.ID, 2), uint64(len(in))), in...)
	}
	var v []byte
	wt := []int{0, 1, 2, 3, 5}[g.Intn(5)]
	switch wt {
	case 0:
		v = AppendVarint(nil, uint64(g.Intn(300)))
	case 1:
		v = g.Bytes(8)
	case 2:
		v = g.Bytes(g.Intn(9))
		v = append(AppendVarint(nil, uint64(len(v))), v...)
	case 3:
		v = AppendTag(nil, f.ID, 4)
	case 5:
		v = g.Bytes(4)
	}
	if f.C == "map" && g.P(0.8) { // inside the entry
		in := append(AppendTag(nil, 1+g.Intn(2), wt), v...)
		if wt == 3 {
			in = AppendTag(nil, 1, 3)
			in = AppendTag(in, 1, 4)
		}
		return append(AppendVarint(AppendTag(b, f.ID, 2), uint64(len(in))), in...)
	}
	b = append(AppendTag(b, f.ID, wt), v...)
	return append(b, g.wire(s, t, g.Intn(2), 2)...)
}

// EncodeLoose writes m as some well-formed encoder could: packed or not, with
// lengths and varints that are not minimal, fields in any order.
func (g *Gen) EncodeLoose(s *Schema, t int, m *Msg) []byte {
	g.left = g.Budget
	var parts [][]byte
	scalar := func(b []byte, k string, v Bytes) []byte {
		u := lev8(k, v)
		switch WireType(k) {
		case 0:
			return g.varint(b, u, 0.1)
		case 2:
			return append(g.varint(b, uint64(len(v)), 0.1), v...)
		}
		return append(b, v...)
	}
	tag := func(b []byte, id, wt int) []byte { return g.varint(b, uint64(id)<<3|uint64(wt), 0.05) }
	one := func(b []byte, id int, k string, mt int, v Val) []byte {
		b = tag(b, id, WireType(k))
		if k == "msg" {
			x := g.EncodeLoose(s, mt, v.(*Msg))
			return append(g.varint(b, uint64(len(x)), 0.1), x...)
		}
		return scalar(b, k, v.(Bytes))
	}
	for i, f := range s.T[t-1].F {
		var b []byte
		switch f.C {
		case "imp":
			if v := m.F[i].(Bytes); len(v) != 0 && string(v) != string(make([]byte, len(v))) || Width(f.K) == 0 && len(v) > 0 || g.P(0.3) {
				b = one(b, f.ID, f.K, f.M, v)
			}
		case "exp", "one", "emb":
			for _, v := range m.F[i].(List) {
				b = one(b, f.ID, f.K, f.M, v)
			}
		case "rep", "pak":
			l := m.F[i].(List)
			for j := 0; j < len(l); {
				if !Packable(f.K) || g.P(0.3) {
					b = one(b, f.ID, f.K, f.M, l[j])
					j++
					continue
				}
				n := len(l) - j
				if g.P(0.3) {
					n = 1 + g.Intn(n)
				}
				var x []byte
				for ; n > 0; n-- {
					x = scalar(x, f.K, l[j].(Bytes))
					j++
				}
				b = tag(b, f.ID, 2)
				b = append(g.varint(b, uint64(len(x)), 0.1), x...)
			}
		case "map":
			for _, e := range m.F[i].(List) {
				var x []byte
				x = one(x, 1, f.KK, 0, e.(List)[0])
				x = one(x, 2, f.K, f.M, e.(List)[1])
				b = tag(b, f.ID, 2)
				b = append(g.varint(b, uint64(len(x)), 0.1), x...)
			}
		}
		parts = append(parts, b)
	}
	parts = append(parts, m.U)
	g.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}
