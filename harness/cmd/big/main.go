// Command big uses the real prutal on messages with one huge leaf, and records
// what it did for BigTrace.tla, with the bytes run-length encoded.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"

	"verifharness/abs"
	"verifharness/types"

	"github.com/cloudwego/prutal"
)

type level struct {
	A int    `json:"a"`
	Z int    `json:"z"`
	K string `json:"k"`
	N int    `json:"n"`
	C int    `json:"c"`
}

// rle makes maximal runs of b.
func rle(b []byte) [][2]int {
	out := [][2]int{}
	for i := 0; i < len(b); {
		j := i + 1
		for j < len(b) {
			if b[j] != b[i] {
				break
			}
			j++
		}
		out = append(out, [2]int{int(b[i]), j - i})
		i = j
		if len(out) > 300 { // not what it should be anyway
			break
		}
	}
	return out
}

func fill(c, n int) []byte {
	if n == 0 {
		return []byte{}
	}
	b := make([]byte, n)
	b[0] = byte(c)
	for k := 1; k < n; k *= 2 {
		copy(b[k:], b[:k])
	}
	return b
}

func key8(i int) string { return fmt.Sprintf("%08d", i) }

func str(b []byte) string { return unsafe.String(unsafe.SliceData(b), len(b)) }

func build(v []level, i int) *types.Big {
	l := v[i]
	m := &types.Big{A: int32(l.A)}
	if l.Z != 0 {
		z := uint32(l.Z)
		m.Z = &z
	}
	c := uint64(l.C)
	switch l.K {
	case "str":
		m.Str = str(fill(l.C, l.N))
	case "byt":
		m.Byt = fill(l.C, l.N)
	case "ostr":
		m.O = &types.Big_OStr{OStr: str(fill(l.C, l.N))}
	case "pf":
		m.PF = make([]uint32, l.N)
		for i := range m.PF {
			m.PF[i] = uint32(c * 0x01010101)
		}
	case "pd":
		m.PD = make([]float64, l.N)
		for i := range m.PD {
			m.PD[i] = math.Float64frombits(c * 0x0101010101010101)
		}
	case "pv":
		m.PV = make([]int64, l.N)
		for i := range m.PV {
			m.PV[i] = int64(c)
		}
	case "up":
		m.UP = make([]uint64, l.N)
		for i := range m.UP {
			m.UP[i] = 0x20
		}
	case "uf":
		m.UF = make([]uint32, l.N)
		for i := range m.UF {
			m.UF[i] = 0x35353535
		}
	case "mm":
		m.MM = map[uint32]bool{}
		for i := 0; i < l.N; i++ {
			m.MM[uint32(i)] = true
		}
	case "m8":
		m.M8 = map[string]int64{}
		for i := 0; i < l.N; i++ {
			m.M8[key8(i)] = -1
		}
	case "ss":
		m.SS = []string{str(fill(l.C, l.N)), str(fill(l.C, 1))}
	case "mb":
		m.MB = map[int32][]byte{7: fill(l.C, l.N)}
	case "mk":
		m.MK = map[string]uint64{str(fill(l.C, l.N)): 5}
	case "unk":
		m.XXX_unrecognized = append(abs.AppendVarint(abs.AppendTag(nil, 99, 2), uint64(l.N)), fill(l.C, l.N)...)
	case "sub":
		m.Sub = build(v, i+1)
	case "rep":
		m.Rep = []*types.Big{build(v, i+1), {}}
	case "ms":
		m.MS = map[string]*types.Big{"k": build(v, i+1)}
	case "one":
		m.O = &types.Big_One{One: build(v, i+1)}
	}
	return m
}

// project reads the levels back; anything out of place becomes "bad".
func project(m *types.Big, v []level) []level {
	l := level{A: int(m.A), K: "none"}
	if m.Z != nil {
		l.Z = int(*m.Z)
	}
	parts := 0
	has := func(k string) { parts++; l.K = k }
	uni := func(b []byte) {
		l.N, l.C = len(b), 0
		if len(b) > 0 {
			l.C = int(b[0])
			if !bytes.Equal(b[1:], b[:len(b)-1]) {
				l.K = "bad"
			}
		}
	}
	var sub *types.Big
	if m.Str != "" {
		has("str")
		uni([]byte(m.Str))
	}
	if len(m.Byt) > 0 {
		has("byt")
		uni(m.Byt)
	}
	if len(m.PF) > 0 {
		has("pf")
		uni(unsafe.Slice((*byte)(unsafe.Pointer(&m.PF[0])), 4*len(m.PF)))
		l.N = len(m.PF)
	}
	if len(m.PD) > 0 {
		has("pd")
		uni(unsafe.Slice((*byte)(unsafe.Pointer(&m.PD[0])), 8*len(m.PD)))
		l.N = len(m.PD)
	}
	if len(m.PV) > 0 {
		has("pv")
		l.N, l.C = len(m.PV), int(m.PV[0])
		for _, x := range m.PV {
			if x != m.PV[0] {
				l.K = "bad"
			}
		}
	}
	if len(m.UP) > 0 {
		has("up")
		l.N = len(m.UP)
		for _, x := range m.UP {
			if x != 0x20 {
				l.K = "bad"
			}
		}
	}
	if len(m.UF) > 0 {
		has("uf")
		l.N = len(m.UF)
		for _, x := range m.UF {
			if x != 0x35353535 {
				l.K = "bad"
			}
		}
	}
	if len(m.MM) > 0 {
		has("mm")
		l.N = len(m.MM)
		for i := 0; i < l.N; i++ {
			if !m.MM[uint32(i)] {
				l.K = "bad"
			}
		}
	}
	if len(m.M8) > 0 {
		has("m8")
		l.N = len(m.M8)
		for i := 0; i < l.N; i++ {
			if m.M8[key8(i)] != -1 {
				l.K = "bad"
			}
		}
	}
	if len(m.SS) > 0 {
		has("ss")
		uni([]byte(m.SS[0]))
		if len(m.SS) != 2 || m.SS[1] != string(fill(l.C, 1)) {
			l.K = "bad"
		}
	}
	if len(m.MB) > 0 {
		has("mb")
		uni(m.MB[7])
		if len(m.MB) != 1 {
			l.K = "bad"
		}
	}
	for k, x := range m.MK {
		has("mk")
		uni([]byte(k))
		if x != 5 {
			l.K = "bad"
		}
	}
	if u := m.XXX_unrecognized; len(u) > 0 {
		has("unk")
		i := 2
		for n := 0; i < len(u) && n == 0; i++ {
			if u[i] < 128 {
				n = 1
			}
		}
		uni(u[i:])
		if !bytes.Equal(u[:i], abs.AppendVarint(abs.AppendTag(nil, 99, 2), uint64(len(u)-i))) {
			l.K = "bad"
		}
	}
	if m.Sub != nil {
		has("sub")
		sub = m.Sub
	}
	if len(m.Rep) > 0 {
		has("rep")
		sub = m.Rep[0]
		if len(m.Rep) != 2 || len(project(m.Rep[1], nil)) != 1 || project(m.Rep[1], nil)[0] != (level{K: "none"}) {
			l.K = "bad"
		}
	}
	if len(m.MS) > 0 {
		has("ms")
		sub = m.MS["k"]
		if len(m.MS) != 1 {
			l.K = "bad"
		}
	}
	switch o := m.O.(type) {
	case *types.Big_One:
		has("one")
		sub = o.One
	case *types.Big_OStr:
		has("ostr")
		uni([]byte(o.OStr))
	}
	if parts > 1 {
		l.K = "bad"
	}
	v = append(v, l)
	if sub != nil {
		return project(sub, v)
	}
	return v
}

// encode is the driver's own encoder.
func encode(v []level, i int) (b []byte) {
	l := v[i]
	delim := func(id int, p ...[]byte) []byte {
		n := 0
		for _, x := range p {
			n += len(x)
		}
		out := abs.AppendVarint(abs.AppendTag(make([]byte, 0, n+12), id, 2), uint64(n))
		for _, x := range p {
			out = append(out, x...)
		}
		return out
	}
	if l.A != 0 {
		b = append(b, 8, byte(l.A))
	}
	switch l.K {
	case "str":
		b = append(b, delim(2, fill(l.C, l.N))...)
	case "byt":
		b = append(b, delim(16, fill(l.C, l.N))...)
	case "ostr":
		b = append(b, delim(301, fill(l.C, l.N))...)
	case "pf":
		b = append(b, delim(2047, fill(l.C, 4*l.N))...)
	case "pd":
		b = append(b, delim(262144, fill(l.C, 8*l.N))...)
	case "pv":
		b = append(b, delim(2048, fill(l.C, l.N))...)
	case "up":
		b = append(b, fill(0x20, 2*l.N)...)
	case "uf":
		b = append(b, fill(0x35, 5*l.N)...)
	case "mm":
		for i := 0; i < l.N; i++ {
			b = append(b, delim(21, []byte{13, byte(i), byte(i >> 8), byte(i >> 16), byte(i >> 24), 16, 1})...)
		}
	case "m8":
		for i := 0; i < l.N; i++ {
			b = append(b, delim(22, []byte{10, 8}, []byte(key8(i)), []byte{16, 1})...)
		}
	case "ss":
		b = append(append(b, delim(5, fill(l.C, l.N))...), delim(5, fill(l.C, 1))...)
	case "mb":
		b = append(b, delim(18, []byte{8, 7}, delim(2, fill(l.C, l.N)))...)
	case "mk":
		b = append(b, delim(20, delim(1, fill(l.C, l.N)), []byte{16, 5})...)
	case "sub":
		b = append(b, delim(3, encode(v, i+1))...)
	case "rep":
		b = append(append(b, delim(17, encode(v, i+1))...), delim(17)...)
	case "ms":
		b = append(b, delim(19, []byte{10, 1, 'k'}, delim(2, encode(v, i+1)))...)
	case "one":
		b = append(b, delim(300, encode(v, i+1))...)
	}
	if l.Z != 0 {
		b = append(abs.AppendTag(b, 536870911, 0), byte(l.Z))
	}
	if l.K == "unk" {
		b = append(b, delim(99, fill(l.C, l.N))...)
	}
	return b
}

var ev []string

func emit(m map[string]any) {
	j, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	ev = append(ev, string(j))
}

func guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			emit(map[string]any{"op": "crash", "what": strings.Split(fmt.Sprint(r), "\n")[0]})
			err = fmt.Errorf("panic")
		}
	}()
	return f()
}

// spelt tells whether the encoding is a matter of lengths: maps are written in any order.
func spelt(v []level) bool { k := v[len(v)-1].K; return k != "mm" && k != "m8" }

func show(v []level, b []byte) [][2]int {
	if !spelt(v) {
		return [][2]int{}
	}
	return rle(b)
}

// clobber overwrites b, and makes the collector reuse what is not referenced.
func clobber(g *abs.Gen, b []byte) {
	x := byte(1 + g.Intn(255))
	for i := range b {
		b[i] ^= x
	}
	runtime.GC()
	for k := 0; k < 4; k++ {
		fill(0xee, len(b)/2+100)
	}
}

// later is a message to merge into one like v.
func later(g *abs.Gen, v []level) []level {
	w := append([]level{}, v...)
	for i := range w {
		w[i].A, w[i].Z = g.Intn(128)*g.Intn(2), g.Intn(128)*g.Intn(2)
	}
	l := &w[len(w)-1]
	l.N = max(1, l.N-g.Intn(20)+g.Intn(20))
	switch l.K {
	case "str", "byt", "ostr", "mb":
		l.C = 1 + g.Intn(255)
	case "mk":
		l.N = v[len(v)-1].N
	}
	return w
}

func use(prof string, g *abs.Gen, v []level) {
	last := v[len(v)-1].K
	switch prof {
	case "P08":
		m, y := build(v, 0), &types.Big{}
		err := guard(func() error {
			b, err := prutal.Marshal(m)
			if err != nil {
				return err
			}
			return prutal.Unmarshal(b, y)
		})
		emit(map[string]any{"op": "rt", "m": v, "ok": err == nil, "post": project(y, nil)})
		in := encode(v, 0)
		y = &types.Big{}
		err = guard(func() error { return prutal.Unmarshal(in, y) })
		emit(map[string]any{"op": "dec", "m": v, "ok": err == nil, "in": show(v, in), "post": project(y, nil)})
	case "P06":
		if !spelt(v) {
			return
		}
		in := encode(v, 0)
		shown := rle(in)
		for _, y := range []any{&types.Big{}, &types.BigOld{}} {
			var b []byte
			in := append([]byte{}, in...)
			err := guard(func() (err error) {
				if err = prutal.Unmarshal(in, y); err == nil {
					clobber(g, in)
					b, err = prutal.Marshal(y)
				}
				return
			})
			emit(map[string]any{"op": "keep", "m": v, "ok": err == nil, "in": shown, "out": rle(b)})
		}
	case "P09":
		for _, l := range v {
			if l.K == "rep" || l.K == "ss" || l.K == "unk" {
				return
			}
		}
		w := later(g, v)
		y := build(v, 0)
		if g.P(0.5) {
			y = &types.Big{}
			if err := guard(func() error { return prutal.Unmarshal(encode(v, 0), y) }); err != nil {
				emit(map[string]any{"op": "merge", "m": v, "w": w, "ok": false, "post": v})
				return
			}
		}
		err := guard(func() error { return prutal.Unmarshal(encode(w, 0), y) })
		emit(map[string]any{"op": "merge", "m": v, "w": w, "ok": err == nil, "post": project(y, nil)})
	case "P10":
		in := encode(v, 0)
		y, y2 := &types.Big{}, &types.Big{}
		w := later(g, v)
		err := guard(func() error {
			if err := prutal.Unmarshal(in, y); err != nil {
				return err
			}
			clobber(g, in)
			in = encode(w, 0)
			if err := prutal.Unmarshal(in, y2); err != nil {
				return err
			}
			clobber(g, in)
			return nil
		})
		emit(map[string]any{"op": "own", "m": v, "ok": err == nil, "post": project(y, nil)})
		emit(map[string]any{"op": "own", "m": w, "ok": err == nil, "post": project(y2, nil)})
	case "P01":
		m, y := build(v, 0), &types.Big{}
		err := guard(func() error {
			b, err := prutal.Marshal(m)
			if err != nil {
				return err
			}
			return prutal.Unmarshal(b, y)
		})
		emit(map[string]any{"op": "rt", "m": v, "ok": err == nil, "post": project(y, nil)})
	case "P02":
		if !spelt(v) {
			return
		}
		m := build(v, 0)
		var b []byte
		pre := g.Bytes(g.Intn(20))
		err := guard(func() (err error) {
			if g.P(0.5) {
				b, err = prutal.MarshalAppend(pre[:len(pre):len(pre)], m)
				if err == nil && !bytes.HasPrefix(b, pre) {
					return fmt.Errorf("prefix changed")
				}
				b = b[min(len(b), len(pre)):]
				return
			}
			b, err = prutal.Marshal(m)
			return
		})
		emit(map[string]any{"op": "enc", "m": v, "ok": err == nil, "out": rle(b)})
	case "P03":
		m := build(v, 0)
		var b []byte
		var n int
		err := guard(func() (err error) {
			if n, err = prutal.Size(m); err != nil {
				return
			}
			b, err = prutal.Marshal(m)
			return
		})
		emit(map[string]any{"op": "size", "m": v, "ok": err == nil, "n": n, "len": len(b)})
	case "P04":
		in := encode(v, 0)
		y := &types.Big{}
		err := guard(func() error { return prutal.Unmarshal(in, y) })
		emit(map[string]any{"op": "dec", "m": v, "ok": err == nil, "in": show(v, in), "post": project(y, nil)})
	case "P05":
		in := encode(v, 0)
		if len(in) == 0 || len(v) == 1 && (last == "mm" || last == "m8" || last == "up" || last == "uf") { // cut between elements it is valid
			return
		}
		cut := len(in) - 1
		// or somewhere in the longest run
		if k := g.Intn(3); k > 0 {
			at, best, pos := 0, 0, 0
			for _, r := range rle(in) {
				if r[1] > best {
					best, at = r[1], pos
				}
				pos += r[1]
			}
			if best > 40 {
				cut = at + g.Intn(best)
			}
		}
		y := &types.Big{}
		acc := false
		guard(func() error { acc = prutal.Unmarshal(in[:cut:cut], y) == nil; return nil })
		emit(map[string]any{"op": "bad", "m": v, "ok": true, "cut": cut, "accepted": acc})
	}
}

var leaves = []string{"str", "byt", "ostr", "pf", "pd", "pv", "ss", "mb", "mk", "unk", "up", "uf", "mm", "m8"}
var links = []string{"sub", "rep", "ms", "one"}

func main() {
	prof := flag.String("profile", "", "")
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 100, "sessions")
	from := flag.Int("from", 0, "first session")
	step := flag.Int("step", 1, "")
	out := flag.String("out", "", "trace file, appended to")
	cur := flag.String("cur", "", "file that names the session being run")
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	f, err := os.OpenFile(*out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	huge := os.Getenv("BIG_HUGE") != ""
	for k := *from; k < *n; k += *step {
		os.WriteFile(*cur, []byte(fmt.Sprint(k)), 0o644)
		dog := time.AfterFunc(120*time.Second, func() {
			fmt.Fprintln(os.Stderr, "fatal error: HANG in session")
			os.Exit(97)
		})
		ev = nil
		g := abs.NewGen(*seed*999983 + int64(k)*7907)
		// leaf kind and first link are enumerated, the rest is random
		leaf := leaves[k%len(leaves)]
		first := (k / len(leaves)) % (len(links) + 1)
		bounds := []int{1 << 7, 1 << 14, 1 << 21}
		rounds := 8
		if huge {
			bounds, rounds = []int{1 << 28}, 1
		}
		for r := 0; r < rounds; r++ {
			for _, b := range bounds {
				var v []level
				small := func() int {
					if g.P(0.5) {
						return 0
					}
					return 1 + g.Intn(127)
				}
				if first > 0 {
					v = append(v, level{A: small(), Z: small(), K: links[first-1]})
				}
				for g.P(0.45) && len(v) < 8 {
					v = append(v, level{A: small(), Z: small(), K: links[g.Intn(len(links))]})
				}
				w := map[string]int{"pf": 4, "pd": 8, "up": 2, "uf": 5, "mm": 9, "m8": 15}[leaf]
				if w == 0 {
					w = 1
				}
				// below the boundary, so that some level crosses it
				sz := b + 3 - g.Intn(8)
				if g.P(0.6) {
					sz = b - g.Intn(14*(len(v)+1))
				}
				c := 1 + g.Intn(255)
				if leaf == "pv" {
					c = 1 + g.Intn(127)
				}
				n := max(1, sz/w)
				if (w > 1 || leaf == "pv") && g.P(0.4) { // where lists and maps grow
					n = max(1, 1<<g.Intn(15)+g.Intn(4)-2)
				}
				if leaf == "up" || leaf == "uf" || leaf == "mm" || leaf == "m8" {
					c = 0
				}
				v = append(v, level{A: small(), Z: small(), K: leaf, N: n, C: c})
				use(*prof, g, v)
				if b > 1<<20 {
					runtime.GC()
				}
			}
		}
		dog.Stop()
		if len(ev) > 0 {
			fmt.Fprintf(f, `{"id":%d,"S":[],"ev":[%s]}`+"\n", k, strings.Join(ev, ","))
		}
	}
	f.Close()
	os.WriteFile(*cur, []byte("done"), 0o644)
}
