// Command depth nests messages up to, at and far beyond the limit, for DepthTrace.tla.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"

	"verifharness/abs"
	"verifharness/types"

	"github.com/cloudwego/prutal"
)

type D = types.Deep

type branch struct {
	K   string   `json:"k"`
	N   int      `json:"n"`
	W   int      `json:"w"` // so many siblings, 0 for one
	Sub []branch `json:"sub"`
}

var links = []string{"P", "L", "A", "M", "S", "O", "B", "E", "T", "F", "U", "G"}

func link(d *D, k string, sub *D) {
	switch k {
	case "P":
		d.P = sub
	case "L":
		d.L = append(d.L, sub)
	case "A":
		d.A = append(d.A, *sub)
	case "M":
		if d.M == nil {
			d.M = map[int32]*D{}
		}
		d.M[int32(len(d.M))] = sub
	case "S":
		if d.S == nil {
			d.S = map[string]D{}
		}
		d.S[fmt.Sprint(len(d.S))] = *sub
	case "T":
		if d.T == nil {
			d.T = map[string]*D{}
		}
		d.T[fmt.Sprint(len(d.T))] = sub
	case "F":
		if d.F == nil {
			d.F = map[uint64]D{}
		}
		d.F[uint64(len(d.F))] = *sub
	case "U":
		if d.U == nil {
			d.U = map[int64]*D{}
		}
		d.U[-int64(len(d.U))] = sub
	case "G":
		if d.G == nil {
			d.G = map[uint32]D{}
		}
		d.G[uint32(len(d.G))] = *sub
	case "O":
		d.O = &types.Deep_OM{M: sub}
	case "B":
		if d.B == nil {
			d.B = map[bool]*D{}
		}
		d.B[len(d.B) > 0] = sub
	case "E":
		d.E.D = sub
	}
}

func build(t []branch, leaf int32) *D {
	d := &D{V: leaf}
	for _, b := range t {
		for w := 1; w < b.W; w++ {
			link(d, b.K, &D{})
		}
		x := build(b.Sub, leaf+1)
		for i := 1; i < b.N; i++ {
			y := &D{}
			link(y, b.K, x)
			x = y
		}
		link(d, b.K, x)
	}
	return d
}

// rev builds the wire form back to front.
type rev struct{ b []byte }

func (r *rev) put(x ...byte) {
	for i := len(x) - 1; i >= 0; i-- {
		r.b = append(r.b, x[i])
	}
}
func (r *rev) wrap(id, from int) {
	n := len(r.b) - from
	r.put(abs.AppendVarint(abs.AppendTag(nil, id, 2), uint64(n))...)
}

// message emits the tree; the fields of a tree come out in reverse order.
func (r *rev) message(t []branch) {
	for _, b := range t {
		for w := 1; w < b.W; w++ {
			r.put(abs.AppendTag(nil, 2, 2)...)
			r.b = append(r.b[:len(r.b)-1], 0, r.b[len(r.b)-1])
		}
		from := len(r.b)
		r.message(b.Sub)
		for i := 0; i < b.N; i++ {
			switch b.K {
			case "P":
				r.wrap(1, from)
			case "L":
				r.wrap(2, from)
			case "A":
				r.wrap(3, from)
			case "M":
				r.wrap(2, from)
				r.put(8, byte(from&0x3f))
				r.wrap(4, from)
			case "S", "T":
				r.wrap(2, from)
				k := fmt.Sprint(from % 100)
				r.put(append([]byte{10, byte(len(k))}, k...)...)
				r.wrap(map[string]int{"S": 5, "T": 9}[b.K], from)
			case "F":
				r.wrap(2, from)
				r.put(9, byte(from), 0, 0, 0, 0, 0, 0, 0)
				r.wrap(2000, from)
			case "U":
				r.wrap(2, from)
				r.put(8, byte(from&0x3f))
				r.wrap(10, from)
			case "G":
				r.wrap(2, from)
				r.put(13, byte(from), 0, 0, 0)
				r.wrap(11, from)
			case "O":
				r.wrap(6, from)
			case "B":
				r.wrap(2, from)
				r.put(8, byte(from&1))
				r.wrap(7, from)
			case "E":
				r.wrap(1, from)
				r.wrap(8, from)
			}
		}
	}
}

func wire(t []branch) []byte {
	r := &rev{}
	r.message(t)
	for i, j := 0, len(r.b)-1; i < j; i, j = i+1, j-1 {
		r.b[i], r.b[j] = r.b[j], r.b[i]
	}
	return r.b
}

func depth(d *D) int {
	m := 0
	up := func(n int) {
		if n > m {
			m = n
		}
	}
	if d.P != nil {
		up(depth(d.P))
	}
	for _, x := range d.L {
		up(depth(x))
	}
	for i := range d.A {
		up(depth(&d.A[i]))
	}
	for _, x := range d.M {
		up(depth(x))
	}
	for _, x := range d.S {
		up(depth(&x))
	}
	for _, x := range d.T {
		up(depth(x))
	}
	for _, x := range d.F {
		up(depth(&x))
	}
	for _, x := range d.B {
		up(depth(x))
	}
	for _, x := range d.U {
		up(depth(x))
	}
	for _, x := range d.G {
		up(depth(&x))
	}
	if o, ok := d.O.(*types.Deep_OM); ok && o.M != nil {
		up(depth(o.M))
	}
	if d.E.D != nil {
		up(1 + depth(d.E.D))
	}
	return m + 1
}

func tree(g *rand.Rand, budget, level int) []branch {
	// a main path that uses up exactly the budget, and side branches that stay below it
	if budget <= 0 {
		return []branch{}
	}
	k := links[g.Intn(len(links))]
	cost := 1
	if k == "E" {
		cost = 2
	}
	if cost > budget {
		k, cost = "P", 1
	}
	n := budget / cost
	if level > 0 && n > 1 && g.Intn(4) != 0 {
		n = 1 + g.Intn(n)
	}
	out := []branch{{k, n, 0, tree(g, budget-n*cost, level-1)}}
	used := map[string]bool{k: true}
	for g.Intn(3) == 0 && len(out) < 4 {
		k2 := links[g.Intn(len(links))]
		if used[k2] || budget < 2 {
			continue
		}
		used[k2] = true
		b := g.Intn(budget)
		if g.Intn(2) == 0 && b > 5 {
			b = g.Intn(5)
		}
		if k2 == "E" {
			b /= 2
		}
		if b > 0 {
			out = append(out, branch{k2, b, 0, []branch{}})
		}
	}
	if g.Intn(8) == 0 && !used["L"] {
		out = append(out, branch{"L", 1, 900 + g.Intn(300), []branch{}})
	}
	g.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

var ev []string

func emit(m map[string]any) { j, _ := json.Marshal(m); ev = append(ev, string(j)) }

func guard(f func()) {
	defer func() {
		if r := recover(); r != nil {
			emit(map[string]any{"op": "crash", "what": strings.Split(fmt.Sprint(r), "\n")[0]})
		}
	}()
	f()
}

func main() {
	_ = flag.String("profile", "", "")
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 100, "sessions")
	from := flag.Int("from", 0, "first session")
	step := flag.Int("step", 1, "")
	out := flag.String("out", "", "trace file, appended to")
	cur := flag.String("cur", "", "file that names the session being run")
	flag.Parse()
	debug.SetMaxStack(900 << 20)
	f, err := os.OpenFile(*out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	for k := *from; k < *n; k += *step {
		os.WriteFile(*cur, []byte(fmt.Sprint(k)), 0o644)
		ev = nil
		g := rand.New(rand.NewSource(*seed*1000033 + int64(k)*6947))
		budgets := []int{g.Intn(30), 990 + g.Intn(20), 998, 999, 1000, 1001 + g.Intn(3000)}
		for i, b := range budgets {
			t := tree(g, b, 1+g.Intn(6))
			if k < len(links) && i >= 2 && i <= 4 { // every link on its own, at the boundary
				c := 1
				if links[k] == "E" {
					c = 2
				}
				t = []branch{{links[k], b / c, 0, []branch{}}}
				if b%c == 1 {
					t = []branch{{"P", 1, 0, []branch{{links[k], b / c, 0, []branch{}}}}}
				}
			}
			guard(func() {
				d := build(t, 1)
				b, err := prutal.Marshal(d)
				n := len(b)
				if err != nil {
					n = -1
				}
				emit(map[string]any{"op": "marshal", "tree": t, "ok": err == nil, "n": n})
				n, err = prutal.Size(d)
				emit(map[string]any{"op": "size", "tree": t, "ok": err == nil, "n": n})
				if len(b) > 0 && err == nil {
					x := &D{}
					err := prutal.Unmarshal(b, x)
					emit(map[string]any{"op": "unmarshal", "tree": t, "ok": err == nil, "depth": depth(x)})
				}
			})
			guard(func() {
				x := &D{}
				err := prutal.Unmarshal(wire(t), x)
				dp := 0
				if err == nil {
					dp = depth(x)
				}
				emit(map[string]any{"op": "unmarshal", "tree": t, "ok": err == nil, "depth": dp})
			})
		}
		// bombs
		for _, n := range []int{1 + g.Intn(40000), 60000} {
			t := []branch{{links[g.Intn(len(links))], n, 0, []branch{}}}
			guard(func() {
				x := &D{}
				err := prutal.Unmarshal(wire(t), x)
				dp := 0
				if err == nil {
					dp = depth(x)
				}
				emit(map[string]any{"op": "unmarshal", "tree": t, "ok": err == nil, "depth": dp})
			})
		}
		// a value that contains itself
		for i := 0; i < 2; i++ {
			ks := ""
			guard(func() {
				root := &D{V: 1}
				x := root
				for j, m := 0, g.Intn(4); j < m; j++ {
					k := []string{"P", "L", "M", "O", "B", "E", "T", "U"}[g.Intn(7)]
					ks += k
					y := &D{}
					link(x, k, y)
					x = y
				}
				k := []string{"P", "L", "M", "O", "B", "E", "T", "U"}[g.Intn(7)]
				ks += k
				link(x, k, root)
				_, err := prutal.Marshal(root)
				emit(map[string]any{"op": "cycle", "what": ks, "ok": err == nil})
				_, err = prutal.Size(root)
				emit(map[string]any{"op": "cycle", "what": "size " + ks, "ok": err == nil})
			})
		}
		if k == 0 { // as many as an input of 16 MB can have
			guard(func() {
				emit(map[string]any{"op": "groups", "n": 16 << 20, "ok": prutal.Unmarshal(bytes.Repeat(abs.AppendTag(nil, 14, 3), 16<<20), &D{}) == nil})
			})
		}
		for _, n := range []int{g.Intn(101), 1 + g.Intn(30000), 200000} {
			guard(func() {
				b := append(bytes.Repeat(abs.AppendTag(nil, 3000, 3), n), bytes.Repeat(abs.AppendTag(nil, 3000, 4), n)...)
				err := prutal.Unmarshal(b, &D{})
				emit(map[string]any{"op": "groups", "n": n, "ok": err == nil})
				err = prutal.Unmarshal(b[:len(b)/2], &D{})
				if n > 0 && err == nil {
					emit(map[string]any{"op": "crash", "what": "unterminated groups accepted"})
				}
			})
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, `{"id":%d,"S":[],"ev":[%s]}`+"\n", k, strings.Join(ev, ","))
		f.Write(b.Bytes())
	}
	f.Close()
	os.WriteFile(*cur, []byte("done"), 0o644)
}
