package pgen

import (
	"fmt"

	"verifharness/abs"
)

// Systematic sets: number k of each.

func newFile(i int, syn string) *File {
	return &File{Path: fmt.Sprintf("f%d.proto", i), Syn: syn, Pkg: Path(fmt.Sprintf("p%d", i), "."), Imps: []Imp{}, GoImp: Path(fmt.Sprintf("x/g%d", i), "/"),
		MImp: []Name{}, Dirs: []string{}, D: []*Def{}}
}

func (f *File) add(k, n string, up int) *Def {
	d := &Def{K: k, N: N(n), Up: up, Dirs: []string{}, Res: [][2]int{}, ResN: []Name{}, F: []*Field{}, O: []Name{}, V: []*Val{}, M: []*Rpc{}}
	f.D = append(f.D, d)
	return d
}

func (d *Def) field(n string, num int, t string) *Field {
	x := &Field{N: N(n), Num: num, Dirs: []string{}}
	if t[0] >= 'a' && t[0] <= 'z' {
		x.T = Ref{S: t, R: []Name{}}
	} else if t[0] == '.' {
		x.T = Ref{R: Path(t[1:], "."), Dot: true}
	} else {
		x.T = Ref{R: Path(t, ".")}
	}
	d.F = append(d.F, x)
	return x
}

func (d *Def) val(n string, v int) *Val {
	x := &Val{N: N(n), V: v, Dirs: []string{}}
	d.V = append(d.V, x)
	return x
}

var syns = []string{"proto2", "proto3", "2023"}

func label(syn string) string {
	if syn == "proto2" {
		return "optional"
	}
	return ""
}

const NImports = 729 * 2

// Imports is the k-th import graph of three files, each edge missing, plain or public.
// The first file refers to a message of the third or of the second.
func Imports(g *abs.Gen, k int) *Set {
	s := &Set{Root: 1, Getter: true}
	for i := 1; i <= 3; i++ {
		f := newFile(i, "proto3")
		f.add("msg", fmt.Sprintf("M%d", i), 0)
		s.F = append(s.F, f)
	}
	to := 3 - k/729
	for i := 1; i <= 3; i++ {
		for j := 1; j <= 3; j++ {
			if i == j {
				continue
			}
			if e := k % 3; e > 0 {
				s.F[i-1].Imps = append(s.F[i-1].Imps, Imp{j, []string{"", "public"}[e-1]})
			}
			k /= 3
		}
	}
	s.F[0].D[0].field("a", 1, fmt.Sprintf(".p%d.M%d", to, to))
	return s
}

var numbers = []int{0, 1, 2, 15, 16, 18999, 19000, 19001, 19998, 19999, 20000, 1<<29 - 2, 1<<29 - 1, 1 << 29, 1<<31 - 1}

const NValid = 3*15 + 3*64 + 3*72 + NFlavours

// flavours of fields, with the places a message can be at
const NFlavours = 5 * 5 * 4 * 3

// Flavour is about one rule broken, or nearly, by fields of all flavours at all places.
func Flavour(g *abs.Gen, k int) *Set {
	digit := func(n int) int {
		d := k % n
		k /= n
		return d
	}
	a, b, place, rule := digit(5), digit(5), digit(4), digit(3)
	syn := syns[(a+b+place)%3]
	f := newFile(1, syn)
	s := &Set{Root: 1, F: []*File{f}}
	d := f.add("msg", "M", 0)
	switch place {
	case 1, 2: // nested, deeply nested
		d = f.add("msg", "N", 1)
		if place == 2 {
			d = f.add("msg", "O", 2)
		}
	case 3: // imported
		h := newFile(2, syn)
		f.Imps = append(f.Imps, Imp{2, ""})
		s.F = append(s.F, h)
		d = h.add("msg", "M", 0)
	}
	add := func(flavour int, n string, num int) {
		x := d.field(n, num, "int32")
		switch flavour {
		case 0:
			x.Lab = label(syn)
		case 1:
			x.Lab = "repeated"
		case 2:
			x.Lab, x.Key = "map", "string"
		default:
			x.O = flavour - 2
		}
	}
	d.O = []Name{N("o1"), N("o2")}
	if b == 3 { // the second oneof member comes first
		d.O = []Name{N("o2"), N("o1")}
	}
	switch rule {
	case 0: // the same number twice
		add(a, "x", 5)
		add(b, "y", 5)
	case 1: // reserved, by number or name
		d.Res = [][2]int{{5, 6}}
		add(a, "x", 4)
		add(b, "y", 6-a%2)
	default:
		d.ResN = []Name{N("z"), N("y")}
		add(a, "x", 18999)
		add(b, []string{"x2", "y"}[a%2], 19000-a/2)
	}
	used := map[int]bool{}
	var os []Name
	for _, x := range d.F { // oneofs in order of their members, without empty ones
		if x.O > 0 && !used[x.O] {
			used[x.O] = true
			os = append(os, d.O[x.O-1])
		}
	}
	if len(os) == 1 || (len(os) == 2 && d.F[0].O == 2) {
		for _, x := range d.F {
			if x.O > 0 && (len(os) == 1 || x.O == 2) {
				x.O = 1
			} else if x.O > 0 {
				x.O = 2
			}
		}
	}
	d.O = append([]Name{}, os...)
	return s
}

// Valid is about numbers: at the ends of what is allowed, and around reserved ranges.
func Valid(g *abs.Gen, k int) *Set {
	if k >= NValid-NFlavours {
		return Flavour(g, k-(NValid-NFlavours))
	}
	syn := syns[k%3]
	k /= 3
	f := newFile(1, syn)
	s := &Set{Root: 1, F: []*File{f}}
	switch {
	case k < 15:
		d := f.add("msg", "M", 0)
		d.field("a", numbers[k], "int32").Lab = label(syn)
		d.field("b", 7, "int32").Lab = label(syn)
	case k < 15+64: // ranges [3,5] and [8,8] in some order, and a field
		k -= 15
		d := f.add("msg", "M", 0)
		d.Res = [][2]int{{3, 5}, {8, 8}}
		if k%2 == 1 {
			d.Res = [][2]int{{8, 8}, {3, 5}}
		}
		if k%4 > 1 {
			d.Res = append(d.Res, [2]int{20, 1<<29 - 1})
		}
		d.field("a", []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 18, 19, 20, 21, 1<<29 - 1, 100}[k/4], "int32").Lab = label(syn)
	default:
		k -= 15 + 64
		d := f.add("enum", "E", 0)
		d.Res = [][2]int{{3, 5}, {8, 8}}
		if k%2 == 1 {
			d.Res = [][2]int{{8, 8}, {3, 5}}
		}
		if k%4 > 1 {
			d.Res = append(d.Res, [2]int{20, []int{1<<31 - 1, 1<<29 - 1}[k%2]})
		}
		d.val("ZERO", 0)
		d.val("V", []int{-1, 2, 3, 4, 5, 6, 7, 8, 9, -8, 18, 19, 20, 21, 1<<31 - 1, -(1 << 31), 1<<29 - 1, 1 << 29}[k/4])
	}
	return s
}

// variants of a field's label and presence
var variants = map[string][]string{
	"proto2": {"optional", "required", "repeated", "repeated+packed", "repeated-packed", "map", "oneof"},
	"proto3": {"", "optional", "repeated", "repeated+packed", "repeated-packed", "map", "oneof"},
	"2023":   {"", "EXPLICIT", "IMPLICIT", "LEGACY_REQUIRED", "repeated", "repeated+EXPANDED", "repeated+PACKED", "map", "oneof"},
}

type fieldCase struct{ syn, fp, enc, variant, ptr string }

var fieldCases = func() (cs []fieldCase) {
	for _, syn := range syns {
		fps, encs := []string{""}, []string{""}
		if syn == "2023" {
			fps, encs = []string{"", "EXPLICIT", "IMPLICIT"}, []string{"", "EXPANDED", "PACKED"}
		}
		for _, fp := range fps {
			for _, enc := range encs {
				for _, v := range variants[syn] {
					rep := len(v) >= 8 && v[:8] == "repeated"
					if enc != "" && !rep || rep && fp != "" {
						continue
					}
					for _, ptr := range []string{"", "no_pointer", "nullable=false", "nullable=true", "msg no_pointer"} {
						cs = append(cs, fieldCase{syn, fp, enc, v, ptr})
					}
				}
			}
		}
	}
	return
}()

var NFields = len(fieldCases)

// Fields has one field of each kind under the k-th combination of syntax, features, label and pointer options.
func Fields(g *abs.Gen, k int) *Set {
	c := fieldCases[k]
	f := newFile(1, c.syn)
	f.FP, f.Enc = c.fp, c.enc
	s := &Set{Root: 1, F: []*File{f}, Getter: true}
	d := f.add("msg", "M", 0)
	f.add("msg", "Sub", 0).field("a", 1, "int32").Lab = label(c.syn)
	e := f.add("enum", "E", 1)
	e.val("ZERO", 0)
	e.val("ONE", 1)
	kinds := append(append([]string{}, abs.Kinds...), "Sub", "E")
	if c.variant == "oneof" {
		d.O = append(d.O, N("choice"))
	}
	if c.ptr == "msg no_pointer" {
		d.Dirs = append(d.Dirs, "no_pointer")
	}
	for i, t := range kinds {
		if c.variant == "IMPLICIT" && t == "Sub" {
			continue
		}
		packable := t == "E" || (t != "Sub" && abs.Packable(t))
		x := d.field(fmt.Sprintf("f_%s", t), i+1, t)
		switch v := c.variant; v {
		case "optional", "required", "repeated":
			x.Lab = v
		case "repeated+packed", "repeated-packed", "repeated+EXPANDED", "repeated+PACKED":
			x.Lab = "repeated"
			switch {
			case !packable:
			case v == "repeated+packed":
				x.Pk = "true"
			case v == "repeated-packed":
				x.Pk = "false"
			default:
				x.Enc = v[len("repeated+"):]
			}
		case "map":
			x.Lab, x.Key = "map", keyKinds[i%len(keyKinds)]
		case "oneof":
			x.O = 1
		case "EXPLICIT", "IMPLICIT", "LEGACY_REQUIRED":
			x.FP = v
		}
		switch c.ptr {
		case "no_pointer":
			x.Dirs = append(x.Dirs, "no_pointer")
		case "nullable=false":
			x.Null = "false"
		case "nullable=true":
			x.Null = "true"
		}
	}
	return s
}

const NDecor = 3 * 3 * 4 * 2 * 2 * 2

// Decor is the k-th combination of unknown field and enum options at the places they can be written.
func Decor(g *abs.Gen, k int) *Set {
	digit := func(n int) int {
		d := k % n
		k /= n
		return d
	}
	f := newFile(1, syns[1])
	s := &Set{Root: 1, F: []*File{f}}
	opt := func(i int) string { return []string{"", "true", "false"}[i] }
	dir := func(i int, on, off string) []string { return [][]string{{}, {on}, {off}}[i] }
	a, b, c := digit(3), digit(3), digit(4)
	f.Unrec = opt(a)
	f.Dirs = append(f.Dirs, dir(b, "unknown_fields", "no_unknown_fields")...)
	for i := 0; i < 9; i++ { // one message for each
		m := f.add("msg", fmt.Sprintf("M%d", i), 0)
		m.Unrec = opt(i % 3)
		m.Dirs = append(m.Dirs, dir(i/3, "unknown_fields", "no_unknown_fields")...)
		m.field("a", 1, "int32")
	}
	f.Prefix = opt(c % 3)
	if digit(2) == 1 {
		f.Dirs = append(f.Dirs, "no_enum_prefix")
	}
	if digit(2) == 1 {
		f.Dirs = append(f.Dirs, "no_enum_mapping")
	}
	nested := digit(2)
	for i := 0; i < 12; i++ {
		e := f.add("enum", fmt.Sprintf("E%d", i), nested*(i%2))
		e.Prefix = opt(i % 3)
		if i/3%2 == 1 {
			e.Dirs = append(e.Dirs, "no_enum_prefix")
		}
		if i/6%2 == 1 {
			e.Dirs = append(e.Dirs, "no_enum_mapping")
		}
		e.val(fmt.Sprintf("A_%d", i), 0)
		e.val(fmt.Sprintf("b_%d", i), 1).Dirs = []string{"no_enum_prefix"}
		e.val(fmt.Sprintf("C_%d", i), 2)
	}
	return s
}
