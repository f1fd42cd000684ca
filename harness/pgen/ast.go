// Package pgen makes random sets of .proto files: as abstract syntax, which
// Proto.tla gives a meaning to, and as text in some layout, which the real
// prutalgen reads.  It shares nothing with prutalgen.
package pgen

import (
	"strings"

	"verifharness/abs"
)

// Name is an identifier; it goes into traces as a tuple of character codes.
type Name = abs.Bytes

func N(s string) Name { return Name(s) }

func Path(s, sep string) []Name {
	if s == "" {
		return []Name{}
	}
	var r []Name
	for _, x := range strings.Split(s, sep) {
		r = append(r, N(x))
	}
	return r
}

func Join(p []Name, sep string) string {
	ss := make([]string, len(p))
	for i := range p {
		ss[i] = string(p[i])
	}
	return strings.Join(ss, sep)
}

type Ref struct {
	S   string `json:"s"`   // scalar name, "" for a reference
	Dot bool   `json:"dot"` // leading dot
	R   []Name `json:"r"`
}

type Field struct {
	N     Name     `json:"n"`
	Num   int      `json:"num"`
	Big   bool     `json:"big"` // written as a number that does not fit 32 bits
	Lab   string   `json:"lab"` // "", optional, required, repeated, map
	Key   string   `json:"key"`
	T     Ref      `json:"t"`
	O     int      `json:"o"` // oneof, from 1
	Pk    string   `json:"pk"`
	FP    string   `json:"fp"`
	Enc   string   `json:"enc"`
	Null  string   `json:"null"` // (gogoproto.nullable)
	Dirs  []string `json:"dirs"`
	Noise []string `json:"-"` // further options, without meaning here
}

type Val struct {
	N    Name     `json:"n"`
	V    int      `json:"v"`
	Big  bool     `json:"big"`
	Dirs []string `json:"dirs"`
}

type Rpc struct {
	N   Name `json:"n"`
	Req Ref  `json:"req"`
	Ret Ref  `json:"ret"`
	RS  bool `json:"rs"`
	SS  bool `json:"ss"`
}

// Def is a message, enum or service.  Up is the number (from 1) of the message
// it is nested in.
type Def struct {
	K    string   `json:"k"` // msg, enum, svc
	N    Name     `json:"n"`
	Up   int      `json:"up"`
	Dirs []string `json:"dirs"`
	Res  [][2]int `json:"res"`
	ResN []Name   `json:"resn"`

	F     []*Field `json:"f"`
	O     []Name   `json:"o"`
	Unrec string   `json:"unrec"` // (gogoproto.goproto_unrecognized)

	V      []*Val `json:"v"`
	Alias  string `json:"alias"`
	Prefix string `json:"prefix"` // (gogoproto.goproto_enum_prefix)

	M []*Rpc `json:"m"`
}

type Imp struct {
	F    int    `json:"f"` // number of the file, 0: there is no such file
	Kind string `json:"kind"`
}

type File struct {
	Path   string   `json:"path"`
	Syn    string   `json:"syn"` // proto2, proto3, 2023; "": none written; else unknown
	Pkg    []Name   `json:"pkg"`
	Imps   []Imp    `json:"imps"`
	GoImp  []Name   `json:"goimp"` // go_package: path
	GoName Name     `json:"goname"`
	MImp   []Name   `json:"mimp"` // the same from the M option
	MName  Name     `json:"mname"`
	FP     string   `json:"fp"`
	Enc    string   `json:"enc"`
	Unrec  string   `json:"unrec"`
	Prefix string   `json:"prefix"`
	Dirs   []string `json:"dirs"`
	D      []*Def   `json:"d"`
	Broken bool     `json:"broken"` // text damaged so that it is no .proto file
	Known  bool     `json:"known"`  // comes with prutalgen

	Noise []string `json:"-"`
}

// Set is a set of files, of which number Root is generated.
type Set struct {
	F    []*File `json:"f"`
	Root int     `json:"root"`
	// how the code is generated
	Getter bool `json:"getter"`
	Kitex  bool `json:"kitex"`
}

// FullName of a definition.
func (f *File) FullName(d int) []Name {
	x := f.D[d-1]
	var p []Name
	if x.Up > 0 {
		p = f.FullName(x.Up)
	} else {
		p = append(p, f.Pkg...)
	}
	return append(append([]Name{}, p...), x.N)
}

// Visible files of file i.
func (s *Set) Visible(i int) []int {
	vis := []int{i}
	seen := map[int]bool{i: true}
	var add func(f int)
	add = func(f int) {
		if f == 0 || seen[f] {
			return
		}
		seen[f] = true
		vis = append(vis, f)
		for _, m := range s.F[f-1].Imps {
			if m.Kind == "public" {
				add(m.F)
			}
		}
	}
	for _, m := range s.F[i-1].Imps {
		add(m.F)
	}
	return vis
}

// Lookup resolves a reference the way protoc does; ok only for clear cases.
// Used to generate, never to judge.
func (s *Set) Lookup(f int, scope []Name, r Ref) (fi, di int, ok bool) {
	find := func(full string) (int, int) {
		for _, v := range s.Visible(f) {
			for d := range s.F[v-1].D {
				if s.F[v-1].D[d].K != "svc" && Join(s.F[v-1].FullName(d+1), ".") == full {
					return v, d + 1
				}
			}
		}
		return 0, 0
	}
	first := func(full string) bool {
		if v, _ := find(full); v > 0 {
			return true
		}
		for _, v := range s.Visible(f) {
			if p := Join(s.F[v-1].Pkg, "."); len(r.R) > 1 && (p == full || strings.HasPrefix(p, full+".")) {
				return true
			}
			for d, x := range s.F[v-1].D {
				if x.K == "svc" && Join(s.F[v-1].FullName(d+1), ".") == full {
					return len(r.R) > 1
				}
			}
		}
		return false
	}
	if r.Dot {
		a, b := find(Join(r.R, "."))
		return a, b, a > 0
	}
	for n := len(scope); n >= 0; n-- {
		p := append(append([]Name{}, scope[:n]...), r.R[0])
		if !first(Join(p, ".")) {
			continue
		}
		a, b := find(Join(append(append([]Name{}, scope[:n]...), r.R...), "."))
		return a, b, a > 0
	}
	return 0, 0, false
}
