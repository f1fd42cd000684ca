package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"

	"verifharness/abs"
	"verifharness/types"
)

// Behaviours of CodecMC.tla, performed on the real code.

type planType struct {
	id, main int
	s        *abs.Schema
}

// planTypes is the catalogue: a small message for every case of the sweep.
func planTypes() (out []planType) {
	add := func(t reflect.Type, main int) {
		out = append(out, planType{len(out) + 1, main, abs.SchemaOf(t)})
	}
	for i, c := range sweepCases() {
		if c.oneof != nil {
			s := abs.SchemaOf(c.oneof)
			for j, f := range s.T[0].F {
				if f.C == "one" {
					add(c.oneof, j+1)
				}
			}
			continue
		}
		kind, mt := c.kind, reflect.TypeOf(types.Leaf{})
		if kind == "enum" {
			kind = "int32"
		}
		f := abs.MakeField("F", 1+15*(i%2), c.card, kind, c.key, mt, c.nonptr)
		if c.kind == "enum" {
			f.Type = enumOf(f.Type, c.card == "map")
		}
		fs := []reflect.StructField{f, abs.MakeField("G", 2+40*(i%3), []string{"exp", "imp", "rep"}[i%3], "uint32", "", nil, false)}
		if i%4 != 3 {
			fs = append(fs, reflect.StructField{Name: "XXX_unrecognized", Type: reflect.TypeOf([]byte(nil))})
		}
		t := reflect.StructOf(fs)
		main := 1
		if s := abs.SchemaOf(t); s.T[0].F[0].ID != 1+15*(i%2) {
			main = 2
		}
		add(t, main)
	}
	return
}

// writeCatalog writes the catalogue for the model checker, in parts.
func writeCatalog(file string, parts, max int, every int, offset int) {
	all := planTypes()
	jobs := make([][]any, parts)
	n := 0
	for k := range all {
		if k%every != offset%every {
			continue
		}
		p := all[k]
		jobs[n%parts] = append(jobs[n%parts], map[string]any{"id": p.id, "main": p.main, "S": p.s.T})
		n++
	}
	for i, j := range jobs {
		b, err := json.Marshal(map[string]any{"max": max, "cases": j})
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(fmt.Sprintf("%s%d", file, i), b, 0o644); err != nil {
			panic(err)
		}
	}
}

type plan struct {
	id    int
	calls [][]byte
}

// readPlans reads the behaviours of one message type after the other.
func readPlans(file string) (out [][]plan) {
	f, err := os.Open(file)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	in := bufio.NewScanner(f)
	in.Buffer(nil, 1<<20)
	for in.Scan() {
		var v []json.RawMessage
		var cs [][]int
		p := plan{}
		if json.Unmarshal(in.Bytes(), &v) != nil || json.Unmarshal(v[0], &p.id) != nil || json.Unmarshal(v[1], &cs) != nil {
			panic("bad plan " + in.Text())
		}
		for _, c := range cs {
			b := make([]byte, len(c))
			for i, x := range c {
				b[i] = byte(x)
			}
			p.calls = append(p.calls, b)
		}
		if n := len(out); n == 0 || out[n-1][0].id != p.id || len(out[n-1]) >= 40 {
			out = append(out, nil)
		}
		out[len(out)-1] = append(out[len(out)-1], p)
	}
	return
}

// plan performs behaviours of one message type.
func (x *sess) plan(ps []plan, all []planType) {
	t := all[ps[0].id-1]
	x.s[1] = t.s
	for _, p := range ps {
		x.Fresh(1, 1, 1)
		ok := true
		for _, b := range p.calls {
			ok = ok && x.Dec(1, b)
		}
		if !ok {
			continue
		}
		switch x.prof {
		case "P01":
			x.Rt(1)
		case "P02", "P06":
			x.Enc(1)
		case "P03":
			x.Size(1)
		case "P07":
			x.Enc(1)
			x.Rt(1)
		}
	}
}
