// Command codec runs sessions against the real prutal and records them for
// CodecTrace.tla, one JSON object per line and session.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"verifharness/abs"
	_ "verifharness/types"

	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/pkg/grpccodec"
)

type slot struct {
	sv, t int
	v     reflect.Value // pointer to the struct
}

type sess struct {
	id   int
	prof string
	g    *abs.Gen
	s    [3]*abs.Schema // [1] and [2]
	slot [7]slot
	last [7]string // what was last recorded of each slot
	ev   []string
	subs []*sess // concurrent sessions, recorded on their own

	methods bool   // use the Marshal and Unmarshal methods of generated code
	extra   string // more members of the session's line
}

func (x *sess) emit(op string, kv ...any) {
	var b bytes.Buffer
	fmt.Fprintf(&b, `{"op":%q`, op)
	for i := 0; i < len(kv); i += 2 {
		j, err := json.Marshal(kv[i+1])
		if err != nil {
			panic(err)
		}
		if v, ok := kv[i+1].([]byte); ok {
			j, _ = abs.Bytes(v).MarshalJSON()
		}
		fmt.Fprintf(&b, `,%q:%s`, kv[i], j)
	}
	b.WriteByte('}')
	x.ev = append(x.ev, b.String())
	if traceOps {
		fmt.Fprintln(os.Stderr, "OP", b.String())
	}
}

var traceOps bool

// guard runs f, which calls into prutal; a panic becomes a crash event.
func (x *sess) guard(what string, f func()) (ok bool) {
	if traceOps {
		fmt.Fprintln(os.Stderr, "CALL", what)
	}
	defer func() {
		if r := recover(); r != nil {
			x.emit("crash", "what", what+": "+strings.Split(fmt.Sprint(r), "\n")[0], "slot", 1, "sv", 1, "t", 1)
			if traceOps {
				debug.PrintStack()
			}
			ok = false
		}
	}()
	f()
	return true
}

func (x *sess) builder(sv int) *abs.Builder { return &abs.Builder{S: x.s[sv], Rnd: x.g.Rand} }

// New puts a value into a slot.
func (x *sess) New(i, sv, t int, m *abs.Msg) {
	v := x.builder(sv).New(t, m)
	x.slot[i] = slot{sv, t, v}
	p := x.s[sv].Project(t, v.Elem())
	if !abs.Equal(p, m) {
		panic("harness: build and project disagree:\n" + abs.Str(m) + "\n" + abs.Str(p))
	}
	x.last[i] = abs.Str(m)
	x.emit("new", "slot", i, "sv", sv, "t", t, "m", m)
}

func (x *sess) Fresh(i, sv, t int) { x.New(i, sv, t, x.s[sv].Empty(t)) }

func (x *sess) proj(i int) *abs.Msg {
	s := x.slot[i]
	return x.s[s.sv].Project(s.t, s.v.Elem())
}

// marshal through one of the APIs.
func (x *sess) marshal(i int, api int, pre []byte) (out []byte, err error) {
	p := x.slot[i].v.Interface()
	if k, ok := p.(kitexMessage); ok && x.methods && api >= 2 {
		return k.Marshal(pre)
	}
	switch api {
	case 0:
		return prutal.Marshal(p)
	case 1:
		return grpccodec.PrutalCodec{}.Marshal(p)
	}
	return prutal.MarshalAppend(pre, p)
}

// Enc marshals a slot.
func (x *sess) Enc(i int) (out []byte, ok bool) {
	s := x.slot[i]
	api := x.g.Intn(4)
	var pre []byte
	if api >= 2 {
		n := x.g.Intn(6)
		pre = append(make([]byte, 0, n+x.g.Intn(3)*x.g.Intn(40)), x.g.Bytes(n)...)
	}
	pre0 := append([]byte{}, pre...)
	var err error
	if !x.guard("marshal", func() { out, err = x.marshal(i, api, pre) }) {
		return nil, false
	}
	x.emit("enc", "slot", i, "sv", s.sv, "t", s.t, "api", api, "pre", abs.Bytes(pre0), "ok", err == nil, "out", abs.Bytes(out))
	if err != nil || len(out) < len(pre0) {
		return nil, false
	}
	return out[len(pre0):], true
}

// Size compares Size with the length Marshal gives.
func (x *sess) Size(i int) {
	s := x.slot[i]
	var n int
	var b []byte
	var err, err2 error
	if !x.guard("size", func() {
		n, err = prutal.Size(s.v.Interface())
		b, err2 = prutal.Marshal(s.v.Interface())
	}) {
		return
	}
	x.emit("size", "slot", i, "sv", s.sv, "t", s.t, "ok", err == nil, "mok", err2 == nil, "n", n, "len", len(b))
}

var ms0, ms1 runtime.MemStats

// Dec unmarshals into a slot as it is.
func (x *sess) Dec(i int, in []byte) (ok bool) {
	s := x.slot[i]
	var err error
	in0 := append([]byte{}, in...)
	measure := x.prof == "P05"
	if measure {
		runtime.ReadMemStats(&ms0)
	}
	grpc := x.g.P(0.2)
	if !x.guard("unmarshal "+abs.Str(abs.Bytes(in0)), func() {
		if k, ok := s.v.Interface().(kitexMessage); ok && x.methods && !grpc {
			err = k.Unmarshal(in)
		} else if grpc {
			err = grpccodec.PrutalCodec{}.Unmarshal(in, s.v.Interface())
		} else {
			err = prutal.Unmarshal(in, s.v.Interface())
		}
	}) {
		return false
	}
	kb := 0
	if measure {
		runtime.ReadMemStats(&ms1)
		kb = int((ms1.TotalAlloc - ms0.TotalAlloc) >> 10)
	}
	if !bytes.Equal(in, in0) {
		x.emit("crash", "what", "input modified", "slot", i, "sv", s.sv, "t", s.t)
	}
	var post *abs.Msg
	if err == nil {
		post = x.proj(i)
	} else {
		// a failed Unmarshal leaves the target unspecified: start afresh
		x.slot[i].v = reflect.New(x.s[s.sv].T[s.t-1].GT)
		post = x.proj(i)
	}
	x.last[i] = abs.Str(post)
	x.emit("dec", "slot", i, "sv", s.sv, "t", s.t, "in", abs.Bytes(in0), "ok", err == nil, "post", post, "alloc", kb)
	return err == nil
}

// Rt marshals slot i and unmarshals the result into a fresh message.
func (x *sess) Rt(i int) {
	s := x.slot[i]
	n := slot{s.sv, s.t, reflect.New(x.s[s.sv].T[s.t-1].GT)}
	ok := false
	if !x.guard("round trip", func() {
		b, err := x.marshal(i, x.g.Intn(3), nil)
		if err == nil {
			err = prutal.Unmarshal(b, n.v.Interface())
		}
		ok = err == nil
	}) {
		return
	}
	x.emit("rt", "slot", i, "sv", s.sv, "t", s.t, "ok", ok, "post", x.s[s.sv].Project(s.t, n.v.Elem()))
}

// Read records whether a slot still holds what was last recorded of it.
func (x *sess) Read(i int) {
	s := x.slot[i]
	p := x.proj(i)
	j := abs.Str(p)
	if j == x.last[i] {
		x.emit("read", "slot", i, "sv", s.sv, "t", s.t, "same", true)
		return
	}
	x.last[i] = j
	x.emit("read", "slot", i, "sv", s.sv, "t", s.t, "same", false, "post", p)
}

func (x *sess) line() []byte {
	var b bytes.Buffer
	j, _ := json.Marshal(x.s[1].T)
	fmt.Fprintf(&b, `{"id":%d,"S":%s`, x.id, j)
	if x.s[2] != nil {
		j, _ = json.Marshal(x.s[2].T)
		fmt.Fprintf(&b, `,"S2":%s`, j)
	}
	fmt.Fprintf(&b, `%s,"ev":[%s]}`, x.extra, strings.Join(x.ev, ",\n"))
	out := bytes.ReplaceAll(b.Bytes(), []byte("\n"), nil)
	return append(out, '\n')
}

func main() {
	prof := flag.String("profile", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 100, "sessions")
	from := flag.Int("from", 0, "first session")
	step := flag.Int("step", 1, "run every step-th session")
	out := flag.String("out", "", "trace file, appended to")
	cur := flag.String("cur", "", "file that names the session being run")
	flag.BoolVar(&traceOps, "ops", false, "print every operation")
	planFile := flag.String("plan", "", "behaviours of the model to perform")
	catalog := flag.String("catalog", "", "write the catalogue of message types for the model checker")
	every := flag.Int("every", 1, "... only every so manieth")
	max := flag.Int("max", 2, "... records per behaviour")
	flag.Parse()
	if *catalog != "" {
		writeCatalog(*catalog, *n, *max, *every, int(*seed))
		return
	}
	debug.SetMaxStack(256 << 20)
	f, err := os.OpenFile(*out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	run, ok := profiles[*prof]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown profile")
		os.Exit(64)
	}
	beat := make(chan int, 1)
	go func() { // a session that does not end is a hang
		last := time.Now()
		for {
			select {
			case <-beat:
				last = time.Now()
			case <-time.After(time.Second):
				if time.Since(last) > 90*time.Second {
					fmt.Fprintln(os.Stderr, "fatal error: HANG in session")
					os.Exit(97)
				}
			}
		}
	}()
	total := *n
	if sweeps[*prof] != nil {
		total += len(theCases)
	}
	var plans [][]plan
	var pts []planType
	if *planFile != "" {
		plans, pts = readPlans(*planFile), planTypes()
		*n, total = 0, len(plans)
	}
	for k := *from; k < total; k += *step {
		if *cur != "" {
			w.Flush()
			os.WriteFile(*cur, []byte(fmt.Sprint(k)), 0o644)
		}
		h := *seed*1000003 + int64(k)*7919
		for _, c := range *prof {
			h = h*31 + int64(c)
		}
		x := &sess{id: k, prof: *prof, g: abs.NewGen(h)}
		if plans != nil {
			x.plan(plans[k], pts)
		} else if k >= *n { // systematic sessions
			x.sweep(k-*n+int(*seed), theCases, sweeps[*prof](x))
		} else {
			run(x)
		}
		select {
		case beat <- 1:
		default:
		}
		if len(x.ev) > 0 {
			w.Write(x.line())
		}
		for _, y := range x.subs {
			if len(y.ev) > 0 {
				w.Write(y.line())
			}
		}
	}
	w.Flush()
	f.Close()
	os.WriteFile(*cur, []byte("done"), 0o644)
}
