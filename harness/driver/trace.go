package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

// Rec records traces as ndjson. Memory safe for one goroutine.
type Rec struct {
	f      *os.File
	w      *bufio.Writer
	t      int // current trace
	only   int // -1: all
	rel    []string
	events int
	traces int
	ops    map[string]int
	pend   string // marker file: the call in progress
	aside  bool   // one of several: calls are not noted
}

// Obj is a message of a trace.
type Obj struct {
	id int
	ty *Type
	m  Msg
}

type obj = map[string]interface{}

var (
	callStart atomic.Int64 // unix nanos when the call into the code began, or 0
	callWhat  atomic.Value // string
	recMu     sync.Mutex
)

// rle is a byte string as the specification represents it.
func rle(b []byte) json.RawMessage {
	out := make([]byte, 0, 16+8*len(b)/4)
	out = append(out, '[')
	for i := 0; i < len(b); {
		j := i
		for j < len(b) && b[j] == b[i] {
			j++
		}
		if i > 0 {
			out = append(out, ',')
		}
		out = append(out, '[')
		out = strconv.AppendInt(out, int64(b[i]), 10)
		out = append(out, ',')
		out = strconv.AppendInt(out, int64(j-i), 10)
		out = append(out, ']')
		i = j
	}
	return append(out, ']')
}

func le(b []byte) json.RawMessage {
	out := []byte{'['}
	for i, x := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendInt(out, int64(x), 10)
	}
	return append(out, ']')
}

func val(k string, v []byte) json.RawMessage {
	if isBlob(k) {
		return rle(v)
	}
	return le(v)
}

func (r *Rec) emit(ev obj) {
	if r.only >= 0 && r.only != r.t {
		return
	}
	ev["t"] = r.t
	b, err := json.Marshal(ev)
	if err != nil {
		panic(err)
	}
	recMu.Lock()
	r.w.Write(b)
	r.w.WriteByte('\n')
	r.events++
	r.ops[ev["e"].(string)]++
	recMu.Unlock()
}

func schemaJSON(ty *Type) [][]interface{} {
	out := [][]interface{}{}
	for _, f := range ty.Fields {
		rep := 0
		if f.R {
			rep = 1
		}
		out = append(out, []interface{}{f.F, f.K, rep})
	}
	return out
}

// T is one trace.
type T struct {
	r        *Rec
	sch      map[string]int
	n        int
	its      int
	last     *Obj
	lastMore bool   // whether the last next reported an element
	quiet    bool   // calls are not followed by observations
	before   func() // further calls that are made in the next one
	dead     bool   // a call did not return normally: nothing more is recorded
}

// begin starts a trace over the given message types.
func (r *Rec) begin(names ...string) *T {
	r.t++
	r.traces++
	t := &T{r: r, sch: map[string]int{}}
	list := []interface{}{}
	seen := map[string]bool{}
	var add func(n string)
	add = func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		ty := types[n]
		if ty == nil {
			panic("no type " + n)
		}
		list = append(list, schemaJSON(ty))
		t.sch[n] = len(list)
		for _, f := range ty.Fields {
			if f.Elem != "" && f.K == "msg" {
				add(f.Elem)
			}
		}
	}
	for _, n := range names {
		add(n)
	}
	r.emit(obj{"e": "new", "sch": list, "rel": r.rel})
	return t
}

// call runs f, which calls the code under test.
func call(what string, f func()) (res string, msg string) {
	callWhat.Store(what)
	if syncFile != nil && !inOp {
		syncCall(lastRec.t, obj{"e": "obs", "what": what})
		defer syncFile.Truncate(0)
	}
	callStart.Store(time.Now().UnixNano())
	old := debug.SetPanicOnFault(true)
	defer func() {
		debug.SetPanicOnFault(old)
		callStart.Store(0)
		if e := recover(); e != nil {
			res, msg = "panic", fmt.Sprint(e)
			if re, ok := e.(runtime.Error); ok {
				if _, ok := re.(interface{ Addr() uintptr }); ok {
					res = "fault"
				}
			}
		}
	}()
	f()
	return "ok", ""
}

var inOp bool

// syncCall leaves a note about the call that begins, for when it is fatal.
func syncCall(t int, ev obj) {
	b, _ := json.Marshal(obj{"t": t, "ev": ev})
	syncFile.Truncate(0)
	syncFile.WriteAt(b, 0)
}

// opCall is call for an operation of trace t. The trace ends if it fails.
func (t *T) opCall(ev obj, f func()) string {
	if before, then := t.before, f; before != nil {
		t.before = nil
		f = func() { before(); then() }
	}
	if t.r.aside {
		res, msg := call(ev["e"].(string), f)
		return t.done(ev, res, msg)
	}
	if syncFile != nil {
		syncCall(t.r.t, ev)
		inOp = true
		defer func() { inOp = false }()
	}
	callWhat.Store("")
	pendMu.Lock()
	pending, pendRec = ev, t.r
	pendMu.Unlock()
	res, msg := call(ev["e"].(string), f)
	pendMu.Lock()
	pending = nil
	pendMu.Unlock()
	if syncFile != nil {
		syncFile.Truncate(0)
	}
	return t.done(ev, res, msg)
}

func (t *T) done(ev obj, res, msg string) string {
	ev["res"] = res
	if msg != "" {
		if len(msg) > 200 {
			msg = msg[:200]
		}
		ev["msg"] = msg
		t.dead = true
	}
	return res
}

var (
	pendMu   sync.Mutex
	pending  obj
	pendRec  *Rec
	syncFile *os.File
	limit    = 20 * time.Second
)

// watchdog ends the program when a call does not return or eats the memory,
// after recording that.
func watchdog() {
	var ms runtime.MemStats
	for i := 0; ; i++ {
		time.Sleep(50 * time.Millisecond)
		start := callStart.Load()
		if start == 0 {
			continue
		}
		late := time.Duration(time.Now().UnixNano()-start) > limit
		if !late && i%4 == 0 {
			runtime.ReadMemStats(&ms)
			late = ms.HeapInuse > 6<<30
		}
		if !late {
			continue
		}
		pendMu.Lock()
		ev, r := pending, pendRec
		if ev == nil {
			pendMu.Unlock()
			if callStart.Load() == start {
				// A call while observing.
				finishHang(obj{"e": "hang", "what": fmt.Sprint(callWhat.Load())}, lastRec)
			}
			continue
		}
		ev["res"] = "hang"
		finishHang(ev, r)
	}
}

var lastRec *Rec

func finishHang(ev obj, r *Rec) {
	if r == nil {
		os.Exit(3)
	}
	if ev["post"] == nil {
		ev["post"] = []int{}
	}
	r.emit(ev)
	r.w.Flush()
	r.stats(true)
	os.Exit(0)
}

func (r *Rec) stats(hung bool) {
	b, _ := json.Marshal(obj{"events": r.events, "traces": r.traces, "ops": r.ops, "hung": hung, "cases": cases})
	fmt.Println("@STATS " + string(b))
}

// Observation of a message: everything its accessors return.
type look struct {
	O    int             `json:"o"`
	Enc  json.RawMessage `json:"enc"`
	S    [][]interface{} `json:"s"`
	B    [][]interface{} `json:"b"`
	R    [][]interface{} `json:"r"`
	Bad  []interface{}   `json:"bad"`
	Pure bool            `json:"pure"`
}

// observe reads a message in full, without recursion into embedded messages.
func observe(o *Obj) look { return observeWith(o, true) }

func observeWith(o *Obj, pure bool) look {
	l := look{O: o.id, S: [][]interface{}{}, B: [][]interface{}{}, R: [][]interface{}{}, Bad: []interface{}{}, Pure: true}
	m := o.m
	bad := func(f int, res string) { l.Bad = append(l.Bad, []interface{}{f, res}) }
	var enc []byte
	if res, _ := call("Encode", func() { enc = m.Encode() }); res != "ok" {
		bad(0, res)
	}
	var before, mem []byte
	if pure {
		before = append(before, enc...)
		mem = append(mem, memOf(m)...)
	}
	l.Enc = rle(enc)
	for _, f := range o.ty.sing {
		var v []byte
		if res, _ := call("get", func() { v = m.Get(f.F) }); res != "ok" {
			bad(f.F, res)
			continue
		}
		var j json.RawMessage
		// Reading the contents of a wrong slice may fault, too.
		if res, _ := call("get", func() { j = val(f.K, v) }); res != "ok" {
			bad(f.F, res)
			continue
		}
		l.S = append(l.S, []interface{}{f.F, j})
	}
	for _, f := range o.ty.subs {
		var ok bool
		var err error
		x := f.elem().New()
		j := json.RawMessage("[]")
		if res, _ := call("sub", func() {
			if ok, err = m.GetSub(f.F, x); ok {
				j = rle(x.Encode())
			}
		}); res != "ok" {
			bad(f.F, res)
			continue
		}
		l.B = append(l.B, []interface{}{f.F, ok, err != nil, j})
	}
	for _, f := range o.ty.reps {
		elems := []interface{}{}
		x := f.elem().New()
		res, _ := call("iter", func() {
			it := m.Iter(f.F)
			for n := 0; ; n++ {
				ok, err := it(x)
				if !ok {
					break
				}
				elems = append(elems, []interface{}{err != nil, rle(x.Encode())})
				if n > len(enc) {
					panic("endless iteration")
				}
			}
		})
		if res != "ok" {
			bad(f.F, res)
			continue
		}
		l.R = append(l.R, []interface{}{f.F, elems})
	}
	if pure {
		l.Pure = bytes.Equal(before, enc) && bytes.Equal(mem, memOf(m))
		var again []byte
		call("Encode", func() { again = m.Encode() })
		if !bytes.Equal(again, before) {
			l.Pure = false
		}
	}
	return l
}

func looks(objs []*Obj) []look {
	out := []look{}
	for _, o := range objs {
		if o != nil {
			out = append(out, observe(o))
		}
	}
	return out
}

// obj adds a fresh message to the trace.
func (t *T) obj(name string) *Obj {
	return t.objAs(name, types[name].New())
}

func (t *T) objAs(name string, m Msg) *Obj {
	t.n++
	o := &Obj{id: t.n, ty: types[name], m: m}
	t.r.emit(obj{"e": "obj", "o": o.id, "m": t.sch[name]})
	return o
}

func (t *T) post(ev obj, objs []*Obj) {
	if ev["res"] == "ok" && !t.quiet {
		ev["post"] = looks(objs)
	} else {
		ev["post"] = []int{}
	}
	t.r.emit(ev)
}

// set calls the setter of a singular field other than a message.
func (t *T) set(o *Obj, f Field, v []byte, also ...*Obj) {
	if t.dead {
		return
	}
	ev := obj{"e": "set", "o": o.id, "f": f.F, "v": val(f.K, v)}
	t.opCall(ev, func() { o.m.Set(f.F, v) })
	t.post(ev, append([]*Obj{o}, also...))
}

// setSub sets an embedded message field to x, which encodes to v.
func (t *T) setSub(o *Obj, f Field, x Msg, also ...*Obj) {
	if t.dead {
		return
	}
	ev := obj{"e": "set", "o": o.id, "f": f.F, "v": rle(x.Encode())}
	t.opCall(ev, func() { o.m.SetSub(f.F, x) })
	t.post(ev, append([]*Obj{o}, also...))
}

func (t *T) app(o *Obj, f Field, x Msg, also ...*Obj) {
	if t.dead {
		return
	}
	ev := obj{"e": "app", "o": o.id, "f": f.F, "v": rle(x.Encode())}
	t.opCall(ev, func() { o.m.App(f.F, x) })
	t.post(ev, append([]*Obj{o}, also...))
}

// dec decodes b, returns whether that succeeded.
func (t *T) dec(o *Obj, b []byte, also ...*Obj) bool {
	if t.dead {
		return false
	}
	ev := obj{"e": "dec", "o": o.id, "v": rle(b), "err": false}
	var err error
	t.opCall(ev, func() { err = o.m.Decode(b) })
	ev["err"] = err != nil
	if err != nil {
		ev["post"] = []int{}
		t.r.emit(ev)
		return false
	}
	t.post(ev, append([]*Obj{o}, also...))
	return !t.dead
}

func (t *T) rst(o *Obj, b []byte, also ...*Obj) {
	if t.dead {
		return
	}
	ev := obj{"e": "rst", "o": o.id, "gave": cap(b), "cap": 0}
	t.opCall(ev, func() { o.m.Reset(b) })
	if !t.dead {
		ev["cap"] = cap(o.m.Encode())
	}
	t.post(ev, append([]*Obj{o}, also...))
}

// rstFull calls Reset with a non-empty buffer, which must panic.
func (t *T) rstFull(o *Obj, b []byte) {
	if t.dead {
		return
	}
	res, _ := call("Reset", func() { o.m.Reset(b) })
	t.r.emit(obj{"e": "mem", "what": "reset:accepts", "intact": res == "panic"})
}

func (t *T) obs(objs ...*Obj) {
	if t.dead {
		return
	}
	t.r.emit(obj{"e": "obs", "o": objs[0].id, "post": looks(objs)})
}

// sub extracts the embedded message f of o into x.
func (t *T) sub(o *Obj, f Field, x *Obj, also ...*Obj) bool {
	if t.dead {
		return false
	}
	ev := obj{"e": "sub", "o": o.id, "f": f.F, "x": x.id, "more": false, "err": false}
	var ok bool
	var err error
	t.opCall(ev, func() { ok, err = o.m.GetSub(f.F, x.m) })
	ev["more"], ev["err"] = ok, err != nil
	if !ok || err != nil {
		x = nil
	}
	t.post(ev, append([]*Obj{x}, also...))
	return !t.dead && ok && err == nil
}

// It is an iterator of a trace.
type It struct {
	id int
	o  *Obj
	f  Field
	it Iter
}

func (t *T) iter(o *Obj, f Field) *It {
	if t.dead {
		return nil
	}
	t.its++
	it := &It{id: t.its, o: o, f: f}
	ev := obj{"e": "iter", "o": o.id, "f": f.F, "it": it.id}
	t.opCall(ev, func() { it.it = o.m.Iter(f.F) })
	t.r.emit(ev)
	return it
}

func (t *T) next(it *It, x *Obj, also ...*Obj) bool {
	if t.dead {
		return false
	}
	ev := obj{"e": "next", "o": it.o.id, "it": it.id, "x": x.id, "more": false, "err": false, "v": []int{}}
	var ok bool
	var err error
	t.opCall(ev, func() {
		ok, err = it.it(x.m)
		if ok {
			ev["v"] = rle(x.m.Encode())
		}
	})
	ev["more"], ev["err"] = ok, err != nil
	t.lastMore = ok
	if !ok || err != nil {
		x = nil
	}
	t.post(ev, append([]*Obj{x}, also...))
	return !t.dead && ok && err == nil
}

// cp decodes the encoding of o into the fresh x.
func (t *T) cp(o, x *Obj) {
	if t.dead {
		return
	}
	ev := obj{"e": "copy", "o": o.id, "x": x.id}
	var err error
	t.opCall(ev, func() { err = x.m.Decode(append([]byte(nil), o.m.Encode()...)) })
	ev["err"] = err != nil
	if err != nil {
		ev["post"] = []int{}
		t.r.emit(ev)
		return
	}
	t.post(ev, []*Obj{x})
}

func (t *T) mem(what string, intact bool) {
	t.r.emit(obj{"e": "mem", "what": what, "intact": intact})
}
