package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
)

type modelOp struct {
	Op string          `json:"op"`
	F  int             `json:"f"`
	V  json.RawMessage `json:"v"`
}

type modelStep struct {
	H   []modelOp            `json:"h"`
	OK  bool                 `json:"ok"`
	Enc [][2]int             `json:"enc"`
	B   []int                `json:"b"` // fields that must be readable, whatever they are
	S   [][2]json.RawMessage `json:"s"`
	R   [][2]json.RawMessage `json:"r"`
}

func unrle(runs [][2]int) []byte {
	n := 0
	for _, r := range runs {
		n += r[1]
	}
	b := make([]byte, 0, n)
	for _, r := range runs {
		for k := 0; k < r[1]; k++ {
			b = append(b, byte(r[0]))
		}
	}
	return b
}

func rawRLE(j json.RawMessage) []byte {
	var runs [][2]int
	if err := json.Unmarshal(j, &runs); err != nil {
		panic(err)
	}
	return unrle(runs)
}

func rawVal(k string, j json.RawMessage) (v []byte, open bool) {
	if isBlob(k) {
		return rawRLE(j), false
	}
	var xs []int
	if err := json.Unmarshal(j, &xs); err != nil {
		panic(err)
	}
	for _, x := range xs {
		if x < 0 {
			return nil, true
		}
		v = append(v, byte(x))
	}
	return v, false
}

// apply performs a model operation on m.
func (op modelOp) apply(ty *Type, m Msg) error {
	switch op.Op {
	case "set":
		f := ty.byF[op.F]
		v, _ := rawVal(f.K, op.V)
		if f.K == "msg" {
			x := f.elem().New()
			if err := x.Decode(v); err != nil {
				panic("element: " + err.Error())
			}
			m.SetSub(f.F, x)
			return nil
		}
		m.Set(f.F, v)
	case "app":
		f := ty.byF[op.F]
		x := f.elem().New()
		if err := x.Decode(rawRLE(op.V)); err != nil {
			panic("element: " + err.Error())
		}
		m.App(f.F, x)
	case "dec":
		return m.Decode(rawRLE(op.V))
	case "rst":
		m.Reset(nil)
	default:
		panic(op.Op)
	}
	return nil
}

// mismatch compares m with the prediction: 0 equal, 1 another layout, 2 other
// contents.
func (st modelStep) mismatch(ty *Type, m Msg, err error) int {
	if (err == nil) != st.OK {
		return 2
	}
	if !st.OK {
		return 0
	}
	for _, f := range st.B {
		if d := ty.byF[f]; d.K == "msg" {
			m.GetSub(f, d.elem().New())
		} else {
			m.Touch(f)
		}
	}
	for _, p := range st.S {
		var f int
		json.Unmarshal(p[0], &f)
		k := ty.byF[f].K
		var opt []json.RawMessage
		json.Unmarshal(p[1], &opt)
		var want []byte
		open := false
		if len(opt) == 1 {
			want, open = rawVal(k, opt[0])
		} else if !isBlob(k) {
			want = make([]byte, widthOf(k))
		}
		if k == "msg" {
			x := ty.byF[f].elem().New()
			ok, err := m.GetSub(f, x)
			if ok != (len(opt) == 1) {
				return 2
			}
			if ok && err == nil && !bytes.Equal(want, x.Encode()) {
				return 2
			}
			continue
		}
		if !open && !bytes.Equal(m.Get(f), want) {
			return 2
		}
	}
	for _, p := range st.R {
		var f int
		json.Unmarshal(p[0], &f)
		var elems [][][2]int
		json.Unmarshal(p[1], &elems)
		it := m.Iter(f)
		x := ty.byF[f].elem().New()
		for _, e := range elems {
			ok, err := it(x)
			if !ok || err == nil && !bytes.Equal(x.Encode(), unrle(e)) {
				return 2
			}
		}
		if ok, _ := it(x); ok {
			return 2
		}
	}
	if !bytes.Equal(m.Encode(), unrle(st.Enc)) {
		return 1
	}
	return 0
}

// prepare makes the message on which a history runs.
func prepare(ty *Type, mode int) Msg {
	m := ty.New()
	switch mode {
	case 1: // a large buffer with old contents
		b := make([]byte, 70000)
		for i := range b {
			b[i] = 0xA5
		}
		m.Reset(b[:0])
	case 2: // used, with fields beyond 64 KiB
		for _, f := range ty.sing {
			if f.K == "bytes" {
				m.Set(f.F, bytes.Repeat([]byte{'D'}, 66000))
			}
		}
		for _, f := range ty.sing {
			if f.K != "bytes" {
				m.Set(f.F, newG(1).value(f.K, 10))
			}
		}
		for _, f := range ty.reps {
			m.App(f.F, f.elem().New())
		}
		m.Reset(nil)
	}
	return m
}

// continues says whether st is one operation longer than prev.
func (st modelStep) continues(prev []modelOp) bool {
	if len(prev) == 0 || len(st.H) != len(prev)+1 {
		return false
	}
	for i, op := range prev {
		if op.Op != st.H[i].Op || op.F != st.H[i].F || !bytes.Equal(op.V, st.H[i].V) {
			return false
		}
	}
	return true
}

// replay steps the real code through the behaviours in a file and records a
// trace of those that do not come out as predicted.
func replay(r *Rec, ty *Type, in string, modes int, keep int, reused bool) {
	f, err := os.Open(in)
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	steps, drift, other, kept := 0, 0, 0, 0
	t := &T{r: r}
	// When a behaviour continues the one before, so does the message.
	last := make([]Msg, modes)
	var prev []modelOp
	for sc.Scan() {
		var st modelStep
		if err := json.Unmarshal(sc.Bytes(), &st); err != nil {
			panic(err)
		}
		more := st.continues(prev)
		prev = st.H
		fresh := 0
		for mode := 0; mode < modes; mode++ {
			steps++
			d := 2
			t.dead = false
			ev := obj{"e": "hang", "what": "replay", "h": st.H}
			t.opCall(ev, func() {
				m, todo := last[mode], st.H[len(st.H)-1:]
				if m == nil || !more {
					m, todo = prepare(ty, mode), st.H
				}
				last[mode] = nil
				var err error
				for _, op := range todo {
					err = op.apply(ty, m)
				}
				if d = st.mismatch(ty, m, err); d == 0 {
					last[mode] = m
				}
			})
			if mode == 0 {
				fresh = d
			}
			if d == 0 || reused && fresh != 0 {
				continue
			}
			if d == 1 {
				drift++
			} else {
				other++
			}
			if d == 2 && kept < keep || d == 1 && kept < keep/2 {
				kept++
				replayTrace(r, ty, st, mode)
			}
		}
	}
	if err := sc.Err(); err != nil {
		panic(err)
	}
	b, _ := json.Marshal(obj{"steps": steps, "layout": drift, "content": other, "judged": kept})
	fmt.Println("@REPLAY " + string(b))
}

// replayTrace records a history as a trace.
func replayTrace(r *Rec, ty *Type, st modelStep, mode int) {
	t := r.begin(ty.Name)
	var m Msg
	if res, _ := call("prepare", func() { m = prepare(ty, mode) }); res != "ok" {
		m = ty.New()
	}
	o := t.objAs(ty.Name, m)
	for _, op := range st.H {
		if t.dead {
			return
		}
		f := ty.byF[op.F]
		switch op.Op {
		case "set", "app":
			if f.K == "msg" {
				x := f.elem().New()
				v := rawRLE(op.V)
				if res, _ := call("element", func() { x.Decode(v) }); res != "ok" {
					return
				}
				if op.Op == "set" {
					t.setSub(o, f, x)
				} else {
					t.app(o, f, x)
				}
				continue
			}
			v, _ := rawVal(f.K, op.V)
			t.set(o, f, v)
		case "dec":
			t.dec(o, rawRLE(op.V))
		case "rst":
			t.rst(o, nil)
		}
	}
}
