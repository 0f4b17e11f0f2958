package main

import (
	"bytes"
	"encoding/json"
)

type memOp struct {
	Op string          `json:"op"`
	O  int             `json:"o"`
	F  int             `json:"f"`
	A  int             `json:"a"`
	B  int             `json:"b"`
	V  json.RawMessage `json:"v"`
}

type memStep struct {
	H []memOp `json:"h"`
	O []struct {
		Live bool     `json:"live"`
		Enc  [][2]int `json:"enc"`
	} `json:"o"`
}

func (op memOp) other() int {
	var j int
	if err := json.Unmarshal(op.V, &j); err != nil {
		panic(err)
	}
	return j - 1
}

// part is what a "part" operation takes of an encoding.
func (op memOp) part(enc []byte) []byte {
	a, n := op.A, op.B
	if a > len(enc) {
		a = len(enc)
	}
	if n > len(enc)-a {
		n = len(enc) - a
	}
	return enc[a : a+n]
}

// memBuf is the input of the first operation, with room behind it.
func (op memOp) memBuf() []byte {
	b := rawRLE(op.V)
	buf := bytes.Repeat([]byte{0xA5}, len(b)+op.A)
	copy(buf, b)
	return buf[:len(b)]
}

// memApply performs op on the messages ms of type ty.
func (op memOp) memApply(ty *Type, ms []Msg) []Msg {
	f := ty.byF[op.F]
	m := ms[op.O-1]
	switch op.Op {
	case "dec":
		m.Decode(op.memBuf())
	case "set", "app":
		modelOp{op.Op, op.F, op.V}.apply(ty, m)
	case "part":
		m.Set(op.F, op.part(ms[op.other()].Encode()))
	case "setobj":
		m.SetSub(op.F, ms[op.other()])
	case "appobj":
		m.App(op.F, ms[op.other()])
	case "ext":
		x := f.elem().New()
		if op.A == 0 {
			m.GetSub(op.F, x)
		} else {
			it := m.Iter(op.F)
			for k := 0; k < op.A; k++ {
				it(x)
			}
		}
		ms = append(ms, x)
	}
	return ms
}

// memReplay runs behaviours of Memory.tla and records those that come out with
// other bytes.
func memReplay(r *Rec, ty *Type, in string, keep int) {
	steps, other, kept := 0, 0, 0
	t := &T{r: r}
	lines(in, func(line []byte) {
		var st memStep
		if err := json.Unmarshal(line, &st); err != nil {
			panic(err)
		}
		steps++
		same := false
		t.dead = false
		t.opCall(obj{"e": "hang", "what": "replay", "h": st.H}, func() {
			ms := []Msg{ty.New()}
			for _, op := range st.H {
				ms = op.memApply(ty, ms)
			}
			same = true
			for i, o := range st.O {
				same = same && (!o.Live || bytes.Equal(ms[i].Encode(), unrle(o.Enc)))
			}
		})
		if same {
			return
		}
		other++
		// Some of the first, and others later on.
		if kept < keep/2 || kept < keep && other%16 == 0 {
			kept++
			memTrace(r, ty, st)
		}
	})
	replayed(steps, other, kept)
}

// memTrace records a behaviour as a trace.
func memTrace(r *Rec, ty *Type, st memStep) {
	t := r.begin(ty.Name)
	os := []*Obj{t.obj(ty.Name)}
	up := []int{-1}
	live := []bool{true}
	for _, op := range st.H {
		if t.dead {
			return
		}
		i := op.O - 1
		o := os[i]
		f := ty.byF[op.F]
		if op.Op == "ext" {
			x := t.obj(f.Elem)
			if op.A == 0 {
				if !t.sub(o, f, x) {
					return
				}
			} else {
				it := t.iter(o, f)
				for k := 0; k < op.A; k++ {
					if it == nil || !t.next(it, x) {
						return
					}
				}
			}
			os, up, live = append(os, x), append(up, i), append(live, true)
			continue
		}
		// What was extracted from o, before, is no longer looked at.
		var also []*Obj
		for j := range os {
			for k := up[j]; k >= 0; k = up[k] {
				if k == i {
					live[j] = false
				}
			}
			if live[j] && j != i {
				also = append(also, os[j])
			}
		}
		switch op.Op {
		case "dec":
			if !t.dec(o, op.memBuf()) {
				return
			}
		case "part":
			t.set(o, f, op.part(os[op.other()].m.Encode()), also...)
		case "setobj":
			t.setSub(o, f, os[op.other()].m, also...)
		case "appobj":
			t.app(o, f, os[op.other()].m, also...)
		case "set":
			if f.K != "msg" {
				v, _ := rawVal(f.K, op.V)
				t.set(o, f, v, also...)
				continue
			}
			fallthrough
		case "app":
			x := f.elem().New()
			v := rawRLE(op.V)
			if res, _ := call("element", func() { x.Decode(v) }); res != "ok" {
				return
			}
			if op.Op == "set" {
				t.setSub(o, f, x, also...)
			} else {
				t.app(o, f, x, also...)
			}
		}
	}
}
