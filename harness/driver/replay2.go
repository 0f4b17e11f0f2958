package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"testing"
)

func lines(in string, f func(b []byte)) {
	file, err := os.Open(in)
	if err != nil {
		panic(err)
	}
	defer file.Close()
	sc := bufio.NewScanner(file)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	for sc.Scan() {
		f(sc.Bytes())
	}
	if err := sc.Err(); err != nil {
		panic(err)
	}
}

func replayed(steps, other, kept int) {
	b, _ := json.Marshal(obj{"steps": steps, "layout": 0, "content": other, "judged": kept})
	fmt.Println("@REPLAY " + string(b))
}

// allocReplay measures the allocations of the last operation of each behaviour,
// and of reading everything after it. The message has a buffer of its own with
// room for all; the elements exist beforehand.
func allocReplay(r *Rec, ty *Type, in string, keep int) {
	const room = 200000
	buf := make([]byte, 0, room)
	input := make([]byte, 0, room)
	subs := map[int]Msg{}
	for _, f := range append(append([]Field{}, ty.subs...), ty.reps...) {
		subs[f.F] = f.elem().New()
	}
	m := ty.New()
	cached := map[string]int{} // history -> allocations
	steps, other, kept := 0, 0, 0
	t := r.begin(ty.Name)
	lines(in, func(line []byte) {
		var st modelStep
		if err := json.Unmarshal(line, &st); err != nil {
			panic(err)
		}
		if !st.OK {
			return // an error may allocate
		}
		steps++
		ops := make([]func(), len(st.H))
		add := make([]obj, len(st.H))
		for i, op := range st.H {
			f := ty.byF[op.F]
			switch op.Op {
			case "set", "app":
				if f.K == "msg" {
					x := f.elem().New()
					if x.Decode(rawRLE(op.V)) != nil {
						return
					}
					add[i] = obj{"m": t.sch[ty.Name], "f": f.F, "v": rle(x.Encode())}
					if op.Op == "set" {
						ops[i] = func() { m.SetSub(f.F, x) }
					} else {
						ops[i] = func() { m.App(f.F, x) }
					}
				} else {
					v, _ := rawVal(f.K, op.V)
					add[i] = obj{"m": t.sch[ty.Name], "f": f.F, "v": val(f.K, v)}
					ops[i] = func() { m.Set(f.F, v) }
				}
			case "dec":
				b := rawRLE(op.V)
				ops[i] = func() { m.Decode(append(input[:0], b...)) }
			case "rst":
				ops[i] = func() { m.Reset(buf[:0]) }
			}
		}
		var before int
		run := func(n int) int {
			return int(testing.AllocsPerRun(3, func() {
				m.Zero()
				m.Reset(buf[:0])
				for k := 0; k < n; k++ {
					if k == len(ops)-1 {
						before = len(m.Encode())
					}
					ops[k]()
				}
			}))
		}
		key := func(h []modelOp) string { b, _ := json.Marshal(h); return string(b) }
		measure := func() (d int) {
			pre := key(st.H[:len(st.H)-1])
			had, ok := cached[pre]
			if !ok {
				had = run(len(ops) - 1)
				if len(cached) > 200000 {
					cached = map[string]int{}
				}
				cached[pre] = had
			}
			now := run(len(ops))
			cached[key(st.H)] = now
			return now - had
		}
		read := func() int {
			return int(testing.AllocsPerRun(3, func() {
				for _, f := range ty.sing {
					m.Touch(f.F)
				}
				for _, f := range ty.subs {
					m.GetSub(f.F, subs[f.F])
				}
				for _, f := range ty.reps {
					m.TouchIter(f.F, subs[f.F])
				}
				sinkBytes = m.Encode()
			}))
		}
		var d, e int
		if res, _ := call("alloc", func() { d, e = measure(), 0 }); res != "ok" {
			return
		}
		if res, _ := call("alloc", func() { e = read() }); res != "ok" {
			e = 0 // the subject of others
		}
		if d > 0 || e > 0 {
			other++
			// Again, so that what the runtime does in between does not count.
			cached = map[string]int{}
			call("alloc", func() { d = measure() })
			call("alloc", func() { e = read() })
		}
		last := st.H[len(st.H)-1]
		written := []obj{}
		if w := add[len(add)-1]; w != nil {
			written = append(written, w)
		}
		size := before
		if last.Op == "dec" || last.Op == "rst" {
			size = len(m.Encode())
		}
		if d > 0 && kept < keep || steps%500 == 1 {
			kept++
			t.r.emit(obj{"e": "alloc", "what": last.Op, "len": size, "w": written, "cap": room, "n": d, "h": st.H})
		}
		if e > 0 && kept < keep || steps%500 == 1 {
			kept++
			t.r.emit(obj{"e": "alloc", "what": "read", "len": len(m.Encode()), "w": []obj{}, "cap": room, "n": e, "h": st.H})
		}
	})
	replayed(steps, other, kept)
}

type readStep struct {
	R int    `json:"r"`
	A string `json:"a"`
	F int    `json:"f"`
}

// reader performs the reads of one reader and keeps what it gets.
type reader struct {
	ty  *Type
	its map[int]Iter
	out []string
}

func newReader(ty *Type) *reader { return &reader{ty: ty, its: map[int]Iter{}} }

func (rd *reader) step(m Msg, q readStep) {
	s := ""
	res, _ := call("read", func() {
		f := rd.ty.byF[q.F]
		switch q.A {
		case "enc":
			s = string(m.Encode())
		case "get":
			if f.K != "msg" {
				s = string(m.Get(q.F))
				return
			}
			x := f.elem().New()
			ok, err := m.GetSub(q.F, x)
			s = fmt.Sprint(ok, err != nil)
			if ok {
				s += string(x.Encode())
			}
		case "iter":
			rd.its[q.F] = m.Iter(q.F)
		case "next":
			x := f.elem().New()
			ok, err := rd.its[q.F](x)
			s = fmt.Sprint(ok, err != nil)
			if ok {
				s += string(x.Encode())
			}
		}
	})
	rd.out = append(rd.out, res+" "+s)
}

// brief is a text by which two results can be compared.
func brief(out []string) string {
	s := ""
	for _, o := range out {
		if len(o) > 60 {
			o = fmt.Sprintf("%.30s..%d..%x", o, len(o), sum(o))
		}
		s += fmt.Sprintf("%q ", o)
	}
	return s
}

func sum(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// readReplay runs schedules of several readers of one message.
func readReplay(r *Rec, ty *Type, in string, keep int, logSize func() int64) {
	steps, other, kept := 0, 0, 0
	lines(in, func(line []byte) {
		var st struct {
			H []modelOp  `json:"h"`
			Q []readStep `json:"q"`
		}
		if err := json.Unmarshal(line, &st); err != nil {
			panic(err)
		}
		steps++
		build := func() Msg {
			m := prepare(ty, steps%2)
			for _, op := range st.H {
				op.apply(ty, m)
			}
			return m
		}
		if res, _ := call("build", func() { build() }); res != "ok" {
			return // the subject of others
		}
		n := 0
		for _, q := range st.Q {
			if q.R > n {
				n = q.R
			}
		}
		// Each reader alone.
		alone := make([]*reader, n)
		for k := range alone {
			alone[k] = newReader(ty)
			m := build()
			for _, q := range st.Q {
				if q.R == k+1 {
					alone[k].step(m, q)
				}
			}
		}
		// The schedule.
		m := build()
		mem := append([]byte(nil), memOf(m)...)
		buf := append([]byte(nil), full(m.Encode())...)
		inter := make([]*reader, n)
		for k := range inter {
			inter[k] = newReader(ty)
		}
		for _, q := range st.Q {
			inter[q.R-1].step(m, q)
		}
		intact := bytes.Equal(mem, memOf(m)) && bytes.Equal(buf, full(m.Encode()))
		// At the same time.
		m = build()
		was := logSize()
		par := make([]*reader, n)
		var wg sync.WaitGroup
		start := make(chan int)
		for k := range par {
			par[k] = newReader(ty)
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				<-start
				for _, q := range st.Q {
					if q.R == k+1 {
						par[k].step(m, q)
					}
				}
			}(k)
		}
		close(start)
		wg.Wait()
		raced := logSize() != was
		same := true
		for k := range alone {
			same = same && brief(alone[k].out) == brief(inter[k].out) && brief(alone[k].out) == brief(par[k].out)
		}
		if same && intact && !raced {
			return
		}
		other++
		if kept >= keep {
			return
		}
		kept++
		t := r.begin(ty.Name)
		o := t.obj(ty.Name)
		for k := range alone {
			t.r.emit(obj{"e": "same", "o": o.id, "out": []string{brief(alone[k].out), brief(inter[k].out)}, "post": []int{}, "h": st.H, "q": st.Q})
			t.r.emit(obj{"e": "same", "o": o.id, "out": []string{brief(alone[k].out), brief(par[k].out)}, "post": []int{}, "h": st.H, "q": st.Q})
		}
		t.r.emit(obj{"e": "mem", "what": "read", "intact": intact, "h": st.H, "q": st.Q})
		t.r.emit(obj{"e": "mem", "what": "race", "intact": !raced, "h": st.H, "q": st.Q})
	})
	replayed(steps, other, kept)
}
