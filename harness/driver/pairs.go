package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"sync"
	"time"
)

// together runs fs at the same time, each in a goroutine of its own.
func together(r *Rec, fs []func()) {
	if syncFile != nil {
		syncCall(r.t, obj{"e": "parallel"})
		inOp = true
		defer func() { inOp = false; syncFile.Truncate(0) }()
	}
	var wg sync.WaitGroup
	start := make(chan int)
	for _, f := range fs {
		wg.Add(1)
		go func(f func()) {
			defer wg.Done()
			<-start
			f()
		}(f)
	}
	done := make(chan int)
	go func() {
		wg.Wait()
		close(done)
	}()
	close(start)
	select {
	case <-done:
	case <-time.After(6 * limit):
		finishHang(obj{"e": "hang", "what": "parallel"}, r)
	}
}

type pairOp struct {
	modelOp
	O int `json:"o"`
}

type pairStep struct {
	H []pairOp    `json:"h"`
	M []modelStep `json:"m"`
}

// shown is what can be seen of a message: everything but the layout.
func shown(ty *Type, m Msg) string {
	l := observeWith(&Obj{ty: ty, m: m}, false)
	l.Enc = nil
	var b []byte
	call("Encode", func() { b = m.Encode() })
	return fmt.Sprintf("%d %s", len(b), encoded(l))
}

func encoded(x interface{}) []byte {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return b
}

// pairReplay runs behaviours of several messages: each message alone, in the
// order of the behaviour, and all at the same time.
func pairReplay(r *Rec, ty *Type, in string, keep int) {
	steps, other, kept := 0, 0, 0
	lines(in, func(line []byte) {
		var st pairStep
		if err := json.Unmarshal(line, &st); err != nil {
			panic(err)
		}
		steps++
		n := len(st.M)
		res := make([][]string, n) // of the calls of each message
		fresh := func() []Msg {
			ms := make([]Msg, n)
			for k := range ms {
				ms[k] = prepare(ty, steps%3)
				res[k] = nil
			}
			return ms
		}
		step := func(ms []Msg, op pairOp) {
			var err error
			s, _ := call(op.Op, func() { err = op.apply(ty, ms[op.O-1]) })
			res[op.O-1] = append(res[op.O-1], fmt.Sprint(s, err != nil))
		}
		only := func(ms []Msg, k int) {
			for _, op := range st.H {
				if op.O == k+1 {
					step(ms, op)
				}
			}
		}
		// What the specification says, where it is open about the layout; after
		// a Decode that failed nothing is said.
		look := func(ms []Msg) []string {
			out := make([]string, n)
			for k, m := range ms {
				out[k] = fmt.Sprint(res[k])
				if st.M[k].OK {
					out[k] += " " + shown(ty, m)
				}
			}
			return out
		}
		alone := make([]string, n)
		wrong := false
		for k := range alone {
			ms := fresh()
			only(ms, k)
			alone[k] = look(ms)[k]
			call("mismatch", func() { wrong = wrong || st.M[k].OK && st.M[k].mismatch(ty, ms[k], nil) == 2 })
		}
		ms := fresh()
		for _, op := range st.H {
			step(ms, op)
		}
		inter := look(ms)
		for k, m := range ms {
			call("mismatch", func() { wrong = wrong || st.M[k].OK && st.M[k].mismatch(ty, m, nil) == 2 })
		}
		ms = fresh()
		was := logSize()
		fs := make([]func(), n)
		par := make([]string, n)
		for k := range fs {
			k := k
			fs[k] = func() {
				only(ms, k)
				if st.M[k].OK {
					par[k] = " " + shown(ty, ms[k])
				}
				par[k] = fmt.Sprint(res[k]) + par[k]
			}
		}
		together(r, fs)
		raced := logSize() != was
		same := true
		for k := range alone {
			same = same && alone[k] == inter[k] && alone[k] == par[k]
		}
		if wrong {
			other++ // unless the messages differ, the subject of others
		}
		if same && !raced || kept >= keep {
			return
		}
		kept++
		t := r.begin(ty.Name)
		o := t.obj(ty.Name)
		for k := range alone {
			a := short(alone[k])
			t.r.emit(obj{"e": "same", "what": "in turns", "o": o.id, "out": []string{a, short(inter[k])}, "post": []int{}, "h": st.H})
			t.r.emit(obj{"e": "same", "what": "at the same time", "o": o.id, "out": []string{a, short(par[k])}, "post": []int{}, "h": st.H})
		}
		t.r.emit(obj{"e": "mem", "what": "race", "intact": !raced, "h": st.H})
	})
	replayed(steps, other, kept)
}

func short(s string) string {
	if len(s) <= 600 {
		return s
	}
	return fmt.Sprintf("%.500s..%d..%x", s, len(s), sum(s))
}

// Workloads that do not depend on each other, on memory or on the time.
var independent = []string{"ops", "copy", "unknown", "overset", "repeat", "nest", "scalars", "extract", "boundary", "jumbo", "decode", "hostile", "reuse"}

// recordAside runs one trace of a workload and returns what it recorded.
func recordAside(name string, seed int64) []byte {
	var b bytes.Buffer
	r := &Rec{w: bufio.NewWriter(&b), only: -1, ops: map[string]int{}, rel: []string{}, aside: true}
	func() {
		defer func() {
			if e := recover(); e != nil {
				fmt.Fprintf(r.w, "panic %v", e)
			}
		}()
		workloads[name](r, newG(seed), 1)
	}()
	r.w.Flush()
	return b.Bytes()
}

// parallel: workloads in goroutines of their own record what they record alone.
func parallel(r *Rec, g G, n int) {
	for i := 0; i < n; i++ {
		const k = 4
		t := r.begin("Tiny")
		o := t.obj("Tiny")
		names, seeds := make([]string, k), make([]int64, k)
		alone, par := make([][]byte, k), make([][]byte, k)
		same := g.one(3)
		for j := range names {
			names[j], seeds[j] = independent[g.Intn(len(independent))], g.Int63()
			if same && j > 0 {
				names[j] = names[0]
			}
			alone[j] = recordAside(names[j], seeds[j])
		}
		was := logSize()
		fs := make([]func(), k)
		for j := range fs {
			j := j
			fs[j] = func() { par[j] = recordAside(names[j], seeds[j]) }
		}
		together(r, fs)
		raced := logSize() != was
		for j := range names {
			a, b := string(alone[j]), string(par[j])
			if a != b && string(recordAside(names[j], seeds[j])) != a {
				count("parallel %s: different each time", names[j])
				continue
			}
			t.r.emit(obj{"e": "same", "what": names[j], "o": o.id, "out": []string{tail(a, b), tail(b, a)}, "post": []int{}, "with": names, "seeds": seeds})
			count("parallel %s", names[j])
		}
		t.r.emit(obj{"e": "mem", "what": "race", "intact": !raced, "with": names, "seeds": seeds})
	}
}

// tail is a from shortly before where it differs from b.
func tail(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i -= 100; i < 0 {
		i = 0
	}
	s := a[i:]
	if len(s) > 300 {
		s = s[:300]
	}
	return fmt.Sprintf("%d %x %s", len(a), sum(a), s)
}
