package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"syscall"
	"testing"
	"unsafe"
)

func newG(seed int64) G { return G{rand.New(rand.NewSource(seed))} }

// arena is memory that can be made read-only and ends at an unmapped page.
type arena struct {
	all []byte
	n   int // usable
}

func newArena(n int) *arena {
	page := syscall.Getpagesize()
	n = (n + page - 1) / page * page
	all, err := syscall.Mmap(-1, 0, n+page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(all[n:], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	return &arena{all, n}
}

func (a *arena) free() { syscall.Munmap(a.all) }

func (a *arena) protect(ro bool) {
	p := syscall.PROT_READ
	if !ro {
		p |= syscall.PROT_WRITE
	}
	if err := syscall.Mprotect(a.all[:a.n], p); err != nil {
		panic(err)
	}
}

// put is a read-only copy of b at the end of the usable memory; the capacity
// reaches into the unmapped page.
func (a *arena) put(b []byte) []byte {
	if len(b) > a.n {
		panic("arena too small")
	}
	a.protect(false)
	at := a.n - len(b)
	copy(a.all[at:], b)
	a.protect(true)
	return a.all[at:a.n:len(a.all)]
}

// alias: arguments that are parts of the message, and arguments that change
// later.
func alias(r *Rec, g G, n int) {
	for i := 0; i < n; i++ {
		ty := g.typ([]string{"All", "Small", "Tree", "Tree", "Wide", "vraft.Message", "Elem"})
		t := r.begin(ty.Name)
		o := t.obj(ty.Name)
		var blobs []Field
		for _, f := range ty.sing {
			if isBlob(f.K) {
				blobs = append(blobs, f)
			}
		}
		max := []int{3, 40, 300}[g.Intn(3)]
		long := false
		switch g.Intn(5) {
		case 0, 1:
			t.rst(o, make([]byte, 0, 3000))
		case 2: // with longer lengths than necessary
			if !t.dec(o, g.encoding(ty, Style{Max: max, Depth: 1, Fields: 1 + g.Intn(4), Long: 2})) {
				continue
			}
			long = true
		}
		var kept []Msg // independent messages that were arguments
		var keptO []*Obj
		for k := 5 + g.Intn(12); k > 0 && !t.dead; k-- {
			j := g.Intn(12)
			if long && g.one(2) {
				j = 4
			}
			switch {
			case j < 2:
				t.randomOp(g, o, ty.sing, ty.subs, ty.reps, max, Style{Max: max, Depth: 1, Fields: 6, Unknown: 4}, false)
			case j < 4 && len(blobs) > 0: // a part of the message, from an accessor
				f, h := g.field(blobs), g.field(blobs)
				var v []byte
				if call("get", func() { v = o.m.Get(h.F) }); g.one(2) && len(v) > 0 {
					a := g.Intn(len(v))
					v = v[a : a+g.Intn(len(v)-a+1)]
				}
				if h.K == "string" {
					v = append([]byte(nil), v...)
				}
				t.set(o, f, v)
			case j == 4 && len(blobs) > 0: // any part of the encoding
				v := o.m.Encode()
				f := g.field(blobs)
				if len(v) > 0 {
					a := g.Intn(len(v))
					n := g.Intn(len(v) - a + 1)
					// What is at the field now: its value and a little around it.
					if g.one(2) {
						var cur []byte
						call("get", func() { cur = o.m.Get(f.F) })
						k := len(cur) + g.Intn(3)
						if at := inside(v, cur) - g.Intn(4); at >= 0 && at+k <= len(v) {
							a, n = at, k
						}
					}
					v = v[a : a+n]
				}
				if f.K == "bytes" {
					t.set(o, f, v)
				}
			case j == 5 && len(ty.subs) > 0: // an embedded message of itself
				f, h := g.field(ty.subs), g.field(ty.subs)
				if f.Elem == h.Elem {
					x := h.elem().New()
					ok := false
					call("sub", func() { ok, _ = o.m.GetSub(h.F, x) })
					if ok {
						t.setSub(o, f, x)
					}
				}
			case j == 6 && len(ty.reps) > 0: // an element of itself, or the last
				f, h := g.field(ty.reps), g.field(ty.reps)
				if f.Elem == h.Elem {
					x := h.elem().New()
					got := false
					call("iter", func() {
						it := o.m.Iter(h.F)
						for c := g.Intn(5); c >= 0; c-- {
							y := h.elem().New()
							if ok, err := it(y); !ok || err != nil {
								break
							}
							x, got = y, true
						}
					})
					if got {
						t.app(o, f, x)
					}
				}
			case j == 7: // itself
				for _, f := range ty.subs {
					if f.Elem == ty.Name && len(o.m.Encode()) < 3000 {
						t.setSub(o, f, o.m)
						break
					}
				}
				for _, f := range ty.reps {
					if f.Elem == ty.Name && len(o.m.Encode()) < 3000 && g.one(2) {
						t.app(o, f, o.m)
						break
					}
				}
			case j < 10 && len(blobs) > 0: // independent memory that changes later
				f := g.field(blobs)
				around := g.blob(g.size(max) + 40)
				was := append([]byte(nil), around...)
				v := around[16 : len(around)-16]
				t.set(o, f, v)
				t.mem("argument", bytes.Equal(around, was))
				for c := range around {
					around[c] ^= 0xff
				}
				t.obs(o)
			default: // an independent message that changes later
				var f Field
				rep := len(ty.reps) > 0 && (g.one(2) || len(ty.subs) == 0)
				if rep {
					f = g.field(ty.reps)
				} else if len(ty.subs) > 0 {
					f = g.field(ty.subs)
				} else {
					continue
				}
				xo := t.obj(f.Elem)
				t.rst(xo, make([]byte, 0, 200))
				for c := g.Intn(3); c >= 0; c-- {
					t.randomOp(g, xo, f.elem().sing, nil, nil, max, Style{Max: max, Fields: 4}, false)
				}
				if t.dead {
					break
				}
				if rep {
					t.app(o, f, xo.m, xo)
				} else {
					t.setSub(o, f, xo.m, xo)
				}
				if g.one(2) { // in place
					e := xo.m.Encode()
					if t.dead {
						break
					}
					for c := range e {
						e[c] ^= 0xff
					}
					t.obs(o)
					for c := range e {
						e[c] ^= 0xff
					}
				}
				t.randomOp(g, xo, f.elem().sing, nil, nil, max, Style{Max: max, Fields: 4}, false)
				t.obs(o, xo)
				kept, keptO = append(kept, xo.m), append(keptO, xo)
			}
			if !t.dead && len(keptO) > 0 && g.one(3) {
				t.obs(append([]*Obj{o}, keptO...)...)
			}
		}
	}
}

// inside is where in b the memory of part begins, or -1.
func inside(b, part []byte) int {
	d := uintptr(unsafe.Pointer(unsafe.SliceData(part))) - uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	if len(part) == 0 || d >= uintptr(len(b)) {
		return -1
	}
	return int(d)
}

// extract: elements that are changed after they were extracted.
func extract(r *Rec, g G, n int) {
	for i := 0; i < n; i++ {
		ty := types[[]string{"Tree", "Tree", "Tree", "All", "Wide", "Small", "vraft.Message", "Tiny"}[g.Intn(8)]]
		t := r.begin(ty.Name)
		o := t.obj(ty.Name)
		max := []int{3, 40, 200}[g.Intn(3)]
		// A full message, decoded or built, with room or without.
		if g.one(2) {
			b := g.encoding(ty, Style{Max: max, Depth: 2, Fields: 12, Unknown: 6, Long: g.Intn(3)})
			buf := make([]byte, len(b), len(b)+g.Intn(2)*500)
			copy(buf, b)
			if !t.dec(o, buf) {
				continue
			}
		} else {
			t.rst(o, make([]byte, 0, g.Intn(3)*1000))
			for k := 4 + g.Intn(10); k > 0 && !t.dead; k-- {
				switch j := g.Intn(4); {
				case j == 0 && len(ty.sing) > 0:
					f := g.field(ty.sing)
					t.set(o, f, g.value(f.K, max))
				case j == 1 && len(ty.subs) > 0:
					f := g.field(ty.subs)
					t.setSub(o, f, g.elem(t, f.elem(), max, 2))
				case len(ty.reps) > 0:
					f := g.field(ty.reps)
					t.app(o, f, g.elem(t, f.elem(), max, 2))
				}
			}
		}
		for rounds := 1 + g.Intn(4); rounds > 0 && !t.dead; rounds-- {
			var x *Obj
			if len(ty.subs) > 0 && (g.one(2) || len(ty.reps) == 0) {
				f := g.field(ty.subs)
				x = t.obj(f.Elem)
				if !t.sub(o, f, x) {
					continue
				}
			} else {
				it := t.iter(o, g.field(ty.reps))
				for c := g.Intn(4); c >= 0 && !t.dead; c-- {
					y := t.obj(it.f.Elem)
					if !t.next(it, y) {
						break
					}
					x = y
				}
				if x == nil || t.dead {
					continue
				}
			}
			also := []*Obj{o}
			if len(x.ty.subs) > 0 && g.one(2) { // one level deeper
				f := g.field(x.ty.subs)
				y := t.obj(f.Elem)
				if t.sub(x, f, y) {
					also, x = append([]*Obj{x}, also...), y
				}
			}
			for c := 1 + g.Intn(4); c > 0 && !t.dead; c-- {
				t.change(g, x, max, also...)
			}
		}
		// The bytes that an accessor returned.
		for _, f := range ty.sing {
			if f.K != "bytes" || t.dead {
				continue
			}
			var v []byte
			call("get", func() { v = o.m.Get(f.F) })
			if g.one(2) {
				_ = append(v, bytes.Repeat([]byte{0xEE}, 1+g.Intn(30))...)
				t.obs(o)
			}
			if len(v) > 0 && g.one(2) {
				for c := range v {
					v[c] ^= 0x55
				}
				t.r.emit(obj{"e": "poke", "o": o.id, "f": f.F, "v": rle(v), "post": looks([]*Obj{o})})
			}
		}
	}
}

// change calls one setter of x, preferably one that keeps the length.
func (t *T) change(g G, x *Obj, max int, also ...*Obj) {
	ty := x.ty
	switch k := g.Intn(6); {
	case k == 0 && len(ty.reps) > 0:
		f := g.field(ty.reps)
		t.app(x, f, g.elem(t, f.elem(), max, 1), also...)
	case k == 1 && len(ty.subs) > 0:
		f := g.field(ty.subs)
		t.setSub(x, f, g.elem(t, f.elem(), max, 1), also...)
	case len(ty.sing) > 0:
		f := g.field(ty.sing)
		v := g.value(f.K, max)
		if isBlob(f.K) && g.one(2) {
			var old []byte
			call("get", func() { old = x.m.Get(f.F) })
			v = g.blob(len(old))
		}
		t.set(x, f, v, also...)
	}
}

// pure: reads of a message that is in read-only memory, its struct too.
func pure(r *Rec, g G, n int) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // the map is referenced from unmanaged memory
	in := newArena(300000)
	defer in.free()
	at := newArena(1 << 20)
	defer at.free()
	for i := 0; i < n; i++ {
		ty := g.typ(mixed)
		t := r.begin(ty.Name)
		b := g.encoding(ty, Style{Max: []int{3, 60, 400}[g.Intn(3)], Depth: 2, Mis: g.mis(), Fields: 10, Unknown: 4, Long: g.Intn(3)})
		if g.one(4) {
			b = append(b, g.rec(nil, 901, 2, "", bytes.Repeat([]byte{'u'}, 65500+g.Intn(100)), Style{})...)
			b = append(b, g.dropSubs(ty)...)
		}
		at.protect(false)
		size := (ty.New().Size() + 7) / 8 * 8
		mem := at.all[at.n-size : at.n]
		for c := range mem {
			mem[c] = 0
		}
		o := t.objAs(ty.Name, ty.New().At(unsafe.Pointer(&mem[0])))
		if t.dec(o, in.put(b)) {
			at.protect(true)
			t.obs(o, o)
			t.readAll(o)
			t.obs(o)
		}
		at.protect(false)
		for c := range mem {
			mem[c] = 0
		}
		if i%50 == 49 {
			runtime.GC()
		}
	}
	// Built messages, compared.
	for i := 0; i < n; i++ {
		ty := g.typ(mixed)
		t := r.begin(ty.Name)
		o := t.obj(ty.Name)
		for k := g.Intn(10); k >= 0; k-- {
			t.randomOp(g, o, ty.sing, ty.subs, ty.reps, []int{3, 60, 400}[g.Intn(3)], Style{Max: 60, Depth: 1, Fields: 6, Unknown: 4}, false)
		}
		if t.dead {
			continue
		}
		mem := append([]byte(nil), memOf(o.m)...)
		buf := append([]byte(nil), full(o.m.Encode())...)
		t.readAll(o)
		t.mem("read", bytes.Equal(mem, memOf(o.m)) && bytes.Equal(buf, full(o.m.Encode())))
		t.obs(o)
	}
	runtime.GC()
}

// full is b up to its capacity.
func full(b []byte) []byte { return b[:cap(b)] }

// readAll calls every accessor once.
func (t *T) readAll(o *Obj) {
	if t.dead {
		return
	}
	ev := obj{"e": "obs", "o": o.id}
	res := t.opCall(ev, func() {
		for _, f := range o.ty.sing {
			o.m.Touch(f.F)
		}
		for _, f := range o.ty.subs {
			o.m.GetSub(f.F, f.elem().New())
		}
		for _, f := range o.ty.reps {
			o.m.TouchIter(f.F, f.elem().New())
		}
		o.m.Encode()
	})
	if res != "ok" {
		ev["e"] = "mem"
		ev["what"], ev["intact"] = "read:"+res, false
		t.r.emit(ev)
	}
}

// race: goroutines that read one message at the same time.
func race(r *Rec, g G, n int) {
	for i := 0; i < n; i++ {
		ty := g.typ([]string{"All", "Small", "Tree", "Tiny", "vraft.Message", "Wide"})
		t := r.begin(ty.Name)
		o := t.obj(ty.Name)
		b := g.encoding(ty, Style{Max: 60, Mis: g.mis(), Depth: 2, Fields: 14, Unknown: 5, Long: g.Intn(3)})
		if g.one(6) {
			b = append(b, g.rec(nil, 901, 2, "", bytes.Repeat([]byte{'u'}, 65500+g.Intn(100)), Style{})...)
			b = append(b, g.dropSubs(ty)...)
		}
		if !t.dec(o, b) {
			continue
		}
		for k := g.Intn(3); k > 0; k-- {
			t.randomOp(g, o, ty.sing, ty.subs, ty.reps, 60, Style{}, false)
		}
		if t.dead {
			continue
		}
		was := logSize()
		var wg sync.WaitGroup
		start := make(chan int)
		got := make([][]look, 4)
		for w := range got {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-start
				for k := 0; k < 2; k++ {
					got[w] = append(got[w], observeWith(o, false))
				}
			}(w)
		}
		close(start)
		wg.Wait()
		for _, ls := range got {
			t.r.emit(obj{"e": "obs", "o": o.id, "post": ls})
		}
		t.mem("race", logSize() == was)
		count("race %s", ty.Name)
	}
}

var raceLog string

// logSize is the size of the race detector's log.
func logSize() int64 {
	if raceLog == "" {
		return 0
	}
	st, err := os.Stat(fmt.Sprintf("%s.%d", raceLog, os.Getpid()))
	if err != nil {
		return 0
	}
	return st.Size()
}

// allocs: heap allocations of each call.
func allocs(r *Rec, g G, n int) {
	for i := 0; i < n; i++ {
		ty := types[[]string{"All", "All", "Small", "Tree", "Tiny", "Wide", "vraft.Message", "vraft.Snapshot"}[g.Intn(8)]]
		t := r.begin(ty.Name)
		m := ty.New()
		size := []int{300, 3000, 66000, 140000}[g.Intn(4)]
		buf := make([]byte, 0, size)
		max := []int{20, 300, size / 3}[g.Intn(3)]
		var enc []byte
		if g.one(2) {
			enc = g.encoding(ty, Style{Max: max, Depth: 1, Fields: 8, Unknown: 4, Long: g.Intn(4)})
			if g.one(4) { // many small fields
				f := []byte{0xa8, 0x38, byte(g.Intn(128))} // field 901
				if g.one(2) && len(ty.sing) > 0 {
					x := g.field(ty.sing)
					f = g.rec(nil, x.F, wireOf(x.K), x.K, g.value(x.K, 5), Style{})
				}
				enc = append(bytes.Repeat(f, []int{70, 300, 1000, 5000}[g.Intn(4)]), enc...)
			}
			if g.one(3) {
				enc = append(enc, g.rec(nil, 901, 2, "", bytes.Repeat([]byte{'u'}, g.Intn(65000)), Style{})...)
				enc = append(enc, g.dropSubs(ty)...)
			}
		}
		if len(enc) > size {
			continue
		}
		type step struct {
			name string
			add  int // size of the field that is written
			do   func()
			w    []obj // the same for the judge
		}
		written := func(name string, f Field, v json.RawMessage, do func(m Msg)) step {
			alone := ty.New()
			size := 0
			call(name, func() {
				do(alone)
				size = len(alone.Encode())
			})
			return step{name, size, func() { do(m) }, []obj{{"m": t.sch[ty.Name], "f": f.F, "v": v}}}
		}
		steps := []step{}
		if enc != nil {
			steps = append(steps, step{"dec", 0, func() {
				m.Decode(buf[:copy(buf[:cap(buf)], enc)])
			}, nil})
		} else {
			steps = append(steps, step{"rst", 0, func() { m.Reset(buf[:0]) }, nil})
		}
		for k := 2 + g.Intn(8); k > 0; k-- {
			switch j := g.Intn(10); {
			case j < 4 && len(ty.sing) > 0:
				f := g.field(ty.sing)
				v := g.value(f.K, max)
				if isBlob(f.K) && size > 60000 && g.one(3) {
					v = bytes.Repeat([]byte{'q'}, g.Intn(40000))
				}
				steps = append(steps, written("set "+f.K, f, val(f.K, v), func(m Msg) { m.Set(f.F, v) }))
			case j == 4 && len(ty.sing) > 0:
				f := g.field(ty.sing)
				steps = append(steps, step{"get " + f.K, 0, func() { m.Touch(f.F) }, nil})
			case j == 5 && len(ty.subs) > 0:
				f := g.field(ty.subs)
				x := g.elem(t, f.elem(), max/4, 1)
				steps = append(steps, written("set msg", f, rle(x.Encode()), func(m Msg) { m.SetSub(f.F, x) }))
			case j == 6 && len(ty.subs) > 0:
				f := g.field(ty.subs)
				x := f.elem().New()
				steps = append(steps, step{"get msg", 0, func() { m.GetSub(f.F, x) }, nil})
			case j == 7 && len(ty.reps) > 0:
				f := g.field(ty.reps)
				x := f.elem().New()
				steps = append(steps, step{"iter", 0, func() { m.TouchIter(f.F, x) }, nil})
			case j < 10 && len(ty.reps) > 0:
				f := g.field(ty.reps)
				x := g.elem(t, f.elem(), max/4, 1)
				steps = append(steps, written("app", f, rle(x.Encode()), func(m Msg) { m.App(f.F, x) }))
			default:
				steps = append(steps, step{"enc", 0, func() { sinkBytes = m.Encode() }, nil})
			}
		}
		// The same from a fresh message, again and again, ever longer; then in a
		// buffer that has just enough room for it.
		most := len(enc)
		for tight := 0; tight < 2; tight++ {
			if tight == 1 {
				if most > cap(buf) {
					break
				}
				buf = buf[:0:most]
			}
			had := 0
			for k := range steps {
				var last int
				prog := steps[:k+1]
				room := false
				res, _ := call(steps[k].name, func() {
					had2 := int(testing.AllocsPerRun(4, func() {
						m.Zero()
						for c := range prog {
							if c == k {
								last = len(m.Encode())
							}
							prog[c].do()
						}
					}))
					d := had2 - had
					had = had2
					if d < 0 {
						d = 0
					}
					if k == 0 {
						last = len(enc)
					}
					room = last+steps[k].add <= cap(buf)
					if tight == 0 && room && last+steps[k].add > most {
						most = last + steps[k].add
					}
					w := steps[k].w
					if w == nil {
						w = []obj{}
					}
					t.r.emit(obj{"e": "alloc", "what": steps[k].name, "len": last, "w": w, "cap": cap(buf), "n": d})
					count("alloc %s", steps[k].name)
				})
				if res != "ok" || !room || last+steps[k].add >= 65535 {
					break
				}
			}
		}
	}
}
