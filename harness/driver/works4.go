package main

import "bytes"

func init() {
	workloads["again"] = again
}

// again: the same calls hundreds or tens of thousands of times, with the same
// result as once. What is counted per call somewhere comes around.
func again(r *Rec, g G, n int) {
	for i := 0; i < n; i++ {
		ty := g.typ([]string{"Small", "Small", "Tree", "Tiny", "All", "Elem", "vraft.Message"})
		t := r.begin(ty.Name)
		o := t.obj(ty.Name)
		max := []int{3, 30, 200}[g.Intn(3)]
		st := Style{Max: max, Fields: 6, Unknown: 4, Long: g.Intn(4), Depth: 1}
		for k := g.Intn(6); k > 0 && !t.dead; k-- {
			t.randomOp(g, o, ty.sing, ty.subs, ty.reps, max, st, false)
		}
		if g.one(3) {
			t.large(g, o)
		}
		times := []int{0, 50, 115, 243, 500, 32755, 65523}[g.Intn(7)]
		f := g.field(ty.sing)
		u, v := g.value(f.K, max), g.value(f.K, max)
		enc := g.encoding(ty, st)
		m := o.m
		loop := func(f func()) {
			t.before = func() {
				for k := 0; k < times; k++ {
					f()
				}
			}
		}
		what := g.Intn(6)
		switch what {
		case 0:
			loop(func() { m.Reset(nil) })
		case 1:
			buf := make([]byte, len(enc))
			loop(func() { copy(buf, enc); m.Decode(buf) })
		case 2:
			t.set(o, f, v)
			loop(func() { m.Set(f.F, u); m.Set(f.F, v) })
		case 3:
			loop(func() { m.Reset(nil); m.Set(f.F, u) })
		case 4:
			loop(func() {
				for _, f := range ty.sing {
					m.Touch(f.F)
				}
			})
		case 5:
			buf := make([]byte, len(enc))
			loop(func() { copy(buf, enc); m.Decode(buf); m.Set(f.F, u) })
		}
		count("again:%d:%d", what, times)
		for k := 0; k < 26 && !t.dead; k++ {
			switch what {
			case 0:
				t.rst(o, nil)
			case 1:
				t.dec(o, append([]byte{}, enc...))
			case 2, 4:
				t.set(o, f, v)
			case 3:
				t.rst(o, nil)
				t.set(o, f, u)
			case 5:
				t.dec(o, append([]byte{}, enc...))
				t.set(o, f, u)
			}
		}
		t.before = nil
		for k := 0; k < 3 && !t.dead; k++ {
			t.randomOp(g, o, ty.sing, ty.subs, ty.reps, max, st, false)
		}
		t.obs(o)
		if g.one(3) {
			t.cp(o, t.obj(ty.Name))
		}
	}
}

// large sets some field to a value that puts others beyond byte 65535.
func (t *T) large(g G, o *Obj) {
	for _, f := range o.ty.sing {
		if isBlob(f.K) && !t.dead {
			t.set(o, f, bytes.Repeat([]byte{'L'}, 65500+g.Intn(100)))
			for k := 0; k < 2 && !t.dead; k++ {
				f := g.field(o.ty.sing)
				t.set(o, f, g.value(f.K, 20))
			}
			return
		}
	}
}
