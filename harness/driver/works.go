package main

import (
	"bytes"
	"fmt"
)

// A workload records traces of calls on the real code. Which of its deviations
// count is decided by the judge (spec/Trace.tla) and the property.
type workload func(r *Rec, g G, n int)

var workloads = map[string]workload{
	"ops":      func(r *Rec, g G, n int) { ops(r, g, n, opsStyle{}) },
	"copy":     func(r *Rec, g G, n int) { ops(r, g, n, opsStyle{copies: true}) },
	"unknown":  func(r *Rec, g G, n int) { ops(r, g, n, opsStyle{unknown: true, decodes: true}) },
	"overset":  func(r *Rec, g G, n int) { ops(r, g, n, opsStyle{few: true}) },
	"decode":   decodes,
	"hostile":  hostile,
	"noise":    noiseDecodes,
	"repeat":   repeats,
	"boundary": boundary,
	"jumbo":    jumbo,
	"huge":     huge,
	"reuse":    reuse,
	"scalars":  scalars,
	"nest":     nest,
	"alias":    alias,
	"extract":  extract,
	"pure":     pure,
	"race":     race,
	"alloc":    allocs,
	"probe":    probes,
	"each":     each,
}

func init() { workloads["parallel"] = parallel }

// Weighted message types.
var mixed = []string{"All", "All", "All", "Small", "Small", "Tree", "Tree", "Tiny", "Wide",
	"vraft.Message", "vraft.Message", "vraft.SnapshotMetadata", "Elem"}

// onlyTypes, if set, are the types to use instead.
var onlyTypes []string

func (g G) typ(names []string) *Type {
	if onlyTypes != nil {
		return types[onlyTypes[g.Intn(len(onlyTypes))]]
	}
	// The large structs are slow to copy.
	if g.one(60) {
		return types["Huge"]
	}
	return types[names[g.Intn(len(names))]]
}

type opsStyle struct {
	copies, unknown, decodes, few bool
}

// buffer for Reset: none, small, large, with old contents beyond its length.
func (g G) buffer() []byte {
	switch g.Intn(4) {
	case 0:
		return nil
	case 1:
		return make([]byte, 0, g.Intn(20))
	}
	b := make([]byte, g.Intn(2000))
	for i := range b {
		b[i] = 0xA5
	}
	return b[:0]
}

// some of the fields, so that they are assigned again and again.
func (g G) some(fs []Field, n int) []Field {
	if len(fs) <= n {
		return fs
	}
	out := []Field{}
	for _, i := range g.Perm(len(fs))[:n] {
		out = append(out, fs[i])
	}
	return out
}

// elemOf builds an element of type ty by setters.
func (g G) elemOf(ty *Type, max, depth int) Msg {
	x := ty.New()
	for n := g.Intn(4); n > 0; n-- {
		switch k := g.Intn(6); {
		case k < 4 && len(ty.sing) > 0:
			f := g.field(ty.sing)
			x.Set(f.F, g.value(f.K, max))
		case k == 4 && len(ty.subs) > 0 && depth > 0:
			f := g.field(ty.subs)
			x.SetSub(f.F, g.elemOf(f.elem(), max, depth-1))
		case k == 5 && len(ty.reps) > 0 && depth > 0:
			f := g.field(ty.reps)
			x.App(f.F, g.elemOf(f.elem(), max, depth-1))
		}
	}
	return x
}

// fresh builds a message outside of any trace, or gives up if that fails.
func (g G) elem(t *T, ty *Type, max, depth int) Msg {
	var x Msg
	if res, _ := call("build", func() { x = g.elemOf(ty, max, depth) }); res != "ok" {
		return ty.New()
	}
	return x
}

func ops(r *Rec, g G, n int, st opsStyle) {
	for i := 0; i < n; i++ {
		ty := g.typ(mixed)
		t := r.begin(ty.Name)
		o := t.obj(ty.Name)
		sing, subs, reps := ty.sing, ty.subs, ty.reps
		if st.few || g.one(2) {
			sing, subs, reps = g.some(sing, 1+g.Intn(4)), g.some(subs, 1), g.some(reps, 1)
		}
		max := []int{3, 40, 300, 20000}[g.Intn(4)]
		steps := 4 + g.Intn(20)
		if ty.Name == "Huge" {
			steps = 6
		}
		enc := Style{Long: 0, Mis: g.mis(), Max: max, Depth: 1, Fields: 2 + g.Intn(8)}
		if g.one(2) {
			enc.Long = 2 + g.Intn(6)
		}
		if st.unknown || g.one(2) {
			enc.Unknown = 2 + g.Intn(5)
		}
		for k := 0; k < steps && !t.dead; k++ {
			t.randomOp(g, o, sing, subs, reps, max, enc, st.decodes && (k == 0 || g.one(12)))
			if st.copies && g.one(2) {
				t.cp(o, t.obj(ty.Name))
			}
		}
	}
}

// randomOp performs one call that changes o.
func (t *T) randomOp(g G, o *Obj, sing, subs, reps []Field, max int, enc Style, dec bool) {
	switch k := g.Intn(20); {
	case dec || k == 0:
		if !t.dec(o, g.encoding(o.ty, enc)) {
			t.rst(o, nil)
		}
	case k == 1:
		t.rst(o, g.buffer())
	case k == 2 && g.one(3):
		t.obs(o)
	case k < 6 && len(reps) > 0:
		f := g.field(reps)
		t.app(o, f, g.elem(t, f.elem(), max/4, 1))
	case k < 9 && len(subs) > 0:
		f := g.field(subs)
		t.setSub(o, f, g.elem(t, f.elem(), max/4, 1))
	case len(sing) > 0:
		f := g.field(sing)
		v := g.value(f.K, max)
		if isBlob(f.K) && g.one(6) {
			v = nil
		}
		t.set(o, f, v)
	}
}

// decodes: well-formed encodings of every shape, then read in depth.
func decodes(r *Rec, g G, n int) {
	for i := 0; i < n; i++ {
		ty := g.typ(mixed)
		t := r.begin(ty.Name)
		o := t.obj(ty.Name)
		for k := 1 + g.Intn(2); k > 0; k-- {
			st := Style{Max: []int{3, 40, 400}[g.Intn(3)], Depth: g.Intn(3), Mis: g.mis(), Fields: 1 + g.Intn(12), Wide: g.one(2)}
			if g.one(2) {
				st.Long = 1 + g.Intn(4)
			}
			if g.one(2) {
				st.Unknown = 2 + g.Intn(4)
			}
			if !t.dec(o, g.encoding(ty, st)) {
				break
			}
			t.deep(o, 3)
			if g.one(3) {
				t.cp(o, t.obj(ty.Name))
			}
		}
	}
}

// deep reads the embedded messages of o, to the given depth.
func (t *T) deep(o *Obj, depth int) {
	if depth == 0 || t.n > 40 {
		return
	}
	for _, f := range o.ty.subs {
		x := t.obj(f.Elem)
		if t.sub(o, f, x) {
			t.deep(x, depth-1)
		}
	}
	for _, f := range o.ty.reps {
		if t.dead {
			return
		}
		it := t.iter(o, f)
		for k := 0; k < 50 && !t.dead; k++ {
			x := t.obj(f.Elem)
			ok := t.next(it, x)
			if !ok && !t.lastMore {
				break
			}
			if ok {
				t.deep(x, depth-1)
			}
		}
	}
}

// noiseDecodes: arbitrary and damaged inputs to Decode, in guarded memory.
func noiseDecodes(r *Rec, g G, n int) {
	mem := newArena(1 << 16)
	defer mem.free()
	for i := 0; i < n; i++ {
		ty := g.typ(mixed)
		t := r.begin(ty.Name)
		o := t.obj(ty.Name)
		for k := 0; k < 6 && !t.dead; k++ {
			var b []byte
			switch g.Intn(3) {
			case 0:
				b = g.encoding(ty, Style{Max: 200, Fields: 6, Unknown: 3, Long: 3, Mis: 3, Depth: 1, Hostile: 3})
				if g.one(2) && len(b) > 0 { // every truncation is an error or shorter message
					b = b[:g.Intn(len(b)+1)]
				}
			default:
				b = g.noise(ty)
			}
			in := mem.put(b)
			if t.dec(o, in) {
				continue
			}
			if !t.dead {
				t.mem("input", bytes.Equal(in, b))
			}
		}
	}
}

// hostile: messages whose embedded messages are damaged, read in depth, in
// guarded read-only memory.
func hostile(r *Rec, g G, n int) {
	mem := newArena(1 << 16)
	defer mem.free()
	for i := 0; i < n; i++ {
		ty := g.typ([]string{"Tree", "Tree", "All", "Small", "Tiny", "Wide", "vraft.Message", "vraft.SnapshotMetadata"})
		t := r.begin(ty.Name)
		o := t.obj(ty.Name)
		st := Style{Max: 40, Mis: g.mis(), Fields: 1 + g.Intn(8), Depth: 1 + g.Intn(3), Hostile: 1 + g.Intn(4)}
		if g.one(2) {
			st.Long = 1 + g.Intn(4)
		}
		if g.one(2) {
			st.Unknown = 2 + g.Intn(3)
		}
		b := g.encoding(ty, st)
		if g.one(4) {
			b = g.noise(ty)
		}
		in := mem.put(b)
		if t.dec(o, in) {
			t.deep(o, 4)
			// Nothing else is affected by an error in an embedded message.
			t.obs(o)
		}
		if !t.dead {
			t.mem("input", bytes.Equal(in, b))
		}
	}
}

// repeats: iteration over repeated messages among other changes.
func repeats(r *Rec, g G, n int) {
	for i := 0; i < n; i++ {
		ty := g.typ([]string{"Tree", "Tree", "Tree", "Small", "All", "Wide", "Tiny", "vraft.Message"})
		t := r.begin(ty.Name)
		o := t.obj(ty.Name)
		max := []int{3, 60, 300}[g.Intn(3)]
		sing, subs := g.some(ty.sing, 2), g.some(ty.subs, 1)
		if g.one(3) {
			st := Style{Max: max, Mis: g.mis(), Depth: 1, Fields: 8, Unknown: 3}
			if g.one(2) {
				st.Long = 2
			}
			if !t.dec(o, g.encoding(ty, st)) {
				continue
			}
		}
		steps := 3 + g.Intn(15)
		for k := 0; k < steps && !t.dead; k++ {
			switch j := g.Intn(10); {
			case j < 6:
				f := g.field(ty.reps)
				t.app(o, f, g.elem(t, f.elem(), max, 2))
			case j == 6 && len(subs) > 0:
				f := g.field(subs)
				t.setSub(o, f, g.elem(t, f.elem(), max, 1))
			case len(sing) > 0:
				f := g.field(sing)
				t.set(o, f, g.value(f.K, max))
			}
			if g.one(4) && !t.dead { // concurrently advancing iterators
				its := []*It{}
				for c := 1 + g.Intn(3); c > 0; c-- {
					its = append(its, t.iter(o, g.field(ty.reps)))
				}
				for c := 0; c < 12 && len(its) > 0 && !t.dead; c++ {
					j := g.Intn(len(its))
					x := t.obj(its[j].f.Elem)
					t.next(its[j], x)
				}
			}
		}
	}
}

// jumbo: lengths whose encoding takes two, three and four bytes.
func jumbo(r *Rec, g G, n int) {
	jumboOf(r, g, n, []int{127, 128, 1<<14 - 1, 1 << 14, 1<<21 - 6, 1<<21 - 1, 1 << 21, 1<<21 + 3})
}

// huge: the same around 16 MiB.
func huge(r *Rec, g G, n int) {
	jumboOf(r, g, n, []int{3, 70000, 1<<24 - 40, 1<<24 - 6, 1 << 24, 1<<24 + 3})
}

func jumboOf(r *Rec, g G, n int, sizes []int) {
	for i := 0; i < n; i++ {
		ty := types[[]string{"Small", "Tree", "All", "vraft.Message"}[i%4]]
		t := r.begin(ty.Name)
		o := t.obj(ty.Name)
		size := func() int { return sizes[g.Intn(len(sizes))] + g.Intn(3) - 1 }
		bigElem := func(ty *Type) Msg {
			x := ty.New()
			call("build", func() {
				for _, f := range ty.sing {
					if f.K == "bytes" || f.K == "string" {
						x.Set(f.F, bytes.Repeat([]byte{'e'}, size()))
						break
					}
				}
				if f := g.field(ty.sing); !isBlob(f.K) {
					x.Set(f.F, g.value(f.K, 10))
				}
			})
			return x
		}
		for k := 3 + g.Intn(5); k > 0 && !t.dead; k-- {
			switch j := g.Intn(10); {
			case j == 0:
				b := g.encoding(ty, Style{Max: 20, Mis: g.mis(), Fields: 4, Unknown: 4})
				b = g.rec(b, g.unknownField(ty), 2, "", bytes.Repeat([]byte{'u'}, size()), Style{})
				if !t.dec(o, append(b, g.dropSubs(ty)...)) {
					t.rst(o, nil)
				}
			case j < 3 && len(ty.subs) > 0:
				f := g.field(ty.subs)
				t.setSub(o, f, bigElem(f.elem()))
			case j < 5 && len(ty.reps) > 0:
				f := g.field(ty.reps)
				t.app(o, f, bigElem(f.elem()))
			case j < 8:
				f := g.field(ty.sing)
				if isBlob(f.K) {
					t.set(o, f, bytes.Repeat([]byte{byte('a' + k)}, size()))
					continue
				}
				t.set(o, f, g.value(f.K, 100))
			default:
				t.cp(o, t.obj(ty.Name))
			}
		}
		t.deep(o, 1)
	}
}

// boundary: fields around byte offset 65535.
func boundary(r *Rec, g G, n int) {
	for i := 0; i < n; i++ {
		ty := types[[]string{"Small", "Small", "Tree", "All", "vraft.Message", "Wide"}[g.Intn(6)]]
		t := r.begin(ty.Name)
		o := t.obj(ty.Name)
		var blob Field
		for _, f := range ty.sing {
			if f.K == "bytes" || f.K == "string" {
				blob = f
			}
		}
		sing, reps := append([]Field{blob}, g.some(ty.sing, 4)...), ty.reps
		big := func() int { // the encoding gets near a boundary
			have := len(o.m.Encode())
			switch g.Intn(5) {
			case 0:
				return g.Intn(30)
			case 1:
				return 65535 - 12 + g.Intn(24)
			case 2:
				if have < 65535 {
					return 65535 - have + 12 - g.Intn(24)
				}
				return 65000
			case 3:
				return 66000 + g.Intn(3)*65536
			}
			return 65520 - g.Intn(200)
		}
		clip := func(n int) int {
			if n < 0 {
				return 0
			}
			return n
		}
		reread := g.one(2)
		steps := 4 + g.Intn(14)
		if ty.Name == "Wide" {
			steps = 5
		}
		for k := 0; k < steps && !t.dead; k++ {
			switch j := g.Intn(16); {
			case j < 5:
				t.set(o, blob, bytes.Repeat([]byte{byte('a' + k)}, clip(big())))
			case j < 9:
				f := g.field(sing)
				t.set(o, f, g.value(f.K, 200))
			case j < 12 && len(reps) > 0:
				f := g.field(reps)
				x := f.elem().New()
				if g.one(5) {
					for _, h := range f.elem().sing {
						if h.K == "bytes" {
							x.Set(h.F, bytes.Repeat([]byte{'z'}, clip(big())))
						}
					}
				} else {
					x = g.elem(t, f.elem(), 20, 1)
				}
				t.app(o, f, x)
			case j == 12 && len(ty.subs) > 0:
				f := g.field(ty.subs)
				t.setSub(o, f, g.elem(t, f.elem(), 100, 1))
			case j == 13:
				b := g.encoding(ty, Style{Max: 20, Mis: g.mis(), Fields: 4, Unknown: 4})
				p := g.rec(nil, 900, 2, "", bytes.Repeat([]byte{'u'}, clip(65535-4-len(b)+8-g.Intn(16))), Style{})
				// A singular embedded message must not occur twice.
				in := append(append(append([]byte{}, b...), p...), g.dropSubs(ty)...)
				if !t.dec(o, in) {
					t.rst(o, nil)
				}
			case j == 14 && reread && !t.dead:
				// Decode its own encoding: the offsets must come out the same.
				b := append([]byte(nil), o.m.Encode()...)
				if !t.dec(o, b) {
					t.rst(o, nil)
				}
			case j == 15 && g.one(3):
				t.rst(o, g.buffer())
			}
		}
		if !t.dead {
			t.cp(o, t.obj(ty.Name))
		}
	}
}

// dropSubs is an encoding of ty without embedded singular messages.
func (g G) dropSubs(ty *Type) []byte {
	m := ty.New()
	for n := g.Intn(5); n > 0 && len(ty.sing) > 0; n-- {
		f := g.field(ty.sing)
		m.Set(f.F, g.value(f.K, 20))
	}
	for n := g.Intn(3); n > 0 && len(ty.reps) > 0; n-- {
		f := g.field(ty.reps)
		m.App(f.F, g.elemOf(f.elem(), 10, 1))
	}
	return m.Encode()
}

// parentOf is a type with a singular field of type ty, if there is one.
func (g G) parentOf(ty *Type) (*Type, Field) {
	ps, fs := []*Type{}, []Field{}
	for _, n := range []string{"All", "Tree", "Wide", "vraft.Message", "vraft.SnapshotMetadata"} {
		for _, f := range types[n].subs {
			if f.Elem == ty.Name {
				ps, fs = append(ps, types[n]), append(fs, f)
			}
		}
	}
	if len(ps) == 0 {
		return nil, Field{}
	}
	i := g.Intn(len(ps))
	return ps[i], fs[i]
}

// reuse: a used message next to a fresh one, on which the same is done.
func reuse(r *Rec, g G, n int) {
	for i := 0; i < n; i++ {
		ty := g.typ([]string{"All", "Small", "Small", "Tree", "Tree", "Tiny", "Wide", "Elem", "vraft.Message"})
		parent, pf := g.parentOf(ty)
		names := []string{ty.Name}
		if parent != nil {
			names = append(names, parent.Name)
		}
		t := r.begin(names...)
		a := t.obj(ty.Name)
		max := []int{3, 60, 400}[g.Intn(3)]
		st := Style{Max: max, Mis: g.mis(), Depth: 1, Fields: 6, Unknown: 4, Long: g.Intn(4)}
		sing, subs, reps := g.some(ty.sing, 4), g.some(ty.subs, 2), ty.reps
		large := g.one(2)
		// The past of a.
		for k := g.Intn(8); k >= 0 && !t.dead; k-- {
			if large && g.one(3) {
				for _, f := range ty.sing {
					if f.K == "bytes" || f.K == "string" {
						t.set(a, f, bytes.Repeat([]byte{'L'}, 65500+g.Intn(100)))
						break
					}
				}
				continue
			}
			t.randomOp(g, a, sing, subs, reps, max, st, false)
		}
		if g.one(3) && !t.dead { // a failed Decode
			t.dec(a, g.noise(ty))
		}
		if t.dead {
			continue
		}
		b := t.obj(ty.Name)
		enc := g.encoding(ty, st)
		if large && g.one(3) {
			enc = append(enc, g.rec(nil, 901, 2, "", bytes.Repeat([]byte{'u'}, 65530+g.Intn(12)), Style{})...)
			enc = append(enc, g.dropSubs(ty)...)
		}
		both := func(f func(o *Obj) bool) bool {
			x := f(a)
			y := f(b)
			t.same(a, b, x, y)
			return x && y && !t.dead
		}
		ok := false
		switch k := g.Intn(4); {
		case k == 0 && parent != nil: // as the target of an accessor
			in := g.rec(nil, pf.F, 2, "msg", enc, Style{})
			pa, pb := t.obj(parent.Name), t.obj(parent.Name)
			ok = t.dec(pa, append([]byte{}, in...)) && t.dec(pb, append([]byte{}, in...)) &&
				both(func(o *Obj) bool {
					if o == a {
						return t.sub(pa, pf, o)
					}
					return t.sub(pb, pf, o)
				})
		case k == 1:
			big := g.one(2)
			ok = both(func(o *Obj) bool {
				if big {
					t.rst(o, make([]byte, 0, 4000))
				} else {
					t.rst(o, nil)
				}
				return true
			})
		default:
			ok = both(func(o *Obj) bool { return t.dec(o, append([]byte{}, enc...)) })
		}
		seed := g.Int63()
		for k := 0; k < 5 && ok && !t.dead; k++ {
			both(func(o *Obj) bool {
				t.randomOp(newG(seed+int64(k)), o, sing, subs, reps, max, st, false)
				return true
			})
		}
		if !t.dead && g.one(4) {
			t.rstFull(a, []byte{1, 2})
		}
	}
}

// same: a and b must be indistinguishable.
func (t *T) same(a, b *Obj, x, y bool) {
	if t.dead {
		return
	}
	if !x || !y {
		t.r.emit(obj{"e": "same", "o": a.id, "out": []bool{x, y}, "post": []int{}})
		return
	}
	t.r.emit(obj{"e": "same", "o": a.id, "out": []bool{x, y}, "post": []look{observeWith(a, false), observeWith(b, false)}})
}

// scalars: every kind, boundary values, fresh, overwritten and decoded.
func scalars(r *Rec, g G, n int) {
	tys := []string{"All", "All", "All", "Wide"}
	for i := 0; i < n; i++ {
		ty := types[tys[g.Intn(len(tys))]]
		if i%80 == 79 {
			ty = types["Huge"]
		}
		t := r.begin(ty.Name)
		o := t.obj(ty.Name)
		for k := 0; k < 12 && !t.dead; k++ {
			f := ty.sing[(i*12+k)%len(ty.sing)]
			v := g.value(f.K, 300)
			if g.one(40) && isBlob(f.K) {
				v = bytes.Repeat([]byte{'q'}, []int{16383, 16384, 2097151, 2097152}[g.Intn(4)])
			}
			t.set(o, f, v)
			if g.one(3) {
				t.set(o, f, g.value(f.K, 300))
			}
			if len(o.m.Encode()) > 100000 {
				t.rst(o, nil)
			}
		}
	}
}

// nest: embedded messages, set and read back to some depth.
func nest(r *Rec, g G, n int) {
	for i := 0; i < n; i++ {
		ty := types[[]string{"Tree", "Tree", "Tree", "All", "Wide", "vraft.Message", "vraft.SnapshotMetadata"}[g.Intn(7)]]
		t := r.begin(ty.Name)
		o := t.obj(ty.Name)
		max := []int{3, 60, 400}[g.Intn(3)]
		targets := map[string]*Obj{}
		for k := 2 + g.Intn(8); k > 0 && !t.dead; k-- {
			switch j := g.Intn(8); {
			case j < 4:
				f := g.field(ty.subs)
				var x Msg
				if g.one(4) {
					x = f.elem().New() // empty
					if g.one(2) {
						x.Reset(make([]byte, 0, 10))
					}
				} else {
					x = g.elem(t, f.elem(), max, 3)
				}
				t.setSub(o, f, x)
			case j == 4:
				if !t.dec(o, g.encoding(ty, Style{Max: max, Mis: g.mis(), Depth: 3, Fields: 6, Unknown: 5, Long: g.Intn(3)})) {
					t.rst(o, nil)
				}
			case j == 5 && len(ty.sing) > 0:
				f := g.field(ty.sing)
				t.set(o, f, g.value(f.K, max))
			case j == 6 && len(ty.reps) > 0:
				f := g.field(ty.reps)
				t.app(o, f, g.elem(t, f.elem(), max, 3))
			default:
				f := g.field(ty.subs)
				x := targets[f.Elem] // used before
				if x == nil || g.one(3) {
					x = t.obj(f.Elem)
					targets[f.Elem] = x
				}
				if t.sub(o, f, x) {
					t.deep(x, 3)
				}
			}
		}
	}
}

var cases = map[string]int{}

func count(format string, a ...interface{}) {
	recMu.Lock()
	cases[fmt.Sprintf(format, a...)]++
	recMu.Unlock()
}

// each: every field of every type, set or appended to, in any order, then
// decoded elsewhere and read in depth.
func each(r *Rec, g G, n int) {
	for i := 0; i < n; i++ {
		for _, name := range onlyTypes {
			ty := types[name]
			t := r.begin(name)
			o := t.obj(name)
			fs := append([]Field(nil), ty.Fields...)
			for _, k := range g.Perm(len(fs)) {
				if t.dead {
					break
				}
				switch f := fs[k]; {
				case f.R && f.K == "msg":
					for e := 1 + g.Intn(2); e > 0 && !t.dead; e-- {
						t.app(o, f, g.elem(t, f.elem(), 9, 1))
					}
				case f.R:
				case f.K == "msg":
					t.setSub(o, f, g.elem(t, f.elem(), 9, 1))
				default:
					t.set(o, f, g.value(f.K, 9))
				}
			}
			if !t.dead {
				t.cp(o, t.obj(name))
			}
			if !t.dead && t.dec(o, g.encoding(ty, Style{Max: 9, Depth: 1, Fields: 2 * len(fs), Wide: true})) {
				t.deep(o, 1)
			}
		}
	}
}
