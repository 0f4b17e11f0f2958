package main

import "bytes"

func init() {
	workloads["many"] = many
	workloads["long"] = long
}

// howMany is a number of fields or elements, mostly around powers of two.
func (g G) howMany(most int) int {
	bit := uint(6)
	for bit < 30 && 1<<(bit+1) <= most {
		bit++
	}
	switch n := 1 << (6 + uint(g.Intn(int(bit)-5))); g.Intn(3) {
	case 0:
		return n - 1
	case 1:
		return n + g.Intn(n)
	default:
		return n + g.Intn(3)
	}
}

// many: inputs with thousands of fields, fields with thousands of elements,
// hundreds of levels.
func many(r *Rec, g G, n int) {
	for i := 0; i < n; i++ {
		name := []string{"Small", "Tree", "Tiny", "Wide", "All", "vraft.Message"}[g.Intn(6)]
		t := r.begin(name)
		o := t.obj(name)
		switch i % 3 {
		case 0:
			t.manyFields(g, o, g.howMany(6000))
		case 1:
			t.manyElems(g, o, g.howMany(1500))
		case 2:
			t = r.begin("Tree")
			t.levels(g, t.obj("Tree"), 10+g.Intn(190))
		}
	}
	// A few that are much larger.
	for i := 0; i < 1+n/60; i++ {
		name := []string{"Tiny", "Small", "Tree"}[i%3]
		t := r.begin(name)
		t.manyFields(g, t.obj(name), 1<<14+g.Intn(1<<13))
	}
}

// manyFields decodes an input of n fields.
func (t *T) manyFields(g G, o *Obj, n int) {
	ty := o.ty
	st := Style{Max: 3, Fields: 1}
	if g.one(2) {
		st.Long = 8
	}
	var tmpl [][]byte
	for k := 1 + g.Intn(4); k > 0; k-- {
		if g.one(3) {
			tmpl = append(tmpl, g.rec(nil, g.unknownField(ty), wires[g.Intn(4)], "", g.blob(g.Intn(3)), st))
			continue
		}
		f := g.field(ty.Fields)
		if f.K == "msg" && !f.R {
			continue
		}
		v := []byte{}
		if f.K != "msg" {
			v = g.value(f.K, 3)
		}
		tmpl = append(tmpl, g.rec(nil, f.F, wireOf(f.K), f.K, v, st))
	}
	var b []byte
	// All of them between two elements.
	between := func() {}
	if len(ty.reps) > 0 && g.one(2) {
		f := g.field(ty.reps)
		between = func() { b = g.rec(b, f.F, 2, "msg", g.elem(t, f.elem(), 3, 0).Encode(), st) }
		count("fields between elements:%d", bucket(n))
	}
	between()
	for k := 0; k < n; k++ {
		if len(tmpl) == 0 || g.one(100) {
			f := g.field(ty.sing)
			b = g.rec(b, f.F, wireOf(f.K), f.K, g.value(f.K, 3), st)
			continue
		}
		b = append(b, tmpl[g.Intn(len(tmpl))]...)
	}
	count("fields:%d", bucket(n))
	between()
	if g.one(8) { // a flaw behind all of them
		b = append(b, [][]byte{{8}, {8, 0x80}, {10, 1}, {11}, {0, 0}}[g.Intn(5)]...)
	}
	if !t.dec(o, b) {
		return
	}
	f := g.field(ty.sing)
	t.set(o, f, g.value(f.K, 40))
	if len(ty.reps) > 0 {
		f := g.field(ty.reps)
		t.app(o, f, g.elem(t, f.elem(), 3, 0))
	}
}

// manyElems appends n elements among other changes, then reads them.
func (t *T) manyElems(g G, o *Obj, n int) {
	ty := o.ty
	if len(ty.reps) == 0 {
		return
	}
	fs := g.some(ty.reps, 2)
	sing := g.some(ty.sing, 3)
	t.quiet = true
	for k := 0; k < n && !t.dead; k++ {
		if len(sing) > 0 && g.one(20) {
			f := g.field(sing)
			t.set(o, f, g.value(f.K, 10))
			continue
		}
		f := g.field(fs)
		t.app(o, f, g.elem(t, f.elem(), 3, 0))
	}
	t.quiet = false
	count("elements:%d", bucket(n))
	t.obs(o)
	t.cp(o, t.obj(ty.Name))
	if len(sing) > 0 {
		f := g.field(sing)
		t.set(o, f, g.value(f.K, 40))
	}
}

// levels builds and reads a message of n levels.
func (t *T) levels(g G, o *Obj, n int) {
	ty := o.ty
	val := ty.sing[0]
	for _, f := range ty.sing {
		if !isBlob(f.K) {
			val = f
		}
	}
	var in Msg
	fs := []Field{}
	for k := 0; k < n; k++ {
		x := ty.New()
		f := g.field(append(append([]Field{}, ty.subs...), ty.reps...))
		if f.elem() != ty {
			f = ty.subs[0]
		}
		call("build", func() {
			if in != nil {
				if f.R {
					if g.one(2) {
						x.App(f.F, ty.New())
					}
					x.App(f.F, in)
				} else {
					x.SetSub(f.F, in)
				}
			}
			if g.one(2) {
				x.Set(val.F, g.value(val.K, 4))
			}
		})
		if in != nil {
			fs = append(fs, f)
		}
		in = x
	}
	count("levels:%d", bucket(n))
	f := ty.subs[0]
	t.setSub(o, f, in)
	x := t.obj(ty.Name)
	if !t.sub(o, f, x) {
		return
	}
	t.quiet = n > 40
	spare := []*Obj{t.obj(ty.Name), t.obj(ty.Name)}
	for k := len(fs) - 1; k >= 0 && !t.dead; k-- {
		if k < 3 {
			t.quiet = false
		}
		y := x
		if g.one(3) {
			y = spare[k%2]
		}
		if fs[k].R {
			it := t.iter(x, fs[k])
			got := false
			// The last element leads on.
			z := spare[0]
			if z == x {
				z = spare[1]
			}
			for !t.dead && t.next(it, z) {
				y, got = z, true
			}
			if !got {
				break
			}
		} else if !t.sub(x, fs[k], y) {
			break
		}
		x = y
	}
	t.quiet = false
	t.obs(x)
	t.obs(o)
}

func bucket(n int) int {
	b := 1
	for b*2 <= n {
		b *= 2
	}
	return b
}

// long: hundreds of calls on one message, looked at now and then.
func long(r *Rec, g G, n int) {
	for i := 0; i < n; i++ {
		ty := g.typ(mixed)
		t := r.begin(ty.Name)
		o := t.obj(ty.Name)
		max := []int{3, 20, 140}[g.Intn(3)]
		sing := ty.sing
		if g.one(2) {
			sing = g.some(ty.sing, 4)
		}
		steps := g.howMany(700)
		count("calls:%d", bucket(steps))
		for k := 0; k < steps && !t.dead; k++ {
			t.quiet = !g.one(60) && k < steps-1
			switch j := g.Intn(100); {
			case j == 0:
				t.rst(o, g.buffer())
			case j == 1:
				b := g.encoding(ty, Style{Max: max, Fields: 10, Unknown: 5, Long: 5, Mis: g.mis(), Depth: 1})
				t.dec(o, b)
			case j < 6 && len(ty.reps) > 0:
				f := g.field(ty.reps)
				t.app(o, f, g.elem(t, f.elem(), max, 1))
			case j < 20 && len(ty.subs) > 0:
				f := g.field(ty.subs)
				t.setSub(o, f, g.elem(t, f.elem(), max, 1))
			case len(sing) > 0:
				f := g.field(sing)
				v := g.value(f.K, max)
				t.set(o, f, v)
				if g.one(30) && !t.dead && isBlob(f.K) {
					t.set(o, f, bytes.ToUpper(v))
				}
			}
		}
		t.quiet = false
		t.obs(o)
		if g.one(3) {
			t.cp(o, t.obj(ty.Name))
		}
	}
}
