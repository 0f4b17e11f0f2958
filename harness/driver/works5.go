package main

import "encoding/binary"

func init() {
	workloads["frames"] = frames
}

// records splits a well-formed encoding into its fields.
func records(b []byte) [][]byte {
	var out [][]byte
	for i := 0; i < len(b); {
		j := i
		tag, n := binary.Uvarint(b[j:])
		j += n
		switch tag & 7 {
		case 0:
			_, n := binary.Uvarint(b[j:])
			j += n
		case 1:
			j += 8
		case 5:
			j += 4
		default:
			l, n := binary.Uvarint(b[j:])
			j += n + int(l)
		}
		out = append(out, b[i:j])
		i = j
	}
	return out
}

// frames: a read buffer is used for one message after the other, which often
// have their length, their first or last bytes, or most of their contents in
// common. Messages that were decoded from it earlier are not used any more.
func frames(r *Rec, g G, n int) {
	for i := 0; i < n; i++ {
		ty := g.typ([]string{"Small", "Tree", "Tiny", "All", "Elem", "Wide", "vraft.Message"})
		t := r.begin(ty.Name)
		max := []int{3, 30, 200}[g.Intn(3)]
		st := Style{Max: max, Fields: 6, Unknown: 4, Long: g.Intn(4), Depth: 1}
		big := g.one(12)
		enc := g.encoding(ty, st)
		buf := make([]byte, len(enc), len(enc)+g.Intn(300))
		o := t.obj(ty.Name)
		for k := 0; k < 8 && !t.dead; k++ {
			in := append(buf[:0], enc...)
			buf = in
			if g.one(2) {
				o = t.obj(ty.Name)
			}
			if g.one(12) {
				b := g.noise(ty)
				call("Decode", func() { o.m.Decode(b) })
			}
			t.dec(o, in)
			if g.one(4) && !t.dead {
				// (This writes to the buffer.)
				t.randomOp(g, o, ty.sing, ty.subs, ty.reps, max, st, false)
			}
			for _, f := range g.some(ty.subs, 1) {
				t.sub(o, f, t.obj(f.Elem))
			}
			for _, f := range g.some(ty.reps, 1) {
				x := t.obj(f.Elem)
				for it := t.iter(o, f); t.next(it, x); {
				}
			}
			if g.one(3) {
				t.obs(o)
			}
			enc = g.like(ty, enc, st, big)
		}
	}
}

// like returns an encoding that resembles enc.
func (g G) like(ty *Type, enc []byte, st Style, big bool) []byte {
	recs := records(append([]byte{}, enc...))
	join := func() (out []byte) {
		for _, x := range recs {
			out = append(out, x...)
		}
		return out
	}
	switch what := g.Intn(6); {
	case what == 0 || len(recs) == 0:
		enc = g.encoding(ty, st)
	case what == 1:
		g.Shuffle(len(recs), func(i, j int) { recs[i], recs[j] = recs[j], recs[i] })
		enc = join()
	case what == 2:
		// All but the first.
		g.Shuffle(len(recs)-1, func(i, j int) { recs[i+1], recs[j+1] = recs[j+1], recs[i+1] })
		enc = join()
	case what == 3:
		// Another field of the same wire type.
		x := recs[g.Intn(len(recs))]
		f := ty.Fields[g.Intn(len(ty.Fields))]
		if x[0] < 128 && f.F < 16 && wireOf(f.K) == int(x[0]&7) && f.K != "sint32" {
			x[0] = byte(f.F<<3) | x[0]&7
		}
		enc = join()
	case what == 4:
		// Other contents.
		for _, x := range recs {
			n := len(x) - 1
			if x[0] >= 128 || g.one(2) {
				continue
			}
			if x[0]&7 == 0 {
				x[1] = x[1]&128 | byte(g.Intn(128))
			} else if x[0]&7 != 2 || n > 1 && x[1] < 128 && ty.isBlob(int(x[0]>>3)) {
				x[n] = byte(g.Intn(256))
			}
		}
		enc = join()
	case what == 5 && big:
		// Long unknown fields in front.
		enc = append(g.rec(nil, g.unknownField(ty), 2, "bytes", g.blob(65500+g.Intn(100)), st), join()...)
	}
	return enc
}

// isBlob says whether the contents of field f are arbitrary.
func (ty *Type) isBlob(f int) bool {
	for _, x := range ty.sing {
		if x.F == f {
			return isBlob(x.K) && x.K != "msg"
		}
	}
	return false
}
