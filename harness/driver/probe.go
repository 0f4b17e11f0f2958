package main

import (
	"bytes"
	"fmt"
)

// probes: declared fields that are decoded with another wire type, and embedded
// messages in several parts. A fixed list: what fails on the unchanged code is
// recorded, by its id, as a known finding.
func probes(r *Rec, g G, n int) {
	payloads := map[int][][]byte{
		0: {{1}, {0xac, 0x02}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}},
		1: {{1, 2, 3, 4, 5, 6, 7, 8}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}},
		2: {{0}, {1, 0x41}, {12, 8, 1, 8, 1, 8, 1, 8, 1, 8, 1, 8, 1}},
		5: {{1, 2, 3, 4}, {0xff, 0xff, 0xff, 0xff}},
	}
	// Each size up to those of the fixed types, and beyond.
	for n := 3; n < 10; n++ {
		payloads[0] = append(payloads[0], append(bytes.Repeat([]byte{0x81}, n-1), 1))
		payloads[2] = append(payloads[2], append([]byte{byte(n - 1)}, bytes.Repeat([]byte{8}, n-1)...))
	}
	ty := types["All"]
	t := r.begin("All")
	for _, f := range ty.Fields {
		if f.R && f.K != "msg" {
			continue
		}
		kind := f.K
		if f.R {
			kind = "repeated"
		}
		for _, w := range wires {
			if w == wireOf(f.K) {
				continue
			}
			for i, p := range payloads[w] {
				for _, tail := range []bool{false, true} {
					b := g.uvarint(nil, uint64(f.F<<3|w), 0)
					b = append(b, p...)
					if tail {
						b = append(b, 0xba, 0x3e, 12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12) // field 999
					}
					id := fmt.Sprintf("%s<-%d.%d", kind, w, i)
					if tail {
						id += "+"
					}
					t.probe(f, b, id)
				}
			}
		}
	}
	for i, p := range [][2][]byte{
		{{8, 1}, {16, 2}}, {{}, {8, 1}}, {{8, 1}, {}}, {{8, 1, 16, 2}, {8, 0}},
	} {
		b := g.rec(nil, 17, 2, "msg", p[0], Style{})
		b = g.rec(b, 17, 2, "msg", p[1], Style{})
		m, x := ty.New(), ty.New()
		var err error
		ev := obj{"e": "split", "id": fmt.Sprintf("split.%d", i), "p": rle(p[0]), "q": rle(p[1]), "err": false, "sub": []int{}}
		ev["res"], _ = call("split", func() {
			if err = m.Decode(b); err == nil {
				var ok bool
				if ok, err = m.GetSub(17, x); ok {
					ev["sub"] = rle(x.Encode())
				}
			}
		})
		ev["err"] = err != nil
		t.r.emit(ev)
		count("split")
	}
}

func (t *T) probe(f Field, b []byte, id string) {
	ty := types["All"]
	o := &Obj{ty: ty, m: ty.New()}
	var err error
	ev := obj{"e": "probe", "id": "read " + id, "b": rle(b), "f": f.F}
	ev["res"], _ = call("dec", func() { err = o.m.Decode(append(make([]byte, 0, len(b)), b...)) })
	if ev["res"] == "ok" && err == nil {
		ev["res"], _ = call("read", func() {
			switch {
			case f.R:
				it := o.m.Iter(f.F)
				for n := 0; n < 100; n++ {
					if ok, _ := it(f.elem().New()); !ok {
						return
					}
				}
				panic("endless")
			case f.K == "msg":
				o.m.GetSub(f.F, f.elem().New())
			default:
				o.m.Touch(f.F)
			}
		})
	}
	t.r.emit(ev)
	count("probe read")
	if err != nil {
		return
	}
	// Then set it.
	o.m = ty.New()
	ev = obj{"e": "probeset", "id": "set " + id, "b": rle(b), "f": f.F, "enc": []int{}}
	ev["res"], _ = call("set", func() {
		o.m.Decode(append(make([]byte, 0, len(b)), b...))
		switch {
		case f.R:
			x := f.elem().New()
			x.Set(1, []byte{1})
			o.m.App(f.F, x)
		case f.K == "msg":
			x := f.elem().New()
			x.Set(1, []byte{1})
			o.m.SetSub(f.F, x)
		case isBlob(f.K):
			o.m.Set(f.F, []byte("abc"))
		default:
			o.m.Set(f.F, append([]byte{1}, make([]byte, widthOf(f.K)-1)...))
		}
		ev["enc"] = rle(o.m.Encode())
	})
	t.r.emit(ev)
	count("probe set")
}
