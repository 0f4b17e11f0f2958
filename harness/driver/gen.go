package main

import (
	"math"
	"math/rand"
)

// G generates inputs.
type G struct{ *rand.Rand }

func (g G) one(n int) bool { return g.Intn(n) == 0 }

func (g G) bits64() uint64 {
	switch g.Intn(6) {
	case 0:
		return uint64(g.Intn(4))
	case 1:
		return ^uint64(g.Intn(4)) // -1 ..
	case 2: // around a power of two
		return (uint64(1) << uint(g.Intn(64))) + uint64(g.Intn(3)) - 1
	case 3:
		return -((uint64(1) << uint(g.Intn(64))) + uint64(g.Intn(3)) - 1)
	case 4: // a random number of significant bits
		return g.Uint64() >> uint(g.Intn(64))
	}
	return g.Uint64()
}

// scalar is a value of kind k in its little-endian form.
func (g G) scalar(k string) []byte {
	switch k {
	case "bool":
		return []byte{byte(g.Intn(2))}
	case "enum":
		return le32(uint32(g.bits64()) & 0x7fffffff)
	case "float":
		if g.one(3) {
			return le32(math.Float32bits([]float32{float32(math.NaN()), float32(math.Inf(1)),
				float32(math.Inf(-1)), float32(math.Copysign(0, -1)), math.SmallestNonzeroFloat32,
				math.MaxFloat32, 1, -1}[g.Intn(8)]))
		}
	case "double":
		if g.one(3) {
			return le64(math.Float64bits([]float64{math.NaN(), math.Inf(1), math.Inf(-1),
				math.Copysign(0, -1), math.SmallestNonzeroFloat64, math.MaxFloat64, 1, -1}[g.Intn(8)]))
		}
	}
	if widthOf(k) == 4 {
		x := g.bits64()
		if g.one(4) {
			x = uint64(int64(int32(x)))
		}
		return le32(uint32(x))
	}
	return le64(g.bits64())
}

// blob is n bytes: arbitrary when short, a few runs when long; text, bytes that
// mean something to someone, or any.
func (g G) blob(n int) []byte {
	b := make([]byte, n)
	how := g.Intn(4)
	one := func() byte {
		switch how {
		case 0:
			return byte(g.Intn(256))
		case 1:
			return "\x00\xff\x80\xc3\xa9\xed\xa0\n\r \\%\"\x7f\x1a"[g.Intn(15)]
		}
		return byte('a' + g.Intn(26))
	}
	if n <= 40 && g.one(2) {
		for i := range b {
			b[i] = one()
		}
		return b
	}
	c := one()
	for i := range b {
		if g.Intn(n/3+1) == 0 {
			c = one()
		}
		b[i] = c
	}
	return b
}

// size of a blob of at most max bytes, mostly small and around the lengths at
// which the length prefix grows.
func (g G) size(max int) int {
	n := 0
	switch g.Intn(8) {
	case 0:
		n = 0
	case 1, 2:
		n = 1 + g.Intn(4)
	case 3, 4:
		n = g.Intn(40)
	case 5:
		n = 125 + g.Intn(6)
	case 6:
		n = g.Intn(400)
	case 7:
		n = 16381 + g.Intn(6)
	}
	if n > max {
		n = g.Intn(max + 1)
	}
	return n
}

func (g G) value(k string, max int) []byte {
	if isBlob(k) {
		return g.blob(g.size(max))
	}
	return g.scalar(k)
}

func (g G) field(fs []Field) Field { return fs[g.Intn(len(fs))] }

// Long says how varints are written in generated encodings.
type Style struct {
	Long    int  // 1 in Long varints is longer than necessary; 0: never
	Unknown int  // 1 in Unknown fields is unknown; 0: never
	Max     int  // blob size
	Depth   int  // nesting
	Fields  int  // at most
	Mis     int  // 1 in Mis declared fields has the wrong wire type; 0: never
	Hostile int  // 1 in Hostile embedded messages is arbitrary bytes; 0: never
	Wide    bool // scalars' varints carry more bits than the type has
}

// mis is how often fields have another wire type.
func (g G) mis() int {
	if g.one(3) {
		return 2 + g.Intn(6)
	}
	return 0
}

func (g G) uvarint(b []byte, x uint64, long int) []byte {
	n := len(b)
	for x >= 0x80 {
		b = append(b, byte(x)|0x80)
		x >>= 7
	}
	b = append(b, byte(x))
	if long > 0 && g.one(long) {
		for k := 1 + g.Intn(3); k > 0 && len(b)-n < 10; k-- {
			b[len(b)-1] |= 0x80
			b = append(b, 0)
		}
	}
	return b
}

// payload of a scalar as protobuf prescribes it.
func payloadOf(k string, v []byte) uint64 {
	switch k {
	case "bool":
		return uint64(v[0])
	case "int32":
		return uint64(int64(int32(u32(v))))
	case "sint32":
		x := int64(int32(u32(v)))
		return uint64(x<<1) ^ uint64(x>>63)
	case "sint64":
		x := int64(u64(v))
		return uint64(x<<1) ^ uint64(x>>63)
	}
	if len(v) == 4 {
		return uint64(u32(v))
	}
	return u64(v)
}

func (g G) rec(b []byte, f, w int, k string, v []byte, st Style) []byte {
	b = g.uvarint(b, uint64(f)<<3|uint64(w), st.Long)
	switch w {
	case 0:
		x := g.bits64()
		if k != "" && wireOf(k) == 0 {
			x = payloadOf(k, v)
			if st.Wide && g.one(3) {
				if k == "sint32" || k == "sint64" {
					// no more bits than the type has
				} else {
					x = g.bits64()
				}
			}
		}
		return g.uvarint(b, x, st.Long)
	case 1:
		if len(v) == 8 {
			return append(b, v...)
		}
		return append(b, le64(g.bits64())...)
	case 5:
		if len(v) == 4 {
			return append(b, v...)
		}
		return append(b, le32(uint32(g.bits64()))...)
	}
	b = g.uvarint(b, uint64(len(v)), st.Long)
	return append(b, v...)
}

var wires = []int{0, 1, 2, 5}

// unknownField is a field number that ty does not declare, or that of a
// repeated scalar.
func (g G) unknownField(ty *Type) int {
	if len(ty.opaq) > 0 && g.one(3) {
		return g.field(ty.opaq).F
	}
	max := 0
	if len(ty.Fields) > 0 {
		max = ty.Fields[len(ty.Fields)-1].F
	}
	for {
		var f int
		switch g.Intn(7) {
		case 0:
			f = 1 + g.Intn(20)
		case 6: // like a declared field, but for one high bit
			if max > 0 {
				f = g.field(ty.Fields).F | 1<<uint(5+g.Intn(56))
			} else {
				f = 1<<uint(28+g.Intn(33)) - 1
			}
		case 1:
			f = []int{15, 16, 2047, 2048, 262143, 262144, 1<<25 - 1, 1 << 25, 1<<28 - 1, 1<<29 - 1}[g.Intn(10)]
		case 2:
			f = max + 1 + g.Intn(3)
		case 3:
			f = 1 + g.Intn(max+5)
		case 4:
			f = 1 << uint(g.Intn(28))
		case 5:
			f = 1 + g.Intn(1<<28-1)
		}
		if d, ok := ty.byF[f]; !ok || (d.R && d.K != "msg") {
			return f
		}
	}
}

// encoding is a well-formed encoding of ty.
func (g G) encoding(ty *Type, st Style) []byte {
	var recs [][]byte
	subs := map[int]bool{}
	n := g.Intn(st.Fields + 1)
	for i := 0; i < n; i++ {
		if len(ty.Fields) == 0 || st.Unknown > 0 && g.one(st.Unknown) {
			w := wires[g.Intn(4)]
			recs = append(recs, g.rec(nil, g.unknownField(ty), w, "", g.blob(g.size(st.Max)), st))
			continue
		}
		f := g.field(ty.Fields)
		if f.R && f.K != "msg" {
			w := wireOf(f.K)
			if g.one(3) {
				w = 2 // packed
			}
			recs = append(recs, g.rec(nil, f.F, w, f.K, g.value(f.K, 12), st))
			continue
		}
		w := wireOf(f.K)
		if st.Mis > 0 && g.one(st.Mis) {
			w = wires[g.Intn(4)]
		}
		if f.K == "msg" && !f.R {
			if subs[f.F] {
				continue
			}
			subs[f.F] = true
		}
		var v []byte
		if f.K == "msg" {
			v = g.subEncoding(f, st)
		} else {
			v = g.value(f.K, st.Max)
		}
		recs = append(recs, g.rec(nil, f.F, w, f.K, v, st))
	}
	var b []byte
	for _, r := range recs {
		b = append(b, r...)
	}
	return b
}

func (g G) subEncoding(f Field, st Style) []byte {
	if st.Hostile > 0 && g.one(st.Hostile) {
		return g.noise(f.elem())
	}
	if st.Depth == 0 {
		if g.one(2) {
			return []byte{}
		}
		return g.encoding(f.elem(), Style{Max: 8, Fields: 1, Long: st.Long, Depth: 0, Hostile: st.Hostile})
	}
	s := st
	s.Depth--
	s.Fields = 1 + st.Fields/2
	s.Max = st.Max / 2
	return g.encoding(f.elem(), s)
}

// noise is arbitrary bytes that resemble an encoding of ty.
func (g G) noise(ty *Type) []byte {
	var b []byte
	switch g.Intn(5) {
	case 0: // a few arbitrary bytes
		b = make([]byte, g.Intn(12))
		for i := range b {
			b[i] = g.oddByte(ty)
		}
		return b
	case 1: // long varints
		for n := g.Intn(3); n > 0; n-- {
			b = g.rec(b, 1+g.Intn(20), wires[g.Intn(4)], "", g.blob(g.Intn(4)), Style{Long: 2})
		}
		for n := g.Intn(12); n > 0; n-- {
			b = append(b, 0x80|byte(g.Intn(128)))
		}
		return append(b, byte(g.Intn(4)))
	case 2: // huge length
		b = g.encoding(ty, Style{Max: 8, Fields: 2, Unknown: 3})
		b = g.uvarint(b, uint64(1+g.Intn(40))<<3|2, 0)
		var l uint64
		switch g.Intn(4) {
		case 0:
			l = g.bits64()
		case 1:
			l = uint64(math.MaxInt64) - uint64(g.Intn(20))
		case 2:
			l = -uint64(g.Intn(30))
		case 3:
			l = uint64(g.Intn(8))
		}
		b = g.uvarint(b, l, 0)
		return append(b, g.blob(g.Intn(6))...)
	}
	b = g.encoding(ty, Style{Max: 20, Fields: 4, Unknown: 4, Long: 6, Mis: 8, Depth: 1})
	return g.mutate(b, ty)
}

func (g G) oddByte(ty *Type) byte {
	switch g.Intn(5) {
	case 0:
		return byte(g.Intn(256))
	case 1:
		return []byte{0, 1, 2, 127, 128, 255}[g.Intn(6)]
	case 2:
		return byte(ty.Fields[g.Intn(len(ty.Fields))].F<<3 | wires[g.Intn(4)])
	case 3:
		return byte(g.Intn(32) << 3 & 0x7f)
	}
	return byte(g.Intn(16))
}

func (g G) mutate(b []byte, ty *Type) []byte {
	b = append([]byte{}, b...)
	for n := 1 + g.Intn(2); n > 0; n-- {
		if len(b) == 0 {
			return append(b, g.oddByte(ty))
		}
		i := g.Intn(len(b))
		switch g.Intn(6) {
		case 0:
			b = b[:i]
		case 1:
			b[i] = g.oddByte(ty)
		case 2:
			b[i] ^= 1 << uint(g.Intn(8))
		case 3:
			b = append(b[:i], b[i+1:]...)
		case 4:
			b = append(b[:i], append([]byte{g.oddByte(ty)}, b[i:]...)...)
		case 5:
			b = append(b, g.oddByte(ty))
		}
	}
	return b
}
