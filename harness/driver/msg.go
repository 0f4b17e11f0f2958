package main

import (
	"encoding/binary"
	"sort"
	"unsafe"
)

// Msg is one message of some generated type. Scalars are passed as their
// little-endian bytes, strings and bytes as they are.
type Msg interface {
	Encode() []byte
	Decode([]byte) error
	Reset([]byte)
	Get(f int) []byte
	Set(f int, v []byte)
	GetSub(f int, x Msg) (bool, error)
	SetSub(f int, x Msg)
	App(f int, x Msg)
	Iter(f int) Iter
	Touch(f int)                // calls the accessor
	TouchIter(f int, x Msg) int // iterates, returns the number of elements
	Zero()
	Size() int
	Ptr() unsafe.Pointer
	At(unsafe.Pointer) Msg // the struct at this address
}

// Iter advances an iterator of a repeated message field.
type Iter func(x Msg) (bool, error)

// Field is a declared field.
type Field struct {
	F    int
	K    string
	R    bool
	Elem string
}

// Type is a message type.
type Type struct {
	Name   string
	New    func() Msg
	Fields []Field

	byF  map[int]Field
	sing []Field // singular, no messages
	subs []Field // singular messages
	reps []Field // repeated messages
	opaq []Field // repeated scalars
}

var types = map[string]*Type{}

func register(t *Type) {
	t.byF = map[int]Field{}
	sort.Slice(t.Fields, func(i, j int) bool { return t.Fields[i].F < t.Fields[j].F })
	for _, f := range t.Fields {
		t.byF[f.F] = f
		switch {
		case f.R && f.K == "msg":
			t.reps = append(t.reps, f)
		case f.R:
			t.opaq = append(t.opaq, f)
		case f.K == "msg":
			t.subs = append(t.subs, f)
		default:
			t.sing = append(t.sing, f)
		}
	}
	types[t.Name] = t
}

func (f Field) elem() *Type { return types[f.Elem] }

func wireOf(k string) int {
	switch k {
	case "fixed32", "sfixed32", "float":
		return 5
	case "fixed64", "sfixed64", "double":
		return 1
	case "string", "bytes", "msg":
		return 2
	}
	return 0
}

func widthOf(k string) int {
	switch k {
	case "bool":
		return 1
	case "int32", "uint32", "sint32", "enum", "fixed32", "sfixed32", "float":
		return 4
	}
	return 8
}

func isBlob(k string) bool { return wireOf(k) == 2 }

// memOf is the memory of the message struct itself.
func memOf(m Msg) []byte {
	return unsafe.Slice((*byte)(m.Ptr()), m.Size())
}

func u32(v []byte) uint32 { return binary.LittleEndian.Uint32(v) }
func u64(v []byte) uint64 { return binary.LittleEndian.Uint64(v) }
func le32(x uint32) []byte {
	var b [4]byte
	binary.LittleEndian.PutUint32(b[:], x)
	return b[:]
}
func le64(x uint64) []byte {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], x)
	return b[:]
}
func fromBool(b bool) []byte {
	// Not a conversion that trusts the byte to be 0 or 1.
	if b {
		return []byte{1}
	}
	return []byte{0}
}

// rawString shares the memory of v.
func rawString(v []byte) string { return unsafe.String(unsafe.SliceData(v), len(v)) }

var (
	sinkBool  bool
	sinkF64   float64
	sinkF32   float32
	sinkStr   string
	sinkBytes []byte
	sinkI32   int32
	sinkU32   uint32
	sinkI64   int64
	sinkU64   uint64
)
