From 2b1c8b4515bde33d7b767751084a7fc427c701b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 01/17] fix: return an error from Decode for a varint longer
 than 64 bits

binary.Uvarint reports an overflow with a negative size, which moved the
parse position backwards: Decode panicked or looped forever.
---
 zeropb.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index ee03185..349a1b7 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -427,7 +427,7 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 			return io.ErrUnexpectedEOF
 		}
 		tag, size := binary.Uvarint(buf[idx:])
-		if size == 0 {
+		if size <= 0 {
 			return io.ErrUnexpectedEOF
 		}
 		idx += size
@@ -459,7 +459,7 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 		}
 
 		s := fieldDataSize(typ, buf[idx:])
-		if s == 0 {
+		if s <= 0 {
 			return io.ErrUnexpectedEOF
 		}
 		idx += s
@@ -501,7 +501,7 @@ func fieldDataSize(typ uint64, buf []byte) int {
 		return 8
 	case proto.WireBytes:
 		len, lenSize := binary.Uvarint(buf)
-		if lenSize == 0 {
+		if lenSize <= 0 {
 			return 0
 		}
 		return lenSize + int(len)
-- 
2.43.0


From e26117d2a55fed0a777352140441e8e5a46c42e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 02/17] fix: return an error from Decode for a length past the
 end of the buffer

A length of 2^63 or more overflowed int, which moved the parse position
backwards: Decode looped forever or panicked.
---
 zeropb.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 349a1b7..5aaefba 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -500,11 +500,11 @@ func fieldDataSize(typ uint64, buf []byte) int {
 	case proto.WireFixed64:
 		return 8
 	case proto.WireBytes:
-		len, lenSize := binary.Uvarint(buf)
-		if lenSize <= 0 {
+		dataLen, lenSize := binary.Uvarint(buf)
+		if lenSize <= 0 || dataLen > uint64(len(buf)-lenSize) {
 			return 0
 		}
-		return lenSize + int(len)
+		return lenSize + int(dataLen)
 	default:
 		panic(errors.Errorf(`unsupported type: %d`, typ))
 	}
-- 
2.43.0


From fcfa0f3ad1a5c12fdf23868f18d86bc68b039172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 03/17] fix: return an error from Decode for an unsupported
 wire type

It panicked on groups and on the undefined wire types 6 and 7.
---
 zeropb.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zeropb.go b/zeropb.go
index 5aaefba..1d667b7 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -437,6 +437,11 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 
 		fieldID := int(tag >> 3)
 		typ := tag & 0x7
+		switch typ {
+		case proto.WireVarint, proto.WireFixed32, proto.WireFixed64, proto.WireBytes:
+		default:
+			return errors.Errorf(`unsupported type: %d`, typ)
+		}
 		// fmt.Printf("tag=%x field=%d typ=%d idx=%d\n", tag, fieldID, typ, idx)
 
 		// TODO(dan): It's odd that we're passing in only the repeatedness of the
-- 
2.43.0


From 64c72cd76429f870ae2227fcc591b9a9f4897165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 04/17] fix: return an error from Decode for field id 0

It's not a legal protobuf field id and other decoders reject it.
---
 zeropb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zeropb.go b/zeropb.go
index 1d667b7..efc340b 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -436,6 +436,9 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 		}
 
 		fieldID := int(tag >> 3)
+		if fieldID == 0 {
+			return errors.New(`illegal field id: 0`)
+		}
 		typ := tag & 0x7
 		switch typ {
 		case proto.WireVarint, proto.WireFixed32, proto.WireFixed64, proto.WireBytes:
-- 
2.43.0


From a70ac4b8016a64f36d4b460a4626e4053f6c32f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 05/17] fix: skip unknown fields with large ids in Decode

A field id larger than any in the message definition, for example one written
by a newer version of the schema, caused an index out of range panic.
---
 zeropb.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zeropb.go b/zeropb.go
index efc340b..7f65d13 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -449,7 +449,10 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 
 		// TODO(dan): It's odd that we're passing in only the repeatedness of the
 		// field. Maybe pass in some sort of field descriptor instead?
-		if _, ok := repeatedFields[fieldID]; ok {
+		if fieldID >= len(offsets.a) {
+			// The field id is larger than any in the message definition, so there's
+			// no accessor for it and nowhere to store an offset. Skip over it.
+		} else if _, ok := repeatedFields[fieldID]; ok {
 			// For a repeated field, set the offset if this is the first one we've
 			// found but don't overwrite an earlier offset. The repeated field
 			// iterator will start from this offset and re-parse the rest of the
-- 
2.43.0


From f9a542730e6ff898fe37f82224e2bf9fbb1ca6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 06/17] fix: don't let an embedded message overwrite the fields
 after it

The slice returned for an embedded message had the capacity of the containing
buffer, so a setter called on the embedded message appended over the fields of
the containing message.
---
 zeropb.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 7f65d13..1dc156b 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -165,7 +165,9 @@ func GetBytes(buf []byte, offsets Offsets, fieldID int) []byte {
 	}
 	len, lenSize := binary.Uvarint(buf[offset:])
 	offset += uint64(lenSize)
-	return buf[offset : offset+len]
+	// Limit the capacity so that an append to the result (notably, by a setter of
+	// an embedded message decoded from it) can't overwrite the fields after it.
+	return buf[offset : offset+len : offset+len]
 }
 
 // SetBool set an encoded bool field with the given field id, overwriting an
@@ -487,7 +489,8 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 	// NB: FindNextField doesn't do the same bounds checking that Decode does
 	// because Decode has already validated the input.
 	msgLen, lenSize := binary.Uvarint(buf)
-	msg := buf[lenSize : lenSize+int(msgLen)]
+	// Limit the capacity for the same reason as in GetBytes.
+	msg := buf[lenSize : lenSize+int(msgLen) : lenSize+int(msgLen)]
 	for idx := lenSize + int(msgLen); idx < len(buf); {
 		tag, size := binary.Uvarint(buf[idx:])
 		idx += size
-- 
2.43.0


From 684b6ab5aafb5042817c3c391c1a16c1de70818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 07/17] fix: store the right value when a setter's argument
 aliases the message

Setting a bytes or embedded message field to a value sliced from the same
message, for example an embedded message that was extracted, made shorter and
set again, removed the old value first. That moved the new value's bytes from
under it and stored garbage.
---
 zeropb.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/zeropb.go b/zeropb.go
index 1dc156b..dee7d9b 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -357,6 +357,14 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 			return
 		}
 
+		// Append the new value before removing the old one. The new value may be
+		// (part of) the old one, or of some other field in this message, and
+		// removing the old value moves everything after it.
+		newOffset := uint64(len(*buf) + tagLen)
+		*buf = append(*buf, scratch[:tagLen]...)
+		*buf = append(*buf, valLen...)
+		*buf = append(*buf, val...)
+
 		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)
 		// TODO(dan): sanity check that we got the same tag bytes here?
 		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
@@ -381,6 +389,8 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 				}
 			}
 		}
+		offsets.Set(fieldID, newOffset-removedBytes)
+		return
 	}
 	*buf = append(*buf, scratch[:tagLen]...)
 
-- 
2.43.0


From 76d28c80f6d2e9279c417885cae660add1e6ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 08/17] fix: remove all of a field's tag when overwriting it

A setter that overwrites a decoded field with a value of another length removed
as many tag bytes as the shortest encoding of the tag has. If the decoded
message had a longer varint for it, the rest was left behind and the message
was corrupted.
---
 zeropb.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/zeropb.go b/zeropb.go
index dee7d9b..57be32c 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -3,6 +3,7 @@
 package zeropb
 
 import (
+	"bytes"
 	"encoding/binary"
 	"io"
 	"math"
@@ -366,7 +367,10 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 		*buf = append(*buf, val...)
 
 		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)
-		// TODO(dan): sanity check that we got the same tag bytes here?
+		// A decoded message may have a longer than necessary encoding of the tag.
+		if !bytes.Equal((*buf)[fieldBegin:offset], scratch[:tagLen]) {
+			fieldBegin = findTag(*buf, offset)
+		}
 		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
 		removedBytes := fieldEnd - fieldBegin
 		(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]
@@ -400,6 +404,19 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	*buf = append(*buf, val...)
 }
 
+// findTag re-parses an already validated message to find the offset of the tag
+// that ends at the given offset.
+func findTag(buf []byte, offset uint64) uint64 {
+	for idx := 0; ; {
+		tag, size := binary.Uvarint(buf[idx:])
+		if uint64(idx+size) >= offset {
+			return uint64(idx)
+		}
+		idx += size
+		idx += fieldDataSize(tag&0x7, buf[idx:])
+	}
+}
+
 func appendSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byte) {
 	var scratch [binary.MaxVarintLen64]byte
 
-- 
2.43.0


From fdbcb0fa9c5e69caf94ef55352350d1f9b74594c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 09/17] fix: don't generate an unused import for a file without
 messages

The generated code for a file with only enums didn't compile.
---
 generate/generate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index 865c09f..a9d1bdb 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -40,7 +40,9 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 	st.Write(indent, "// Code generated by protoc-gen-zeropb. DO NOT EDIT.\n\n")
 	// TODO(dan): Use the go package if it's set.
 	st.Write(indent, "package ", req.GetPackage(), "\n\n")
-	st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
+	if len(req.MessageType) > 0 {
+		st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
+	}
 
 	for _, m := range req.MessageType {
 		if m == nil {
-- 
2.43.0


From eb17f9c217081ae660fb709f290278fb203155a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 10/17] fix: only replace the extension in the name of a
 generated file

A file in a directory named like foo.protos/ was generated into another,
renamed, directory.
---
 generate/generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index a9d1bdb..f88b112 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -51,7 +51,7 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 		generateMessage(st, indent, *m)
 	}
 
-	name := strings.ReplaceAll(req.GetName(), `.proto`, `.zeropb.go`)
+	name := strings.TrimSuffix(req.GetName(), `.proto`) + `.zeropb.go`
 	content := buf.String()
 	res := &CodeGeneratorResponse_File{Name: &name, Content: &content}
 	return res, nil
-- 
2.43.0


From 276ee670ba5132c5d4af164570aa49a491d58355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 11/17] fix: generate distinct iterator types for repeated
 fields of the same type

The generated code for a message with two repeated fields of the same message
type declared the same iterator type twice and didn't compile.
---
 generate/generate.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/generate/generate.go b/generate/generate.go
index f88b112..ed86371 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -44,11 +44,12 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 		st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
 	}
 
+	itGoTypes := map[string]struct{}{}
 	for _, m := range req.MessageType {
 		if m == nil {
 			continue
 		}
-		generateMessage(st, indent, *m)
+		generateMessage(st, indent, *m, itGoTypes)
 	}
 
 	name := strings.TrimSuffix(req.GetName(), `.proto`) + `.zeropb.go`
@@ -57,7 +58,9 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 	return res, nil
 }
 
-func generateMessage(st *StringTree, indent StringTreeIndent, m DescriptorProto) {
+func generateMessage(
+	st *StringTree, indent StringTreeIndent, m DescriptorProto, itGoTypes map[string]struct{},
+) {
 	messageGoType := m.GetName()
 
 	var largestFieldID int32
@@ -115,7 +118,7 @@ func generateMessage(st *StringTree, indent StringTreeIndent, m DescriptorProto)
 		case FieldDescriptorProto_LABEL_REPEATED:
 			switch f.GetType() {
 			case FieldDescriptorProto_TYPE_MESSAGE:
-				generateRepeatedMessageField(st, indent, messageGoType, *f)
+				generateRepeatedMessageField(st, indent, messageGoType, *f, itGoTypes)
 			default:
 				// WIP implement repeated simple fields
 				continue
@@ -161,10 +164,16 @@ func generateMessageField(
 
 func generateRepeatedMessageField(
 	st *StringTree, indent StringTreeIndent, messageGoType string, f FieldDescriptorProto,
+	itGoTypes map[string]struct{},
 ) {
 	fieldGoName := toGoCase(f.GetName())
 	fieldGoType := fieldToGoTypeMessage(f.GetTypeName())
 	itGoType := messageGoType + fieldGoType + "Iterator"
+	if _, ok := itGoTypes[itGoType]; ok {
+		// The message has another repeated field of the same type.
+		itGoType = messageGoType + fieldGoName + fieldGoType + "Iterator"
+	}
+	itGoTypes[itGoType] = struct{}{}
 
 	st.Write(indent, "type ", itGoType, " []byte\n\n")
 
-- 
2.43.0


From f0a7b64a9952ac7f933065be60c64271faa5e137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 12/17] fix: exit with an error status when a protoc plugin
 fails

protoc took the empty output with status 0 for success.
---
 cmd/protoc-gen-text/main.go   | 1 +
 cmd/protoc-gen-zeropb/main.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cmd/protoc-gen-text/main.go b/cmd/protoc-gen-text/main.go
index 815ad11..369de75 100644
--- a/cmd/protoc-gen-text/main.go
+++ b/cmd/protoc-gen-text/main.go
@@ -29,5 +29,6 @@ func run() error {
 func main() {
 	if err := run(); err != nil {
 		fmt.Fprintf(os.Stderr, "%+v\n", err)
+		os.Exit(1)
 	}
 }
diff --git a/cmd/protoc-gen-zeropb/main.go b/cmd/protoc-gen-zeropb/main.go
index 2915585..97a5529 100644
--- a/cmd/protoc-gen-zeropb/main.go
+++ b/cmd/protoc-gen-zeropb/main.go
@@ -37,5 +37,6 @@ func run() error {
 func main() {
 	if err := run(); err != nil {
 		fmt.Fprintf(os.Stderr, "%+v\n", err)
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 0e1b476268fa0c4600375f8f2ed20aa7e85e45a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 13/17] fix: skip elements of a repeated message field that
 have another wire type

---
 zeropb.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 57be32c..b3f41a8 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -485,8 +485,9 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 			// For a repeated field, set the offset if this is the first one we've
 			// found but don't overwrite an earlier offset. The repeated field
 			// iterator will start from this offset and re-parse the rest of the
-			// message to find the rest of them.
-			if _, ok := offsets.Get(fieldID); !ok {
+			// message to find the rest of them. It can only read length-delimited
+			// ones, so anything else is skipped as if it were an unknown field.
+			if _, ok := offsets.Get(fieldID); !ok && typ == proto.WireBytes {
 				offsets.Set(fieldID, uint64(idx))
 			}
 		} else {
@@ -523,7 +524,7 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 		idx += size
 		f := int(tag >> 3)
 		typ := tag & 0x7
-		if f == field {
+		if f == field && typ == proto.WireBytes {
 			return buf[idx:], msg
 		}
 		idx += fieldDataSize(typ, buf[idx:])
-- 
2.43.0


From 9d09f64700adff776e65796b752c5c69a0aa09ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:18 +0000
Subject: [PATCH 14/17] fix: overwrite a value in place correctly when the new
 one overlaps the old one's length

---
 zeropb.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index b3f41a8..32b1a12 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -351,10 +351,11 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 		}
 
 		// Performance optimization: if the new value is exactly the same length as
-		// the old one, simply overwrite it.
+		// the old one, simply overwrite it. The value goes first: it may overlap
+		// the old one's length.
 		if int(oldLen) == len(valLen)+len(val) {
-			offset += uint64(copy((*buf)[offset:], valLen))
-			offset += uint64(copy((*buf)[offset:], val))
+			copy((*buf)[offset+uint64(len(valLen)):], val)
+			copy((*buf)[offset:], valLen)
 			return
 		}
 
-- 
2.43.0


From 2043edc6d188315c41c56e7456fc6a4e6c2880c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:21 +0000
Subject: [PATCH 15/17] fix: replace a value that was decoded with another wire
 type by its actual length

---
 zeropb.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 32b1a12..0f33a75 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -335,8 +335,17 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	tagLen := binary.PutUvarint(scratch[:], tag)
 
 	if offset, ok := offsets.Get(fieldID); ok {
+		// A decoded message may have a longer than necessary encoding of the tag,
+		// or another wire type for this field.
+		fieldBegin, oldTyp := offset-uint64(tagLen), typ
+		if !bytes.Equal((*buf)[fieldBegin:offset], scratch[:tagLen]) {
+			fieldBegin = findTag(*buf, offset)
+			oldTag, _ := binary.Uvarint((*buf)[fieldBegin:])
+			oldTyp = int(oldTag & 0x7)
+		}
+
 		var oldLen int
-		switch typ {
+		switch oldTyp {
 		case proto.WireVarint:
 			_, oldLen = binary.Uvarint((*buf)[offset:])
 		case proto.WireFixed32:
@@ -347,13 +356,13 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 			oldValLen, oldValLenLen := binary.Uvarint((*buf)[offset:])
 			oldLen = int(oldValLen) + oldValLenLen
 		default:
-			panic(typ)
+			panic(oldTyp)
 		}
 
 		// Performance optimization: if the new value is exactly the same length as
 		// the old one, simply overwrite it. The value goes first: it may overlap
 		// the old one's length.
-		if int(oldLen) == len(valLen)+len(val) {
+		if oldTyp == typ && int(oldLen) == len(valLen)+len(val) {
 			copy((*buf)[offset+uint64(len(valLen)):], val)
 			copy((*buf)[offset:], valLen)
 			return
@@ -367,11 +376,7 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 		*buf = append(*buf, valLen...)
 		*buf = append(*buf, val...)
 
-		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)
-		// A decoded message may have a longer than necessary encoding of the tag.
-		if !bytes.Equal((*buf)[fieldBegin:offset], scratch[:tagLen]) {
-			fieldBegin = findTag(*buf, offset)
-		}
+		fieldEnd := offset + uint64(oldLen)
 		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
 		removedBytes := fieldEnd - fieldBegin
 		(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]
-- 
2.43.0


From 482604c798fd0101e1eafd6f1c15ea5440d62990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:34 +0000
Subject: [PATCH 16/17] fix: keep accessors of fields decoded with another wire
 type inside the message

---
 zeropb.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 0f33a75..5ddc8bc 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -14,6 +14,10 @@ import (
 	"github.com/pkg/errors"
 )
 
+// The getters below read a field as its declared type. Decode doesn't know the
+// declared types, so the message may have another wire type for the field. The
+// value is unspecified then, but reading it must not leave the message.
+
 // GetBool gets an encoded bool field with the given field id.
 func GetBool(buf []byte, offsets Offsets, fieldID int) bool {
 	offset, ok := offsets.Get(fieldID)
@@ -88,7 +92,7 @@ func GetZigZagInt64(buf []byte, offsets Offsets, fieldID int) int64 {
 // id.
 func GetFixedUint32(buf []byte, offsets Offsets, fieldID int) uint32 {
 	offset, ok := offsets.Get(fieldID)
-	if !ok {
+	if !ok || offset+4 > uint64(len(buf)) {
 		return 0
 	}
 	return binary.LittleEndian.Uint32(buf[offset : offset+4])
@@ -98,7 +102,7 @@ func GetFixedUint32(buf []byte, offsets Offsets, fieldID int) uint32 {
 // id.
 func GetFixedUint64(buf []byte, offsets Offsets, fieldID int) uint64 {
 	offset, ok := offsets.Get(fieldID)
-	if !ok {
+	if !ok || offset+8 > uint64(len(buf)) {
 		return 0
 	}
 	return binary.LittleEndian.Uint64(buf[offset : offset+8])
@@ -108,7 +112,7 @@ func GetFixedUint64(buf []byte, offsets Offsets, fieldID int) uint64 {
 // id.
 func GetFixedInt32(buf []byte, offsets Offsets, fieldID int) int32 {
 	offset, ok := offsets.Get(fieldID)
-	if !ok {
+	if !ok || offset+4 > uint64(len(buf)) {
 		return 0
 	}
 	return int32(binary.LittleEndian.Uint32(buf[offset : offset+4]))
@@ -118,7 +122,7 @@ func GetFixedInt32(buf []byte, offsets Offsets, fieldID int) int32 {
 // id.
 func GetFixedInt64(buf []byte, offsets Offsets, fieldID int) int64 {
 	offset, ok := offsets.Get(fieldID)
-	if !ok {
+	if !ok || offset+8 > uint64(len(buf)) {
 		return 0
 	}
 	return int64(binary.LittleEndian.Uint64(buf[offset : offset+8]))
@@ -128,7 +132,7 @@ func GetFixedInt64(buf []byte, offsets Offsets, fieldID int) int64 {
 // given field id.
 func GetFloat32(buf []byte, offsets Offsets, fieldID int) float32 {
 	offset, ok := offsets.Get(fieldID)
-	if !ok {
+	if !ok || offset+4 > uint64(len(buf)) {
 		return 0
 	}
 	bits := binary.LittleEndian.Uint32(buf[offset : offset+4])
@@ -139,7 +143,7 @@ func GetFloat32(buf []byte, offsets Offsets, fieldID int) float32 {
 // given field id.
 func GetFloat64(buf []byte, offsets Offsets, fieldID int) float64 {
 	offset, ok := offsets.Get(fieldID)
-	if !ok {
+	if !ok || offset+8 > uint64(len(buf)) {
 		return 0
 	}
 	bits := binary.LittleEndian.Uint64(buf[offset : offset+8])
@@ -152,6 +156,9 @@ func GetString(buf []byte, offsets Offsets, fieldID int) string {
 	if !ok {
 		return ``
 	}
+	if fieldDataSize(proto.WireBytes, buf[offset:]) == 0 {
+		return ``
+	}
 	len, lenSize := binary.Uvarint(buf[offset:])
 	offset += uint64(lenSize)
 	data := buf[offset : offset+len]
@@ -164,6 +171,9 @@ func GetBytes(buf []byte, offsets Offsets, fieldID int) []byte {
 	if !ok {
 		return nil
 	}
+	if fieldDataSize(proto.WireBytes, buf[offset:]) == 0 {
+		return nil
+	}
 	len, lenSize := binary.Uvarint(buf[offset:])
 	offset += uint64(lenSize)
 	// Limit the capacity so that an append to the result (notably, by a setter of
-- 
2.43.0


From 520b748b4570b69d6d3fdaa1f6adfa12ff4a46fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:08 +0000
Subject: [PATCH 17/17] fix: generate a valid package clause for any proto
 package

---
 generate/generate.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index ed86371..38fb560 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -3,6 +3,8 @@
 package generate
 
 import (
+	"go/token"
+	"path"
 	"strings"
 	"unicode"
 )
@@ -39,7 +41,7 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 	var indent StringTreeIndent
 	st.Write(indent, "// Code generated by protoc-gen-zeropb. DO NOT EDIT.\n\n")
 	// TODO(dan): Use the go package if it's set.
-	st.Write(indent, "package ", req.GetPackage(), "\n\n")
+	st.Write(indent, "package ", toGoPackage(req), "\n\n")
 	if len(req.MessageType) > 0 {
 		st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
 	}
@@ -196,6 +198,25 @@ func generateRepeatedMessageField(
 	st.Write(indent, "}\n\n")
 }
 
+// toGoPackage returns the file's proto package as a valid Go package name. A
+// file without one is named after the file, as other protobuf generators do.
+func toGoPackage(req *FileDescriptorProto) string {
+	name := req.GetPackage()
+	if name == "" {
+		name = strings.TrimSuffix(path.Base(req.GetName()), `.proto`)
+	}
+	name = strings.Map(func(r rune) rune {
+		if !unicode.IsLetter(r) && !unicode.IsDigit(r) {
+			return '_'
+		}
+		return r
+	}, name)
+	if token.Lookup(name).IsKeyword() || strings.IndexFunc(name, unicode.IsDigit) == 0 {
+		name = "_" + name
+	}
+	return name
+}
+
 func toGoCase(s string) string {
 	titleNext := true
 	mapFn := func(r rune) rune {
-- 
2.43.0

