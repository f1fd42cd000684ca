From 046a2e2ad07faa39d19e2ac353988bf971cb6930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 01/29] fix: keep presence of zero-valued oneof members in
 Marshal and Size

---
 internal/prutal/encoder.go | 2 ++
 internal/prutal/sizer.go   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/internal/prutal/encoder.go b/internal/prutal/encoder.go
index 868c131..bb512d4 100644
--- a/internal/prutal/encoder.go
+++ b/internal/prutal/encoder.go
@@ -69,6 +69,8 @@ func (e *Encoder) AppendStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		// this also checks pointer types
 		skipzero := false
 		switch {
+		case f.IsOneof() && !t.IsPointer:
+			// a member of oneof has presence, always encode it even if it's zero
 		case t.Size == 8: // int64, uint64, float64 or pointer on amd64
 			skipzero = *(*uint64)(p) == 0
 		case t.Size == 4: // int32, uint32, float32 or pointer on 386
diff --git a/internal/prutal/sizer.go b/internal/prutal/sizer.go
index a185d90..d7f6db3 100644
--- a/internal/prutal/sizer.go
+++ b/internal/prutal/sizer.go
@@ -51,6 +51,8 @@ func SizeStruct(base unsafe.Pointer, s *desc.StructDesc, maxdepth int) (int, err
 		// skip zero values — same logic as encoder
 		skipzero := false
 		switch {
+		case f.IsOneof() && !t.IsPointer:
+			// a member of oneof has presence, always encode it even if it's zero
 		case t.Size == 8:
 			skipzero = *(*uint64)(p) == 0
 		case t.Size == 4:
-- 
2.43.0


From 1ec65c0cca7f155b5b2a0032592a8462d45bc63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 02/29] fix: count a map value as one nesting level in
 Unmarshal

A map value took two levels of the recursion limit, so messages that Marshal
accepts were rejected, and the limit, tested with ==0, could be skipped.
---
 internal/prutal/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index eeb5e53..cca74dc 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -282,7 +282,7 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 					if tmv == nil {
 						tmv = f.T.MapTmpVarsPool.Get().(*desc.TmpMapVars)
 					}
-					if _, err := d.DecodeMapPair(fb, p, f, tmv, maxdepth-1); err != nil {
+					if _, err := d.DecodeMapPair(fb, p, f, tmv, maxdepth); err != nil {
 						return i, err
 					}
 				}
-- 
2.43.0


From 198154ec5f689c63c19b938904bcef8e274a5cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 03/29] fix: concatenate multiple records of a packed field

A later record replaced the elements of earlier ones. DecodePackedBool also
took every byte of a multi-byte varint as an element.
---
 internal/wire/decoder_packed.go | 40 +++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/internal/wire/decoder_packed.go b/internal/wire/decoder_packed.go
index 49b399b..cfee576 100644
--- a/internal/wire/decoder_packed.go
+++ b/internal/wire/decoder_packed.go
@@ -34,6 +34,17 @@ func init() {
 	packedDecoderFuncs[CoderBool] = DecodePackedBool
 }
 
+// growPacked returns *h with capacity for n more elements.
+//
+// A packed field may be split into multiple records, the elements of which are concatenated.
+func growPacked[T any](h unsafe.Pointer, n int) []T {
+	vv := *(*[]T)(h)
+	if cap(vv)-len(vv) >= n {
+		return vv
+	}
+	return append(vv, make([]T, n)...)[:len(vv)]
+}
+
 func DecodePackedVarintU64(b []byte, h unsafe.Pointer) error {
 	sz := 0
 	for _, v := range b {
@@ -41,7 +52,7 @@ func DecodePackedVarintU64(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]uint64, 0, sz)
+	vv := growPacked[uint64](h, sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -71,7 +82,7 @@ func DecodePackedVarintU32(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]uint32, 0, sz)
+	vv := growPacked[uint32](h, sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -101,7 +112,7 @@ func DecodePackedZigZag64(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]int64, 0, sz)
+	vv := growPacked[int64](h, sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -131,7 +142,7 @@ func DecodePackedZigZag32(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]int32, 0, sz)
+	vv := growPacked[int32](h, sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -158,7 +169,7 @@ func DecodePackedFixed64(b []byte, h unsafe.Pointer) error {
 	if len(b)&7 != 0 {
 		return io.ErrUnexpectedEOF
 	}
-	vv := make([]uint64, 0, len(b)/8)
+	vv := growPacked[uint64](h, len(b)/8)
 	for len(b) > 0 {
 		_ = b[7]
 		vv = append(vv,
@@ -174,7 +185,7 @@ func DecodePackedFixed32(b []byte, h unsafe.Pointer) error {
 	if len(b)&3 != 0 {
 		return io.ErrUnexpectedEOF
 	}
-	vv := make([]uint32, 0, len(b)/4)
+	vv := growPacked[uint32](h, len(b)/4)
 	for len(b) > 0 {
 		_ = b[3]
 		vv = append(vv, uint32(b[0])<<0|uint32(b[1])<<8|uint32(b[2])<<16|uint32(b[3])<<24)
@@ -185,9 +196,20 @@ func DecodePackedFixed32(b []byte, h unsafe.Pointer) error {
 }
 
 func DecodePackedBool(b []byte, h unsafe.Pointer) error {
-	vv := make([]bool, len(b))
-	for i, c := range b {
-		vv[i] = c > 0
+	sz := 0
+	for _, v := range b {
+		if v < 0x80 {
+			sz++
+		}
+	}
+	vv := growPacked[bool](h, sz)
+	for len(b) > 0 {
+		v, n := protowire.ConsumeVarint(b)
+		if n < 0 {
+			return io.ErrUnexpectedEOF
+		}
+		vv = append(vv, v != 0)
+		b = b[n:]
 	}
 	*(*[]bool)(h) = vv
 	return nil
-- 
2.43.0


From 70c76945e710292073f8305c886a014931128d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 04/29] fix: decode any non-zero varint of a bool as true

---
 internal/prutal/decoder.go   | 12 ++++++------
 internal/wire/decoder_map.go | 14 ++------------
 2 files changed, 8 insertions(+), 18 deletions(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index cca74dc..aed4e37 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -199,8 +199,8 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 				*(*int64)(p) = int64(u64)
 			case reflect.Uint64:
 				*(*uint64)(p) = u64
-			case reflect.Bool: // 1 for true, 0 for false
-				*(*byte)(p) = byte(u64 & 0x1)
+			case reflect.Bool: // any non-zero value is true
+				*(*bool)(p) = u64 != 0
 			}
 			i += n
 
@@ -342,8 +342,8 @@ func (d *Decoder) DecodeMapKey(b []byte, p unsafe.Pointer, f *desc.FieldDesc) (i
 			*(*int64)(p) = int64(u64)
 		case reflect.Uint64:
 			*(*uint64)(p) = u64
-		case reflect.Bool: // 1 for true, 0 for false
-			*(*byte)(p) = byte(u64 & 0x1)
+		case reflect.Bool: // any non-zero value is true
+			*(*bool)(p) = u64 != 0
 		}
 		i += n
 
@@ -448,8 +448,8 @@ func (d *Decoder) DecodeMapValue(b []byte, p unsafe.Pointer, f *desc.FieldDesc,
 			*(*int64)(p) = int64(u64)
 		case reflect.Uint64:
 			*(*uint64)(p) = u64
-		case reflect.Bool: // 1 for true, 0 for false
-			*(*byte)(p) = byte(u64 & 0x1)
+		case reflect.Bool: // any non-zero value is true
+			*(*bool)(p) = u64 != 0
 		}
 		i += n
 
diff --git a/internal/wire/decoder_map.go b/internal/wire/decoder_map.go
index fd5dff3..8bf7891 100644
--- a/internal/wire/decoder_map.go
+++ b/internal/wire/decoder_map.go
@@ -17,7 +17,6 @@
 package wire
 
 import (
-	"io"
 	"unsafe"
 
 	"github.com/cloudwego/prutal/internal/protowire"
@@ -167,17 +166,8 @@ func decodeMap_Fixed64(b []byte, num int32) (v uint64, n int, err error) {
 }
 
 func decodeMap_Bool(b []byte, num int32) (bool, int, error) {
-	if len(b) < 2 {
-		return false, 0, io.ErrUnexpectedEOF
-	}
-	fn, typ := ConsumeKVTag(b)
-	if fn != num {
-		return false, 0, newFieldNumErr(fn, num)
-	}
-	if typ != TypeVarint {
-		return false, 0, newTypeNotMatchErr(typ, TypeVarint)
-	}
-	return b[1] != 0, 2, nil
+	v, n, err := decodeMap_Varint(b, num)
+	return v != 0, n, err
 }
 
 func DecodeMap_VarintU32_VarintU32(b []byte, mp unsafe.Pointer) error {
-- 
2.43.0


From 047cc626f2ebf96e6f899d4896991d30acd56835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 05/29] fix: reject field types that the codecs would
 misinterpret

checkTypeMatch used RealKind, which sees through pointers and slices, so types like
[]*int32, map[*K]V, map[K]*int32, map[K][]T or *[]int32 passed validation while the
encoders and decoders treat them as plain values.
---
 internal/desc/desc.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 8331c3f..3f9c868 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -291,7 +291,14 @@ func (f *FieldDesc) checkTypeMatch() error {
 			if el.IsSlice || el.Kind == reflect.Map {
 				return fmt.Errorf("unsupported nested repeated field type %s", t.T)
 			}
+			// Only messages can be elements by pointer. The encoders and decoders of
+			// scalar lists treat the elements as values.
+			if t.V.IsPointer && el.Kind != reflect.Struct {
+				return fmt.Errorf("unsupported repeated field type %s", t.T)
+			}
 		}
+	} else if t.IsSlice || (t.IsPointer && (t.V.IsSlice || t.V.Kind == reflect.Map)) {
+		return fmt.Errorf("unsupported non-repeated field type %s", t.T)
 	}
 
 	if err := IsFieldTypeMatchReflectKind(f.TagType, t.RealKind()); err != nil {
@@ -301,6 +308,12 @@ func (f *FieldDesc) checkTypeMatch() error {
 		if !f.Repeated {
 			return errors.New("must be repeated field for map")
 		}
+		// RealKind sees through pointers and slices, the map encoders and decoders don't.
+		// Only message values can be pointers.
+		if t.K.IsPointer || t.V.IsSlice || t.V.Kind == reflect.Map ||
+			(t.V.IsPointer && t.V.V.Kind != reflect.Struct) {
+			return fmt.Errorf("unsupported map field type %s", t.T)
+		}
 		if err := IsFieldKeyTypeMatchReflectKind(f.KeyType, t.K.RealKind()); err != nil {
 			return err
 		}
-- 
2.43.0


From 428f2f05fd1c51d5c153a001a965d7e4642665be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 06/29] fix: accept packed data for expanded repeated scalar
 fields

---
 internal/desc/desc.go      | 2 +-
 internal/desc/funcs.go     | 7 ++++---
 internal/prutal/decoder.go | 5 +----
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 3f9c868..ddf2e2a 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -192,7 +192,7 @@ type FieldDesc struct {
 
 	SizeMapFunc wire.SizeMapFunc
 
-	// only for packed types, and some map types
+	// only for repeated scalar types (packed data), and some map types
 	DecodeFunc func(b []byte, p unsafe.Pointer) error
 
 	T *Type
diff --git a/internal/desc/funcs.go b/internal/desc/funcs.go
index e824be2..22c4bd0 100644
--- a/internal/desc/funcs.go
+++ b/internal/desc/funcs.go
@@ -65,11 +65,12 @@ func getDecodeFunc(f *FieldDesc) wire.DecodeFunc {
 		// Returns nil for maps with complex types (e.g., struct values, nested maps)
 		return getMapDecodeFunc(f)
 	}
-	if f.Packed {
-		// Returns optimized decoder for packed repeated scalar fields
+	if f.IsList {
+		// Returns optimized decoder for packed data of repeated scalar fields.
+		// Parsers must accept packed data no matter whether the field is declared as packed.
 		return getPackedDecodeFunc(f)
 	}
-	// Non-packed, non-map fields use generic decoding
+	// Non-repeated, non-map fields use generic decoding
 	return nil
 }
 
diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index aed4e37..b1ae35d 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -148,11 +148,8 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 
 		if f.Repeated && t.IsSlice {
 			t = t.V
-			if typ == wire.TypeBytes && f.Packed {
+			if typ == wire.TypeBytes && f.DecodeFunc != nil {
 				// packed repeated fields, only scalar types except string or bytes
-				if f.DecodeFunc == nil {
-					panic(fmt.Sprintf("BUG? unknown packed field %q (#%d)", f.Name, f.ID))
-				}
 				packed, n := protowire.ConsumeBytes(b[i:])
 				if n < 0 {
 					return i, protowire.ParseError(n)
-- 
2.43.0


From 55f257520400fa68f302b5b3a54f73700a859e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 07/29] fix: accept map entries which are not in the form of
 key followed by value

---
 internal/prutal/decoder.go | 83 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 83 insertions(+)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index b1ae35d..eafa643 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -262,6 +262,10 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 					*(*string)(p) = ""
 				}
 			case reflect.Map:
+				fb, err := normalizeMapEntry(fb, f)
+				if err != nil {
+					return i, err
+				}
 				// Fast path: use specialized decoders from wire package for primitive key-value pairs
 				// These are pre-generated functions optimized for specific map types (e.g., map[uint32]int64)
 				// Available for numeric/bool keys with numeric/bool values only
@@ -304,6 +308,85 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 	return i, nil
 }
 
+// isNormalMapEntry returns true if b contains exactly one key followed by exactly one value.
+// It's always the case for map entries generated by encoders.
+func isNormalMapEntry(b []byte, f *desc.FieldDesc) bool {
+	if len(b) == 0 || b[0] != byte(1)<<3|byte(f.KeyWireType) {
+		return false
+	}
+	n := 1 + protowire.ConsumeFieldValue(1, f.KeyWireType, b[1:])
+	if n < 1 || n >= len(b) || b[n] != byte(2)<<3|byte(f.ValWireType) {
+		return false
+	}
+	b = b[n+1:]
+	return protowire.ConsumeFieldValue(2, f.ValWireType, b) == len(b)
+}
+
+// normalizeMapEntry returns a map entry which contains exactly one key followed by exactly one value.
+//
+// A map entry is a message with two fields, parsers must be able to accept it with
+// missing fields, with fields in any order, with the same field more than once and with unknown fields.
+func normalizeMapEntry(b []byte, f *desc.FieldDesc) ([]byte, error) {
+	if isNormalMapEntry(b, f) {
+		return b, nil
+	}
+	isMessage := f.T.V.RealKind() == reflect.Struct
+	var key, val []byte
+	for len(b) > 0 {
+		num, typ, n := protowire.ConsumeTag(b)
+		if n < 0 {
+			return nil, protowire.ParseError(n)
+		}
+		b = b[n:]
+		n = protowire.ConsumeFieldValue(num, typ, b)
+		if n < 0 {
+			return nil, protowire.ParseError(n)
+		}
+		switch num {
+		case 1:
+			if typ != f.KeyWireType {
+				return nil, newWireTypeNotMatch(typ, f.KeyType)
+			}
+			key = b[:n]
+		case 2:
+			if typ != f.ValWireType {
+				return nil, newWireTypeNotMatch(typ, f.ValType)
+			}
+			if isMessage { // concatenated messages are merged when decoding
+				v, _ := protowire.ConsumeBytes(b)
+				val = append(val, v...)
+			} else {
+				val = b[:n]
+			}
+		}
+		b = b[n:]
+	}
+	if key == nil {
+		key = zeroFieldValue(f.KeyWireType)
+	}
+	if isMessage {
+		val = protowire.AppendBytes(nil, val)
+	} else if val == nil {
+		val = zeroFieldValue(f.ValWireType)
+	}
+	ret := make([]byte, 0, 2+len(key)+len(val))
+	ret = append(wire.AppendKeyTag(ret, f.KeyWireType), key...)
+	ret = append(wire.AppendValTag(ret, f.ValWireType), val...)
+	return ret, nil
+}
+
+// zeroFieldValue returns the encoding of zero value without tag
+func zeroFieldValue(t wire.Type) []byte {
+	switch t {
+	case wire.TypeFixed32:
+		return make([]byte, 4)
+	case wire.TypeFixed64:
+		return make([]byte, 8)
+	default: // zero varint, or zero length
+		return make([]byte, 1)
+	}
+}
+
 // DecodeMapKey ...
 // keyType = "int32" | "int64" | "uint32" | "uint64" | "sint32" | "sint64" |
 // "fixed32" | "fixed64" | "sfixed32" | "sfixed64" | "bool" | "string"
-- 
2.43.0


From 1ab9c7d3270dc05c77b1aca4d225a5611aed705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 08/29] fix: merge multiple records of a singular message field

A later record of the same message field replaced what earlier ones decoded.
---
 internal/prutal/decoder.go | 20 ++++++++++++--------
 internal/prutal/prutal.go  |  4 ++++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index eafa643..41973ce 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -98,11 +98,6 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		tmv *desc.TmpMapVars // cache for map, optmize for repeated map
 	)
 
-	// reset unknownfields = unknownfields[:0]
-	if s.HasUnknownFields {
-		resetUnknownFields(s, base)
-	}
-
 	for i < len(b) {
 		// next field tag
 		num, typ, n := protowire.ConsumeTag(b[i:])
@@ -136,13 +131,22 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		t := f.T
 		tag := f.TagType
 		if f.IsOneof() {
-			data := d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
-			hack.IfaceUpdate(p, f.IfaceTab, data)
+			data := hack.IfaceData(p)
+			if data == nil || t.RealKind() != reflect.Struct ||
+				hack.ReflectTypePtr(f.OneofType) != hack.IfaceTypePtr(p) {
+				data = d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
+				hack.IfaceUpdate(p, f.IfaceTab, data)
+			}
 			p = data
 		}
 
 		if t.IsPointer {
-			p = d.mallocIfPointer(p, t)
+			// merge into the existing message if the field is already set
+			if v := *(*unsafe.Pointer)(p); v != nil && t.V.Kind == reflect.Struct {
+				p = v
+			} else {
+				p = d.mallocIfPointer(p, t)
+			}
 			t = t.V
 		}
 
diff --git a/internal/prutal/prutal.go b/internal/prutal/prutal.go
index a0c96bd..9841f85 100644
--- a/internal/prutal/prutal.go
+++ b/internal/prutal/prutal.go
@@ -80,6 +80,10 @@ func Unmarshal(b []byte, v interface{}) error {
 	if err != nil {
 		return err
 	}
+	if desc.HasUnknownFields {
+		// reset unknownfields = unknownfields[:0]
+		resetUnknownFields(desc, rv.UnsafePointer())
+	}
 	d := decoderPool.Get().(*Decoder)
 	_, err = d.DecodeStruct(b, rv.UnsafePointer(), desc, defaultRecursionMaxDepth)
 	decoderPool.Put(d)
-- 
2.43.0


From bfc745aa3b411f3e04325a1433197d3d1eb80607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 09/29] fix: zero the spare element before decoding a repeated
 struct into it

---
 internal/prutal/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 41973ce..e688e3c 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -175,6 +175,9 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 			if t.IsPointer {
 				p = d.mallocIfPointer(p, t)
 				t = t.V
+			} else if t.Kind == reflect.Struct {
+				// spare capacity provided by user may contain old values
+				reflect.NewAt(t.T, p).Elem().SetZero()
 			}
 		}
 
-- 
2.43.0


From b34ba1ba652485b31e22e36de6e76b96e8009e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 10/29] fix: don't reuse incompletely parsed types after a
 parse error

---
 internal/desc/desc.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index ddf2e2a..3555c0e 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -64,6 +64,19 @@ func GetOrParse(rv reflect.Value) (*StructDesc, error) {
 		return ret, nil
 	}
 
+	s, err := parseAndFinalize(rt)
+	if err != nil {
+		// Types parsed so far may refer to types which failed to parse or finalize.
+		// Drop them all, or the next call would take the incomplete ones for good.
+		cachedTypes = map[reflect.Type]*Type{}
+		cachedStructs = map[reflect.Type]*StructDesc{}
+		return nil, err
+	}
+	cache.Set(typ, s)
+	return s, nil
+}
+
+func parseAndFinalize(rt reflect.Type) (*StructDesc, error) {
 	t, err := parseType(rt)
 	if err != nil {
 		return nil, err
@@ -75,7 +88,6 @@ func GetOrParse(rv reflect.Value) (*StructDesc, error) {
 	if err := s.FinalizeFields(); err != nil {
 		return nil, err
 	}
-	cache.Set(typ, s)
 	return s, nil
 }
 
-- 
2.43.0


From 6e478727074fb69e6edc5138f11d3ae5a268aea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 11/29] fix: validate field numbers and stop at def= in struct
 tags

---
 internal/desc/tag.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/desc/tag.go b/internal/desc/tag.go
index 9d94720..815cb60 100644
--- a/internal/desc/tag.go
+++ b/internal/desc/tag.go
@@ -27,6 +27,8 @@ import (
 
 var errGroupNotSupported = errors.New("group encoding not supported")
 
+const maxFieldID = 1<<29 - 1
+
 func (p *FieldDesc) parseStructTag(tag string) error {
 	ss := strings.Split(tag, ",")
 	for _, s := range ss {
@@ -34,6 +36,9 @@ func (p *FieldDesc) parseStructTag(tag string) error {
 		if s == "" {
 			continue
 		}
+		if strings.HasPrefix(s, "def=") {
+			break // always the last one, the default value may contain commas
+		}
 		switch {
 		case s == "opt":
 			// not in use
@@ -68,6 +73,9 @@ func (p *FieldDesc) parseStructTag(tag string) error {
 	if p.TagType == 0 {
 		return errors.New("unknown tag type")
 	}
+	if p.ID < 1 || p.ID > maxFieldID {
+		return fmt.Errorf("invalid field number: %d", p.ID)
+	}
 	if p.Packed {
 		p.WireTag = wire.EncodeTag(p.ID, wire.TypeBytes)
 	} else {
-- 
2.43.0


From ee93490fbf3c8749c1d07beee9cc84fdaefd4ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 12/29] fix: resolve type names by protobuf scoping rules

---
 prutalgen/pkg/prutalgen/proto.go | 51 +++++++++++++++++++++++-
 prutalgen/pkg/prutalgen/type.go  | 67 +++++++++++---------------------
 2 files changed, 73 insertions(+), 45 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 405f991..5727a91 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -81,7 +81,7 @@ func (p *Proto) setGoPackage(s string) {
 	}
 }
 
-func (p *Proto) getType(name string) any {
+func (p *Proto) getLocalType(name string) any {
 	for _, m := range p.Messages {
 		if v := m.getType(name); v != nil {
 			return v
@@ -92,6 +92,13 @@ func (p *Proto) getType(name string) any {
 			return e
 		}
 	}
+	return nil
+}
+
+func (p *Proto) getType(name string) any {
+	if v := p.getLocalType(name); v != nil {
+		return v
+	}
 	for _, x := range p.Imports {
 		if !x.Public {
 			continue
@@ -106,6 +113,48 @@ func (p *Proto) getType(name string) any {
 	return nil
 }
 
+// findType returns the type with the given fully qualified name which is visible
+// to the proto file, and the proto file which defines it.
+func (p *Proto) findType(fullname string) (any, *Proto) {
+	if v := p.getDefinedType(fullname); v != nil {
+		return v, p
+	}
+	for _, x := range p.Imports {
+		if v, def := x.Proto.findPublicType(fullname); v != nil {
+			return v, def
+		}
+	}
+	return nil, nil
+}
+
+// findPublicType is like findType but without following non-public imports
+func (p *Proto) findPublicType(fullname string) (any, *Proto) {
+	if v := p.getDefinedType(fullname); v != nil {
+		return v, p
+	}
+	for _, x := range p.Imports {
+		if !x.Public {
+			continue
+		}
+		if v, def := x.Proto.findPublicType(fullname); v != nil {
+			return v, def
+		}
+	}
+	return nil, nil
+}
+
+// getDefinedType returns the type defined in the file with the given fully qualified name
+func (p *Proto) getDefinedType(fullname string) any {
+	name := fullname
+	if p.Package != "" {
+		var ok bool
+		if name, ok = trimPathPrefix(fullname, p.Package); !ok {
+			return nil
+		}
+	}
+	return p.getLocalType(name)
+}
+
 func (p *Proto) IsProto2() bool {
 	return p.Edition == editionProto2
 }
diff --git a/prutalgen/pkg/prutalgen/type.go b/prutalgen/pkg/prutalgen/type.go
index 7f7c8ab..782ca00 100644
--- a/prutalgen/pkg/prutalgen/type.go
+++ b/prutalgen/pkg/prutalgen/type.go
@@ -137,65 +137,44 @@ func (t *Type) resolve(allowScalar bool) {
 		}
 	}
 
-	if m != nil {
-		if v := m.getType(t.Name); v != nil {
-			t.typ = v
-			return
-		}
-	}
-
 	//  (DOT)? (ident DOT)* ident
 
-	// search Message
-	if m != nil {
+	// a name starting with "." is fully qualified, no scope is searched
+	name, absolute := strings.CutPrefix(t.Name, ".")
+	if !absolute {
+		// from the innermost message to the outermost one
 		for x := m; x != nil; x = x.Msg {
-			t.typ = x.getType(t.Name)
-			if t.typ != nil {
+			if t.typ = x.getType(x.Name + "." + name); t.typ != nil {
 				return
 			}
-			for _, e := range x.Enums {
-				if e.Name == t.Name {
-					t.typ = e
-					return
-				}
-			}
-			for _, m := range x.Messages {
-				if v := m.getType(t.Name); v != nil {
-					t.typ = v
-					return
-				}
-			}
 		}
 	}
 
-	// search proto and imports
-	protos := make([]*Proto, 0, len(p.Imports)+1)
-	protos = append(protos, p) // always check p
-	for _, x := range p.Imports {
-		if p.Package == x.Package { // same package
-			protos = append(protos, x.Proto)
-		}
+	// from the innermost package to the outermost one
+	scope := p.Package
+	if absolute {
+		scope = ""
 	}
-
-	// if name starts with "." it means the type is in local package
-	if !strings.HasPrefix(t.Name, ".") {
-		for _, x := range p.Imports {
-			if hasPathPrefix(t.Name, x.Package) {
-				protos = append(protos, x.Proto)
-			}
+	for {
+		fullname := name
+		if scope != "" {
+			fullname = scope + "." + name
 		}
-	} else {
-		// trim "." for searching type
-		t.Name = strings.TrimLeft(t.Name, ".")
-	}
-	for _, x := range protos {
-		t.typ = x.getType(t.Name)
-		if t.typ != nil {
+		if v, x := p.findType(fullname); v != nil {
+			t.typ = v
 			if x.GoImport != p.GoImport {
 				t.p = x
 			}
 			return
 		}
+		if scope == "" {
+			break
+		}
+		if i := strings.LastIndexByte(scope, '.'); i > 0 {
+			scope = scope[:i]
+		} else {
+			scope = ""
+		}
 	}
 	p.Fatalf("line %d: type %q not found.", t.rule.GetStart().GetLine(), t.Name)
 }
-- 
2.43.0


From b5c99699a7b20bddebcbb052212c6b2e96376b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 13/29] fix: refer to external types by their actual Go package
 names, M option first

---
 prutalgen/pkg/prutalgen/code.go      |  4 +--
 prutalgen/pkg/prutalgen/field.go     |  3 +--
 prutalgen/pkg/prutalgen/proto.go     | 38 ++++++++++++++++++++++++++--
 prutalgen/pkg/prutalgen/prutalgen.go |  2 +-
 prutalgen/pkg/prutalgen/type.go      | 17 ++++++++++++-
 5 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 5ae3659..47f7b99 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -354,10 +354,10 @@ func (g *GoCodeGen) FieldGen(f *Field, w *CodeWriter) {
 	}
 	w.F("%s %s `%s` %s", f.GoName, f.GoTypeName(), g.FieldStructTag(f), f.InlineComment)
 	if f.Type.IsExternalType() {
-		w.UsePkg(f.Type.GoImport(), "")
+		w.UsePkg(f.Type.GoImport(), f.Type.GoImportAlias())
 	}
 	if f.Key != nil && f.Key.IsExternalType() {
-		w.UsePkg(f.Key.GoImport(), "")
+		w.UsePkg(f.Key.GoImport(), f.Key.GoImportAlias())
 	}
 }
 
diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index cddc007..eff34b6 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -18,7 +18,6 @@ package prutalgen
 
 import (
 	"fmt"
-	"path"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/antlr"
@@ -216,7 +215,7 @@ func (f *Field) GoZero() string {
 			if !tp.IsExternalType() {
 				return zero
 			}
-			return path.Base(tp.GoImport()) + "." + zero
+			return tp.GoImportAlias() + "." + zero
 		}
 		return "0"
 	}
diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 5727a91..c153bfd 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -19,10 +19,13 @@ package prutalgen
 import (
 	"errors"
 	"fmt"
+	"go/types"
 	"path"
+	"strconv"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/parser"
+	"github.com/cloudwego/prutal/prutalgen/internal/protobuf/strs"
 	"github.com/cloudwego/prutal/prutalgen/internal/protobuf/text"
 )
 
@@ -43,6 +46,8 @@ type Proto struct {
 	GoImport  string // the full import path
 	GoPackage string // package name without path
 
+	importAliases map[string]string // GoImport of external types -> package name
+
 	Directives Directives
 
 	Imports []*Import
@@ -75,10 +80,39 @@ func (p *Proto) setGoPackage(s string) {
 	pkg = strings.TrimSpace(pkg)
 	p.GoImport = imp
 	if pkg != "" {
-		p.GoPackage = pkg
+		p.GoPackage = strs.GoSanitized(pkg)
 	} else if p.GoImport != "" {
-		p.GoPackage = path.Base(p.GoImport)
+		p.GoPackage = strs.GoSanitized(path.Base(p.GoImport))
+	}
+}
+
+// importAlias returns the package name used for referring to types of x in the code of p
+func (p *Proto) importAlias(x *Proto) string {
+	if s, ok := p.importAliases[x.GoImport]; ok {
+		return s
+	}
+	name := x.GoPackage
+	if name == "" {
+		name = path.Base(x.GoImport)
+	}
+	used := map[string]bool{
+		"strconv": true, "prutal": true, // imported by the generated code
+		"x": true, // receiver name of the generated methods
+	}
+	for _, s := range p.importAliases {
+		used[s] = true
+	}
+	alias := name
+	for i := 1; used[alias] || types.Universe.Lookup(alias) != nil ||
+		// CodeWriter drops an alias which is same as its path.Base
+		(alias != name && alias == path.Base(x.GoImport)); i++ {
+		alias = name + strconv.Itoa(i)
+	}
+	if p.importAliases == nil {
+		p.importAliases = map[string]string{}
 	}
+	p.importAliases[x.GoImport] = alias
+	return alias
 }
 
 func (p *Proto) getLocalType(name string) any {
diff --git a/prutalgen/pkg/prutalgen/prutalgen.go b/prutalgen/pkg/prutalgen/prutalgen.go
index 812778b..608cb6b 100644
--- a/prutalgen/pkg/prutalgen/prutalgen.go
+++ b/prutalgen/pkg/prutalgen/prutalgen.go
@@ -255,7 +255,7 @@ func (x *protoLoader) parseInput(in antlr.CharStream) {
 	p.Directives.Parse(comment)
 
 	gopkg, ok := p.Options.Get("go_package")
-	if ok {
+	if ok && p.GoPackage == "" { // the M option takes precedence
 		p.setGoPackage(gopkg)
 	}
 	if p.GoPackage == "" {
diff --git a/prutalgen/pkg/prutalgen/type.go b/prutalgen/pkg/prutalgen/type.go
index 782ca00..87c3404 100644
--- a/prutalgen/pkg/prutalgen/type.go
+++ b/prutalgen/pkg/prutalgen/type.go
@@ -28,6 +28,8 @@ type Type struct {
 
 	p *Proto
 
+	alias string // package name used for referring to p in the generated code
+
 	// *Enum or *Message
 	typ any
 
@@ -59,7 +61,18 @@ func (t *Type) GoName() string {
 	if t.p == nil {
 		return ret
 	}
-	return path.Base(t.p.GoImport) + "." + ret
+	return t.GoImportAlias() + "." + ret
+}
+
+// GoImportAlias returns the package name which is used by GoName for an external type
+func (t *Type) GoImportAlias() string {
+	if t.p == nil {
+		return ""
+	}
+	if t.alias != "" {
+		return t.alias
+	}
+	return path.Base(t.p.GoImport)
 }
 
 func (t *Type) IsExternalType() bool {
@@ -129,6 +142,7 @@ func (t *Type) resolve(allowScalar bool) {
 	}
 
 	t.p = nil
+	t.alias = ""
 	t.typ = nil
 
 	if allowScalar {
@@ -164,6 +178,7 @@ func (t *Type) resolve(allowScalar bool) {
 			t.typ = v
 			if x.GoImport != p.GoImport {
 				t.p = x
+				t.alias = p.importAlias(x)
 			}
 			return
 		}
-- 
2.43.0


From 91f3082227e26ace6202010f21a54e202d0666e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 14/29] fix: generate enums nested in nested messages

---
 prutalgen/pkg/prutalgen/code.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 47f7b99..d522bb8 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -117,16 +117,21 @@ func (g *GoCodeGen) ProtoGen(p *Proto, w *CodeWriter) {
 
 	// always generate enums before messages
 	// same order as protobuf
+	g.nestedEnumsGen(p.Messages, w)
+
 	for _, m := range p.Messages {
+		w.F("")
+		g.MessageGen(m, w)
+	}
+}
+
+func (g *GoCodeGen) nestedEnumsGen(mm []*Message, w *CodeWriter) {
+	for _, m := range mm {
 		for _, e := range m.Enums {
 			w.F("")
 			g.EnumGen(e, w)
 		}
-	}
-
-	for _, m := range p.Messages {
-		w.F("")
-		g.MessageGen(m, w)
+		g.nestedEnumsGen(m.Messages, w)
 	}
 }
 
-- 
2.43.0


From 4ae346ef6ec5465475c54bad31c0f33d487148e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:37 +0000
Subject: [PATCH 15/29] fix: don't use an enum's comment as a format string

---
 prutalgen/pkg/prutalgen/code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index d522bb8..3d57cf6 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -139,7 +139,7 @@ func (g *GoCodeGen) EnumGen(e *Enum, w *CodeWriter) {
 	if e.HeadComment != "" {
 		w.F("%s", e.HeadComment)
 	}
-	w.F("type %s int32"+e.InlineComment, e.GoName)
+	w.F("type %s int32 %s", e.GoName, e.InlineComment)
 	w.F("")
 	if len(e.Fields) > 0 {
 		w.F("const (")
-- 
2.43.0


From ccc19c89637fb5bdd5f3b540cc7a2128080b4d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 16/29] fix: parse reserved ranges and enum values, allow enum
 values 19000 to 19999

---
 prutalgen/pkg/prutalgen/enum.go     | 8 +++-----
 prutalgen/pkg/prutalgen/reserved.go | 5 +++++
 prutalgen/pkg/prutalgen/utils.go    | 9 ++++-----
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/enum.go b/prutalgen/pkg/prutalgen/enum.go
index 3b71511..97acd0b 100644
--- a/prutalgen/pkg/prutalgen/enum.go
+++ b/prutalgen/pkg/prutalgen/enum.go
@@ -70,7 +70,8 @@ func (e *Enum) FullName() string {
 }
 
 func (e *Enum) IsReservedField(v int32) bool {
-	return e.reserved.In(v)
+	// 19000 to 19999 is only for field numbers
+	return e.reserved.declared(v)
 }
 
 func (e *Enum) genNoPrefix() bool {
@@ -185,15 +186,12 @@ func (x *protoLoader) ExitEnumField(c *parser.EnumFieldContext) {
 	f.Directives.Parse(f.HeadComment, f.InlineComment)
 
 	//  (MINUS)? intLit
-	if num, ok := text.UnmarshalI32(c.IntLit().GetText()); !ok {
+	if num, ok := text.UnmarshalI32(getText(c.MINUS()) + c.IntLit().GetText()); !ok {
 		t := c.IntLit()
 		x.Fatalf("%s - parse enum %q err", getTokenPos(t), t.GetText())
 	} else {
 		f.Value = num
 	}
-	if t := c.MINUS(); t != nil {
-		f.Value = -f.Value
-	}
 
 	// enumValueOptions
 	if oo := c.EnumValueOptions(); oo != nil {
diff --git a/prutalgen/pkg/prutalgen/reserved.go b/prutalgen/pkg/prutalgen/reserved.go
index f3661af..8985425 100644
--- a/prutalgen/pkg/prutalgen/reserved.go
+++ b/prutalgen/pkg/prutalgen/reserved.go
@@ -39,6 +39,11 @@ func (rr reservedRanges) In(v int32) bool {
 	if v >= protobufReservedMin && v <= protobufReservedMax {
 		return true
 	}
+	return rr.declared(v)
+}
+
+// declared is like In without the range reserved by protobuf implementation.
+func (rr reservedRanges) declared(v int32) bool {
 	for _, r := range rr {
 		if v >= r.from && v <= r.to {
 			return true
diff --git a/prutalgen/pkg/prutalgen/utils.go b/prutalgen/pkg/prutalgen/utils.go
index 1b56bb7..53453b4 100644
--- a/prutalgen/pkg/prutalgen/utils.go
+++ b/prutalgen/pkg/prutalgen/utils.go
@@ -20,7 +20,6 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
-	"strconv"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/antlr"
 
@@ -67,11 +66,11 @@ func getTokenPos(v antlr.ParserRuleContext) string {
 }
 
 func parseI32(c antlr.ParserRuleContext) (int32, error) {
-	v, err := strconv.ParseInt(c.GetText(), 10, 32)
-	if err != nil {
-		return 0, fmt.Errorf("%s - %w", getTokenPos(c), err)
+	v, ok := text.UnmarshalI32(c.GetText()) // decimal, hex or octal
+	if !ok {
+		return 0, fmt.Errorf("%s - parse int %q err", getTokenPos(c), c.GetText())
 	}
-	return int32(v), nil
+	return v, nil
 }
 
 func isfalse(v string) bool { return v == "false" }
-- 
2.43.0


From b4cfc1fce8340f786b9494ef5c24947067e63471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:33 +0000
Subject: [PATCH 17/29] fix: check reserved names and the range of field
 numbers

---
 prutalgen/pkg/prutalgen/enum.go     |  6 ++++-
 prutalgen/pkg/prutalgen/message.go  | 10 ++++++--
 prutalgen/pkg/prutalgen/reserved.go | 39 +++++++++++++++++++++++++++++
 3 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/enum.go b/prutalgen/pkg/prutalgen/enum.go
index 97acd0b..475dc28 100644
--- a/prutalgen/pkg/prutalgen/enum.go
+++ b/prutalgen/pkg/prutalgen/enum.go
@@ -37,7 +37,8 @@ type Enum struct {
 	Fields  []*EnumField
 	Options Options
 
-	reserved reservedRanges
+	reserved      reservedRanges
+	reservedNames reservedNames
 
 	Msg   *Message // for embedded enum only
 	Proto *Proto
@@ -121,6 +122,9 @@ func (e *Enum) verify() error {
 	errs := []error{}
 	m := map[int32]bool{}
 	for _, f := range e.Fields {
+		if e.reservedNames.In(f.Name) {
+			errs = append(errs, fmt.Errorf("name %q is reserved", f.Name))
+		}
 		if e.IsReservedField(f.Value) {
 			errs = append(errs, fmt.Errorf("%q = %d is reserved", f.Name, f.Value))
 		} else if m[f.Value] && !e.allowAlias() {
diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index cf1c73a..7f0015a 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -43,7 +43,8 @@ type Message struct {
 	Oneofs  []*Oneof
 	Options Options
 
-	reserved reservedRanges
+	reserved      reservedRanges
+	reservedNames reservedNames
 
 	Msg   *Message // for embedded message only
 	Proto *Proto
@@ -213,7 +214,12 @@ func (m *Message) verify() error {
 	}
 	exists := map[int32]bool{}
 	for _, x := range m.Fields {
-		if m.IsReservedField(x.FieldNumber) {
+		if m.reservedNames.In(x.Name) {
+			errs = append(errs, fmt.Errorf("field name %q is reserved", x.Name))
+		}
+		if x.FieldNumber < 1 || x.FieldNumber > protobufMaxFieldNumber {
+			errs = append(errs, fmt.Errorf("field %q field number = %d is out of range", x.Name, x.FieldNumber))
+		} else if m.IsReservedField(x.FieldNumber) {
 			errs = append(errs, fmt.Errorf("field %q field number = %d is reserved", x.Name, x.FieldNumber))
 		} else if exists[x.FieldNumber] {
 			errs = append(errs, fmt.Errorf("field %q field number = %d is duplicated", x.Name, x.FieldNumber))
diff --git a/prutalgen/pkg/prutalgen/reserved.go b/prutalgen/pkg/prutalgen/reserved.go
index 8985425..42d04b8 100644
--- a/prutalgen/pkg/prutalgen/reserved.go
+++ b/prutalgen/pkg/prutalgen/reserved.go
@@ -20,14 +20,28 @@ import (
 	"math"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/parser"
+	"github.com/cloudwego/prutal/prutalgen/internal/protobuf/text"
 )
 
 const (
 	// reserved by protobuf implementation
 	protobufReservedMin = 19000
 	protobufReservedMax = 19999
+
+	protobufMaxFieldNumber = 1<<29 - 1
 )
 
+type reservedNames []string
+
+func (nn reservedNames) In(name string) bool {
+	for _, s := range nn {
+		if s == name {
+			return true
+		}
+	}
+	return false
+}
+
 type reservedRange struct {
 	from int32
 	to   int32
@@ -53,6 +67,10 @@ func (rr reservedRanges) declared(v int32) bool {
 }
 
 func (x *protoLoader) ExitReserved(c *parser.ReservedContext) {
+	if nc := c.ReservedFieldNames(); nc != nil {
+		x.reserveNames(c, nc)
+		return
+	}
 	rc := c.Ranges()
 	if rc == nil {
 		return
@@ -89,3 +107,24 @@ func (x *protoLoader) ExitReserved(c *parser.ReservedContext) {
 		e.reserved = append(e.reserved, ranges...)
 	}
 }
+
+func (x *protoLoader) reserveNames(c *parser.ReservedContext, nc parser.IReservedFieldNamesContext) {
+	names := make(reservedNames, 0, len(nc.AllStrLit()))
+	for _, l := range nc.AllStrLit() {
+		s, err := text.UnmarshalString(l.GetText())
+		if err != nil {
+			x.Fatalf("%s - %s", getTokenPos(l), err)
+		}
+		names = append(names, s)
+	}
+
+	switch getRuleIndex(c.GetParent()) {
+	case parser.ProtobufParserRULE_messageElement:
+		m := x.currentMsg()
+		m.reservedNames = append(m.reservedNames, names...)
+
+	case parser.ProtobufParserRULE_enumElement:
+		e := x.enum
+		e.reservedNames = append(e.reservedNames, names...)
+	}
+}
-- 
2.43.0


From 766a5fb5b15214e7e3f32ecd69ea44b77758d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:51 +0000
Subject: [PATCH 18/29] fix: concatenate adjacent string literals

---
 prutalgen/internal/protobuf/text/decode_string.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/prutalgen/internal/protobuf/text/decode_string.go b/prutalgen/internal/protobuf/text/decode_string.go
index d60e44d..af5d6ea 100644
--- a/prutalgen/internal/protobuf/text/decode_string.go
+++ b/prutalgen/internal/protobuf/text/decode_string.go
@@ -162,9 +162,15 @@ func indexNeedEscapeInString(s string) int {
 }
 
 // UnmarshalString returns an unescaped string given a textproto string value.
-// String value needs to contain single or double quotes. This is only used by
+// String value needs to contain single or double quotes. Back-to-back literals
+// are treated as a single string with all values concatenated. This is only used by
 // internal/encoding/defval package for unmarshaling bytes.
 func UnmarshalString(s string) (string, error) {
 	d := NewDecoder([]byte(s))
-	return d.parseString()
+	ret, err := d.parseString()
+	for err == nil && len(d.in) > 0 { // back-to-back string literals
+		s, err = d.parseString()
+		ret += s
+	}
+	return ret, err
 }
-- 
2.43.0


From 858f8420434aadbb2084a800675ff75c69547482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 19/29] fix: honor packed = false in proto3

---
 prutalgen/pkg/prutalgen/field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index eff34b6..e74854c 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -105,7 +105,7 @@ func (f *Field) IsPackedEncoding() bool {
 		}
 		return v == "PACKED"
 	}
-	return true // proto3
+	return !f.Options.Is(option_packed, "false") // proto3
 }
 
 func (f *Field) resolve() {
-- 
2.43.0


From 618680cc6f02e2804291f8073393335856d91a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:56 +0000
Subject: [PATCH 20/29] fix: treat LEGACY_REQUIRED like required

---
 prutalgen/pkg/prutalgen/code.go  | 2 +-
 prutalgen/pkg/prutalgen/field.go | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 3d57cf6..43700bb 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -319,7 +319,7 @@ func (g *GoCodeGen) FieldStructTag(f *Field) []byte {
 		if f.IsPackedEncoding() {
 			b = append(b, ",packed"...)
 		}
-	} else if f.Required {
+	} else if f.isRequired() {
 		b = append(b, "req"...)
 	} else {
 		b = append(b, "opt"...)
diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index e74854c..3f9daad 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -108,6 +108,11 @@ func (f *Field) IsPackedEncoding() bool {
 	return !f.Options.Is(option_packed, "false") // proto3
 }
 
+// isRequired reports whether the field is required in proto2 or in editions
+func (f *Field) isRequired() bool {
+	return f.Required || (f.Msg.Proto.IsEdition2023() && f.Options.Is(f_field_presence, "LEGACY_REQUIRED"))
+}
+
 func (f *Field) resolve() {
 	f.GoName = strs.GoCamelCase(f.Name)
 	f.Type.resolve(true)
@@ -188,7 +193,7 @@ func (f *Field) IsPointer() bool {
 	if p.IsEdition2023() {
 		s, ok := f.Options.Get(f_field_presence)
 		if ok {
-			return s == "EXPLICIT"
+			return s == "EXPLICIT" || s == "LEGACY_REQUIRED"
 		}
 		s, ok = p.Options.Get(f_field_presence)
 		if ok {
-- 
2.43.0


From 6794bcf8c75930a76c41fae2b3976dfd9d8bbefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:13 +0000
Subject: [PATCH 21/29] fix: require message types in rpc

---
 prutalgen/pkg/prutalgen/service.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prutalgen/pkg/prutalgen/service.go b/prutalgen/pkg/prutalgen/service.go
index 972e1dc..d908860 100644
--- a/prutalgen/pkg/prutalgen/service.go
+++ b/prutalgen/pkg/prutalgen/service.go
@@ -70,6 +70,11 @@ func (r *Method) resolve() {
 	r.GoName = strs.GoCamelCase(r.Name)
 	r.Request.resolve(false)
 	r.Return.resolve(false)
+	for _, t := range []*Type{r.Request, r.Return} {
+		if !t.IsMessage() {
+			r.Service.Proto.Fatalf("rpc %s: %q is not a message type", r.Name, t.Name)
+		}
+	}
 }
 
 func (x *protoLoader) EnterServiceDef(c *parser.ServiceDefContext) {
-- 
2.43.0


From a32d03bc2d3c80fadc4bb796dc3cacb6ce3e98e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:13 +0000
Subject: [PATCH 22/29] fix: support features as an aggregate and verify field
 options

---
 prutalgen/pkg/prutalgen/consts.go |  2 ++
 prutalgen/pkg/prutalgen/field.go  |  9 +++--
 prutalgen/pkg/prutalgen/option.go | 58 +++++++++++++++++++++++--------
 3 files changed, 52 insertions(+), 17 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/consts.go b/prutalgen/pkg/prutalgen/consts.go
index 1f416fe..0c9de9d 100644
--- a/prutalgen/pkg/prutalgen/consts.go
+++ b/prutalgen/pkg/prutalgen/consts.go
@@ -43,6 +43,8 @@ const (
 	// editions features
 	// see: https://protobuf.dev/editions/features/
 
+	option_features = "features"
+
 	f_repeated_field_encoding = "features.repeated_field_encoding"
 	f_field_presence          = "features.field_presence"
 )
diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index 3f9daad..1c0e39c 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -313,11 +313,16 @@ func (x *protoLoader) newField(c fieldWithKeyTypeContext) *Field {
 	f.FieldNumber = num
 	if oo := c.FieldOptions(); oo != nil {
 		for _, o := range oo.AllFieldOption() {
-			v, err := unmarshalConst(o.Constant().GetText())
+			vv, err := newOptions(o.OptionName().GetText(), o.Constant())
 			if err != nil {
 				x.Fatalf("%s - field option syntax err: %s", getTokenPos(o), err)
 			}
-			f.Options = append(f.Options, &Option{Name: o.OptionName().GetText(), Value: v})
+			for _, v := range vv {
+				if !verifyFieldOption(v.Name, v.Value) {
+					x.Fatalf("%s - field option %q unsupported value %q", getTokenPos(o), v.Name, v.Value)
+				}
+			}
+			f.Options = append(f.Options, vv...)
 		}
 	}
 	return f
diff --git a/prutalgen/pkg/prutalgen/option.go b/prutalgen/pkg/prutalgen/option.go
index a486496..aa51509 100644
--- a/prutalgen/pkg/prutalgen/option.go
+++ b/prutalgen/pkg/prutalgen/option.go
@@ -60,50 +60,78 @@ func (oo Options) Is(name string, value string) bool {
 }
 
 func (x *protoLoader) ExitOptionStatement(c *parser.OptionStatementContext) {
-	v, err := unmarshalConst(c.Constant().GetText())
-	if err != nil {
-		x.Fatalf("%s - option syntax err: %s", getTokenPos(c), err)
-	}
-
 	// name may include extensions like (gogoproto.goproto_unrecognized_all)
 	// we ignore parsing it, coz it's only used by protoc.
 	// but we will keep it for optimization cases like `[(gogoproto.nullable) = false];`
-	o := &Option{Name: c.OptionName().GetText(), Value: v}
-
-	if !verifyOption(o.Name, o.Value) {
-		x.Fatalf("%s - option %q unsupported value %q", getTokenPos(c), o.Name, o.Value)
+	oo, err := newOptions(c.OptionName().GetText(), c.Constant())
+	if err != nil {
+		x.Fatalf("%s - option syntax err: %s", getTokenPos(c), err)
+	}
+	for _, o := range oo {
+		if !verifyOption(o.Name, o.Value) {
+			x.Fatalf("%s - option %q unsupported value %q", getTokenPos(c), o.Name, o.Value)
+		}
 	}
 
 	switch getRuleIndex(c.GetParent()) {
 	case parser.ProtobufParserRULE_proto:
 		p := x.currentProto()
-		p.Options = append(p.Options, o)
+		p.Options = append(p.Options, oo...)
 
 	case parser.ProtobufParserRULE_messageElement:
 		m := x.currentMsg()
-		m.Options = append(m.Options, o)
+		m.Options = append(m.Options, oo...)
 
 	case parser.ProtobufParserRULE_oneof:
 		of := x.currentOneof()
-		of.Options = append(of.Options, o)
+		of.Options = append(of.Options, oo...)
 
 	case parser.ProtobufParserRULE_enumElement:
-		x.enum.Options = append(x.enum.Options, o)
+		x.enum.Options = append(x.enum.Options, oo...)
 
 	case parser.ProtobufParserRULE_serviceElement:
 		s := x.currentService()
-		s.Options = append(s.Options, o)
+		s.Options = append(s.Options, oo...)
 
 	case parser.ProtobufParserRULE_rpc:
 		s := x.currentService()
 		rpc := last(s.Methods)
-		rpc.Options = append(rpc.Options, o)
+		rpc.Options = append(rpc.Options, oo...)
 
 	default:
 		return
 	}
 }
 
+// newOptions returns the options set by `name = c`.
+//
+// It's always one option except for `features = { ... }`, which sets more than one.
+func newOptions(name string, c parser.IConstantContext) (Options, error) {
+	if b := c.BlockLit(); b != nil && name == option_features {
+		oo := Options{}
+		for i, k := range b.AllIdent() {
+			v, err := newOptions(name+"."+k.GetText(), b.Constant(i))
+			if err != nil {
+				return nil, err
+			}
+			oo = append(oo, v...)
+		}
+		return oo, nil
+	}
+	v, err := unmarshalConst(c.GetText())
+	if err != nil {
+		return nil, err
+	}
+	return Options{{Name: name, Value: v}}, nil
+}
+
+func verifyFieldOption(name, v string) bool {
+	if name == f_field_presence && v == "LEGACY_REQUIRED" {
+		return true // only for fields
+	}
+	return verifyOption(name, v)
+}
+
 func verifyOption(name, v string) bool {
 	switch name {
 	case f_repeated_field_encoding:
-- 
2.43.0


From bc5b22515a55e692a5ea60380900e67b00820a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 23/29] fix: apply the M option to embedded well-known files

---
 prutalgen/pkg/prutalgen/prutalgen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prutalgen/pkg/prutalgen/prutalgen.go b/prutalgen/pkg/prutalgen/prutalgen.go
index 608cb6b..2d43c83 100644
--- a/prutalgen/pkg/prutalgen/prutalgen.go
+++ b/prutalgen/pkg/prutalgen/prutalgen.go
@@ -225,6 +225,7 @@ func (x *protoLoader) loadEmbeddedProto(file string) *Proto {
 
 		l: x.l,
 	}
+	p.setGoPackage(x.proto2gopkg[file])
 	push(&x.protostack, p)
 	defer pop(&x.protostack)
 	x.protos = append(x.protos, p)
-- 
2.43.0


From ba91498fbed270f91ff3e5431bd6a7e32cc119f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 24/29] fix: getters of unset enum fields return the first
 declared value

---
 prutalgen/pkg/prutalgen/field.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index 1c0e39c..ff71b4c 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -209,20 +209,17 @@ func (f *Field) GoZero() string {
 	if f.IsMap() || f.Repeated {
 		return "nil"
 	}
-	if f.IsEnum() { // search for the const var
+	if f.IsEnum() { // the default of an enum is its first value
 		tp := f.Type
 		e := tp.Enum()
-		for _, f := range e.Fields {
-			if f.Value != 0 {
-				continue
-			}
-			zero := f.GoName
-			if !tp.IsExternalType() {
-				return zero
-			}
-			return tp.GoImportAlias() + "." + zero
+		if len(e.Fields) == 0 {
+			return "0"
 		}
-		return "0"
+		zero := e.Fields[0].GoName
+		if !tp.IsExternalType() {
+			return zero
+		}
+		return tp.GoImportAlias() + "." + zero
 	}
 	ft := f.Type.GoName()
 	switch ft { // scalar types
-- 
2.43.0


From 6fbefea48da65022de688b2a1f89b92bd1b67407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 25/29] fix: refuse oneof wrappers without protobuf tag with an
 error

They made parse panic, and left half-built descriptors behind which
were used for types containing them.
---
 internal/desc/desc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 3555c0e..30b689e 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -381,6 +381,9 @@ func parseStruct(rt reflect.Type) (s *StructDesc, err error) {
 					return nil, fmt.Errorf("parse field %q oneof %q err: field number != 1", o.Name, rt.String())
 				}
 				field := rt.Field(0)
+				if field.Tag.Get("protobuf") == "" {
+					return nil, fmt.Errorf("parse field %q oneof %q err: not protobuf field", o.Name, rt.String())
+				}
 				f := &FieldDesc{Name: o.Name, Offset: o.Offset, Tag: field.Tag, OneofType: reflect.PointerTo(rt)}
 				f.IfaceTab = hack.IfaceTab(o.Type, rt)
 				if err = f.parse(field.Type); err != nil {
-- 
2.43.0


From 8b9a24e1426a1b788d58f27b0077b3a57d265464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 26/29] fix: refuse repeated fields and maps in oneofs

A oneof holds a single value: only the last element survived decoding.
---
 internal/desc/desc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 30b689e..9345725 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -389,6 +389,9 @@ func parseStruct(rt reflect.Type) (s *StructDesc, err error) {
 				if err = f.parse(field.Type); err != nil {
 					return nil, fmt.Errorf("parse field %q oneof %q err: %w", o.Name, rt.String(), err)
 				}
+				if f.Repeated {
+					return nil, fmt.Errorf("parse field %q oneof %q err: repeated field in oneof", o.Name, rt.String())
+				}
 				fields = append(fields, f)
 			}
 		}
-- 
2.43.0


From acb480c34eb7c17a95ba19728a9076888b0cd02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 27/29] fix: refuse files with characters no token starts with

The lexer kept its default error listener, which only prints to stderr:
an unterminated string or comment, a bad escape or a stray character was
skipped and the rest of the file accepted. A byte order mark at the
start of a file, so far skipped the same way, stays accepted.
---
 prutalgen/pkg/prutalgen/prutalgen.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/prutalgen.go b/prutalgen/pkg/prutalgen/prutalgen.go
index 2d43c83..0a1ad43 100644
--- a/prutalgen/pkg/prutalgen/prutalgen.go
+++ b/prutalgen/pkg/prutalgen/prutalgen.go
@@ -205,11 +205,12 @@ func (x *protoLoader) loadProto(file string) *Proto {
 	x.protos = append(x.protos, p)
 
 	x.Infof("parsing")
-	is, err := antlr.NewFileStream(p.ProtoFile)
+	data, err := os.ReadFile(p.ProtoFile)
 	if err != nil {
 		x.Fatalf("open file err: %s", err)
 	}
-	x.parseInput(is)
+	data = bytes.TrimPrefix(data, []byte("\uFEFF")) // byte order mark
+	x.parseInput(antlr.NewIoStream(bytes.NewReader(data)))
 	return p
 }
 
@@ -237,12 +238,14 @@ func (x *protoLoader) loadEmbeddedProto(file string) *Proto {
 func (x *protoLoader) parseInput(in antlr.CharStream) {
 	p := x.currentProto()
 
+	e := &errorListener{l: x.l}
 	lexer := parser.NewProtobufLexer(in)
+	lexer.RemoveErrorListeners()
+	lexer.AddErrorListener(e)
 	s := antlr.NewCommonTokenStream(lexer, antlr.TokenDefaultChannel)
 	push(&x.streams, newStreamContext(s))
 	defer pop(&x.streams)
 
-	e := &errorListener{l: x.l}
 	ps := parser.NewProtobufParser(s)
 	ps.RemoveErrorListeners()
 	ps.AddErrorListener(e)
-- 
2.43.0


From 1ecc41e93229e9642a5b836ea04af00d56f63b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 28/29] fix: unescape \X as \x

The grammar has both, as the language specification does, but options
with \X in a string were refused.
---
 prutalgen/internal/protobuf/text/decode_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prutalgen/internal/protobuf/text/decode_string.go b/prutalgen/internal/protobuf/text/decode_string.go
index af5d6ea..c2e4bb7 100644
--- a/prutalgen/internal/protobuf/text/decode_string.go
+++ b/prutalgen/internal/protobuf/text/decode_string.go
@@ -96,7 +96,7 @@ func (d *Decoder) parseString() (string, error) {
 					return "", d.newSyntaxError("invalid octal escape code %q in string", in[:1+n])
 				}
 				in, out = in[1+n:], append(out, byte(v))
-			case 'x':
+			case 'x', 'X':
 				// One or two hexadecimal characters.
 				n := len(in[2:]) - len(bytes.TrimLeft(in[2:], "0123456789abcdefABCDEF"))
 				if n > 2 {
-- 
2.43.0


From 66e67f59afd1b56af218adc128fdbe2bf633b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:19 +0000
Subject: [PATCH 29/29] fix: generate no comments with characters Go does not
 allow

A NUL or a byte order mark in a comment of a .proto file was copied to
the Go file, which then did not compile.
---
 prutalgen/pkg/prutalgen/comment.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/comment.go b/prutalgen/pkg/prutalgen/comment.go
index fb5fec7..f652300 100644
--- a/prutalgen/pkg/prutalgen/comment.go
+++ b/prutalgen/pkg/prutalgen/comment.go
@@ -55,6 +55,13 @@ func filterCommentOrWhitespace(tt []antlr.Token) (ret []antlr.Token, hasComment
 	return ret, true
 }
 
+// goIllegalChars removes the characters which Go source must not have, not even in comments.
+var goIllegalChars = strings.NewReplacer("\x00", "", "\uFEFF", "")
+
+func commentText(s string) string {
+	return strings.TrimSpace(goIllegalChars.Replace(s))
+}
+
 func (x *streamContext) consumeHeadComment(c antlr.ParserRuleContext) string {
 	tt, ok := filterCommentOrWhitespace(
 		x.s.GetHiddenTokensToLeft(c.GetStart().GetTokenIndex(), -1),
@@ -79,7 +86,7 @@ func (x *streamContext) consumeHeadComment(c antlr.ParserRuleContext) string {
 			}
 		}
 		x.commentConsumed[ti] = true
-		s = strings.TrimSpace(s)
+		s = commentText(s)
 		if s != "" {
 			ss = append(ss, s)
 		}
@@ -116,7 +123,7 @@ func (x *streamContext) consumeInlineComment(c antlr.ParserRuleContext) string {
 		}
 		// parser.ProtobufParserLINE_COMMENT or parser.ProtobufParserCOMMENT
 		x.commentConsumed[t.GetTokenIndex()] = true
-		return strings.TrimSpace(t.GetText())
+		return commentText(s)
 	}
 	return ""
 }
-- 
2.43.0

