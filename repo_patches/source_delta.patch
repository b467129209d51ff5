From 980460bf71c68ddd440b0eeff40bce6b465d9466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 01/21] fix: size map values with the value codec when encoding
 map entries

---
 proto/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/map.go b/proto/map.go
index 38e3b8b..6c6dd19 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -77,7 +77,7 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 			val := m.Value()
 
 			keySize := keyCodec.size(key, f.keyField)
-			valSize := keyCodec.size(val, f.valField)
+			valSize := valCodec.size(val, f.valField)
 			elemSize := keySize + valSize
 
 			b = append(b, mapTag...)
-- 
2.43.0


From 001b7c481dfaee11e6a3e32adbc54447590ed839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 02/21] fix: encode an empty map as no entries instead of one
 zero entry

---
 proto/map.go | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index 6c6dd19..e5ac138 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -9,8 +9,6 @@ import (
 	. "github.com/RomiChan/protobuf/internal/runtime_reflect"
 )
 
-const zeroSize = 1 // sizeOfVarint(0)
-
 type mapField struct {
 	wiretag  uint64
 	keyField *structField
@@ -48,16 +46,12 @@ func mapSizeFuncOf(t reflect.Type, f *mapField) sizeFunc {
 			valSize := valCodec.size(m.Value(), f.valField)
 			n += mapTagSize + sizeOfVarint(uint64(keySize+valSize)) + keySize + valSize
 		}
-		if n == 0 {
-			n = mapTagSize + zeroSize
-		}
 		return n
 	}
 }
 
 func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 	mapTag := appendVarint(nil, f.wiretag)
-	zero := append(mapTag, 0)
 	keyCodec := f.keyField.codec
 	valCodec := f.valField.codec
 
@@ -67,8 +61,6 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 		}
 		p = *(*unsafe.Pointer)(p)
 
-		origLen := len(b)
-
 		m := MapIter{}
 		defer m.Done()
 
@@ -86,9 +78,6 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 			b = valCodec.encode(b, val, f.valField)
 		}
 
-		if len(b) == origLen {
-			b = append(b, zero...)
-		}
 		return b
 	}
 }
-- 
2.43.0


From 93b4a1e35c68016a56ad7d2d8acfb95e7ef62f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 03/21] fix: decode zigzag map keys and values as zigzag

---
 proto/map.go    | 20 +++++++++++++-------
 proto/walker.go |  4 ++--
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index e5ac138..4329e1f 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -10,9 +10,11 @@ import (
 )
 
 type mapField struct {
-	wiretag  uint64
-	keyField *structField
-	valField *structField
+	wiretag   uint64
+	keyField  *structField
+	valField  *structField
+	keyZigzag bool
+	valZigzag bool
 }
 
 func (w *walker) mapCodec(t reflect.Type, f *mapField) *codec {
@@ -82,14 +84,18 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 	}
 }
 
-func formatWireTag(wire uint64) reflect.StructTag {
-	return reflect.StructTag(fmt.Sprintf(`protobuf:"%s,%d,opt"`, wireType(wire&7), wire>>3))
+func formatWireTag(wire uint64, zigzag bool) reflect.StructTag {
+	typ := wireType(wire & 7).String()
+	if zigzag {
+		typ = "zigzag64"
+	}
+	return reflect.StructTag(fmt.Sprintf(`protobuf:"%s,%d,opt"`, typ, wire>>3))
 }
 
 func mapDecodeFuncOf(t reflect.Type, m *mapField, w *walker) decodeFunc {
 	structType := reflect.StructOf([]reflect.StructField{
-		{Name: "Key", Type: t.Key(), Tag: formatWireTag(m.keyField.wiretag)},
-		{Name: "Elem", Type: t.Elem(), Tag: formatWireTag(m.valField.wiretag)},
+		{Name: "Key", Type: t.Key(), Tag: formatWireTag(m.keyField.wiretag, m.keyZigzag)},
+		{Name: "Elem", Type: t.Elem(), Tag: formatWireTag(m.valField.wiretag, m.valZigzag)},
 	})
 
 	info := w.structInfo(structType)
diff --git a/proto/walker.go b/proto/walker.go
index 32a4df9..53d95d0 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -240,13 +240,13 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				t, _ := parseStructTag(f.Tag.Get("protobuf_key"))
 				keyField := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				keyField.tagsize = sizeOfVarint(keyField.wiretag)
-				conf.zigzag = t.zigzag
+				conf.zigzag, m.keyZigzag = t.zigzag, t.zigzag
 				keyField.codec = w.codec(key, conf)
 
 				t, _ = parseStructTag(f.Tag.Get("protobuf_val"))
 				valFiled := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				valFiled.tagsize = sizeOfVarint(valFiled.wiretag)
-				conf.zigzag = t.zigzag
+				conf.zigzag, m.valZigzag = t.zigzag, t.zigzag
 				valFiled.codec = w.codec(val, conf)
 
 				m.keyField = keyField
-- 
2.43.0


From f3a3cb1e95be350f3b2be841e0f5e805f1b17714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 04/21] fix: choose the codec of a repeated field by its
 element encoding, not only its Go type

---
 proto/slice.go  | 7 +------
 proto/walker.go | 2 +-
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/proto/slice.go b/proto/slice.go
index a3bc710..6b29459 100644
--- a/proto/slice.go
+++ b/proto/slice.go
@@ -10,16 +10,11 @@ import (
 
 var sliceMap sync.Map // map[*codec]*codec for slice
 
-func sliceCodecOf(t reflect.Type, c *codec, w *walker) *codec {
+func sliceCodecOf(t reflect.Type, c *codec) *codec {
 	if loaded, ok := sliceMap.Load(c); ok {
 		return loaded.(*codec)
 	}
-	if w.codecs[t] != nil {
-		return w.codecs[t]
-	}
 	s := new(codec)
-	w.codecs[t] = s
-
 	s.size = sliceSizeFuncOf(t, c)
 	s.encode = sliceEncodeFuncOf(t, c)
 	s.decode = sliceDecodeFuncOf(t, c)
diff --git a/proto/walker.go b/proto/walker.go
index 53d95d0..8d03df8 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -229,7 +229,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				} else {
 					conf.required = true
 					field.codec = w.codec(elem, conf)
-					field.codec = sliceCodecOf(f.Type, field.codec, w)
+					field.codec = sliceCodecOf(f.Type, field.codec)
 				}
 
 			case reflect.Map:
-- 
2.43.0


From a197e1d208d8a92fa1859bc2e7cda7e3e9450f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 05/21] fix: decode a bool from the whole varint, not only its
 first byte

---
 proto/normal_codec.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/proto/normal_codec.go b/proto/normal_codec.go
index 8fd393b..5033c68 100644
--- a/proto/normal_codec.go
+++ b/proto/normal_codec.go
@@ -1,7 +1,6 @@
 package proto
 
 import (
-	"io"
 	"math"
 	"unsafe"
 )
@@ -32,11 +31,9 @@ func encodeBool(b []byte, p unsafe.Pointer, f *structField) []byte {
 }
 
 func decodeBool(b []byte, p unsafe.Pointer) (int, error) {
-	if len(b) == 0 {
-		return 0, io.ErrUnexpectedEOF
-	}
-	*(*bool)(p) = b[0] != 0
-	return 1, nil
+	v, n, err := decodeVarint(b)
+	*(*bool)(p) = v != 0
+	return n, err
 }
 
 var bytesCodec = codec{
-- 
2.43.0


From b88f59f4226b4201ca7816e975eb4c0af52e45fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 06/21] fix: truncate an oversized sint32 varint to 32 bits
 before undoing zigzag

---
 proto/normal_codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/normal_codec.go b/proto/normal_codec.go
index 5033c68..ed0d536 100644
--- a/proto/normal_codec.go
+++ b/proto/normal_codec.go
@@ -347,7 +347,7 @@ func encodeZigzag32(b []byte, p unsafe.Pointer, f *structField) []byte {
 
 func decodeZigzag32(b []byte, p unsafe.Pointer) (int, error) {
 	u, n, err := decodeVarint(b)
-	*(*int32)(p) = int32(decodeZigZag64(u))
+	*(*int32)(p) = int32(decodeZigZag64(uint64(uint32(u))))
 	return n, err
 }
 
-- 
2.43.0


From 330fe8237f7f058ee258131a56ef659fda3a434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 07/21] fix: return an error instead of panicking on a nil
 interface argument

---
 proto/proto.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index b687f50..9103c8d 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -24,7 +24,7 @@ func Size(v interface{}) int {
 
 func Marshal(v interface{}) ([]byte, error) {
 	t, p := inspect(v)
-	if t.Kind() != reflect.Ptr {
+	if t == nil || t.Kind() != reflect.Ptr {
 		return nil, fmt.Errorf("proto.Marshal(%T): not a pointer", v)
 	}
 	t = t.Elem()
@@ -41,7 +41,7 @@ func Unmarshal(b []byte, v interface{}) error {
 	}
 
 	t, p := inspect(v)
-	if t.Kind() != reflect.Pointer || p == nil {
+	if t == nil || t.Kind() != reflect.Pointer || p == nil {
 		return &InvalidUnmarshalError{Type: t}
 	}
 	elem := t.Elem()
-- 
2.43.0


From 51eccac5233ab14f7fe82261a7f9d8f820f4704d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 08/21] fix: accept the req label which protoc-gen-golite emits
 for proto2 required fields

---
 proto/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/struct.go b/proto/struct.go
index 9b9ce5b..959a0d9 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -192,7 +192,7 @@ func parseStructTag(tag string) (structTag, error) {
 
 		case 2:
 			switch f {
-			case "opt":
+			case "opt", "req":
 				// not sure what this is for
 			case "rep":
 				t.repeated = true
-- 
2.43.0


From 29c53c85a71d926e5a67c996e0950d2dc9bedbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 09/21] fix: use the fixed-width codecs for every field tagged
 fixed32 or fixed64

---
 proto/walker.go | 54 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/proto/walker.go b/proto/walker.go
index 8d03df8..a50a35d 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -22,6 +22,7 @@ type walker struct {
 }
 
 type walkerConfig struct {
+	wireType wireType
 	zigzag   bool
 	required bool
 }
@@ -37,18 +38,30 @@ func (w *walker) codec(t reflect.Type, conf *walkerConfig) *codec {
 	case reflect.Bool:
 		return &boolCodec
 	case reflect.Int32:
-		if conf.zigzag {
+		switch {
+		case conf.zigzag:
 			return &zigzag32Codec
+		case conf.wireType == fixed32:
+			return &fixed32Codec
 		}
 		return &int32Codec
 	case reflect.Int64:
-		if conf.zigzag {
+		switch {
+		case conf.zigzag:
 			return &zigzag64Codec
+		case conf.wireType == fixed64:
+			return &fixed64Codec
 		}
 		return &int64Codec
 	case reflect.Uint32:
+		if conf.wireType == fixed32 {
+			return &fixed32Codec
+		}
 		return &uint32Codec
 	case reflect.Uint64:
+		if conf.wireType == fixed64 {
+			return &fixed64Codec
+		}
 		return &uint64Codec
 	case reflect.Float32:
 		return &float32Codec
@@ -168,28 +181,16 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			switch f.Type {
 			case optionFloat32Type:
 				field.codec = &float32OptionCodec
-			case optionUInt32Type:
+			case optionInt32Type, optionUInt32Type:
 				field.codec = &fixed32OptionCodec
 			}
-			switch baseKindOf(f.Type) {
-			case reflect.Uint32:
-				field.codec = &fixed32Codec
-			case reflect.Float32:
-				field.codec = &float32Codec
-			}
 		case fixed64:
 			switch f.Type {
-			case optionUInt64Type:
+			case optionInt64Type, optionUInt64Type:
 				field.codec = &fixed64OptionCodec
 			case optionFloat64Type:
 				field.codec = &float64OptionCodec
 			}
-			switch baseKindOf(f.Type) {
-			case reflect.Uint64:
-				field.codec = &fixed64Codec
-			case reflect.Float64:
-				field.codec = &float64Codec
-			}
 		}
 		if field.codec == nil {
 			switch f.Type {
@@ -215,7 +216,8 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 		}
 		if field.codec == nil {
 			conf := &walkerConfig{
-				zigzag: t.zigzag,
+				wireType: t.wireType,
+				zigzag:   t.zigzag,
 				// required: t.required,
 			}
 			switch baseKindOf(f.Type) {
@@ -240,12 +242,14 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				t, _ := parseStructTag(f.Tag.Get("protobuf_key"))
 				keyField := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				keyField.tagsize = sizeOfVarint(keyField.wiretag)
+				conf.wireType = t.wireType
 				conf.zigzag, m.keyZigzag = t.zigzag, t.zigzag
 				keyField.codec = w.codec(key, conf)
 
 				t, _ = parseStructTag(f.Tag.Get("protobuf_val"))
 				valFiled := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				valFiled.tagsize = sizeOfVarint(valFiled.wiretag)
+				conf.wireType = t.wireType
 				conf.zigzag, m.valZigzag = t.zigzag, t.zigzag
 				valFiled.codec = w.codec(val, conf)
 
@@ -305,18 +309,30 @@ func (w *walker) required(t reflect.Type, conf *walkerConfig) *codec {
 	case reflect.Bool:
 		return &boolRequiredCodec
 	case reflect.Int32:
-		if conf.zigzag {
+		switch {
+		case conf.zigzag:
 			return &zigzag32RequiredCodec
+		case conf.wireType == fixed32:
+			return &fixed32RequiredCodec
 		}
 		return &int32RequiredCodec
 	case reflect.Int64:
-		if conf.zigzag {
+		switch {
+		case conf.zigzag:
 			return &zigzag64RequiredCodec
+		case conf.wireType == fixed64:
+			return &fixed64RequiredCodec
 		}
 		return &int64RequiredCodec
 	case reflect.Uint32:
+		if conf.wireType == fixed32 {
+			return &fixed32RequiredCodec
+		}
 		return &uint32RequiredCodec
 	case reflect.Uint64:
+		if conf.wireType == fixed64 {
+			return &fixed64RequiredCodec
+		}
 		return &uint64RequiredCodec
 	case reflect.Float32:
 		return &float32RequiredCodec
-- 
2.43.0


From 308cb1e9c0bc648298f482464aa5ae59c354c8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 10/21] fix: keep presence and encoding of scalar fields held
 by pointer

---
 proto/walker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proto/walker.go b/proto/walker.go
index a50a35d..4dc3cda 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -290,10 +290,10 @@ func (w *walker) pointer(t reflect.Type, conf *walkerConfig) *codec {
 	case reflect.Struct:
 		return w.structCodec(t)
 	}
-	// common value
+	// common value, a non-nil pointer is encoded even if it points to zero.
+	// Not cached by type: the codec depends on conf as well.
 	p := new(codec)
-	w.codecs[t] = p
-	c := w.codec(t.Elem(), conf)
+	c := w.required(t.Elem(), conf)
 	p.size = pointerSizeFuncOf(t, c)
 	p.encode = pointerEncodeFuncOf(t, c)
 	p.decode = pointerDecodeFuncOf(t, c)
-- 
2.43.0


From c90c70575b451d47d829d9361c4b21f57c935996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 11/21] fix: encode nil elements of a repeated field as empty
 instead of dropping them

---
 proto/gen/required/main.go |  2 +-
 proto/required_codec.go    | 14 ++++++++++++++
 proto/slice.go             | 15 +++++++++++++++
 proto/walker.go            |  2 +-
 4 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/proto/gen/required/main.go b/proto/gen/required/main.go
index 802ccdb..48054a9 100644
--- a/proto/gen/required/main.go
+++ b/proto/gen/required/main.go
@@ -20,7 +20,7 @@ func setOf(ss ...string) map[string]bool {
 }
 
 var needTransform = setOf(
-	"bool", "string",
+	"bool", "string", "bytes",
 	"float32", "float64",
 	"int32", "int64", "uint32", "uint64",
 	"fixed32", "fixed64", "zigzag32", "zigzag64",
diff --git a/proto/required_codec.go b/proto/required_codec.go
index 3a6279d..d2fe03f 100644
--- a/proto/required_codec.go
+++ b/proto/required_codec.go
@@ -22,6 +22,20 @@ func encodeBoolRequired(b []byte, p unsafe.Pointer, f *structField) []byte {
 	return b
 }
 
+var bytesRequiredCodec = codec{size: sizeOfBytesRequired, encode: encodeBytesRequired, decode: decodeBytes}
+
+func sizeOfBytesRequired(p unsafe.Pointer, f *structField) int {
+	v := *(*[]byte)(p)
+	return sizeOfVarlen(len(v)) + f.tagsize
+}
+func encodeBytesRequired(b []byte, p unsafe.Pointer, f *structField) []byte {
+	v := *(*[]byte)(p)
+	b = appendVarint(b, f.wiretag)
+	b = appendVarint(b, uint64(len(v)))
+	b = append(b, v...)
+	return b
+}
+
 var stringRequiredCodec = codec{size: sizeOfStringRequired, encode: encodeStringRequired, decode: decodeString}
 
 func sizeOfStringRequired(p unsafe.Pointer, f *structField) int {
diff --git a/proto/slice.go b/proto/slice.go
index 6b29459..6cde312 100644
--- a/proto/slice.go
+++ b/proto/slice.go
@@ -25,11 +25,16 @@ func sliceCodecOf(t reflect.Type, c *codec) *codec {
 
 func sliceSizeFuncOf(t reflect.Type, c *codec) sizeFunc {
 	elemSize := alignedSize(t.Elem())
+	isMessage := isMessagePointer(t.Elem())
 	return func(p unsafe.Pointer, sf *structField) int {
 		n := 0
 		if v := (*Slice)(p); v != nil {
 			for i := 0; i < v.Len(); i++ {
 				elem := v.Index(i, elemSize)
+				if isMessage && deref(elem) == nil {
+					n += sf.tagsize + sizeOfVarlen(0)
+					continue
+				}
 				n += c.size(elem, sf)
 			}
 		}
@@ -39,10 +44,16 @@ func sliceSizeFuncOf(t reflect.Type, c *codec) sizeFunc {
 
 func sliceEncodeFuncOf(t reflect.Type, c *codec) encodeFunc {
 	elemSize := alignedSize(t.Elem())
+	isMessage := isMessagePointer(t.Elem())
 	return func(b []byte, p unsafe.Pointer, sf *structField) []byte {
 		if s := (*Slice)(p); s != nil {
 			for i := 0; i < s.Len(); i++ {
 				elem := s.Index(i, elemSize)
+				if isMessage && deref(elem) == nil { // an element cannot be absent
+					b = appendVarint(b, sf.wiretag)
+					b = appendVarint(b, 0)
+					continue
+				}
 				b = c.encode(b, elem, sf)
 			}
 		}
@@ -69,6 +80,10 @@ func sliceDecodeFuncOf(t reflect.Type, c *codec) decodeFunc {
 	}
 }
 
+func isMessagePointer(t reflect.Type) bool {
+	return t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Struct
+}
+
 func alignedSize(t reflect.Type) uintptr {
 	a := t.Align()
 	s := t.Size()
diff --git a/proto/walker.go b/proto/walker.go
index 4dc3cda..face4d1 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -344,7 +344,7 @@ func (w *walker) required(t reflect.Type, conf *walkerConfig) *codec {
 		elem := t.Elem()
 		switch elem.Kind() {
 		case reflect.Uint8:
-			return &bytesCodec
+			return &bytesRequiredCodec
 		}
 	case reflect.Struct:
 		panic("nested message must be pointer:" + t.String())
-- 
2.43.0


From a17934109a05a72b1c4babd69b8d6aef50286c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:04 +0000
Subject: [PATCH 12/21] fix: do not merge a new repeated element into the old
 one in the spare capacity

---
 proto/slice.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/proto/slice.go b/proto/slice.go
index 6cde312..8df81de 100644
--- a/proto/slice.go
+++ b/proto/slice.go
@@ -64,6 +64,8 @@ func sliceEncodeFuncOf(t reflect.Type, c *codec) encodeFunc {
 func sliceDecodeFuncOf(t reflect.Type, c *codec) decodeFunc {
 	elemType := t.Elem()
 	elemSize := alignedSize(elemType)
+	etype := pointer(elemType)
+	zero := unsafe.Pointer(reflect.New(elemType).Pointer())
 	return func(b []byte, p unsafe.Pointer) (int, error) {
 		s := (*Slice)(p)
 		i := s.Len()
@@ -72,7 +74,12 @@ func sliceDecodeFuncOf(t reflect.Type, c *codec) decodeFunc {
 			*s = growSlice(elemType, s)
 		}
 
-		n, err := c.decode(b, s.Index(i, elemSize))
+		// The spare capacity may hold an old element, decoding must not merge
+		// into it.
+		elem := s.Index(i, elemSize)
+		Assign(etype, elem, zero)
+
+		n, err := c.decode(b, elem)
 		if err == nil {
 			s.SetLen(i + 1)
 		}
-- 
2.43.0


From c7bd64d1864ab504622170b73c82659168d00a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 13/21] fix: publish the codecs of recursive types only when
 they are complete

---
 proto/proto.go  |  4 ++--
 proto/walker.go | 18 +++++++++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 9103c8d..0c87baf 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -120,6 +120,6 @@ func cachedStructInfoOf(t reflect.Type) *structInfo {
 	}
 
 	info := w.structInfo(t)
-	actual, _ := structInfoCache.LoadOrStore(pointer(t), info)
-	return actual
+	w.publish()
+	return info
 }
diff --git a/proto/walker.go b/proto/walker.go
index face4d1..8975c70 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -129,8 +129,7 @@ func (w *walker) structCodec(t reflect.Type) *codec {
 		l, err := info.decode(b[n:], *v)
 		return n + l, err
 	}
-	actualCodec, _ := codecCache.LoadOrStore(pointer(t), c)
-	return actualCodec.(*codec)
+	return c
 }
 
 func baseKindOf(t reflect.Type) reflect.Kind {
@@ -275,10 +274,23 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 		info.fieldIndex[f.fieldNumber()] = f
 	}
 
-	structInfoCache.Store(pointer(t), info)
 	return info
 }
 
+// publish makes the results of a finished walk visible to other walkers. It
+// must not happen earlier: with recursive types, what is known about a type
+// can refer to types which are still being walked.
+func (w *walker) publish() {
+	for t, c := range w.codecs {
+		if isMessagePointer(t) {
+			codecCache.LoadOrStore(pointer(t), c)
+		}
+	}
+	for t, info := range w.infos {
+		structInfoCache.LoadOrStore(pointer(t), info)
+	}
+}
+
 // @@@ Pointers @@@
 
 func deref(p unsafe.Pointer) unsafe.Pointer {
-- 
2.43.0


From 3c9ad421e5994c989d1c1c4f2f489c737d9085fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 14/21] fix: accept the packed encoding of repeated scalar
 fields

---
 proto/struct.go | 21 +++++++++++++++++++--
 proto/walker.go |  1 +
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/proto/struct.go b/proto/struct.go
index 959a0d9..4b2e82b 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -18,6 +18,7 @@ type structField struct {
 	wiretag uint64
 	codec   *codec
 	tagsize int
+	packed  bool // repeated scalar, which can be packed in the input
 }
 
 func (f *structField) fieldNumber() fieldNumber {
@@ -53,6 +54,17 @@ func (info *structInfo) encode(b []byte, p unsafe.Pointer) []byte {
 	return b
 }
 
+// decodePacked decodes all the elements of a packed repeated field.
+func (f *structField) decodePacked(b []byte, p unsafe.Pointer) (int, error) {
+	v, n, err := decodeVarlen(b)
+	for err == nil && len(v) > 0 {
+		var l int
+		l, err = f.codec.decode(v, p)
+		v = v[l:]
+	}
+	return n, err
+}
+
 func (info *structInfo) decode(b []byte, p unsafe.Pointer) (int, error) {
 	offset := 0
 	for offset < len(b) {
@@ -96,7 +108,8 @@ func (info *structInfo) decode(b []byte, p unsafe.Pointer) (int, error) {
 			continue
 		}
 
-		if wireType != f.wireType() {
+		packed := f.packed && wireType == varlen
+		if wireType != f.wireType() && !packed {
 			return offset, fieldError(fieldNumber, wireType, fmt.Errorf("expected wire type %d", f.wireType()))
 		}
 
@@ -138,7 +151,11 @@ func (info *structInfo) decode(b []byte, p unsafe.Pointer) (int, error) {
 			return offset, fieldError(fieldNumber, wireType, ErrWireTypeUnknown)
 		}
 
-		n, err = f.codec.decode(data, f.pointer(p))
+		if packed {
+			n, err = f.decodePacked(data, f.pointer(p))
+		} else {
+			n, err = f.codec.decode(data, f.pointer(p))
+		}
 		offset += n
 		if err != nil {
 			return offset, fieldError(fieldNumber, wireType, err)
diff --git a/proto/walker.go b/proto/walker.go
index 8975c70..643dc7e 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -231,6 +231,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 					conf.required = true
 					field.codec = w.codec(elem, conf)
 					field.codec = sliceCodecOf(f.Type, field.codec)
+					field.packed = t.wireType != varlen
 				}
 
 			case reflect.Map:
-- 
2.43.0


From 3839801240e0edd782ada74c5f17ac08c80cdbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 15/21] fix: getter of an enum in an imported package named x

---
 internal/generator/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/generator/main.go b/internal/generator/main.go
index 837f42b..51eaf11 100644
--- a/internal/generator/main.go
+++ b/internal/generator/main.go
@@ -449,7 +449,11 @@ func fieldDefaultValue(g *protogen.GeneratedFile, f *fileInfo, m *messageInfo, f
 			// If the enum value is declared in a different Go package,
 			// reference it by number since the name may not be correct.
 			// See https://github.com/golang/protobuf/issues/513.
-			return g.QualifiedGoIdent(field.Enum.GoIdent) + "(" + strconv.FormatInt(int64(val.Desc.Number()), 10) + ")"
+			//
+			// Do not mention its package either: the getter has a receiver
+			// named x, which hides a package of that name. No conversion is
+			// needed, as enum types are aliases of int32.
+			return strconv.FormatInt(int64(val.Desc.Number()), 10)
 		}
 	default:
 		return "0"
-- 
2.43.0


From 4cf5bbb9af5d7d22d21f5e9020ed1830de15bddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 16/21] fix: annotate only the getters which are generated

---
 internal/generator/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/main.go b/internal/generator/main.go
index 51eaf11..38c83f2 100644
--- a/internal/generator/main.go
+++ b/internal/generator/main.go
@@ -319,11 +319,11 @@ func genMessageGetterMethods(g *protogen.GeneratedFile, f *fileInfo, m *messageI
 		// Getter for message field.
 		goType, _, _ := fieldGoType(g, f, field)
 		defaultValue := fieldDefaultValue(g, f, m, field)
-		g.Annotate(m.GoIdent.GoName+".Get"+field.GoName, field.Location)
 		leadingComments := appendDeprecationSuffix("",
 			field.Desc.Options().(*descriptorpb.FieldOptions).GetDeprecated())
 		switch {
 		case field.Oneof != nil && !field.Oneof.Desc.IsSynthetic():
+			g.Annotate(m.GoIdent.GoName+".Get"+field.GoName, field.Location)
 			g.P(leadingComments, "func (x *", m.GoIdent, ") Get", field.GoName, "() ", goType, " {")
 			g.P("if x, ok := x.Get", field.Oneof.GoName, "().(*", field.GoIdent, "); ok {")
 			g.P("return x.", field.GoName)
-- 
2.43.0


From 011bbc636440e506bf0526af9c27d94e2de75f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 17/21] fix: refuse []map[K]V even after a field of type
 map[K]V

The codec of a map field was looked up by type for the elements of
repeated fields as well, which were then written as entries of the other
field instead of being refused as unsupported.
---
 proto/map.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index 4329e1f..f1b787f 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -19,8 +19,6 @@ type mapField struct {
 
 func (w *walker) mapCodec(t reflect.Type, f *mapField) *codec {
 	m := new(codec)
-	w.codecs[t] = m
-
 	m.size = mapSizeFuncOf(t, f)
 	m.encode = mapEncodeFuncOf(t, f)
 	m.decode = mapDecodeFuncOf(t, f, w)
-- 
2.43.0


From d7dd2e3e2a1449c96f9fa1c278ba655e39fd5e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 18/21] fix: refuse a map whose key or value tag cannot be
 parsed

---
 proto/walker.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/proto/walker.go b/proto/walker.go
index 643dc7e..d5e7db0 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -239,14 +239,20 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				key, val := f.Type.Key(), f.Type.Elem()
 				m := &mapField{wiretag: field.wiretag}
 
-				t, _ := parseStructTag(f.Tag.Get("protobuf_key"))
+				t, err := parseStructTag(f.Tag.Get("protobuf_key"))
+				if err != nil {
+					panic(err)
+				}
 				keyField := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				keyField.tagsize = sizeOfVarint(keyField.wiretag)
 				conf.wireType = t.wireType
 				conf.zigzag, m.keyZigzag = t.zigzag, t.zigzag
 				keyField.codec = w.codec(key, conf)
 
-				t, _ = parseStructTag(f.Tag.Get("protobuf_val"))
+				t, err = parseStructTag(f.Tag.Get("protobuf_val"))
+				if err != nil {
+					panic(err)
+				}
 				valFiled := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				valFiled.tagsize = sizeOfVarint(valFiled.wiretag)
 				conf.wireType = t.wireType
-- 
2.43.0


From e62dba0f13a36f0c9a337d71ae766a1daee85053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 19/21] fix: refuse a field number out of range in a struct tag

---
 proto/struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proto/struct.go b/proto/struct.go
index 4b2e82b..de8d4d4 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -236,6 +236,9 @@ func parseStructTag(tag string) (structTag, error) {
 		}
 	}
 
+	if t.fieldNumber < 1 || t.fieldNumber > 1<<29-1 {
+		return t, fmt.Errorf("field number out of range in struct tag %q", tag)
+	}
 	return t, nil
 }
 
-- 
2.43.0


From bbaf36a630b481ae3c0ef86330de049e754caf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:30 +0000
Subject: [PATCH 20/21] fix: do not cut off field numbers on 32-bit platforms

---
 proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/proto.go b/proto/proto.go
index 0c87baf..bce43d9 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -73,7 +73,7 @@ func pointer(v interface{}) unsafe.Pointer {
 	return (*iface)(unsafe.Pointer(&v)).ptr
 }
 
-type fieldNumber uint
+type fieldNumber uint64
 
 type wireType uint
 
-- 
2.43.0


From 9c48e3e1a7c416ae237a8dd0139e9cdcb0e4d47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:57 +0000
Subject: [PATCH 21/21] fix: generate publicly imported files once per import,
 not once per way to them

---
 internal/generator/main.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/generator/main.go b/internal/generator/main.go
index 38c83f2..8304a31 100644
--- a/internal/generator/main.go
+++ b/internal/generator/main.go
@@ -51,6 +51,12 @@ var protoPackage = protogen.GoImportPath("github.com/RomiChan/protobuf/proto")
 
 // GenerateFile generates the contents of a .pb.go file.
 func GenerateFile(gen *protogen.Plugin, file *protogen.File) *protogen.GeneratedFile {
+	return generateFile(gen, file, true)
+}
+
+// generateFile generates the contents of a .pb.go file, with or without what
+// it needs of its imports and forwards from them.
+func generateFile(gen *protogen.Plugin, file *protogen.File, imports bool) *protogen.GeneratedFile {
 	filename := file.GeneratedFilenamePrefix + ".pb.go"
 	g := gen.NewGeneratedFile(filename, file.GoImportPath)
 	f := newFileInfo(file)
@@ -61,7 +67,7 @@ func GenerateFile(gen *protogen.Plugin, file *protogen.File) *protogen.Generated
 	g.P(packageDoc, "package ", f.GoPackageName)
 	g.P()
 
-	for i, imps := 0, f.Desc.Imports(); i < imps.Len(); i++ {
+	for i, imps := 0, f.Desc.Imports(); imports && i < imps.Len(); i++ {
 		genImport(gen, g, f, imps.Get(i))
 	}
 	for _, enum := range f.allEnums {
@@ -106,7 +112,9 @@ func genImport(gen *protogen.Plugin, g *protogen.GeneratedFile, f *fileInfo, imp
 
 	// Generate public imports by generating the imported file, parsing it,
 	// and extracting every symbol that should receive a forwarding declaration.
-	impGen := GenerateFile(gen, impFile)
+	// Its own public imports are not forwarded. Do not generate these as well:
+	// there may be exponentially many ways from a file to the ones it imports.
+	impGen := generateFile(gen, impFile, false)
 	impGen.Skip()
 	b, err := impGen.Content()
 	if err != nil {
-- 
2.43.0

