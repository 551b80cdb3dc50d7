From a21cbbfdd9228ab52d20fae6c53dc9ce356548e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 01/58] fix: return every panic as an error from the entry
 points

---
 expr/eval.go | 22 ++++++++++++++++------
 packing.go   | 20 +++++++++++++-------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/expr/eval.go b/expr/eval.go
index 182f164..00fab77 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -8,11 +8,7 @@ import (
 func EvalProgram(resolver Resolver, program *Program) (v interface{}, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			if rerr, ok := r.(error); ok {
-				err = rerr
-			} else {
-				panic(r)
-			}
+			v, err = nil, errorFromPanic(r)
 		}
 	}()
 
@@ -20,8 +16,22 @@ func EvalProgram(resolver Resolver, program *Program) (v interface{}, err error)
 	return
 }
 
+// errorFromPanic converts a recovered panic value of any type to an error.
+func errorFromPanic(r interface{}) error {
+	if err, ok := r.(error); ok {
+		return err
+	}
+	return fmt.Errorf("%v", r)
+}
+
 // Eval returns the result of evaluating the provided expression.
-func Eval(resolver Resolver, expr string) (interface{}, error) {
+func Eval(resolver Resolver, expr string) (v interface{}, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			v, err = nil, errorFromPanic(r)
+		}
+	}()
+
 	return EvalProgram(resolver, ParseString(expr))
 }
 
diff --git a/packing.go b/packing.go
index a54025d..dcc5dc6 100644
--- a/packing.go
+++ b/packing.go
@@ -22,9 +22,18 @@ package restruct
 
 import (
 	"encoding/binary"
+	"fmt"
 	"reflect"
 )
 
+// errorFromPanic converts a recovered panic value of any type to an error.
+func errorFromPanic(r interface{}) error {
+	if err, ok := r.(error); ok {
+		return err
+	}
+	return fmt.Errorf("%v", r)
+}
+
 func fieldFromIntf(v interface{}) (field, reflect.Value) {
 	val := reflect.ValueOf(v)
 	if val.Kind() == reflect.Ptr {
@@ -87,10 +96,7 @@ Flags are comma-separated keys. The following are available:
 func Unpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			var ok bool
-			if err, ok = r.(error); !ok {
-				panic(err)
-			}
+			err = errorFromPanic(r)
 		}
 	}()
 
@@ -108,7 +114,7 @@ SizeOf returns the binary encoded size of the given value, in bytes.
 func SizeOf(v interface{}) (size int, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			err = r.(error)
+			err = errorFromPanic(r)
 		}
 	}()
 
@@ -123,7 +129,7 @@ BitSize returns the binary encoded size of the given value, in bits.
 func BitSize(v interface{}) (size int, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			err = r.(error)
+			err = errorFromPanic(r)
 		}
 	}()
 
@@ -145,7 +151,7 @@ func Pack(order binary.ByteOrder, v interface{}) (data []byte, err error) {
 	defer func() {
 		if r := recover(); r != nil {
 			data = nil
-			err = r.(error)
+			err = errorFromPanic(r)
 		}
 	}()
 
-- 
2.43.0


From 46df85b8f1387e37d72647d5171a2f22eafeafcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 02/58] fix: wrap the bit cursor when a skip ends on a byte
 boundary

---
 decoder.go | 2 +-
 encoder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 64e942c..18720de 100644
--- a/decoder.go
+++ b/decoder.go
@@ -152,7 +152,7 @@ func (d *decoder) readBytes(count int) []byte {
 
 func (d *decoder) skipBits(count int) {
 	d.bitCounter += uint8(count % 8)
-	if d.bitCounter > 8 {
+	if d.bitCounter >= 8 {
 		d.bitCounter -= 8
 		count += 8
 	}
diff --git a/encoder.go b/encoder.go
index b783ffc..c47e4aa 100644
--- a/encoder.go
+++ b/encoder.go
@@ -111,7 +111,7 @@ func (e *encoder) writeS64(f field, x int64) { e.write64(f, uint64(x)) }
 
 func (e *encoder) skipBits(count int) {
 	e.bitCounter += count % 8
-	if e.bitCounter > 8 {
+	if e.bitCounter >= 8 {
 		e.bitCounter -= 8
 		count += 8
 	}
-- 
2.43.0


From 91a89f521d0fa80230954b5024b0725441fadc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 03/58] fix: sign-extend 16 and 32 bit wide bit fields from
 their sign bit

---
 decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 18720de..293e749 100644
--- a/decoder.go
+++ b/decoder.go
@@ -84,14 +84,14 @@ func (d *decoder) extend8(val uint8, signed bool) uint8 {
 }
 
 func (d *decoder) extend16(val uint16, signed bool) uint16 {
-	if signed && d.bitSize != 0 && val&1<<uint(d.bitSize-1) != 0 {
+	if signed && d.bitSize != 0 && val&(1<<uint(d.bitSize-1)) != 0 {
 		val |= ^((1 << uint(d.bitSize)) - 1)
 	}
 	return val
 }
 
 func (d *decoder) extend32(val uint32, signed bool) uint32 {
-	if signed && d.bitSize != 0 && val&1<<uint(d.bitSize-1) != 0 {
+	if signed && d.bitSize != 0 && val&(1<<uint(d.bitSize-1)) != 0 {
 		val |= ^((1 << uint(d.bitSize)) - 1)
 	}
 	return val
-- 
2.43.0


From ab87c7d6241ecc2d1a149759e2ebb52a2e9ec06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 04/58] fix: keep all bits of little endian bit fields wider
 than a byte

---
 decoder.go | 17 ++++++++++++++++-
 encoder.go |  6 +++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 293e749..f2c39a1 100644
--- a/decoder.go
+++ b/decoder.go
@@ -25,6 +25,17 @@ type decoder struct {
 	bitSize    int
 }
 
+// littleEndianBit narrows a bit position of a little endian value down to the
+// byte that contains it. Whole bytes come first, least significant byte first;
+// the last byte holds the remaining high bits.
+func littleEndianBit(buf []byte, bitSize int, bit int) ([]byte, int, int) {
+	i := bit / 8
+	if bitSize -= i * 8; bitSize > 8 {
+		bitSize = 8
+	}
+	return buf[i : i+1], bitSize, bit % 8
+}
+
 func putBit(buf []byte, bitSize int, bit int, val byte) {
 	bit = bitSize - 1 - bit
 	buf[len(buf)-bit/8-1] |= (val) << (uint(bit) % 8)
@@ -71,7 +82,11 @@ func (d *decoder) readBits(f field, outBuf []byte) {
 		// understood; the previous optimized version was simply too hard to
 		// reason about.
 		for i := 0; i < decodedBits; i++ {
-			putBit(outBuf, decodedBits, i, d.readBit())
+			buf, bitSize, bit := outBuf, decodedBits, i
+			if d.order == binary.LittleEndian {
+				buf, bitSize, bit = littleEndianBit(outBuf, decodedBits, i)
+			}
+			putBit(buf, bitSize, bit, d.readBit())
 		}
 	}
 }
diff --git a/encoder.go b/encoder.go
index c47e4aa..2dede40 100644
--- a/encoder.go
+++ b/encoder.go
@@ -72,7 +72,11 @@ func (e *encoder) writeBits(f field, inBuf []byte) {
 		// understood; the previous optimized version was simply too hard to
 		// reason about.
 		for i := 0; i < encodedBits; i++ {
-			e.writeBit(getBit(inBuf, encodedBits, i))
+			buf, bitSize, bit := inBuf, encodedBits, i
+			if e.order == binary.LittleEndian {
+				buf, bitSize, bit = littleEndianBit(inBuf, encodedBits, i)
+			}
+			e.writeBit(getBit(buf, bitSize, bit))
 		}
 	}
 }
-- 
2.43.0


From 57fb78dce762c864b72705ec1a7ed1a0ee0c11c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 05/58] fix: pack structures passed by value and reject
 unsettable unpack targets

---
 packing.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/packing.go b/packing.go
index dcc5dc6..26e99c5 100644
--- a/packing.go
+++ b/packing.go
@@ -43,6 +43,17 @@ func fieldFromIntf(v interface{}) (field, reflect.Value) {
 	return f, val
 }
 
+// addressable returns val itself if it can be modified, otherwise a copy of it
+// that can.
+func addressable(val reflect.Value) reflect.Value {
+	if val.CanSet() {
+		return val
+	}
+	c := reflect.New(val.Type()).Elem()
+	c.Set(val)
+	return c
+}
+
 /*
 Unpack reads data from a byteslice into a value.
 
@@ -103,6 +114,9 @@ func Unpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
 	f, val := fieldFromIntf(v)
 	ss := structstack{allowexpr: expressionsEnabled, buf: data}
 	d := decoder{structstack: ss, order: order}
+	if _, ok := d.unpacker(val); !ok && !val.CanSet() {
+		return fmt.Errorf("cannot unpack into unaddressable value of type %s", val.Type())
+	}
 	d.read(f, val)
 
 	return
@@ -120,7 +134,7 @@ func SizeOf(v interface{}) (size int, err error) {
 
 	ss := structstack{allowexpr: expressionsEnabled}
 	f, val := fieldFromIntf(v)
-	return ss.fieldbytes(f, val), nil
+	return ss.fieldbytes(f, addressable(val)), nil
 }
 
 /*
@@ -135,7 +149,7 @@ func BitSize(v interface{}) (size int, err error) {
 
 	ss := structstack{allowexpr: expressionsEnabled}
 	f, val := fieldFromIntf(v)
-	return ss.fieldbits(f, val), nil
+	return ss.fieldbits(f, addressable(val)), nil
 }
 
 /*
@@ -158,6 +172,7 @@ func Pack(order binary.ByteOrder, v interface{}) (data []byte, err error) {
 	ss := structstack{allowexpr: expressionsEnabled, buf: []byte{}}
 
 	f, val := fieldFromIntf(v)
+	val = addressable(val)
 	data = make([]byte, ss.fieldbytes(f, val))
 
 	ss.buf = data
-- 
2.43.0


From 67be29d7145b63509001e1a26439a5f8a9d1fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 06/58] fix: encode and decode int and uint fields at their
 documented size

---
 decoder.go     | 7 +++++++
 encoder.go     | 7 +++++++
 structstack.go | 9 +++++++++
 3 files changed, 23 insertions(+)

diff --git a/decoder.go b/decoder.go
index f2c39a1..d8504ed 100644
--- a/decoder.go
+++ b/decoder.go
@@ -431,6 +431,13 @@ func (d *decoder) read(f field, v reflect.Value) {
 			panic(fmt.Errorf("invalid array cast type: %s", f.NativeType.String()))
 		}
 
+	case reflect.Int:
+		d.bitSize = intBits(d.bitSize)
+		d.setInt(f, v, d.readS64(f))
+	case reflect.Uint:
+		d.bitSize = intBits(d.bitSize)
+		d.setUint(f, v, d.readU64(f))
+
 	case reflect.Int8:
 		d.setInt(f, v, int64(d.readS8(f)))
 	case reflect.Int16:
diff --git a/encoder.go b/encoder.go
index 2dede40..7bc8542 100644
--- a/encoder.go
+++ b/encoder.go
@@ -341,6 +341,13 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.sfields = sfields
 		e.pop(ov)
 
+	case reflect.Int:
+		e.bitSize = intBits(e.bitSize)
+		e.writeS64(f, e.intFromField(f, ov))
+	case reflect.Uint:
+		e.bitSize = intBits(e.bitSize)
+		e.write64(f, e.uintFromField(f, ov))
+
 	case reflect.Int8:
 		e.writeS8(f, int8(e.intFromField(f, ov)))
 	case reflect.Int16:
diff --git a/structstack.go b/structstack.go
index 6e056a5..651883c 100644
--- a/structstack.go
+++ b/structstack.go
@@ -46,6 +46,15 @@ func (s *structstack) evalBits(f field) int {
 	return bits
 }
 
+// intBits returns the encoded size of an int or uint in bits: 32 unless a bit
+// size is specified.
+func intBits(bitSize int) int {
+	if bitSize == 0 {
+		return 32
+	}
+	return bitSize
+}
+
 func (s *structstack) evalSize(f field) int {
 	size := 0
 	if f.SizeExpr != nil {
-- 
2.43.0


From ce790160eef5aebb3c25a3561416b3d0d031d89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 07/58] fix: read byte sequences from the current bit position

---
 decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/decoder.go b/decoder.go
index d8504ed..a483bb4 100644
--- a/decoder.go
+++ b/decoder.go
@@ -160,6 +160,13 @@ func (d *decoder) readS32(f field) int32 { return int32(d.read32(f, true)) }
 func (d *decoder) readS64(f field) int64 { return int64(d.read64(f, true)) }
 
 func (d *decoder) readBytes(count int) []byte {
+	if d.bitCounter != 0 {
+		x := make([]byte, count)
+		for i := 0; i < count*8; i++ {
+			putBit(x[i/8:i/8+1], 8, i%8, d.readBit())
+		}
+		return x
+	}
 	x := d.buf[0:count]
 	d.buf = d.buf[count:]
 	return x
-- 
2.43.0


From cf75577cc71f5b0f62dc2f1aa9e9f75814c1c5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 08/58] fix: decode byte slices and C strings by element count,
 not by field size

---
 decoder.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index a483bb4..0a40108 100644
--- a/decoder.go
+++ b/decoder.go
@@ -36,6 +36,8 @@ func littleEndianBit(buf []byte, bitSize int, bit int) ([]byte, int, int) {
 	return buf[i : i+1], bitSize, bit % 8
 }
 
+var byteType = reflect.TypeOf(byte(0))
+
 func putBit(buf []byte, bitSize int, bit int, val byte) {
 	bit = bitSize - 1 - bit
 	buf[len(buf)-bit/8-1] |= (val) << (uint(bit) % 8)
@@ -358,7 +360,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		switch f.NativeType.Kind() {
 		case reflect.String:
 			// When using strings, treat as C string.
-			str := string(d.readBytes(d.fieldbytes(f, v)))
+			str := string(d.readBytes(l * int(f.BinaryType.Elem().Size())))
 			nul := strings.IndexByte(str, 0)
 			if nul != -1 {
 				str = str[0:nul]
@@ -395,9 +397,9 @@ func (d *decoder) read(f field, v reflect.Value) {
 
 	case reflect.Slice, reflect.String:
 		fixed := func() {
-			switch f.NativeType.Elem().Kind() {
-			case reflect.Uint8:
-				v.SetBytes(d.readBytes(d.fieldbytes(f, v)))
+			switch {
+			case f.NativeType.Kind() == reflect.Slice && f.NativeType.Elem() == byteType && f.BinaryType.Elem() == byteType:
+				v.SetBytes(d.readBytes(alen))
 			default:
 				ef := f.Elem()
 				for i := 0; i < alen; i++ {
-- 
2.43.0


From 6950848fab7c73247aae6455110d2095e1b8c900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 09/58] fix: size bit fields with their skip, condition and
 both complex parts

---
 structstack.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/structstack.go b/structstack.go
index 651883c..7bed04a 100644
--- a/structstack.go
+++ b/structstack.go
@@ -158,7 +158,11 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 	}
 
 	if b := s.evalBits(f); b != 0 {
-		return b
+		switch f.BinaryType.Kind() {
+		case reflect.Complex64, reflect.Complex128:
+			b *= 2
+		}
+		return b + skipBits
 	}
 
 	alen := 1
@@ -217,11 +221,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		size += skipBits
 		s.push(val)
 		for _, field := range cachedFieldsFromStruct(f.BinaryType) {
-			if field.BitSize != 0 {
-				size += int(field.BitSize)
-			} else {
-				size += s.fieldbits(field, val.Field(field.Index))
-			}
+			size += s.fieldbits(field, val.Field(field.Index))
 		}
 		s.pop(val)
 		return size
-- 
2.43.0


From 8f55d17d14e223e143d57603f34e5f3ffb7f1a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 10/58] fix: size pointers by their pointee and accept nil and
 recursive pointers

---
 field.go       | 2 +-
 structstack.go | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/field.go b/field.go
index ad64761..a8711c6 100644
--- a/field.go
+++ b/field.go
@@ -340,7 +340,7 @@ func isTypeTrivial(typ reflect.Type) bool {
 		reflect.Complex64,
 		reflect.Complex128:
 		return true
-	case reflect.Array, reflect.Ptr:
+	case reflect.Array:
 		return isTypeTrivial(typ.Elem())
 	case reflect.Struct:
 		for _, field := range cachedFieldsFromStruct(typ) {
diff --git a/structstack.go b/structstack.go
index 7bed04a..357c170 100644
--- a/structstack.go
+++ b/structstack.go
@@ -203,7 +203,9 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 
 		switch f.NativeType.Kind() {
 		case reflect.Ptr:
-			return s.fieldbits(f.Elem(), val.Elem())
+			if !val.IsNil() {
+				size += s.fieldbits(f.Elem(), val.Elem())
+			}
 		case reflect.Slice, reflect.String, reflect.Array:
 			// Optimization: if the element type is trivial, we can derive the
 			// length from a single element.
-- 
2.43.0


From 8f9e07ad19a9821392f422cec1e1c88b6c2e6f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 11/58] fix: size elements individually when their encoded size
 can vary

---
 field.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/field.go b/field.go
index a8711c6..5521da1 100644
--- a/field.go
+++ b/field.go
@@ -59,6 +59,12 @@ type BitSizer interface {
 	BitSize() int
 }
 
+// sizerTypes lists the interfaces of types that define their own size.
+var sizerTypes = []reflect.Type{
+	reflect.TypeOf((*Sizer)(nil)).Elem(),
+	reflect.TypeOf((*BitSizer)(nil)).Elem(),
+}
+
 // field represents a structure field, similar to reflect.StructField.
 type field struct {
 	Name       string
@@ -322,6 +328,11 @@ func isTypeTrivial(typ reflect.Type) bool {
 	if typ == nil {
 		return false
 	}
+	for _, sizer := range sizerTypes {
+		if typ.Implements(sizer) || reflect.PtrTo(typ).Implements(sizer) {
+			return false
+		}
+	}
 	switch typ.Kind() {
 	case reflect.Bool,
 		reflect.Int,
@@ -344,6 +355,9 @@ func isTypeTrivial(typ reflect.Type) bool {
 		return isTypeTrivial(typ.Elem())
 	case reflect.Struct:
 		for _, field := range cachedFieldsFromStruct(typ) {
+			if field.IfExpr != nil || field.BitsExpr != nil || field.OutExpr != nil || field.SwitchExpr != nil {
+				return false
+			}
 			if !isTypeTrivial(field.BinaryType) {
 				return false
 			}
-- 
2.43.0


From 46b579b94ff410c2ec811b6851b13dcf0717df8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 12/58] fix: size the zero elements a fixed array is padded
 with

---
 field.go       | 2 +-
 structstack.go | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/field.go b/field.go
index 5521da1..b4098d1 100644
--- a/field.go
+++ b/field.go
@@ -120,7 +120,7 @@ func (f *field) Elem() field {
 		TIndex:     -1,
 		SIndex:     -1,
 		Skip:       0,
-		Trivial:    isTypeTrivial(t.Elem()),
+		Trivial:    isTypeTrivial(t.Elem()) && isTypeTrivial(dt.Elem()),
 	}
 }
 
diff --git a/structstack.go b/structstack.go
index 357c170..b45eae8 100644
--- a/structstack.go
+++ b/structstack.go
@@ -214,7 +214,11 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 				size += s.fieldbits(elem, reflect.Zero(elem.BinaryType)) * alen
 			} else {
 				for i := 0; i < alen; i++ {
-					size += s.fieldbits(elem, val.Index(i))
+					if i < val.Len() {
+						size += s.fieldbits(elem, val.Index(i))
+					} else {
+						size += s.fieldbits(elem, reflect.New(elem.BinaryType).Elem())
+					}
 				}
 			}
 		}
-- 
2.43.0


From 09015cf2cf592c11c34ecb67d6cfc8e36beb3952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 13/58] fix: link counts by structure index when fields are
 ignored

---
 field.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/field.go b/field.go
index b4098d1..9272d7b 100644
--- a/field.go
+++ b/field.go
@@ -224,7 +224,11 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 				panic(ErrInvalidSizeOf)
 			}
 			sindex = j
-			result[sindex].TIndex = i
+			for k := range result {
+				if result[k].Index == j {
+					result[k].TIndex = i
+				}
+			}
 			delete(sizeOfMap, val.Name)
 		} else if opts.SizeOf != "" {
 			sizeOfMap[opts.SizeOf] = i
@@ -235,11 +239,10 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 			if !validSizeType(val.Type) {
 				panic(ErrInvalidSizeFrom)
 			}
-			for j := 0; j < i; j++ {
-				val := result[j]
-				if opts.SizeFrom == val.Name {
-					sindex = j
-					result[sindex].TIndex = i
+			for k := range result {
+				if opts.SizeFrom == result[k].Name {
+					sindex = result[k].Index
+					result[k].TIndex = i
 				}
 			}
 			if sindex == -1 {
-- 
2.43.0


From 18b6b9d4c8a269bbfce19e0741d06e79756decb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 14/58] fix: clear the members of a switch, not a sibling of
 the same index

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 0a40108..cdf00b5 100644
--- a/decoder.go
+++ b/decoder.go
@@ -241,7 +241,7 @@ func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
 
 	// Zero out values for decoding.
 	for i := 0; i < l; i++ {
-		v := v.Field(f.Index)
+		v := v.Field(sfields[i].Index)
 		v.Set(reflect.Zero(v.Type()))
 	}
 
-- 
2.43.0


From 523798ed3f4cabfdf74569336a33281b61a718af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 15/58] fix: match literal switch cases against integer fields
 of any type

---
 decoder.go     |  2 +-
 encoder.go     |  2 +-
 structstack.go | 34 +++++++++++++++++++++++++++++++++-
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index cdf00b5..0fb2e3c 100644
--- a/decoder.go
+++ b/decoder.go
@@ -261,7 +261,7 @@ func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if d.evalExpr(f.CaseExpr) == on {
+		if casematches(d.evalExpr(f.CaseExpr), on) {
 			d.read(f, v)
 			return
 		}
diff --git a/encoder.go b/encoder.go
index 7bc8542..cd27993 100644
--- a/encoder.go
+++ b/encoder.go
@@ -206,7 +206,7 @@ func (e *encoder) switc(f field, v reflect.Value, on interface{}) {
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if e.evalExpr(f.CaseExpr) == on {
+		if casematches(e.evalExpr(f.CaseExpr), on) {
 			e.write(f, v)
 			return
 		}
diff --git a/structstack.go b/structstack.go
index b45eae8..4aa4b4f 100644
--- a/structstack.go
+++ b/structstack.go
@@ -80,6 +80,38 @@ func (s *structstack) evalWhile(f field) bool {
 	panic("expected bool value for while expr")
 }
 
+// casematches determines if a case value selects the given switch value.
+// Literals match switch values of any corresponding type.
+func casematches(value, on interface{}) bool {
+	if value == on {
+		return true
+	}
+	a, b := reflect.ValueOf(value), reflect.ValueOf(on)
+	switch {
+	case isInt(a) && isInt(b):
+		return a.Int() == b.Int()
+	case isUint(a) && isUint(b):
+		return a.Uint() == b.Uint()
+	case isInt(a) && isUint(b):
+		return a.Int() >= 0 && uint64(a.Int()) == b.Uint()
+	case isUint(a) && isInt(b):
+		return b.Int() >= 0 && a.Uint() == uint64(b.Int())
+	case a.Kind() == reflect.String && b.Kind() == reflect.String:
+		return a.String() == b.String()
+	case a.Kind() == reflect.Bool && b.Kind() == reflect.Bool:
+		return a.Bool() == b.Bool()
+	}
+	return false
+}
+
+func isInt(v reflect.Value) bool {
+	return v.Kind() >= reflect.Int && v.Kind() <= reflect.Int64
+}
+
+func isUint(v reflect.Value) bool {
+	return v.Kind() >= reflect.Uint && v.Kind() <= reflect.Uintptr
+}
+
 func (s *structstack) switcbits(f field, v reflect.Value, on interface{}) (size int) {
 	var def *switchcase
 
@@ -106,7 +138,7 @@ func (s *structstack) switcbits(f field, v reflect.Value, on interface{}) (size
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if s.evalExpr(f.CaseExpr) == on {
+		if casematches(s.evalExpr(f.CaseExpr), on) {
 			return s.fieldbits(f, v)
 		}
 	}
-- 
2.43.0


From 8c5b9ab780517c20dcf3b4827ff8d6f54b36261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 16/58] fix: reject lengths that do not fit their count field

---
 encoder.go     | 11 +----------
 structstack.go | 28 ++++++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/encoder.go b/encoder.go
index cd27993..0fdb2f5 100644
--- a/encoder.go
+++ b/encoder.go
@@ -273,16 +273,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 
 	// If this is a sizeof field, pull the current slice length into it.
 	if f.TIndex != -1 {
-		sv := struc.Field(f.TIndex)
-
-		switch f.BinaryType.Kind() {
-		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-			v.SetInt(int64(sv.Len()))
-		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-			v.SetUint(uint64(sv.Len()))
-		default:
-			panic(fmt.Errorf("unsupported size type %s: %s", f.BinaryType.String(), f.Name))
-		}
+		e.setcount(f, struc, v)
 	}
 
 	ov := v
diff --git a/structstack.go b/structstack.go
index 4aa4b4f..240a5a9 100644
--- a/structstack.go
+++ b/structstack.go
@@ -80,6 +80,34 @@ func (s *structstack) evalWhile(f field) bool {
 	panic("expected bool value for while expr")
 }
 
+// setcount stores the current length of the slice or string counted by f in v.
+func (s *structstack) setcount(f field, struc, v reflect.Value) {
+	count := uint64(struc.Field(f.TIndex).Len())
+	overflow := false
+
+	switch f.BinaryType.Kind() {
+	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		overflow = count>>uint(s.countbits(f)-1) != 0 || v.OverflowInt(int64(count))
+		v.SetInt(int64(count))
+	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		overflow = count>>uint(s.countbits(f)) != 0 || v.OverflowUint(count)
+		v.SetUint(count)
+	default:
+		panic(fmt.Errorf("unsupported size type %s: %s", f.BinaryType.String(), f.Name))
+	}
+
+	if overflow {
+		panic(fmt.Errorf("count %d does not fit into field %s", count, f.Name))
+	}
+}
+
+func (s *structstack) countbits(f field) int {
+	if b := s.evalBits(f); b > 0 {
+		return b
+	}
+	return f.BinaryType.Bits()
+}
+
 // casematches determines if a case value selects the given switch value.
 // Literals match switch values of any corresponding type.
 func casematches(value, on interface{}) bool {
-- 
2.43.0


From 2a594a5fce0192efb51e95369af0dec79e828147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 17/58] fix: synchronise counts before sizing the data to pack

---
 packing.go     | 2 +-
 structstack.go | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/packing.go b/packing.go
index 26e99c5..73c01c3 100644
--- a/packing.go
+++ b/packing.go
@@ -169,7 +169,7 @@ func Pack(order binary.ByteOrder, v interface{}) (data []byte, err error) {
 		}
 	}()
 
-	ss := structstack{allowexpr: expressionsEnabled, buf: []byte{}}
+	ss := structstack{allowexpr: expressionsEnabled, buf: []byte{}, packing: true}
 
 	f, val := fieldFromIntf(v)
 	val = addressable(val)
diff --git a/structstack.go b/structstack.go
index 240a5a9..6889b4d 100644
--- a/structstack.go
+++ b/structstack.go
@@ -16,6 +16,7 @@ type structstack struct {
 	buf       []byte
 	stack     []reflect.Value
 	allowexpr bool
+	packing   bool
 }
 
 func (s *structstack) Resolve(ident string) expr.Value {
@@ -217,6 +218,12 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		return 0
 	}
 
+	// Counts that are about to be packed must be current before the conditions
+	// and expressions that depend on them are evaluated.
+	if s.packing && f.TIndex != -1 && val.CanSet() {
+		s.setcount(f, s.ancestor(0), val)
+	}
+
 	if b := s.evalBits(f); b != 0 {
 		switch f.BinaryType.Kind() {
 		case reflect.Complex64, reflect.Complex128:
-- 
2.43.0


From 0bf5ab01ae7ff93aa6cbdcb8aaeb6a615cdd2ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 18/58] fix: size padding fields of structure type

---
 structstack.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structstack.go b/structstack.go
index 6889b4d..689ff14 100644
--- a/structstack.go
+++ b/structstack.go
@@ -212,6 +212,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		if !isTypeTrivial(val.Type()) {
 			return skipBits
 		}
+		val = reflect.Zero(val.Type())
 	}
 
 	if !s.evalIf(f) {
-- 
2.43.0


From 3004a19540ac265fdb258bab29c84bf3b48b0573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 19/58] fix: start while slices empty instead of appending to
 old content

---
 decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder.go b/decoder.go
index 0fb2e3c..51a84ab 100644
--- a/decoder.go
+++ b/decoder.go
@@ -426,6 +426,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 				switch f.NativeType.Kind() {
 				case reflect.Slice:
 					ef := f.Elem()
+					v.Set(reflect.Zero(v.Type()))
 					for d.evalWhile(f) {
 						nv := reflect.New(ef.NativeType).Elem()
 						d.read(ef, nv)
-- 
2.43.0


From 61606f83fda617a6247c3a53b4071f39fd7106d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 20/58] fix: do not call custom methods on nil pointers

---
 decoder.go |  4 ++++
 encoder.go |  4 ++++
 field.go   | 14 ++++++++++++++
 3 files changed, 22 insertions(+)

diff --git a/decoder.go b/decoder.go
index 51a84ab..7094072 100644
--- a/decoder.go
+++ b/decoder.go
@@ -188,6 +188,10 @@ func (d *decoder) skip(f field, v reflect.Value) {
 }
 
 func (d *decoder) unpacker(v reflect.Value) (Unpacker, bool) {
+	if isNilPtr(v) {
+		return nil, false
+	}
+
 	if s, ok := v.Interface().(Unpacker); ok {
 		return s, true
 	}
diff --git a/encoder.go b/encoder.go
index 0fdb2f5..4fb7172 100644
--- a/encoder.go
+++ b/encoder.go
@@ -127,6 +127,10 @@ func (e *encoder) skip(f field, v reflect.Value) {
 }
 
 func (e *encoder) packer(v reflect.Value) (Packer, bool) {
+	if isNilPtr(v) {
+		return nil, false
+	}
+
 	if s, ok := v.Interface().(Packer); ok {
 		return s, true
 	}
diff --git a/field.go b/field.go
index 9272d7b..a0a2e77 100644
--- a/field.go
+++ b/field.go
@@ -371,7 +371,17 @@ func isTypeTrivial(typ reflect.Type) bool {
 	}
 }
 
+// isNilPtr determines if v is a nil pointer; there is no value to call custom
+// methods on then.
+func isNilPtr(v reflect.Value) bool {
+	return v.Kind() == reflect.Ptr && v.IsNil()
+}
+
 func (f *field) sizer(v reflect.Value) (Sizer, bool) {
+	if isNilPtr(v) {
+		return nil, false
+	}
+
 	if s, ok := v.Interface().(Sizer); ok {
 		return s, true
 	}
@@ -388,6 +398,10 @@ func (f *field) sizer(v reflect.Value) (Sizer, bool) {
 }
 
 func (f *field) bitSizer(v reflect.Value) (BitSizer, bool) {
+	if isNilPtr(v) {
+		return nil, false
+	}
+
 	if s, ok := v.Interface().(BitSizer); ok {
 		return s, true
 	}
-- 
2.43.0


From 1861e5af855fcf1b0cf5eb71d77481635a2c10de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 21/58] fix: honour if, skip and byte order on switches and
 custom types

---
 decoder.go     | 30 +++++++++++++++---------------
 encoder.go     | 30 +++++++++++++++---------------
 structstack.go | 20 +++++++++++---------
 3 files changed, 41 insertions(+), 39 deletions(-)

diff --git a/decoder.go b/decoder.go
index 7094072..c00bd17 100644
--- a/decoder.go
+++ b/decoder.go
@@ -291,23 +291,9 @@ func (d *decoder) read(f field, v reflect.Value) {
 		return
 	}
 
-	if f.SwitchExpr != nil {
-		d.switc(f, v, d.evalExpr(f.SwitchExpr))
-		return
-	}
-
 	struc := d.ancestor(0)
 
-	if f.Name != "_" {
-		if s, ok := d.unpacker(v); ok {
-			var err error
-			d.buf, err = s.Unpack(d.buf, d.order)
-			if err != nil {
-				panic(err)
-			}
-			return
-		}
-	} else {
+	if f.Name == "_" {
 		d.skipBits(d.fieldbits(f, v))
 		return
 	}
@@ -328,6 +314,20 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.skipBits(f.Skip * 8)
 	}
 
+	if f.SwitchExpr != nil {
+		d.switc(f, v, d.evalExpr(f.SwitchExpr))
+		return
+	}
+
+	if s, ok := d.unpacker(v); ok {
+		var err error
+		d.buf, err = s.Unpack(d.buf, d.order)
+		if err != nil {
+			panic(err)
+		}
+		return
+	}
+
 	d.bitSize = d.evalBits(f)
 	alen := d.evalSize(f)
 
diff --git a/encoder.go b/encoder.go
index 4fb7172..03cb579 100644
--- a/encoder.go
+++ b/encoder.go
@@ -236,23 +236,9 @@ func (e *encoder) write(f field, v reflect.Value) {
 		return
 	}
 
-	if f.SwitchExpr != nil {
-		e.switc(f, v, e.evalExpr(f.SwitchExpr))
-		return
-	}
-
 	struc := e.ancestor(0)
 
-	if f.Name != "_" {
-		if s, ok := e.packer(v); ok {
-			var err error
-			e.buf, err = s.Pack(e.buf, e.order)
-			if err != nil {
-				panic(err)
-			}
-			return
-		}
-	} else {
+	if f.Name == "_" {
 		e.skipBits(e.fieldbits(f, v))
 		return
 	}
@@ -273,6 +259,20 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.skipBits(f.Skip * 8)
 	}
 
+	if f.SwitchExpr != nil {
+		e.switc(f, v, e.evalExpr(f.SwitchExpr))
+		return
+	}
+
+	if s, ok := e.packer(v); ok {
+		var err error
+		e.buf, err = s.Pack(e.buf, e.order)
+		if err != nil {
+			panic(err)
+		}
+		return
+	}
+
 	e.bitSize = e.evalBits(f)
 
 	// If this is a sizeof field, pull the current slice length into it.
diff --git a/structstack.go b/structstack.go
index 689ff14..2432f79 100644
--- a/structstack.go
+++ b/structstack.go
@@ -197,15 +197,11 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		return 0
 	}
 
-	if f.SwitchExpr != nil {
-		return s.switcbits(f, val, s.evalExpr(f.SwitchExpr))
+	if !s.evalIf(f) {
+		return 0
 	}
 
-	if f.Name != "_" {
-		if s, ok := f.bitSizeUsingInterface(val); ok {
-			return s
-		}
-	} else {
+	if f.Name == "_" {
 		// Non-trivial, unnamed fields do not make sense. You can't set a field
 		// with no name, so the elements can't possibly differ.
 		// N.B.: Though skip will still work, use struct{} instead for skip.
@@ -215,8 +211,14 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		val = reflect.Zero(val.Type())
 	}
 
-	if !s.evalIf(f) {
-		return 0
+	if f.SwitchExpr != nil {
+		return skipBits + s.switcbits(f, val, s.evalExpr(f.SwitchExpr))
+	}
+
+	if f.Name != "_" {
+		if s, ok := f.bitSizeUsingInterface(val); ok {
+			return skipBits + s
+		}
 	}
 
 	// Counts that are about to be packed must be current before the conditions
-- 
2.43.0


From 1379521002a38be60c89d1e472e53b807605cb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 22/58] fix: size the value of an out expression

---
 structstack.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/structstack.go b/structstack.go
index 2432f79..5da9393 100644
--- a/structstack.go
+++ b/structstack.go
@@ -235,6 +235,11 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		return b + skipBits
 	}
 
+	// What is encoded is the value of the out expression, if there is one.
+	if f.OutExpr != nil && f.BinaryType.Kind() != reflect.Ptr {
+		val = reflect.ValueOf(s.evalExpr(f.OutExpr))
+	}
+
 	alen := 1
 	switch f.BinaryType.Kind() {
 	case reflect.Int8, reflect.Uint8, reflect.Bool:
-- 
2.43.0


From 3b067ef3ab666ccb9fa1ce7c26539722165b1109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 23/58] fix: convert untyped float literals to the other
 operand's type

---
 expr/value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr/value.go b/expr/value.go
index 40896a0..7acf7fa 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -92,9 +92,9 @@ func promote(from Value, to Type) Value {
 	case UntypedFloat:
 		switch to.Kind() {
 		case Float32:
-			return val{reflect.ValueOf(float32(reflect.ValueOf(from.Value).Float())), to}
+			return val{reflect.ValueOf(float32(from.Value().Float())), to}
 		case Float64:
-			return val{reflect.ValueOf(float64(reflect.ValueOf(from.Value).Float())), to}
+			return val{reflect.ValueOf(float64(from.Value().Float())), to}
 		default:
 			panic(ConversionError{From: ftype, To: to})
 		}
-- 
2.43.0


From 0e8799c1984b1a65b6c16b9a000146c8f6a029c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 24/58] fix: make map types usable for indexing and conversion

---
 expr/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr/type.go b/expr/type.go
index f863ea8..65f2b1c 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -287,7 +287,7 @@ type MapType struct {
 
 // NewMapType returns a new map type.
 func NewMapType(key Type, val Type) Type {
-	return MapType{key: key, val: val}
+	return &MapType{key: key, val: val}
 }
 
 // String implements Type.
-- 
2.43.0


From b12c4abe9fb85f616924d5d4ccaaec6d81b8e860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 25/58] fix: compare pointers, slices, maps and functions with
 nil

---
 expr/value.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/expr/value.go b/expr/value.go
index 7acf7fa..b5c5b55 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -312,12 +312,29 @@ func (v val) LogicalAnd(rhs Value) Value {
 	return val{reflect.ValueOf(lv && rv), NewPrimitiveType(Bool)}
 }
 
+// equalnil compares a value with an untyped nil literal on either side.
+func equalnil(lhs Value, rhs Value) (equal bool, ok bool) {
+	if lhs.Type().Kind() == UntypedNil {
+		lhs, rhs = rhs, lhs
+	}
+	if rhs.Type().Kind() != UntypedNil || TypeEqual(lhs.Type(), rhs.Type()) || !assignable(rhs.Type(), lhs.Type()) {
+		return false, false
+	}
+	return lhs.Value().IsNil(), true
+}
+
 func (v val) Equal(rhs Value) Value {
+	if equal, ok := equalnil(v, rhs); ok {
+		return val{reflect.ValueOf(equal), NewPrimitiveType(Bool)}
+	}
 	l, r := coerce(v, rhs)
 	return val{reflect.ValueOf(l.RawValue() == r.RawValue()), NewPrimitiveType(Bool)}
 }
 
 func (v val) NotEqual(rhs Value) Value {
+	if equal, ok := equalnil(v, rhs); ok {
+		return val{reflect.ValueOf(!equal), NewPrimitiveType(Bool)}
+	}
 	l, r := coerce(v, rhs)
 	return val{reflect.ValueOf(l.RawValue() != r.RawValue()), NewPrimitiveType(Bool)}
 }
-- 
2.43.0


From 184d7c41b5fe1016128b370da420eb7e747290bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 26/58] fix: apply operators to values of named primitive types

---
 expr/eval.go   |  2 +-
 expr/value.go  | 38 +++++++++++++++++++++++++-------------
 structstack.go |  8 ++++----
 3 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/expr/eval.go b/expr/eval.go
index 00fab77..73f217d 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -164,7 +164,7 @@ func evalbinary(resolver Resolver, node binaryexpr) Value {
 }
 
 func evalternary(resolver Resolver, node ternaryexpr) Value {
-	a := evalnode(resolver, node.a).Value().Interface()
+	a := basic(evalnode(resolver, node.a)).Value().Interface()
 	cond, ok := a.(bool)
 	if !ok {
 		panic(fmt.Errorf("unexpected type %T for ternary", cond))
diff --git a/expr/value.go b/expr/value.go
index b5c5b55..55de982 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -75,9 +75,20 @@ type val struct {
 	t Type
 }
 
+// basic converts a value of a named primitive type to the primitive type, which
+// is what the operators are defined on.
+func basic(v Value) Value {
+	if t, ok := v.Type().(*PrimitiveType); ok {
+		if rt := primRType[t.Kind()]; v.Value().Type() != rt {
+			return val{v.Value().Convert(rt), t}
+		}
+	}
+	return v
+}
+
 func promote(from Value, to Type) Value {
 	if TypeEqual(from.Type(), to) {
-		return from
+		return basic(from)
 	}
 
 	ftype := from.Type()
@@ -160,6 +171,7 @@ func coerce1(v Value) Value {
 }
 
 func coerce(lhs Value, rhs Value) (Value, Value) {
+	lhs, rhs = basic(lhs), basic(rhs)
 	if TypeEqual(lhs.Type(), rhs.Type()) {
 		return coerce1(lhs), coerce1(rhs)
 	} else if assignable(lhs.Type(), rhs.Type()) {
@@ -183,7 +195,7 @@ func (v val) RawValue() interface{} {
 }
 
 func (v val) Negate() Value {
-	switch n := v.RawValue().(type) {
+	switch n := basic(v).RawValue().(type) {
 	case int:
 		return val{reflect.ValueOf(-n), v.t}
 	case int8:
@@ -216,7 +228,7 @@ func (v val) Negate() Value {
 }
 
 func (v val) Not() Value {
-	switch n := v.RawValue().(type) {
+	switch n := basic(v).RawValue().(type) {
 	case bool:
 		return val{reflect.ValueOf(!n), v.t}
 	default:
@@ -225,7 +237,7 @@ func (v val) Not() Value {
 }
 
 func (v val) BitNot() Value {
-	switch n := v.RawValue().(type) {
+	switch n := basic(v).RawValue().(type) {
 	case int:
 		return val{reflect.ValueOf(^n), v.t}
 	case int8:
@@ -285,12 +297,12 @@ func (v val) Dot(ident string) Value {
 }
 
 func (v val) LogicalOr(rhs Value) Value {
-	lv, ok := v.RawValue().(bool)
+	lv, ok := basic(v).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "||", V: v})
 	}
 
-	rv, ok := rhs.RawValue().(bool)
+	rv, ok := basic(rhs).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "||", V: rhs})
 	}
@@ -299,12 +311,12 @@ func (v val) LogicalOr(rhs Value) Value {
 }
 
 func (v val) LogicalAnd(rhs Value) Value {
-	lv, ok := v.RawValue().(bool)
+	lv, ok := basic(v).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "&&", V: v})
 	}
 
-	rv, ok := rhs.RawValue().(bool)
+	rv, ok := basic(rhs).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "&&", V: rhs})
 	}
@@ -704,10 +716,10 @@ func (v val) Rem(rhs Value) Value {
 }
 
 func (v val) Lsh(rhs Value) Value {
-	l := coerce1(v)
+	l := coerce1(basic(v))
 	shift := uint64(0)
 
-	switch rv := rhs.RawValue().(type) {
+	switch rv := basic(rhs).RawValue().(type) {
 	case uint:
 		shift = uint64(rv)
 	case uint8:
@@ -753,10 +765,10 @@ func (v val) Lsh(rhs Value) Value {
 }
 
 func (v val) Rsh(rhs Value) Value {
-	l := coerce1(v)
+	l := coerce1(basic(v))
 	shift := uint64(0)
 
-	switch rv := rhs.RawValue().(type) {
+	switch rv := basic(rhs).RawValue().(type) {
 	case uint:
 		shift = uint64(rv)
 	case uint8:
@@ -864,7 +876,7 @@ func (v val) AndNot(rhs Value) Value {
 func (v val) Index(rhs Value) Value {
 	if v.t.Kind() == String {
 		index := promote(rhs, NewPrimitiveType(Int)).RawValue().(int)
-		return val{reflect.ValueOf(v.RawValue().(string)[index]), NewPrimitiveType(Uint8)}
+		return val{reflect.ValueOf(v.v.String()[index]), NewPrimitiveType(Uint8)}
 	}
 	switch t := v.t.(type) {
 	case *ArrayType:
diff --git a/structstack.go b/structstack.go
index 5da9393..690a029 100644
--- a/structstack.go
+++ b/structstack.go
@@ -68,15 +68,15 @@ func (s *structstack) evalIf(f field) bool {
 	if f.IfExpr == nil {
 		return true
 	}
-	if b, ok := s.evalExpr(f.IfExpr).(bool); ok {
-		return b
+	if v := reflect.ValueOf(s.evalExpr(f.IfExpr)); v.Kind() == reflect.Bool {
+		return v.Bool()
 	}
 	panic("expected bool value for if expr")
 }
 
 func (s *structstack) evalWhile(f field) bool {
-	if b, ok := s.evalExpr(f.WhileExpr).(bool); ok {
-		return b
+	if v := reflect.ValueOf(s.evalExpr(f.WhileExpr)); v.Kind() == reflect.Bool {
+		return v.Bool()
 	}
 	panic("expected bool value for while expr")
 }
-- 
2.43.0


From 9fd665469415c36ac7f31cfb7b6731e63df974d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 27/58] fix: parse the and-not operator

---
 expr/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expr/parse.go b/expr/parse.go
index 587bce5..b5e7036 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -166,6 +166,10 @@ func (p *parser) parseexpr(depth int) node {
 			binary(binaryand, 7)
 			continue
 		}
+		if p.accept(andnottoken) {
+			binary(binaryandnot, 7)
+			continue
+		}
 		if depth >= 6 {
 			break
 		}
-- 
2.43.0


From 6b358dba15fa4e00b67df2b45210a50f8632f452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 28/58] fix: parse ternary branches as full expressions

---
 expr/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr/parse.go b/expr/parse.go
index b5e7036..7d3f209 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -231,7 +231,7 @@ func (p *parser) parseexpr(depth int) node {
 			continue
 		}
 		if p.accept(ternarytoken) {
-			ternary(3)
+			ternary(2)
 			continue
 		}
 		if depth >= 2 {
-- 
2.43.0


From a33bda2b3770f49257560b5d6c03ee65da28e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 29/58] fix: require matching closing brackets

---
 expr/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expr/parse.go b/expr/parse.go
index 7d3f209..d3e5a8a 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -102,6 +102,7 @@ func (p *parser) parseexpr(depth int) node {
 		n = newnilnode(p.t)
 	case p.accept(leftparentoken):
 		n = p.parseexpr(1)
+		p.expect(rightparentoken)
 	default:
 	}
 
@@ -115,10 +116,12 @@ func (p *parser) parseexpr(depth int) node {
 		}
 		if n != nil && p.accept(leftparentoken) {
 			binary(binarycall, 1)
+			p.expect(rightparentoken)
 			continue
 		}
 		if n != nil && p.accept(leftbrackettoken) {
 			binary(binarysubscript, 1)
+			p.expect(rightbrackettoken)
 			continue
 		}
 		if n == nil && p.accept(addtoken) {
@@ -241,7 +244,7 @@ func (p *parser) parseexpr(depth int) node {
 			binary(binarygroup, 2)
 			continue
 		}
-		if depth >= 1 && (p.accept(rightparentoken) || p.accept(rightbrackettoken)) {
+		if depth >= 1 {
 			break
 		}
 		p.expect(eoftoken)
-- 
2.43.0


From 21d8732c0167eba167c1e41c202f52f1df7514da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 30/58] fix: stop scanning string literals at the end of the
 input

---
 expr/lex.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expr/lex.go b/expr/lex.go
index c79c63e..b9ee801 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -377,6 +377,8 @@ func (s *scanner) scanstring(quote byte) token {
 			return token{kind: strtoken, sval: string(str)}
 		case s.accept('\\'):
 			str = append(str, s.scanescape(quote)...)
+		case s.accept(eof):
+			return s.errsymf("unexpected end of string literal")
 		default:
 			str = append(str, runebytes(s.readrune())...)
 		}
-- 
2.43.0


From 0d298ff189d2f3a00487b274dbf9381f8826f9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 31/58] fix: keep the value of single byte escapes in rune
 literals

---
 expr/lex.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expr/lex.go b/expr/lex.go
index b9ee801..20b7284 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -389,7 +389,11 @@ func (s *scanner) scanrune() token {
 	defer s.expect('\'')
 	switch {
 	case s.accept('\\'):
-		r := []rune(string(s.scanescape('\'')))
+		b := s.scanescape('\'')
+		if len(b) == 1 {
+			return token{kind: runetoken, ival: int64(b[0])}
+		}
+		r := []rune(string(b))
 		return token{kind: runetoken, ival: int64(r[0])}
 	default:
 		return token{kind: runetoken, ival: int64(s.readrune())}
-- 
2.43.0


From 253636f8dbb9401b2789a56a3da9bd5a30aa2d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 32/58] fix: parse a minus sign directly before a number as
 subtraction

---
 expr/lex.go   |  5 +++++
 expr/parse.go | 13 ++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/expr/lex.go b/expr/lex.go
index 20b7284..c28b39d 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -284,6 +284,11 @@ func (s *scanner) scannumber(t token) token {
 		}
 		break
 	}
+	return numbertoken(t)
+}
+
+// numbertoken determines the value of a number token from its source.
+func numbertoken(t token) token {
 	var err error
 	if t.uval, err = strconv.ParseUint(t.sval, 0, 64); err == nil {
 		t.ival = int64(t.uval)
diff --git a/expr/parse.go b/expr/parse.go
index d3e5a8a..2ccc735 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -52,6 +52,17 @@ func (p *parser) accept(k tokenkind) bool {
 	return false
 }
 
+// acceptsign accepts the sign of a negative number literal as an operator and
+// leaves the number itself as the next token.
+func (p *parser) acceptsign() bool {
+	t := p.readtoken()
+	if (t.kind == inttoken || t.kind == floattoken) && t.sval[0] == '-' {
+		*t = numbertoken(token{pos: t.pos + 1, sval: t.sval[1:]})
+		return true
+	}
+	return false
+}
+
 func (p *parser) expect(k tokenkind) {
 	if p.readtoken().kind != k {
 		panic(fmt.Errorf("expected %s token, got %s", k, p.t.kind))
@@ -180,7 +191,7 @@ func (p *parser) parseexpr(depth int) node {
 			binary(binaryadd, 6)
 			continue
 		}
-		if p.accept(subtoken) {
+		if p.accept(subtoken) || n != nil && p.acceptsign() {
 			binary(binarysub, 6)
 			continue
 		}
-- 
2.43.0


From e0581a35e90b263e3c0f5e81d34669bbd8aed864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 33/58] fix: publish expression types only when complete and
 support recursion

---
 expr/type.go | 64 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index 65f2b1c..78f3dfe 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -478,27 +478,27 @@ func toreflecttype(t Type) reflect.Type {
 var typemap = map[reflect.Type]Type{}
 var typemutex = sync.Mutex{}
 
-func savetype(reflect reflect.Type, expr Type) Type {
-	typemutex.Lock()
-	defer typemutex.Unlock()
-
-	typemap[reflect] = expr
-	return expr
-}
-
-func loadtype(reflect reflect.Type) (Type, bool) {
+// fromreflecttype converts a runtime type into an expr type. Types are only
+// shared through the type map once they are complete.
+func fromreflecttype(t reflect.Type) Type {
 	typemutex.Lock()
 	defer typemutex.Unlock()
 
-	if expr, ok := typemap[reflect]; ok {
-		return expr, true
+	pending := map[reflect.Type]Type{}
+	et := buildtype(t, pending)
+	for rt, t := range pending {
+		typemap[rt] = t
 	}
-	return nil, false
+	return et
 }
 
-// fromreflecttype converts a runtime type into an expr type.
-func fromreflecttype(t reflect.Type) Type {
-	if et, ok := loadtype(t); ok {
+// buildtype converts a runtime type, registering the types under construction
+// in pending so that types can refer to themselves.
+func buildtype(t reflect.Type, pending map[reflect.Type]Type) Type {
+	if et, ok := typemap[t]; ok {
+		return et
+	}
+	if et, ok := pending[t]; ok {
 		return et
 	}
 
@@ -509,41 +509,53 @@ func fromreflecttype(t reflect.Type) Type {
 		reflect.String:
 		return primType[t.Kind()]
 	case reflect.Array:
-		return NewArrayType(t.Len(), fromreflecttype(t.Elem()))
+		et := &ArrayType{}
+		pending[t] = et
+		*et = *NewArrayType(t.Len(), buildtype(t.Elem(), pending))
+		return et
 	case reflect.Func:
+		et := &FuncType{}
+		pending[t] = et
 		nin := t.NumIn()
 		in := make([]Type, 0, nin)
 		for i := 0; i < nin; i++ {
-			in = append(in, fromreflecttype(t.In(i)))
+			in = append(in, buildtype(t.In(i), pending))
 		}
 		nout := t.NumOut()
 		out := make([]Type, 0, nout)
 		for i := 0; i < nout; i++ {
-			out = append(out, fromreflecttype(t.Out(i)))
+			out = append(out, buildtype(t.Out(i), pending))
 		}
-		return NewFuncType(in, out, t.IsVariadic())
+		*et = *NewFuncType(in, out, t.IsVariadic())
+		return et
 	case reflect.Map:
-		return NewMapType(fromreflecttype(t.Key()), fromreflecttype(t.Elem()))
+		et := &MapType{}
+		pending[t] = et
+		*et = MapType{key: buildtype(t.Key(), pending), val: buildtype(t.Elem(), pending)}
+		return et
 	case reflect.Ptr:
 		et := &PtrType{}
-		savetype(t, et)
-		*et = *NewPtrType(fromreflecttype(t.Elem()))
+		pending[t] = et
+		*et = *NewPtrType(buildtype(t.Elem(), pending))
 		return et
 	case reflect.Slice:
 		et := &SliceType{}
-		savetype(t, et)
-		*et = *NewSliceType(fromreflecttype(t.Elem()))
+		pending[t] = et
+		*et = *NewSliceType(buildtype(t.Elem(), pending))
 		return et
 	case reflect.Struct:
+		et := &StructType{}
+		pending[t] = et
 		fields := make([]Field, 0, t.NumField())
 		for i := 0; i < t.NumField(); i++ {
 			field := t.Field(i)
 			fields = append(fields, Field{
 				Name: field.Name,
-				Type: fromreflecttype(field.Type),
+				Type: buildtype(field.Type, pending),
 			})
 		}
-		return NewStructType(fields)
+		*et = *NewStructType(fields)
+		return et
 	default:
 		panic(ErrNotRepresentable)
 	}
-- 
2.43.0


From f8bf2f1d5fe058b6ad1d5cb6e29b6eea909b8d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 34/58] fix: pass nil and named primitive types to functions
 and map lookups

---
 expr/value.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/expr/value.go b/expr/value.go
index 55de982..960592b 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -158,6 +158,18 @@ func promote(from Value, to Type) Value {
 	}
 }
 
+// argument converts a value to the runtime type rt, which is represented by t.
+func argument(v Value, t Type, rt reflect.Type) reflect.Value {
+	if v.Type().Kind() == UntypedNil && assignable(v.Type(), t) {
+		return reflect.Zero(rt)
+	}
+	rv := promote(v, t).Value()
+	if _, ok := t.(*PrimitiveType); ok {
+		return rv.Convert(rt)
+	}
+	return rv
+}
+
 func coerce1(v Value) Value {
 	if v.Type().Kind() == UntypedInt {
 		switch n := v.RawValue().(type) {
@@ -884,7 +896,7 @@ func (v val) Index(rhs Value) Value {
 	case *SliceType:
 		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
 	case *MapType:
-		return val{v.v.MapIndex(promote(rhs, t.Key()).Value()), t.Value()}
+		return val{v.v.MapIndex(argument(rhs, t.Key(), v.v.Type().Key())), t.Value()}
 	default:
 		panic(InvalidOpError{Op: "[]", V: v})
 	}
@@ -900,7 +912,7 @@ func (v val) Call(in []Value) Value {
 	}
 	inconv := []reflect.Value{}
 	for i, n := range in {
-		inconv = append(inconv, promote(n, ft.In(i)).Value())
+		inconv = append(inconv, argument(n, ft.In(i), v.v.Type().In(i)))
 	}
 	out := v.v.Call(inconv)
 	if len(out) != 1 {
-- 
2.43.0


From bf998a2f4f963421a54b890a6a0e0c7cf8763876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 35/58] fix: reject input that ends inside skipped bits

---
 decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder.go b/decoder.go
index c00bd17..54e4585 100644
--- a/decoder.go
+++ b/decoder.go
@@ -3,6 +3,7 @@ package restruct
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"math"
 	"reflect"
 	"strings"
@@ -175,6 +176,9 @@ func (d *decoder) readBytes(count int) []byte {
 }
 
 func (d *decoder) skipBits(count int) {
+	if (int(d.bitCounter)+count+7)/8 > len(d.buf) {
+		panic(io.ErrUnexpectedEOF)
+	}
 	d.bitCounter += uint8(count % 8)
 	if d.bitCounter >= 8 {
 		d.bitCounter -= 8
-- 
2.43.0


From 4cc750e7cf45241526cf6082921f2ecd711f03a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:30 +0000
Subject: [PATCH 36/58] fix: encode the struct that an out expression yields

---
 encoder.go     | 2 +-
 structstack.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index 03cb579..a441a85 100644
--- a/encoder.go
+++ b/encoder.go
@@ -282,7 +282,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 
 	ov := v
 	if f.OutExpr != nil {
-		ov = reflect.ValueOf(e.evalExpr(f.OutExpr))
+		ov = addressable(reflect.ValueOf(e.evalExpr(f.OutExpr)))
 	}
 
 	switch f.BinaryType.Kind() {
diff --git a/structstack.go b/structstack.go
index 690a029..2426ed6 100644
--- a/structstack.go
+++ b/structstack.go
@@ -237,7 +237,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 
 	// What is encoded is the value of the out expression, if there is one.
 	if f.OutExpr != nil && f.BinaryType.Kind() != reflect.Ptr {
-		val = reflect.ValueOf(s.evalExpr(f.OutExpr))
+		val = addressable(reflect.ValueOf(s.evalExpr(f.OutExpr)))
 	}
 
 	alen := 1
-- 
2.43.0


From 9d2d39b6d8b9be948d0eaee203436d181192bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 37/58] fix: define unary plus on numbers only

---
 expr/eval.go  |  2 +-
 expr/value.go | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/expr/eval.go b/expr/eval.go
index 73f217d..897fba9 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -73,7 +73,7 @@ func evalunary(resolver Resolver, node unaryexpr) Value {
 	n := evalnode(resolver, node.n)
 	switch node.op {
 	case unaryplus:
-		return n
+		return plus(n)
 	case unarynegate:
 		return n.Negate()
 	case unarynot:
diff --git a/expr/value.go b/expr/value.go
index 960592b..3bd885e 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -194,6 +194,16 @@ func coerce(lhs Value, rhs Value) (Value, Value) {
 	panic(ConversionError{From: lhs.Type(), To: rhs.Type()})
 }
 
+// plus is the unary plus operator, which only numbers have.
+func plus(v Value) Value {
+	switch v.Type().Kind() {
+	case Int, Int8, Int16, Int32, Int64, Uint, Uint8, Uint16, Uint32, Uint64,
+		Uintptr, Float32, Float64, UntypedInt, UntypedFloat:
+		return v
+	}
+	panic(InvalidOpError{Op: "+", V: v})
+}
+
 func (v val) Type() Type {
 	return v.t
 }
-- 
2.43.0


From 51e933eb913ed17e0aab652a8d10ea3590d0cf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:55 +0000
Subject: [PATCH 38/58] fix: give negated and complemented integer literals
 their signed value

---
 expr/value.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expr/value.go b/expr/value.go
index 3bd885e..30a4888 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -237,6 +237,9 @@ func (v val) Negate() Value {
 	case uint32:
 		return val{reflect.ValueOf(-n), v.t}
 	case uint64:
+		if v.t.Kind() == UntypedInt {
+			return literalintval(-int64(n))
+		}
 		return val{reflect.ValueOf(-n), v.t}
 	case uintptr:
 		return val{reflect.ValueOf(-n), v.t}
@@ -279,6 +282,9 @@ func (v val) BitNot() Value {
 	case uint32:
 		return val{reflect.ValueOf(^n), v.t}
 	case uint64:
+		if v.t.Kind() == UntypedInt {
+			return literalintval(^int64(n))
+		}
 		return val{reflect.ValueOf(^n), v.t}
 	case uintptr:
 		return val{reflect.ValueOf(^n), v.t}
-- 
2.43.0


From 8e44963a0d0289795e50ab8c45d471b00d7aa327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 39/58] fix: accept every non-negative integer literal as a
 shift count

---
 expr/value.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/expr/value.go b/expr/value.go
index 30a4888..2024cf6 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -760,6 +760,11 @@ func (v val) Lsh(rhs Value) Value {
 		shift = uint64(rv)
 	case uintptr:
 		shift = uint64(rv)
+	case int64:
+		if rhs.Type().Kind() != UntypedInt || rv < 0 {
+			panic(InvalidOpError{Op: "<<", V: rhs})
+		}
+		shift = uint64(rv)
 	default:
 		panic(InvalidOpError{Op: "<<", V: rhs})
 	}
@@ -809,6 +814,11 @@ func (v val) Rsh(rhs Value) Value {
 		shift = uint64(rv)
 	case uintptr:
 		shift = uint64(rv)
+	case int64:
+		if rhs.Type().Kind() != UntypedInt || rv < 0 {
+			panic(InvalidOpError{Op: ">>", V: rhs})
+		}
+		shift = uint64(rv)
 	default:
 		panic(InvalidOpError{Op: ">>", V: rhs})
 	}
-- 
2.43.0


From b709e5c6b035478c342452a29fdace8b93533df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 40/58] fix: reject nil where the type has no nil value

---
 expr/value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expr/value.go b/expr/value.go
index 2024cf6..0120da6 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -152,6 +152,9 @@ func promote(from Value, to Type) Value {
 			panic(ConversionError{From: ftype, To: to})
 		}
 	case UntypedNil:
+		if !assignable(ftype, to) {
+			panic(ConversionError{From: ftype, To: to})
+		}
 		return val{reflect.Zero(toreflecttype(to)), to}
 	default:
 		panic(ConversionError{From: ftype, To: to})
-- 
2.43.0


From f9546ec15d9e4522dfa9a87cd1cb27b44f6a4242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 41/58] fix: reject escapes that are not valid code points

---
 expr/lex.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/expr/lex.go b/expr/lex.go
index c28b39d..30545a4 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -316,6 +316,14 @@ func runebytes(r rune) []byte {
 	return runebuf[:l]
 }
 
+// codepoint encodes the code point of an escape sequence.
+func codepoint(code uint64) []byte {
+	if code > utf8.MaxRune || !utf8.ValidRune(rune(code)) {
+		panic(fmt.Errorf("invalid code point %#x", code))
+	}
+	return runebytes(rune(code))
+}
+
 func (s *scanner) scanescape(quote byte) []byte {
 	switch {
 	case s.accept('a'):
@@ -358,7 +366,7 @@ func (s *scanner) scanescape(quote byte) []byte {
 		if err != nil {
 			panic(err)
 		}
-		return runebytes(rune(code))
+		return codepoint(code)
 	case s.accept('U'):
 		hex := string([]rune{
 			s.expectfn(ishex), s.expectfn(ishex), s.expectfn(ishex), s.expectfn(ishex),
@@ -368,7 +376,7 @@ func (s *scanner) scanescape(quote byte) []byte {
 		if err != nil {
 			panic(err)
 		}
-		return runebytes(rune(code))
+		return codepoint(code)
 	default:
 		panic(fmt.Errorf("unexpected escape code %c", s.readrune()))
 	}
-- 
2.43.0


From 5bb2abc89de342c8c87c883d4f0aaa4a545108ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 42/58] fix: reject a quote as an unescaped rune literal

---
 expr/lex.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expr/lex.go b/expr/lex.go
index 30545a4..a20a5f8 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -408,6 +408,8 @@ func (s *scanner) scanrune() token {
 		}
 		r := []rune(string(b))
 		return token{kind: runetoken, ival: int64(r[0])}
+	case s.accept('\''):
+		return s.errsymf("empty rune literal")
 	default:
 		return token{kind: runetoken, ival: int64(s.readrune())}
 	}
-- 
2.43.0


From c6d085e4c52719a7d373773ee9200f6f12876c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 43/58] fix: reject malformed integers instead of reading them
 as floats

---
 expr/lex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expr/lex.go b/expr/lex.go
index a20a5f8..15e87f3 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"strings"
 	"unicode"
 	"unicode/utf8"
 )
@@ -300,6 +301,8 @@ func numbertoken(t token) token {
 		t.fval = float64(t.ival)
 		t.kind = inttoken
 		t.sign = true
+	} else if err.(*strconv.NumError).Err == strconv.ErrSyntax && !strings.ContainsAny(t.sval, ".eE") {
+		return token{kind: errtoken, eval: err}
 	} else if t.fval, err = strconv.ParseFloat(t.sval, 64); err == nil {
 		t.ival = int64(t.fval)
 		t.uval = uint64(t.fval)
-- 
2.43.0


From 1c922c127ac3b5e2c1b75b2331894cd519657cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 44/58] fix: call functions without arguments

---
 expr/ast.go   | 5 ++++-
 expr/eval.go  | 3 +++
 expr/parse.go | 4 ++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/expr/ast.go b/expr/ast.go
index c7cb7d0..c2eed89 100644
--- a/expr/ast.go
+++ b/expr/ast.go
@@ -185,7 +185,10 @@ type binaryexpr struct {
 }
 
 func (n binaryexpr) source() string {
-	a, b := n.a.source(), n.b.source()
+	a, b := n.a.source(), ""
+	if n.b != nil {
+		b = n.b.source()
+	}
 	switch n.op {
 	case binarylogicalor:
 		return a + " || " + b
diff --git a/expr/eval.go b/expr/eval.go
index 897fba9..a75f168 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -90,6 +90,9 @@ func evalunary(resolver Resolver, node unaryexpr) Value {
 }
 
 func flattengroup(n node) []node {
+	if n == nil {
+		return nil
+	}
 	if n, ok := n.(binaryexpr); ok {
 		if n.op == binarygroup {
 			return append(flattengroup(n.a), flattengroup(n.b)...)
diff --git a/expr/parse.go b/expr/parse.go
index 2ccc735..e5655b4 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -126,6 +126,10 @@ func (p *parser) parseexpr(depth int) node {
 			continue
 		}
 		if n != nil && p.accept(leftparentoken) {
+			if p.accept(rightparentoken) {
+				n = binaryexpr{op: binarycall, a: n}
+				continue
+			}
 			binary(binarycall, 1)
 			p.expect(rightparentoken)
 			continue
-- 
2.43.0


From c7687646349710bf3e28a1ef6ee6e99921b8b9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 45/58] fix: reject missing operands and members that are not
 names

---
 expr/parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expr/parse.go b/expr/parse.go
index e5655b4..048a019 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -122,7 +122,8 @@ func (p *parser) parseexpr(depth int) node {
 			break
 		}
 		if n != nil && p.accept(periodtoken) {
-			binary(binarymember, 8)
+			p.expect(identtoken)
+			n = binaryexpr{op: binarymember, a: n, b: newidentnode(p.t)}
 			continue
 		}
 		if n != nil && p.accept(leftparentoken) {
@@ -265,6 +266,9 @@ func (p *parser) parseexpr(depth int) node {
 		p.expect(eoftoken)
 		break
 	}
+	if n == nil {
+		panic(fmt.Errorf("expected expression, got %s token", p.readtoken().kind))
+	}
 	return n
 }
 
-- 
2.43.0


From af1841cce5695395455ecc4d0cf3011f66a7232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 46/58] fix: reject tags that contain NUL instead of ignoring
 what follows it

---
 tag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tag.go b/tag.go
index 92ee33b..30cdf9d 100644
--- a/tag.go
+++ b/tag.go
@@ -73,6 +73,10 @@ func (opts *tagOptions) parse(tag string) error {
 		return nil
 	}
 
+	// NUL marks the end of the tag while it is being parsed.
+	if strings.IndexByte(tag, 0) >= 0 {
+		return errors.New("unexpected NUL in tag")
+	}
 	tag += "\x00"
 
 	accept := func(v string) bool {
-- 
2.43.0


From 2cdd666b77c02e1f6115c5344917402252e7f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 47/58] fix: reject sizeof and sizefrom options without a field
 name

---
 tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tag.go b/tag.go
index 30cdf9d..9df5dd1 100644
--- a/tag.go
+++ b/tag.go
@@ -100,6 +100,9 @@ func (opts *tagOptions) parse(tag string) error {
 				return "", fmt.Errorf("invalid identifier character %c", r)
 			}
 		}
+		if i == 0 {
+			return "", errors.New("expected identifier")
+		}
 		result := tag[:i]
 		tag = tag[i:]
 		return result, nil
-- 
2.43.0


From 3f7099624199d7471d8a058ad9d578bbc1eb8e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 48/58] fix: reject expression options without an expression

---
 tag.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/tag.go b/tag.go
index 9df5dd1..e109943 100644
--- a/tag.go
+++ b/tag.go
@@ -180,6 +180,15 @@ func (opts *tagOptions) parse(tag string) error {
 		return result, nil
 	}
 
+	// acceptNonEmptyExpr accepts the value of an expression option.
+	acceptNonEmptyExpr := func() (string, error) {
+		result, err := acceptExpr()
+		if err == nil && strings.TrimSpace(result) == "" {
+			err = errors.New("expected expression")
+		}
+		return result, err
+	}
+
 	var err error
 	for {
 		switch {
@@ -210,35 +219,35 @@ func (opts *tagOptions) parse(tag string) error {
 				return fmt.Errorf("skip: %v", err)
 			}
 		case accept("if="):
-			if opts.IfExpr, err = acceptExpr(); err != nil {
+			if opts.IfExpr, err = acceptNonEmptyExpr(); err != nil {
 				return fmt.Errorf("if: %v", err)
 			}
 		case accept("size="):
-			if opts.SizeExpr, err = acceptExpr(); err != nil {
+			if opts.SizeExpr, err = acceptNonEmptyExpr(); err != nil {
 				return fmt.Errorf("size: %v", err)
 			}
 		case accept("bits="):
-			if opts.BitsExpr, err = acceptExpr(); err != nil {
+			if opts.BitsExpr, err = acceptNonEmptyExpr(); err != nil {
 				return fmt.Errorf("bits: %v", err)
 			}
 		case accept("in="):
-			if opts.InExpr, err = acceptExpr(); err != nil {
+			if opts.InExpr, err = acceptNonEmptyExpr(); err != nil {
 				return fmt.Errorf("in: %v", err)
 			}
 		case accept("out="):
-			if opts.OutExpr, err = acceptExpr(); err != nil {
+			if opts.OutExpr, err = acceptNonEmptyExpr(); err != nil {
 				return fmt.Errorf("out: %v", err)
 			}
 		case accept("while="):
-			if opts.WhileExpr, err = acceptExpr(); err != nil {
+			if opts.WhileExpr, err = acceptNonEmptyExpr(); err != nil {
 				return fmt.Errorf("while: %v", err)
 			}
 		case accept("switch="):
-			if opts.SwitchExpr, err = acceptExpr(); err != nil {
+			if opts.SwitchExpr, err = acceptNonEmptyExpr(); err != nil {
 				return fmt.Errorf("switch: %v", err)
 			}
 		case accept("case="):
-			if opts.CaseExpr, err = acceptExpr(); err != nil {
+			if opts.CaseExpr, err = acceptNonEmptyExpr(); err != nil {
 				return fmt.Errorf("case: %v", err)
 			}
 		case accept("-"):
-- 
2.43.0


From f54c0baeab375cbb18ab04fecde54c2b5b688eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 49/58] fix: read array lengths in type strings as Go does

---
 typestr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typestr.go b/typestr.go
index 4dcc3a1..0a4ceb3 100644
--- a/typestr.go
+++ b/typestr.go
@@ -63,7 +63,7 @@ func typeOfExpr(expr ast.Expr) (reflect.Type, error) {
 			if lexpr.Kind != token.INT {
 				return nil, fmt.Errorf("invalid array size type")
 			}
-			len, err := strconv.Atoi(lexpr.Value)
+			len, err := strconv.ParseInt(lexpr.Value, 0, 0)
 			if err != nil {
 				return nil, err
 			}
@@ -73,7 +73,7 @@ func typeOfExpr(expr ast.Expr) (reflect.Type, error) {
 			if err != nil {
 				return nil, err
 			}
-			return reflect.ArrayOf(len, sub), nil
+			return reflect.ArrayOf(int(len), sub), nil
 		}
 	case *ast.Ident:
 		// Primitive types
-- 
2.43.0


From 61f45d5d1c0f5d82fe9f35f6c91187114d2cb4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:03 +0000
Subject: [PATCH 50/58] fix: reject counts that the input cannot satisfy before
 allocating

---
 decoder.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/decoder.go b/decoder.go
index 54e4585..817510f 100644
--- a/decoder.go
+++ b/decoder.go
@@ -162,8 +162,17 @@ func (d *decoder) readS32(f field) int32 { return int32(d.read32(f, true)) }
 
 func (d *decoder) readS64(f field) int64 { return int64(d.read64(f, true)) }
 
+// checkcount panics if the remaining input cannot hold count elements of size
+// bits each. It is used before setting memory aside for the elements.
+func (d *decoder) checkcount(count, size int) {
+	if size > 0 && count > (len(d.buf)*8-int(d.bitCounter))/size {
+		panic(io.ErrUnexpectedEOF)
+	}
+}
+
 func (d *decoder) readBytes(count int) []byte {
 	if d.bitCounter != 0 {
+		d.checkcount(count, 8)
 		x := make([]byte, count)
 		for i := 0; i < count*8; i++ {
 			putBit(x[i/8:i/8+1], 8, i%8, d.readBit())
@@ -442,6 +451,9 @@ func (d *decoder) read(f field, v reflect.Value) {
 					}
 				}
 			} else {
+				if ef := f.Elem(); isTypeTrivial(ef.BinaryType) {
+					d.checkcount(alen, d.fieldbits(ef, reflect.Zero(ef.BinaryType)))
+				}
 				v.Set(reflect.MakeSlice(f.NativeType, alen, alen))
 				fixed()
 			}
-- 
2.43.0


From 6257187f46797bb99cd4642d4d4af8e39025436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:15 +0000
Subject: [PATCH 51/58] fix: probe byte orders for endianness instead of
 comparing with binary.LittleEndian

binary.NativeEndian, for one, is little endian on most machines but a
distinct value, so bit fields were laid out as big endian with it.
---
 decoder.go |  5 +++--
 encoder.go | 16 ++++++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index 817510f..3d1a841 100644
--- a/decoder.go
+++ b/decoder.go
@@ -56,6 +56,7 @@ func (d *decoder) readBit() byte {
 
 func (d *decoder) readBits(f field, outBuf []byte) {
 	var decodedBits int
+	little := isLittleEndian(d.order)
 
 	// Determine encoded size in bits.
 	if d.bitSize == 0 {
@@ -68,7 +69,7 @@ func (d *decoder) readBits(f field, outBuf []byte) {
 		// because there is no other obvious way to deal with it.
 		//
 		// Crop output buffer to relevant bytes only.
-		if d.order == binary.LittleEndian {
+		if little {
 			outBuf = outBuf[:(decodedBits+7)/8]
 		} else {
 			outBuf = outBuf[len(outBuf)-(decodedBits+7)/8:]
@@ -86,7 +87,7 @@ func (d *decoder) readBits(f field, outBuf []byte) {
 		// reason about.
 		for i := 0; i < decodedBits; i++ {
 			buf, bitSize, bit := outBuf, decodedBits, i
-			if d.order == binary.LittleEndian {
+			if little {
 				buf, bitSize, bit = littleEndianBit(outBuf, decodedBits, i)
 			}
 			putBit(buf, bitSize, bit, d.readBit())
diff --git a/encoder.go b/encoder.go
index a441a85..eeda657 100644
--- a/encoder.go
+++ b/encoder.go
@@ -32,6 +32,17 @@ func getBit(buf []byte, bitSize int, bit int) byte {
 	return (buf[len(buf)-bit/8-1] >> (uint(bit) % 8)) & 1
 }
 
+// isLittleEndian returns true if the byte order places the least significant
+// byte first. The order is probed because it need not be one of the values
+// declared by encoding/binary: binary.NativeEndian, for instance, has a type
+// of its own.
+func isLittleEndian(order binary.ByteOrder) bool {
+	if order == binary.LittleEndian {
+		return true
+	}
+	return order != nil && order.Uint16([]byte{1, 0}) == 1
+}
+
 func (e *encoder) writeBit(value byte) {
 	e.buf[0] |= (value & 1) << uint(7-e.bitCounter)
 	e.bitCounter++
@@ -43,6 +54,7 @@ func (e *encoder) writeBit(value byte) {
 
 func (e *encoder) writeBits(f field, inBuf []byte) {
 	var encodedBits int
+	little := isLittleEndian(e.order)
 
 	// Determine encoded size in bits.
 	if e.bitSize == 0 {
@@ -55,7 +67,7 @@ func (e *encoder) writeBits(f field, inBuf []byte) {
 		// because there is no other obvious way to deal with it.
 		//
 		// Crop input buffer to relevant bytes only.
-		if e.order == binary.LittleEndian {
+		if little {
 			inBuf = inBuf[:(encodedBits+7)/8]
 		} else {
 			inBuf = inBuf[len(inBuf)-(encodedBits+7)/8:]
@@ -73,7 +85,7 @@ func (e *encoder) writeBits(f field, inBuf []byte) {
 		// reason about.
 		for i := 0; i < encodedBits; i++ {
 			buf, bitSize, bit := inBuf, encodedBits, i
-			if e.order == binary.LittleEndian {
+			if little {
 				buf, bitSize, bit = littleEndianBit(inBuf, encodedBits, i)
 			}
 			e.writeBit(getBit(buf, bitSize, bit))
-- 
2.43.0


From a9b9c4ef439419e81315293f4a1238e7af813acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:50 +0000
Subject: [PATCH 52/58] fix: keep signaling NaNs in float32 and complex64
 fields

---
 decoder.go |  8 ++++----
 encoder.go |  8 ++++----
 packing.go | 41 +++++++++++++++++++++++++++++++++++++++++
 3 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/decoder.go b/decoder.go
index 3d1a841..cbd6b3c 100644
--- a/decoder.go
+++ b/decoder.go
@@ -488,14 +488,14 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.setUint(f, v, d.readU64(f))
 
 	case reflect.Float32:
-		v.SetFloat(float64(math.Float32frombits(d.read32(f, false))))
+		setFloat32(v, math.Float32frombits(d.read32(f, false)))
 	case reflect.Float64:
 		v.SetFloat(math.Float64frombits(d.read64(f, false)))
 
 	case reflect.Complex64:
-		v.SetComplex(complex(
-			float64(math.Float32frombits(d.read32(f, false))),
-			float64(math.Float32frombits(d.read32(f, false))),
+		setComplex64(v, complex(
+			math.Float32frombits(d.read32(f, false)),
+			math.Float32frombits(d.read32(f, false)),
 		))
 	case reflect.Complex128:
 		v.SetComplex(complex(
diff --git a/encoder.go b/encoder.go
index eeda657..eeba8a0 100644
--- a/encoder.go
+++ b/encoder.go
@@ -374,14 +374,14 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.write64(f, uint64(e.uintFromField(f, ov)))
 
 	case reflect.Float32:
-		e.write32(f, math.Float32bits(float32(ov.Float())))
+		e.write32(f, math.Float32bits(float32FromField(ov)))
 	case reflect.Float64:
 		e.write64(f, math.Float64bits(float64(ov.Float())))
 
 	case reflect.Complex64:
-		x := ov.Complex()
-		e.write32(f, math.Float32bits(float32(real(x))))
-		e.write32(f, math.Float32bits(float32(imag(x))))
+		x := complex64FromField(ov)
+		e.write32(f, math.Float32bits(real(x)))
+		e.write32(f, math.Float32bits(imag(x)))
 	case reflect.Complex128:
 		x := ov.Complex()
 		e.write64(f, math.Float64bits(float64(real(x))))
diff --git a/packing.go b/packing.go
index 73c01c3..c98557b 100644
--- a/packing.go
+++ b/packing.go
@@ -54,6 +54,47 @@ func addressable(val reflect.Value) reflect.Value {
 	return c
 }
 
+// The accessors below reach float32 and complex64 values through a pointer: the
+// reflect methods convert to float64 and back, which alters signaling NaNs.
+
+func float32Ptr(v reflect.Value) *float32 {
+	return v.Addr().Convert(reflect.TypeOf((*float32)(nil))).Interface().(*float32)
+}
+
+func complex64Ptr(v reflect.Value) *complex64 {
+	return v.Addr().Convert(reflect.TypeOf((*complex64)(nil))).Interface().(*complex64)
+}
+
+func float32FromField(v reflect.Value) float32 {
+	if v.Kind() == reflect.Float32 {
+		return *float32Ptr(v)
+	}
+	return float32(v.Float())
+}
+
+func setFloat32(v reflect.Value, x float32) {
+	if v.Kind() == reflect.Float32 {
+		*float32Ptr(v) = x
+		return
+	}
+	v.SetFloat(float64(x))
+}
+
+func complex64FromField(v reflect.Value) complex64 {
+	if v.Kind() == reflect.Complex64 {
+		return *complex64Ptr(v)
+	}
+	return complex64(v.Complex())
+}
+
+func setComplex64(v reflect.Value, x complex64) {
+	if v.Kind() == reflect.Complex64 {
+		*complex64Ptr(v) = x
+		return
+	}
+	v.SetComplex(complex128(x))
+}
+
 /*
 Unpack reads data from a byteslice into a value.
 
-- 
2.43.0


From 07674708725858d4e526cb1462ba6b86b3c4612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:47 +0000
Subject: [PATCH 53/58] fix: give nil the runtime type of the other operand
 instead of rebuilding it, which never ends for recursive types

---
 expr/value.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/expr/value.go b/expr/value.go
index 0120da6..532d4ed 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -185,14 +185,23 @@ func coerce1(v Value) Value {
 	return v
 }
 
+// promoteto converts a value to the type of another one. The runtime type of nil
+// is taken from that value, since recursive types cannot be built anew.
+func promoteto(from Value, to Value) Value {
+	if from.Type().Kind() == UntypedNil {
+		return val{reflect.Zero(to.Value().Type()), to.Type()}
+	}
+	return promote(from, to.Type())
+}
+
 func coerce(lhs Value, rhs Value) (Value, Value) {
 	lhs, rhs = basic(lhs), basic(rhs)
 	if TypeEqual(lhs.Type(), rhs.Type()) {
 		return coerce1(lhs), coerce1(rhs)
 	} else if assignable(lhs.Type(), rhs.Type()) {
-		return promote(lhs, rhs.Type()), rhs
+		return promoteto(lhs, rhs), rhs
 	} else if assignable(rhs.Type(), lhs.Type()) {
-		return lhs, promote(rhs, lhs.Type())
+		return lhs, promoteto(rhs, lhs)
 	}
 	panic(ConversionError{From: lhs.Type(), To: rhs.Type()})
 }
-- 
2.43.0


From 9287e1ba300ae33f99ccd76e2dbe20f07078fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:08 +0000
Subject: [PATCH 54/58] fix: end the text of recursive types where they recur

---
 expr/type.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index 78f3dfe..84e9ba2 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -109,6 +109,27 @@ type Type interface {
 	String() string
 }
 
+// typestring spells out a type; types in terms of themselves are cut short where
+// they recur. The types around t are passed in outer.
+func typestring(t Type, outer []Type) string {
+	for _, o := range outer {
+		if o == t {
+			return "..."
+		}
+	}
+	switch ct := t.(type) {
+	case *ArrayType:
+		return fmt.Sprintf("[%d]%s", ct.count, typestring(ct.elem, append(outer, t)))
+	case *SliceType:
+		return "[]" + typestring(ct.elem, append(outer, t))
+	case *MapType:
+		return "map[" + typestring(ct.key, append(outer, t)) + "]" + typestring(ct.val, append(outer, t))
+	case *PtrType:
+		return "*" + typestring(ct.elem, append(outer, t))
+	}
+	return t.String()
+}
+
 // PrimitiveType is the type of primitives.
 type PrimitiveType struct {
 	kind Kind
@@ -237,7 +258,7 @@ func NewArrayType(count int, elem Type) *ArrayType {
 
 // String implements Type.
 func (t ArrayType) String() string {
-	return fmt.Sprintf("[%d]%s", t.count, t.elem.String())
+	return typestring(&t, nil)
 }
 
 // Kind implements Type.
@@ -267,7 +288,7 @@ func NewSliceType(elem Type) *SliceType {
 
 // String implements Type.
 func (t SliceType) String() string {
-	return "[]" + t.elem.String()
+	return typestring(&t, nil)
 }
 
 // Kind implements Type.
@@ -292,7 +313,7 @@ func NewMapType(key Type, val Type) Type {
 
 // String implements Type.
 func (t MapType) String() string {
-	return "map[" + t.key.String() + "]" + t.val.String()
+	return typestring(&t, nil)
 }
 
 // Kind implements Type.
@@ -369,7 +390,7 @@ func NewPtrType(elem Type) *PtrType {
 
 // String implements Type.
 func (t PtrType) String() string {
-	return "*" + t.elem.String()
+	return typestring(&t, nil)
 }
 
 // Kind implements Type.
-- 
2.43.0


From 2dfe5b3ceddf0e2e6c8f503fa0621662f27fe4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:13 +0000
Subject: [PATCH 55/58] fix: link every count field of a slice, not only the
 last one

---
 field.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/field.go b/field.go
index a0a2e77..b088795 100644
--- a/field.go
+++ b/field.go
@@ -176,7 +176,7 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 
 	count := typ.NumField()
 
-	sizeOfMap := map[string]int{}
+	sizeOfMap := map[string][]int{}
 
 	for i := 0; i < count; i++ {
 		val := typ.Field(i)
@@ -219,19 +219,21 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 		// SizeOf
 		sindex := -1
 		tindex := -1
-		if j, ok := sizeOfMap[val.Name]; ok {
+		if counts, ok := sizeOfMap[val.Name]; ok {
 			if !validSizeType(val.Type) {
 				panic(ErrInvalidSizeOf)
 			}
-			sindex = j
-			for k := range result {
-				if result[k].Index == j {
-					result[k].TIndex = i
+			for _, j := range counts {
+				sindex = j
+				for k := range result {
+					if result[k].Index == j {
+						result[k].TIndex = i
+					}
 				}
 			}
 			delete(sizeOfMap, val.Name)
 		} else if opts.SizeOf != "" {
-			sizeOfMap[opts.SizeOf] = i
+			sizeOfMap[opts.SizeOf] = append(sizeOfMap[opts.SizeOf], i)
 		}
 
 		// SizeFrom
-- 
2.43.0


From df9e524c390cbbfdea6caeb1034cddcd0341e1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:13 +0000
Subject: [PATCH 56/58] fix: reject lengths that differ from a shared or absent
 count

---
 encoder.go     | 3 +++
 structstack.go | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/encoder.go b/encoder.go
index eeba8a0..27d16ee 100644
--- a/encoder.go
+++ b/encoder.go
@@ -313,6 +313,9 @@ func (e *encoder) write(f field, v reflect.Value) {
 				if l := e.evalSize(f); l != ov.Len() {
 					panic(fmt.Errorf("length does not match size expression (%d != %d)", ov.Len(), l))
 				}
+			} else if f.SIndex != -1 && !countmatches(struc.Field(f.SIndex), ov.Len()) {
+				// The count is that of another field, too, or not present.
+				panic(fmt.Errorf("length of %s does not match its count", f.Name))
 			}
 			fallthrough
 		case reflect.Array:
diff --git a/structstack.go b/structstack.go
index 2426ed6..eb7a47c 100644
--- a/structstack.go
+++ b/structstack.go
@@ -102,6 +102,14 @@ func (s *structstack) setcount(f field, struc, v reflect.Value) {
 	}
 }
 
+// countmatches determines if the count in v is n.
+func countmatches(v reflect.Value, n int) bool {
+	if isUint(v) {
+		return v.Uint() == uint64(n)
+	}
+	return isInt(v) && v.Int() == int64(n)
+}
+
 func (s *structstack) countbits(f field) int {
 	if b := s.evalBits(f); b > 0 {
 		return b
-- 
2.43.0


From 25d7ed445a00b469f3e0fc280da42fc76219ac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:50 +0000
Subject: [PATCH 57/58] fix: leave decoded byte slices no capacity in the input

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index cbd6b3c..a492e46 100644
--- a/decoder.go
+++ b/decoder.go
@@ -180,7 +180,7 @@ func (d *decoder) readBytes(count int) []byte {
 		}
 		return x
 	}
-	x := d.buf[0:count]
+	x := d.buf[0:count:count]
 	d.buf = d.buf[count:]
 	return x
 }
-- 
2.43.0


From e5d4e7fa8f233b1fd1bad20f1f155cc01d49738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:40 +0000
Subject: [PATCH 58/58] fix: reject bit counts that an expression puts out of
 range

---
 structstack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structstack.go b/structstack.go
index eb7a47c..9b317da 100644
--- a/structstack.go
+++ b/structstack.go
@@ -43,6 +43,9 @@ func (s *structstack) evalBits(f field) int {
 	}
 	if f.BitsExpr != nil {
 		bits = reflect.ValueOf(s.evalExpr(f.BitsExpr)).Convert(reflect.TypeOf(int(0))).Interface().(int)
+		if bits < 0 || bits > f.BinaryType.Bits() {
+			panic(fmt.Errorf("bit size %d of %s out of range (0 to %d)", bits, f.Name, f.BinaryType.Bits()))
+		}
 	}
 	return bits
 }
-- 
2.43.0

