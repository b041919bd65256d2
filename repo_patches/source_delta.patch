From 12491b34e33d9732b3adc2607ad4d22893681d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 01/33] fix: reject malformed length prefixes in
 UnmarshalBinaryLengthPrefixedReader

An overflowing or unterminated prefix was decoded as length zero, a length
over 2^63 panicked, reading continued past maxSize, a short Read corrupted
the prefix, and the claimed length was allocated before any byte of it was
read.
---
 amino.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/amino.go b/amino.go
index 9716ae7..025e1c1 100644
--- a/amino.go
+++ b/amino.go
@@ -297,7 +297,8 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 	var l int64
 	var buf [binary.MaxVarintLen64]byte
 	for i := 0; i < len(buf); i++ {
-		_, err = r.Read(buf[i : i+1])
+		// NOTE: a single Read() may return zero bytes, or a byte and io.EOF.
+		_, err = io.ReadFull(r, buf[i:i+1])
 		if err != nil {
 			return
 		}
@@ -305,15 +306,17 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 		if buf[i]&0x80 == 0 {
 			break
 		}
-		if n >= maxSize {
+		if maxSize > 0 && n >= maxSize {
 			err = errors.Errorf(
 				"read overflow, maxSize is %v but uvarint(length-prefix) is itself greater than maxSize",
 				maxSize,
 			)
+			return
 		}
 	}
-	u64, _ := binary.Uvarint(buf[:])
-	if err != nil {
+	u64, _n := binary.Uvarint(buf[:n])
+	if _n <= 0 {
+		err = errors.Errorf("Error reading msg byte-length prefix: got code %v", _n)
 		return
 	}
 	if maxSize > 0 {
@@ -331,21 +334,26 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 	}
 	l = int64(u64)
 	if l < 0 {
-		_ = errors.Errorf( //nolint:errcheck
+		err = errors.Errorf(
 			"read overflow, this implementation can't read this because, why would anyone have this much data? Hello from 2018",
 		)
+		return
 	}
 
 	// Read that many bytes.
-	var bz = make([]byte, l)
-	_, err = io.ReadFull(r, bz)
+	// NOTE: do not allocate l bytes up front, as the prefix may be bogus.
+	var bz bytes.Buffer
+	_n64, err := io.CopyN(&bz, r, l)
 	if err != nil {
+		if err == io.EOF && _n64 > 0 {
+			err = io.ErrUnexpectedEOF
+		}
 		return
 	}
 	n += l
 
 	// Decode.
-	err = cdc.UnmarshalBinaryBare(bz, ptr)
+	err = cdc.UnmarshalBinaryBare(bz.Bytes(), ptr)
 	return n, err
 }
 
-- 
2.43.0


From 8aa26e07621a5fb706dba6a914670d7c3870c66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 02/33] fix: report a stream truncated inside a message as
 io.ErrUnexpectedEOF

io.EOF from UnmarshalBinaryLengthPrefixedReader now only means that the
stream ended at a message boundary.
---
 amino.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amino.go b/amino.go
index 025e1c1..9ee38ed 100644
--- a/amino.go
+++ b/amino.go
@@ -300,6 +300,9 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 		// NOTE: a single Read() may return zero bytes, or a byte and io.EOF.
 		_, err = io.ReadFull(r, buf[i:i+1])
 		if err != nil {
+			if err == io.EOF && n > 0 {
+				err = io.ErrUnexpectedEOF
+			}
 			return
 		}
 		n++
@@ -343,9 +346,9 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 	// Read that many bytes.
 	// NOTE: do not allocate l bytes up front, as the prefix may be bogus.
 	var bz bytes.Buffer
-	_n64, err := io.CopyN(&bz, r, l)
+	_, err = io.CopyN(&bz, r, l)
 	if err != nil {
-		if err == io.EOF && _n64 > 0 {
+		if err == io.EOF {
 			err = io.ErrUnexpectedEOF
 		}
 		return
-- 
2.43.0


From 1bd61340a31c074a0ee47d324e9f9772c38f8b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 03/33] fix: reject varints that overflow uint32 instead of
 truncating them

---
 binary-decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index 8259e91..f5f0aef 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -226,6 +226,10 @@ func (cdc *Codec) decodeReflectBinary(bz []byte, info *TypeInfo,
 			if slide(&bz, &n, _n) && err != nil {
 				return
 			}
+			if num > math.MaxUint32 {
+				err = ErrOverflowInt
+				return
+			}
 			rv.SetUint(num)
 		}
 		return
-- 
2.43.0


From 7ffe450a0984d47e35888ec4c01cf9f6c36d9470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 04/33] fix: keep nested values within their length prefix when
 decoding

The length of a non-minimally encoded length prefix was miscounted, and bytes
left over inside a nested time or list were re-read as fields of the
enclosing struct.
---
 binary-decode.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index f5f0aef..d69a691 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -345,7 +345,8 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		// NOTE: the length itself may not be minimally encoded.
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -492,7 +493,8 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		// NOTE: the length itself may not be minimally encoded.
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -586,6 +588,11 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 				err = fmt.Errorf("unexpected field number %v after repeated field number %v", fnum, fopts.BinFieldNum)
 				return
 			}
+			// Other fields may follow only if the list has no length of its own.
+			if !bare {
+				err = errors.New("bytes left over after reading array contents")
+				return
+			}
 		}
 	}
 	return n, err
@@ -670,7 +677,8 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		// NOTE: the length itself may not be minimally encoded.
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -758,6 +766,11 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			}
 			srv = reflect.Append(srv, erv)
 		}
+		// Other fields may follow only if the list has no length of its own.
+		if !bare && len(bz) > 0 {
+			err = errors.New("bytes left over after reading slice contents")
+			return
+		}
 	}
 	rv.Set(srv)
 	return n, err
@@ -788,7 +801,8 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		// NOTE: the length itself may not be minimally encoded.
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -801,6 +815,10 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 		if slide(&bz, &n, _n) && err != nil {
 			return
 		}
+		if !bare && len(bz) > 0 {
+			err = errors.New("bytes left over after reading time contents")
+			return
+		}
 		rv.Set(reflect.ValueOf(t))
 
 	default:
-- 
2.43.0


From 90a3c095b8b3f1f6435e847bc03b8a3dc86d4aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 05/33] fix: skip unknown repeated fields when decoding a
 struct

A field added by a newer schema could be skipped only once, so data with two
or more elements of an added list was rejected.
---
 binary-decode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binary-decode.go b/binary-decode.go
index d69a691..2b3711a 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -903,7 +903,9 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 			if slide(&bz, &n, _n) && err != nil {
 				return
 			}
-			if fnum <= lastFieldNum {
+			// NOTE: An unknown field may be a repeated one.
+			isUnknown := fnum > uint32(len(info.Fields))
+			if fnum < lastFieldNum || (fnum == lastFieldNum && !isUnknown) {
 				err = fmt.Errorf("encountered fieldnNum: %v, but we have already seen fnum: %v\nbytes:%X",
 					fnum, lastFieldNum, bz)
 				return
-- 
2.43.0


From 91103b009c3e8930231eb02356aae689ba43686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 06/33] fix: return an error when a decoded concrete type does
 not implement the interface

A name or disambiguation bytes of a registered type that does not implement
the target interface made reflect.Set panic.
---
 binary-decode.go | 4 ++++
 json-decode.go   | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 2b3711a..b37a81f 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -372,6 +372,10 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 
 	// Construct the concrete type.
 	var crv, irvSet = constructConcreteType(cinfo)
+	if !irvSet.Type().Implements(iinfo.Type) {
+		err = fmt.Errorf("concrete type %v does not implement %v", irvSet.Type(), iinfo.Type)
+		return
+	}
 	isKnownType := (cinfo.Type.Kind() != reflect.Map) && (cinfo.Type.Kind() != reflect.Func)
 	if !isStructOrRepeatedStruct(cinfo) &&
 		!isPointerToStructOrToRepeatedStruct(crv, cinfo.Type) &&
diff --git a/json-decode.go b/json-decode.go
index d6bc0ff..c612db3 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -201,8 +201,6 @@ func (cdc *Codec) decodeReflectJSONInterface(bz []byte, iinfo *TypeInfo, rv refl
 	if err != nil {
 		return
 	}
-	// XXX: Check name against interface to make sure that it actually
-	// matches, and return an error if it doesn't.
 
 	// NOTE: Unlike decodeReflectBinaryInterface, we already dealt with nil in decodeReflectJSON.
 	// NOTE: We also "consumed" the interface wrapper by replacing `bz` above.
@@ -217,6 +215,10 @@ func (cdc *Codec) decodeReflectJSONInterface(bz []byte, iinfo *TypeInfo, rv refl
 
 	// Construct the concrete type.
 	var crv, irvSet = constructConcreteType(cinfo)
+	if !irvSet.Type().Implements(iinfo.Type) {
+		err = errors.Errorf("concrete type %v does not implement %v", irvSet.Type(), iinfo.Type)
+		return
+	}
 
 	// Decode into the concrete type.
 	err = cdc.decodeReflectJSON(bz, cinfo, crv, fopts)
-- 
2.43.0


From dd7507f746829b5e61c72c0b3551649ac68e2d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 07/33] fix: decode non-struct concrete values of interfaces as
 they were encoded

A field key was expected in the first field of a struct and in list elements,
though only MarshalBinaryBare writes one, and the length that
MarshalBinaryBare writes for a list was decoded as elements.
---
 binary-decode.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index b37a81f..4ce6913 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -377,12 +377,15 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 		return
 	}
 	isKnownType := (cinfo.Type.Kind() != reflect.Map) && (cinfo.Type.Kind() != reflect.Func)
-	if !isStructOrRepeatedStruct(cinfo) &&
+	// NOTE: Only MarshalBinaryBare writes a field key, not the encoder of
+	// interface fields and elements.
+	cbare := true
+	if bare &&
+		!isStructOrRepeatedStruct(cinfo) &&
 		!isPointerToStructOrToRepeatedStruct(crv, cinfo.Type) &&
 		len(bz) > 0 &&
 		(crv.Kind() != reflect.Interface) &&
-		isKnownType &&
-		fopts.BinFieldNum == 1 {
+		isKnownType {
 		var (
 			fnum      uint32
 			typ       Typ3
@@ -401,10 +404,11 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 				typWanted, fnum, cinfo.Type, typ)
 		}
 		slide(&bz, &n, nFnumTyp3)
+		cbare = typWanted != Typ3ByteLength
 	}
 
 	// Decode into the concrete type.
-	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, true)
+	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, cbare)
 	if slide(&bz, &n, _n) && err != nil {
 		rv.Set(irvSet) // Helps with debugging
 		return
-- 
2.43.0


From 867af7df5971ba5881e731e39ab6012c39ec61cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 08/33] fix: decode the empty encoding of a default value that
 is not a struct

MarshalBinaryBare writes nothing (besides prefix bytes) for 0, false, "" and
so on, which UnmarshalBinaryBare then refused to decode.
---
 amino.go         | 29 +++++++++++++++++++++++++++++
 binary-decode.go |  6 ++++++
 2 files changed, 35 insertions(+)

diff --git a/amino.go b/amino.go
index 9ee38ed..cd55fe3 100644
--- a/amino.go
+++ b/amino.go
@@ -399,6 +399,17 @@ func (cdc *Codec) UnmarshalBinaryBare(bz []byte, ptr interface{}) error {
 		}
 		bz = bz[4:]
 	}
+	// A default value is not written, see writeFieldIfNotEmpty.
+	if len(bz) == 0 && isOmittedIfDefault(info) {
+		for rv.Kind() == reflect.Ptr {
+			if rv.IsNil() {
+				rv.Set(reflect.New(rv.Type().Elem()))
+			}
+			rv = rv.Elem()
+		}
+		rv.Set(info.ZeroValue)
+		return nil
+	}
 	// Only add length prefix if we have another typ3 then Typ3ByteLength.
 	// Default is non-length prefixed:
 	bare := true
@@ -455,6 +466,24 @@ func (cdc *Codec) UnmarshalBinaryBare(bz []byte, ptr interface{}) error {
 	return nil
 }
 
+// Returns true if MarshalBinaryBare writes nothing for the default value of
+// the type (besides prefix bytes).
+func isOmittedIfDefault(info *TypeInfo) bool {
+	if isStructOrRepeatedStruct(info) {
+		return false
+	}
+	switch info.Type.Kind() {
+	case reflect.Bool, reflect.String, reflect.Slice,
+		reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8, reflect.Int,
+		reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8, reflect.Uint:
+		return true
+	case reflect.Array:
+		return info.Type.Len() == 0 || info.IsAminoUnmarshaler
+	default:
+		return false
+	}
+}
+
 func isStructOrRepeatedStruct(info *TypeInfo) bool {
 	if info.Type.Kind() == reflect.Struct {
 		return true
diff --git a/binary-decode.go b/binary-decode.go
index 4ce6913..07531f4 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -407,6 +407,12 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 		cbare = typWanted != Typ3ByteLength
 	}
 
+	// A default value is not written by MarshalBinaryBare.
+	if bare && len(bz) == 0 && isOmittedIfDefault(cinfo) {
+		rv.Set(irvSet)
+		return n, err
+	}
+
 	// Decode into the concrete type.
 	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, cbare)
 	if slide(&bz, &n, _n) && err != nil {
-- 
2.43.0


From dcfdde0cce89447f0d72748313bf5289301a563d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 09/33] fix: encode lists of lists of bytes instead of dropping
 their elements

Lists whose elements are byte slices or byte arrays are allowed, but at top
level and as list elements nothing was written for them.
---
 binary-encode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/binary-encode.go b/binary-encode.go
index d10ebfc..6bdfa1d 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -81,9 +81,10 @@ func (cdc *Codec) encodeReflectBinary(w io.Writer, info *TypeInfo, rv reflect.Va
 						break
 					}
 					err = errors.New("multidimensional arrays not allowed")
-					break
+					return
 				}
 			}
+			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		} else {
 			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		}
@@ -106,8 +107,9 @@ func (cdc *Codec) encodeReflectBinary(w io.Writer, info *TypeInfo, rv reflect.Va
 					break
 				}
 				err = errors.New("multidimensional slices not allowed")
-				break
+				return
 			}
+			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		default:
 			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		}
-- 
2.43.0


From 1febdb6ac39ada5eaf51760a2a7eedc3ba3e84c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 10/33] fix: number the elements of top-level lists from 1

MarshalBinaryBare keyed the elements of a list that is not a struct field with
field number 0, which is invalid in proto3 and rejected by
UnmarshalBinaryBare.
---
 amino.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amino.go b/amino.go
index cd55fe3..c9c9513 100644
--- a/amino.go
+++ b/amino.go
@@ -219,7 +219,7 @@ func (cdc *Codec) MarshalBinaryBare(o interface{}) ([]byte, error) {
 		writeEmpty := false
 		typ3 := typeToTyp3(info.Type, FieldOptions{})
 		bare := typ3 != Typ3ByteLength
-		if err = cdc.writeFieldIfNotEmpty(buf, 1, info, FieldOptions{}, FieldOptions{}, rv, writeEmpty, bare); err != nil {
+		if err = cdc.writeFieldIfNotEmpty(buf, 1, info, FieldOptions{}, FieldOptions{BinFieldNum: 1}, rv, writeEmpty, bare); err != nil {
 			return nil, err
 		}
 		bz = buf.Bytes()
-- 
2.43.0


From 79882e03bc029fef1c68b51a44ab46105d84b309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 11/33] fix: support nil pointers and nil interfaces with
 write_empty

Encoding a nil pointer field tagged write_empty panicked, and the empty bytes
written for a nil interface could not be decoded.
---
 binary-decode.go | 5 +++++
 binary-encode.go | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/binary-decode.go b/binary-decode.go
index 07531f4..5b1160d 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -350,6 +350,11 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 		bz = buf
 	}
 
+	// Special case when the byteslice is empty, the interface is nil.
+	if !bare && len(bz) == 0 {
+		return
+	}
+
 	// Consume disambiguation / prefix bytes.
 	disamb, hasDisamb, prefix, hasPrefix, _n, err := DecodeDisambPrefixBytes(bz)
 	if slide(&bz, &n, _n) && err != nil {
diff --git a/binary-encode.go b/binary-encode.go
index 6bdfa1d..dd6c2e1 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -444,9 +444,10 @@ func (cdc *Codec) encodeReflectBinaryStruct(w io.Writer, info *TypeInfo, rv refl
 			var frv = rv.Field(field.Index)
 			var frvIsPtr = frv.Kind() == reflect.Ptr
 			var dfrv, isDefault = isDefaultValue(frv)
-			if isDefault && !field.WriteEmpty {
+			if isDefault && (!field.WriteEmpty || !dfrv.IsValid()) {
 				// Do not encode default value fields
 				// (except when `amino:"write_empty"` is set).
+				// Nil pointers are never encoded.
 				continue
 			}
 			if field.UnpackedList {
-- 
2.43.0


From 98077c4f85b24d7ea2c6a74e1e4483ee3d7fcdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 12/33] fix: release the codec's lock when a type cannot be
 used

A panic for an unsupported type left the mutex locked, so that every later
call on the codec blocked forever.
---
 codec.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/codec.go b/codec.go
index b8b4c9b..5a72f8e 100644
--- a/codec.go
+++ b/codec.go
@@ -364,10 +364,8 @@ func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
 }
 
 func (cdc *Codec) getTypeInfoWlock(rt reflect.Type) (info *TypeInfo, err error) {
-	// We do not use defer cdc.mtx.Unlock() here due to performance overhead of
-	// defer in go1.11 (and prior versions). Ensure new code paths unlock the
-	// mutex.
-	cdc.mtx.Lock() // requires wlock because we might set.
+	cdc.mtx.Lock()         // requires wlock because we might set.
+	defer cdc.mtx.Unlock() // newTypeInfoUnregistered may panic.
 
 	// Dereference pointer type.
 	for rt.Kind() == reflect.Ptr {
@@ -378,14 +376,12 @@ func (cdc *Codec) getTypeInfoWlock(rt reflect.Type) (info *TypeInfo, err error)
 	if !ok {
 		if rt.Kind() == reflect.Interface {
 			err = fmt.Errorf("unregistered interface %v", rt)
-			cdc.mtx.Unlock()
 			return
 		}
 
 		info = cdc.newTypeInfoUnregistered(rt)
 		cdc.setTypeInfoNolock(info)
 	}
-	cdc.mtx.Unlock()
 	return info, nil
 }
 
-- 
2.43.0


From fb0717e31addc5b026d1856674b352ee3795e1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 13/33] fix: leave the codec unchanged when RegisterConcrete
 panics

A conflicting registration left the type behind as known, listed or as an
implementer of some interfaces, which broke later calls.
---
 codec.go | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/codec.go b/codec.go
index 5a72f8e..86c08ba 100644
--- a/codec.go
+++ b/codec.go
@@ -237,6 +237,7 @@ func (cdc *Codec) RegisterConcrete(o interface{}, name string, copts *ConcreteOp
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		cdc.checkNotYetSetNolock(info)
 		cdc.addCheckConflictsWithConcreteNolock(info)
 		cdc.setTypeInfoNolock(info)
 	}()
@@ -335,7 +336,8 @@ func (cdc *Codec) assertNotSealed() {
 	}
 }
 
-func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
+// Panics if info can't be set, without changing anything.
+func (cdc *Codec) checkNotYetSetNolock(info *TypeInfo) {
 
 	if info.Type.Kind() == reflect.Ptr {
 		panic(fmt.Sprintf("unexpected pointer type"))
@@ -343,12 +345,7 @@ func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
 	if _, ok := cdc.typeInfos[info.Type]; ok {
 		panic(fmt.Sprintf("TypeInfo already exists for %v", info.Type))
 	}
-
-	cdc.typeInfos[info.Type] = info
-	if info.Type.Kind() == reflect.Interface {
-		cdc.interfaceInfos = append(cdc.interfaceInfos, info)
-	} else if info.Registered {
-		cdc.concreteInfos = append(cdc.concreteInfos, info)
+	if info.Registered {
 		disfix := info.GetDisfix()
 		if existing, ok := cdc.disfixToTypeInfo[disfix]; ok {
 			panic(fmt.Sprintf("disfix <%X> already registered for %v", disfix, existing.Type))
@@ -356,6 +353,19 @@ func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
 		if existing, ok := cdc.nameToTypeInfo[info.Name]; ok {
 			panic(fmt.Sprintf("name <%s> already registered for %v", info.Name, existing.Type))
 		}
+	}
+}
+
+func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
+
+	cdc.checkNotYetSetNolock(info)
+
+	cdc.typeInfos[info.Type] = info
+	if info.Type.Kind() == reflect.Interface {
+		cdc.interfaceInfos = append(cdc.interfaceInfos, info)
+	} else if info.Registered {
+		cdc.concreteInfos = append(cdc.concreteInfos, info)
+		disfix := info.GetDisfix()
 		cdc.disfixToTypeInfo[disfix] = info
 		cdc.nameToTypeInfo[info.Name] = info
 		//cdc.prefixToTypeInfos[prefix] =
@@ -656,21 +666,32 @@ func (cdc *Codec) addCheckConflictsWithConcreteNolock(cinfo *TypeInfo) {
 	// Iterate over registered interfaces that this "implements".
 	// "Implement" in quotes because we only consider the pointer, for extra
 	// safety.
+	var undos []func()
 	for _, iinfo := range cdc.interfaceInfos {
 		if !cinfo.PtrToType.Implements(iinfo.Type) {
 			continue
 		}
 
 		// Add cinfo to iinfo.Implementers.
-		var origImpls = iinfo.Implementers[cinfo.Prefix]
-		iinfo.Implementers[cinfo.Prefix] = append(origImpls, cinfo)
+		var impls = iinfo.Implementers
+		var origImpls, hadImpls = impls[cinfo.Prefix]
+		impls[cinfo.Prefix] = append(origImpls, cinfo)
+		undos = append(undos, func() {
+			if hadImpls {
+				impls[cinfo.Prefix] = origImpls
+			} else {
+				delete(impls, cinfo.Prefix)
+			}
+		})
 
 		// Finally, check that all conflicts are in `.Priority`.
 		// NOTE: This could be optimized, but it's non-trivial.
 		err := cdc.checkConflictsInPrioNolock(iinfo)
 		if err != nil {
 			// Return to previous state.
-			iinfo.Implementers[cinfo.Prefix] = origImpls
+			for _, undo := range undos {
+				undo()
+			}
 			panic(err)
 		}
 	}
-- 
2.43.0


From b7a7e395114200c58e23fdf29ae2eb12815e2a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 14/33] fix: do not register types after Seal() has returned

A registration that had started before Seal() could still be applied after it.
---
 codec.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codec.go b/codec.go
index 86c08ba..373575c 100644
--- a/codec.go
+++ b/codec.go
@@ -168,6 +168,7 @@ func (cdc *Codec) RegisterInterface(ptr interface{}, iopts *InterfaceOptions) {
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		cdc.assertNotSealedNolock() // Seal() may have been called meanwhile.
 		cdc.collectImplementersNolock(info)
 		err := cdc.checkConflictsInPrioNolock(info)
 		if err != nil {
@@ -237,6 +238,7 @@ func (cdc *Codec) RegisterConcrete(o interface{}, name string, copts *ConcreteOp
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		cdc.assertNotSealedNolock() // Seal() may have been called meanwhile.
 		cdc.checkNotYetSetNolock(info)
 		cdc.addCheckConflictsWithConcreteNolock(info)
 		cdc.setTypeInfoNolock(info)
@@ -331,6 +333,10 @@ func (cdc *Codec) assertNotSealed() {
 	cdc.mtx.Lock()
 	defer cdc.mtx.Unlock()
 
+	cdc.assertNotSealedNolock()
+}
+
+func (cdc *Codec) assertNotSealedNolock() {
 	if cdc.sealed {
 		panic("codec sealed")
 	}
-- 
2.43.0


From fff7b28a4529043d0bec7dfaf3ad82d251a53631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 15/33] fix: read an interface's implementers under the codec's
 lock when encoding

Encoding an interface value while a concrete type is registered was a
concurrent map read and map write.
---
 binary-encode.go | 2 +-
 codec.go         | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/binary-encode.go b/binary-encode.go
index dd6c2e1..d1ed577 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -247,7 +247,7 @@ func (cdc *Codec) encodeReflectBinaryInterface(w io.Writer, iinfo *TypeInfo, rv
 	needDisamb := false
 	if iinfo.AlwaysDisambiguate {
 		needDisamb = true
-	} else if len(iinfo.Implementers[cinfo.Prefix]) > 1 {
+	} else if cdc.hasPrefixConflictRlock(iinfo, cinfo.Prefix) {
 		needDisamb = true
 	}
 	if needDisamb {
diff --git a/codec.go b/codec.go
index 373575c..4fb7715 100644
--- a/codec.go
+++ b/codec.go
@@ -425,6 +425,15 @@ func (cdc *Codec) getTypeInfoFromPrefixRlock(iinfo *TypeInfo, pb PrefixBytes) (i
 	return
 }
 
+// Returns true if more than one registered concrete type that implements the
+// interface has prefix bytes pb.
+func (cdc *Codec) hasPrefixConflictRlock(iinfo *TypeInfo, pb PrefixBytes) bool {
+	cdc.mtx.RLock()
+	defer cdc.mtx.RUnlock()
+
+	return len(iinfo.Implementers[pb]) > 1
+}
+
 func (cdc *Codec) getTypeInfoFromDisfixRlock(df DisfixBytes) (info *TypeInfo, err error) {
 	// We do not use defer cdc.mtx.Unlock() here due to performance overhead of
 	// defer in go1.11 (and prior versions). Ensure new code paths unlock the
-- 
2.43.0


From f0379969dc3c15465350fc47f9760670cd2bde53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 16/33] fix: do not panic on a lone quote when decoding a JSON
 integer

---
 json-decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json-decode.go b/json-decode.go
index c612db3..1dc2e0f 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -116,7 +116,7 @@ func (cdc *Codec) decodeReflectJSON(bz []byte, info *TypeInfo, rv reflect.Value,
 	case reflect.Int64, reflect.Int:
 		fallthrough
 	case reflect.Uint64, reflect.Uint:
-		if bz[0] != '"' || bz[len(bz)-1] != '"' {
+		if len(bz) < 2 || bz[0] != '"' || bz[len(bz)-1] != '"' {
 			err = errors.Errorf(
 				"invalid character -- Amino:JSON int/int64/uint/uint64 expects quoted values for javascript numeric support, got: %v", // nolint: lll
 				string(bz),
-- 
2.43.0


From 79d53e645d7083d1ce1c4f95231074bd2fb9527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 17/33] fix: decode JSON maps whose key type is a named string
 type

---
 json-decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json-decode.go b/json-decode.go
index 1dc2e0f..a9dc133 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -469,7 +469,7 @@ func (cdc *Codec) decodeReflectJSONMap(bz []byte, info *TypeInfo, rv reflect.Val
 		}
 
 		// And set.
-		krv := reflect.New(reflect.TypeOf("")).Elem()
+		krv := reflect.New(krt).Elem()
 		krv.SetString(key)
 		mrv.SetMapIndex(krv, vrv)
 	}
-- 
2.43.0


From 2972c3f889f6db702ad0991b1c8dc63e59504ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 18/33] fix: escape the registered name in the JSON wrapper

A name with a quote, a backslash or a control character produced invalid
JSON.
---
 amino.go       |  2 +-
 json-encode.go | 20 +++++++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/amino.go b/amino.go
index c9c9513..a3362af 100644
--- a/amino.go
+++ b/amino.go
@@ -546,7 +546,7 @@ func (cdc *Codec) MarshalJSON(o interface{}) ([]byte, error) {
 
 	// Write the disfix wrapper if it is a registered concrete type.
 	if info.Registered {
-		err = writeStr(w, _fmt(`{"type":"%s","value":`, info.Name))
+		err = writeDisfixWrapperJSON(w, info.Name)
 		if err != nil {
 			return nil, err
 		}
diff --git a/json-encode.go b/json-encode.go
index 1d2778c..5ca32d1 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -1,10 +1,12 @@
 package amino
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
 	"reflect"
+	"strings"
 	"time"
 
 	"github.com/pkg/errors"
@@ -171,7 +173,7 @@ func (cdc *Codec) encodeReflectJSONInterface(w io.Writer, iinfo *TypeInfo, rv re
 
 	// Write interface wrapper.
 	// Part 1:
-	err = writeStr(w, _fmt(`{"type":"%s","value":`, cinfo.Name))
+	err = writeDisfixWrapperJSON(w, cinfo.Name)
 	if err != nil {
 		return
 	}
@@ -434,15 +436,23 @@ func invokeStdlibJSONMarshal(w io.Writer, v interface{}) error {
 	return err
 }
 
+// Writes the start of the wrapper of a registered concrete value.
+func writeDisfixWrapperJSON(w io.Writer, name string) error {
+	var buf bytes.Buffer
+	enc := json.NewEncoder(&buf)
+	enc.SetEscapeHTML(false)
+	if err := enc.Encode(name); err != nil {
+		return err
+	}
+	// NOTE: Encode() adds a newline.
+	return writeStr(w, `{"type":`+strings.TrimSuffix(buf.String(), "\n")+`,"value":`)
+}
+
 func writeStr(w io.Writer, s string) (err error) {
 	_, err = w.Write([]byte(s))
 	return
 }
 
-func _fmt(s string, args ...interface{}) string {
-	return fmt.Sprintf(s, args...)
-}
-
 // For json:",omitempty".
 // Returns true for zero values, but also non-nil zero-length slices and strings.
 func isEmpty(rv reflect.Value, zrv reflect.Value) bool {
-- 
2.43.0


From 9607ccb096dbefb97822846134b2f9f20105152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 19/33] fix: encode JSON maps in the order of their keys

The order was that of Go's map iteration, so that equal values had different
encodings.
---
 json-encode.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json-encode.go b/json-encode.go
index 5ca32d1..1b753d5 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"sort"
 	"strings"
 	"time"
 
@@ -369,7 +370,11 @@ func (cdc *Codec) encodeReflectJSONMap(w io.Writer, info *TypeInfo, rv reflect.V
 	}
 
 	var writeComma = false
-	for _, krv := range rv.MapKeys() {
+	var keys = rv.MapKeys()
+	sort.Slice(keys, func(i, j int) bool { // for determinism
+		return keys[i].String() < keys[j].String()
+	})
+	for _, krv := range keys {
 		// Get dereferenced object value and info.
 		var vrv, _, isNil = derefPointers(rv.MapIndex(krv))
 
-- 
2.43.0


From f2d399438484e49527cf10e46fee36ee9e318152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 20/33] fix: DeepCopy copies slices instead of aliasing them

---
 deep_copy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deep_copy.go b/deep_copy.go
index 8e9a157..024b190 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -83,7 +83,7 @@ func _deepCopy(src, dst reflect.Value) {
 			cpy := reflect.MakeSlice(
 				src.Type(), src.Len(), src.Len())
 			reflect.Copy(cpy, src)
-			dst.Set(src)
+			dst.Set(cpy)
 			return
 		default:
 			cpy := reflect.MakeSlice(
@@ -93,7 +93,7 @@ func _deepCopy(src, dst reflect.Value) {
 				ecpy := cpy.Index(i)
 				deepCopy(esrc, ecpy)
 			}
-			dst.Set(src)
+			dst.Set(cpy)
 			return
 		}
 
-- 
2.43.0


From 29a48e5255ce7e7d2bd7877fd9e1adaa188c9e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 21/33] fix: DeepCopy copies the values of maps instead of
 aliasing them

---
 deep_copy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deep_copy.go b/deep_copy.go
index 024b190..bafd920 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -118,7 +118,8 @@ func _deepCopy(src, dst reflect.Value) {
 		cpy := reflect.MakeMapWithSize(src.Type(), src.Len())
 		keys := src.MapKeys()
 		for _, key := range keys {
-			val := src.MapIndex(key)
+			val := reflect.New(src.Type().Elem()).Elem()
+			deepCopy(src.MapIndex(key), val)
 			cpy.SetMapIndex(key, val)
 		}
 		dst.Set(cpy)
-- 
2.43.0


From dacff6fc160af8fba8030e2d0b2fc2f4ab9caa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 22/33] fix: DeepCopy handles pointers to nil and values with
 MarshalAmino

Copying a pointer to a nil pointer or interface panicked, as did a value in an
addressable struct or slice whose type implements MarshalAmino and
UnmarshalAmino; values that are not addressable lost their unexported state.
---
 deep_copy.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/deep_copy.go b/deep_copy.go
index bafd920..0ad58a9 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -43,7 +43,7 @@ func _deepCopy(src, dst reflect.Value) {
 	switch src.Kind() {
 	case reflect.Ptr:
 		cpy := reflect.New(src.Type().Elem())
-		_deepCopy(src.Elem(), cpy.Elem())
+		deepCopy(src.Elem(), cpy.Elem())
 		dst.Set(cpy)
 		return
 
@@ -184,26 +184,22 @@ func callAminoCopy(src, dst reflect.Value) bool {
 	if src.Type() != dst.Type() {
 		panic("should not happen")
 	}
+	isPtr := src.Kind() == reflect.Ptr
 	switch {
-	case src.Kind() == reflect.Ptr:
-		cpy := reflect.New(src.Type().Elem())
-		dst.Set(cpy)
+	case isPtr:
 	case src.CanAddr():
-		if !dst.CanAddr() {
-			panic("should not happen")
-		}
 		src = src.Addr()
-		dst = dst.Addr()
 	default:
-		return false
+		ptr := reflect.New(src.Type())
+		ptr.Elem().Set(src)
+		src = ptr
 	}
 	if !canAminoCopy(src) {
 		return false
 	}
 	cpy := reflect.New(src.Type().Elem())
-	dst.Set(cpy)
 	ma := src.MethodByName("MarshalAmino")
-	ua := dst.MethodByName("UnmarshalAmino")
+	ua := cpy.MethodByName("UnmarshalAmino")
 	outs := ma.Call(nil)
 	repr, err := outs[0], outs[1]
 	if !err.IsNil() {
@@ -214,6 +210,11 @@ func callAminoCopy(src, dst reflect.Value) bool {
 	if !err.IsNil() {
 		panic(err.Interface())
 	}
+	if isPtr {
+		dst.Set(cpy)
+	} else {
+		dst.Set(cpy.Elem())
+	}
 	return true
 }
 
-- 
2.43.0


From 7e09348b6b793f8d07205ef7927a6032d348822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 23/33] fix: use MarshalAmino of a list type that is a struct
 field

The elements of the list were encoded instead of what MarshalAmino returns,
which the decoder could not read.
---
 codec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codec.go b/codec.go
index 4fb7715..f748d42 100644
--- a/codec.go
+++ b/codec.go
@@ -483,7 +483,9 @@ func (cdc *Codec) parseStructInfo(rt reflect.Type) (sinfo StructInfo) {
 		if skip {
 			continue // e.g. json:"-"
 		}
-		if ftype.Kind() == reflect.Array || ftype.Kind() == reflect.Slice {
+		// NOTE: A list with MarshalAmino is encoded as what that returns.
+		_, isAminoMarshaler := ftype.MethodByName("MarshalAmino")
+		if (ftype.Kind() == reflect.Array || ftype.Kind() == reflect.Slice) && !isAminoMarshaler {
 			if ftype.Elem().Kind() == reflect.Uint8 {
 				// These get handled by our optimized methods,
 				// encodeReflectBinaryByte[Slice/Array].
-- 
2.43.0


From 1413599fbeb74e34a0b99e2a1808d794b14cf3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 24/33] fix: do not panic when decoding into a non-nil pointer
 to a list

---
 amino.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amino.go b/amino.go
index a3362af..a800756 100644
--- a/amino.go
+++ b/amino.go
@@ -511,8 +511,8 @@ func isPointerToStructOrToRepeatedStruct(rv reflect.Value, rt reflect.Type) bool
 		return rt.Kind() == reflect.Slice && rt.Elem().Kind() == reflect.Struct ||
 			rt.Kind() == reflect.Array && rt.Elem().Kind() == reflect.Struct
 	}
-	isRepeatedStructSl := isPtr && drv.Kind() == reflect.Slice && drv.Elem().Kind() == reflect.Struct
-	isRepeatedStructAr := isPtr && drv.Kind() == reflect.Array && drv.Elem().Kind() == reflect.Struct
+	isRepeatedStructSl := isPtr && drv.Kind() == reflect.Slice && drv.Type().Elem().Kind() == reflect.Struct
+	isRepeatedStructAr := isPtr && drv.Kind() == reflect.Array && drv.Type().Elem().Kind() == reflect.Struct
 	return isRepeatedStructAr || isRepeatedStructSl
 }
 
-- 
2.43.0


From 4fa1686ac4b797632c3e188282a89ddedb2c8bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 25/33] fix: reject a byte slice whose length is missing

The key of a byte slice field at the very end of a message, without the
length that must follow, was accepted.
---
 binary-decode.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 5b1160d..6a09713 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -633,12 +633,6 @@ func (cdc *Codec) decodeReflectBinaryByteSlice(bz []byte, info *TypeInfo, rv ref
 	if ert.Kind() != reflect.Uint8 {
 		panic("should not happen")
 	}
-	// If len(bz) == 0 the code below will err
-	if len(bz) == 0 {
-		rv.Set(info.ZeroValue)
-		return 0, nil
-	}
-
 	// Read byte-length prefixed byteslice.
 	var (
 		byteslice []byte
-- 
2.43.0


From 3f2f6563380a4d760973e0750ef3a6d3b2bf11ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 26/33] fix: aminoscan reports malformed bytes instead of
 panicking

---
 cmd/aminoscan/aminoscan.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/cmd/aminoscan/aminoscan.go b/cmd/aminoscan/aminoscan.go
index 03aaefd..49f96ac 100644
--- a/cmd/aminoscan/aminoscan.go
+++ b/cmd/aminoscan/aminoscan.go
@@ -77,7 +77,7 @@ func scanAny(typ amino.Typ3, bz []byte, indent string) (s string, n int, err err
 	case amino.Typ3_4Byte:
 		s, n, err = scan4Byte(bz, indent)
 	default:
-		panic("should not happen")
+		err = fmt.Errorf("invalid typ3 %v", typ)
 	}
 	return
 }
@@ -132,16 +132,15 @@ func scan8Byte(bz []byte, indent string) (s string, n int, err error) {
 func scanByteLength(bz []byte, indent string) (s string, n int, err error) {
 	// Read the length.
 	l64, _n := binary.Uvarint(bz)
-	if n < 0 {
-		n = 0
+	if _n <= 0 {
 		err = errors.New("error decoding uvarint")
 		return
 	}
-	length := int(l64)
-	if length >= len(bz) {
-		err = errors.New("while reading 8byte field, EOF was encountered")
+	if l64 > uint64(len(bz)-_n) {
+		err = errors.New("while reading byte-length field, EOF was encountered")
 		return
 	}
+	length := int(l64)
 	s = Cyan(fmt.Sprintf("%X", bz[:_n]))
 	slide(&bz, &n, _n)
 	// Read the remaining bytes.
@@ -175,7 +174,7 @@ func scanStruct(bz []byte, indent string, isRoot bool) (s string, n int, err err
 func scanFieldKey(bz []byte, indent string) (s string, typ amino.Typ3, n int, err error) {
 	var u64 uint64
 	u64, n = binary.Uvarint(bz)
-	if n < 0 {
+	if n <= 0 {
 		n = 0
 		err = errors.New("error decoding uvarint")
 		return
-- 
2.43.0


From e4666772ded861925af6153e20569b2ad4050596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 27/33] fix: decode a missing struct with times of 1970 in it

A struct whose fields all have default values is not written, but was decoded
with times of year 1 instead of 1970.
---
 reflect.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/reflect.go b/reflect.go
index ab95603..ab03892 100644
--- a/reflect.go
+++ b/reflect.go
@@ -128,6 +128,7 @@ func isDefaultValue(rv reflect.Value) (erv reflect.Value, isDefaultValue bool) {
 // Returns the default value of a type.  For a time type or a pointer(s) to
 // time, the default value is not zero (or nil), but the time value of 1970.
 func defaultValue(rt reflect.Type) (rv reflect.Value) {
+	_, isAminoUnmarshaler := reflect.PtrTo(rt).MethodByName("UnmarshalAmino")
 	switch rt.Kind() {
 	case reflect.Ptr:
 		// Dereference all the way and see if it's a time type.
@@ -156,6 +157,29 @@ func defaultValue(rt reflect.Type) (rv reflect.Value) {
 			rv.Set(reflect.ValueOf(zeroTime))
 			return rv
 		}
+		// The times in a struct are 1970 too, as if it was decoded from
+		// no bytes at all.
+		if isAminoUnmarshaler {
+			break
+		}
+		rv = reflect.New(rt).Elem()
+		for i := 0; i < rt.NumField(); i++ {
+			field := rt.Field(i)
+			if isExported(field) && field.Tag.Get("json") != "-" {
+				rv.Field(i).Set(defaultValue(field.Type))
+			}
+		}
+		return rv
+	case reflect.Array:
+		// Likewise for the elements of an array.
+		if isAminoUnmarshaler || rt.Elem().Kind() == reflect.Uint8 {
+			break
+		}
+		rv = reflect.New(rt).Elem()
+		for i := 0; i < rt.Len(); i++ {
+			rv.Index(i).Set(defaultValue(rt.Elem()))
+		}
+		return rv
 	}
 
 	// Just return the default Go zero object.
-- 
2.43.0


From f3661f09b7cf9ee955b5e98cb8c071e8ad139b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:08 +0000
Subject: [PATCH 28/33] fix: decode and encode lists of a named byte type

A slice or array whose elements are of a named type of kind uint8 is
encoded as bytes, but decoding it (and encoding an array that is not
addressable) panicked inside reflect because the types of the elements
differ.
---
 binary-decode.go | 6 ++++--
 binary-encode.go | 4 +++-
 json-decode.go   | 3 ++-
 json-encode.go   | 4 +++-
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 6a09713..8a78ce9 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -474,7 +474,8 @@ func (cdc *Codec) decodeReflectBinaryByteArray(bz []byte, info *TypeInfo, rv ref
 	}
 
 	// Copy read byteslice to rv array.
-	reflect.Copy(rv, reflect.ValueOf(byteslice))
+	// NOTE: The elements may be of a named type.
+	copy(rv.Slice(0, length).Bytes(), byteslice)
 	return n, err
 }
 
@@ -647,7 +648,8 @@ func (cdc *Codec) decodeReflectBinaryByteSlice(bz []byte, info *TypeInfo, rv ref
 		// NOTE: We prefer nil slices.
 		rv.Set(info.ZeroValue)
 	} else {
-		rv.Set(reflect.ValueOf(byteslice))
+		// NOTE: The elements may be of a named type.
+		rv.SetBytes(byteslice)
 	}
 	return n, err
 }
diff --git a/binary-encode.go b/binary-encode.go
index d1ed577..ad5bb77 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -293,7 +293,9 @@ func (cdc *Codec) encodeReflectBinaryByteArray(w io.Writer, info *TypeInfo, rv r
 		byteslice = rv.Slice(0, length).Bytes()
 	} else {
 		byteslice = make([]byte, length)
-		reflect.Copy(reflect.ValueOf(byteslice), rv) // XXX: looks expensive!
+		for i := range byteslice { // XXX: looks expensive!
+			byteslice[i] = byte(rv.Index(i).Uint())
+		}
 	}
 
 	// Write byte-length prefixed byteslice.
diff --git a/json-decode.go b/json-decode.go
index a9dc133..ddff620 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -260,7 +260,8 @@ func (cdc *Codec) decodeReflectJSONArray(bz []byte, info *TypeInfo, rv reflect.V
 			err = fmt.Errorf("decodeReflectJSONArray: byte-length mismatch, got %v want %v",
 				len(buf), length)
 		}
-		reflect.Copy(rv, reflect.ValueOf(buf))
+		// NOTE: The elements may be of a named type.
+		copy(rv.Slice(0, length).Bytes(), buf)
 		return
 
 	default: // General case.
diff --git a/json-encode.go b/json-encode.go
index 1b753d5..d5f7d5e 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -224,7 +224,9 @@ func (cdc *Codec) encodeReflectJSONList(w io.Writer, info *TypeInfo, rv reflect.
 			bz = rv.Slice(0, length).Bytes()
 		} else {
 			bz = make([]byte, length)
-			reflect.Copy(reflect.ValueOf(bz), rv) // XXX: looks expensive!
+			for i := range bz { // XXX: looks expensive!
+				bz[i] = byte(rv.Index(i).Uint())
+			}
 		}
 		var jsonBytes []byte
 		jsonBytes, err = json.Marshal(bz) // base64 encode
-- 
2.43.0


From f574339ad7f02543fb7344e7dbf5d6f74c682090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:42 +0000
Subject: [PATCH 29/33] fix: decode unsafe float fields from JSON

---
 json-decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json-decode.go b/json-decode.go
index ddff620..e7d4cad 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -365,7 +365,7 @@ func (cdc *Codec) decodeReflectJSONSlice(bz []byte, info *TypeInfo, rv reflect.V
 }
 
 // CONTRACT: rv.CanAddr() is true.
-func (cdc *Codec) decodeReflectJSONStruct(bz []byte, info *TypeInfo, rv reflect.Value, fopts FieldOptions) (err error) {
+func (cdc *Codec) decodeReflectJSONStruct(bz []byte, info *TypeInfo, rv reflect.Value, _ FieldOptions) (err error) {
 	if !rv.CanAddr() {
 		panic("rv not addressable")
 	}
@@ -416,7 +416,7 @@ func (cdc *Codec) decodeReflectJSONStruct(bz []byte, info *TypeInfo, rv reflect.
 		}
 
 		// Decode into field rv.
-		err = cdc.decodeReflectJSON(valueBytes, finfo, frv, fopts)
+		err = cdc.decodeReflectJSON(valueBytes, finfo, frv, field.FieldOptions)
 		if err != nil {
 			return
 		}
-- 
2.43.0


From 5d75af1ff754160d73af97cf043a42ec0c2daeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:52 +0000
Subject: [PATCH 30/33] fix: omit a zero time from JSON whatever its location

---
 json-encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/json-encode.go b/json-encode.go
index d5f7d5e..cd28bb4 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -466,6 +466,10 @@ func isEmpty(rv reflect.Value, zrv reflect.Value) bool {
 	if !rv.IsValid() {
 		return true
 	}
+	if rv.Type() == timeType && zrv.Type() == timeType {
+		// NOTE: The location of a time is not encoded.
+		return rv.Interface().(time.Time).IsZero()
+	}
 	if reflect.DeepEqual(rv.Interface(), zrv.Interface()) {
 		return true
 	}
-- 
2.43.0


From 93a605f4e6c0fef047da7e9e0c71ebaae33a7898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 31/33] fix: reject a field key without its value in a bare
 interface

---
 binary-decode.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 8a78ce9..149955f 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -381,6 +381,12 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 		err = fmt.Errorf("concrete type %v does not implement %v", irvSet.Type(), iinfo.Type)
 		return
 	}
+	// A default value is not written by MarshalBinaryBare.
+	if bare && len(bz) == 0 && isOmittedIfDefault(cinfo) {
+		rv.Set(irvSet)
+		return n, err
+	}
+
 	isKnownType := (cinfo.Type.Kind() != reflect.Map) && (cinfo.Type.Kind() != reflect.Func)
 	// NOTE: Only MarshalBinaryBare writes a field key, not the encoder of
 	// interface fields and elements.
@@ -412,12 +418,6 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 		cbare = typWanted != Typ3ByteLength
 	}
 
-	// A default value is not written by MarshalBinaryBare.
-	if bare && len(bz) == 0 && isOmittedIfDefault(cinfo) {
-		rv.Set(irvSet)
-		return n, err
-	}
-
 	// Decode into the concrete type.
 	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, cbare)
 	if slide(&bz, &n, _n) && err != nil {
-- 
2.43.0


From aea5c772019258b6283b52f891f3b53c56133a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 32/33] fix: refuse invalid field numbers in aminoscan

---
 cmd/aminoscan/aminoscan.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/aminoscan/aminoscan.go b/cmd/aminoscan/aminoscan.go
index 49f96ac..3c88b38 100644
--- a/cmd/aminoscan/aminoscan.go
+++ b/cmd/aminoscan/aminoscan.go
@@ -179,6 +179,11 @@ func scanFieldKey(bz []byte, indent string) (s string, typ amino.Typ3, n int, er
 		err = errors.New("error decoding uvarint")
 		return
 	}
+	if u64>>3 == 0 || u64>>3 > 1<<29-1 {
+		n = 0
+		err = fmt.Errorf("invalid field number %v", u64>>3)
+		return
+	}
 	typ = amino.Typ3(u64 & 0x07)
 	number := uint32(u64 >> 3)
 	s = fmt.Sprintf("%X", bz[:n])
-- 
2.43.0


From b6a374a7b2fb531947d516ffe5638afc75be3b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 33/33] fix: print no value for a truncated varint in aminoscan

---
 cmd/aminoscan/aminoscan.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/aminoscan/aminoscan.go b/cmd/aminoscan/aminoscan.go
index 3c88b38..dfcfc7b 100644
--- a/cmd/aminoscan/aminoscan.go
+++ b/cmd/aminoscan/aminoscan.go
@@ -85,6 +85,7 @@ func scanAny(typ amino.Typ3, bz []byte, indent string) (s string, n int, err err
 func scanVarint(bz []byte, indent string) (s string, n int, err error) {
 	if len(bz) == 0 {
 		err = fmt.Errorf("EOF while reading (U)Varint")
+		return
 	}
 	// First try Varint.
 	okI64 := true
@@ -96,7 +97,7 @@ func scanVarint(bz []byte, indent string) (s string, n int, err error) {
 	// Then try Uvarint.
 	okU64 := true
 	u64, _n := binary.Uvarint(bz)
-	if n != _n {
+	if _n <= 0 || n != _n {
 		n = 0
 		okU64 = false
 	}
-- 
2.43.0

