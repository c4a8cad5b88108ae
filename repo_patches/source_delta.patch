From a7ca05aa89558db3f5c5a90787b2e46e2c84e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:27 +0000
Subject: [PATCH 01/22] fix: honour the byte stride when reading int8 and
 reading or writing uint8 slices

Read indexed data by the length of b for []int8, panicking when b was longer
than data, and both Read and Write ignored the stride of []uint8 slices.
---
 binary/encode.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/binary/encode.go b/binary/encode.go
index 01a4226..258a532 100644
--- a/binary/encode.go
+++ b/binary/encode.go
@@ -40,8 +40,8 @@ func Read(b []byte, byteStride int, data any) error {
 			data[i] = color.RGBA64{R: c[0], G: c[1], B: c[2], A: c[3]}
 		}
 	case []int8:
-		for i, x := range b {
-			data[i] = int8(x)
+		for i := range data {
+			data[i] = Byte.Scalar(b[e*i:])
 		}
 	case [][2]int8:
 		for i := range data {
@@ -68,7 +68,7 @@ func Read(b []byte, byteStride int, data any) error {
 			data[i] = Byte.Mat4(b[e*i:])
 		}
 	case []uint8:
-		if byteStride != 1 {
+		if byteStride == 1 {
 			copy(data, b)
 		} else {
 			for i := range data {
@@ -273,7 +273,13 @@ func Write(b []byte, stride int, data any) error {
 			Byte.PutMat4(b[e*i:], data[i])
 		}
 	case []uint8:
-		copy(b, data)
+		if e == 1 {
+			copy(b, data)
+		} else {
+			for i := range data {
+				Ubyte.PutScalar(b[e*i:], data[i])
+			}
+		}
 	case [][2]uint8:
 		for i := range data {
 			Ubyte.PutVec2(b[e*i:], data[i])
-- 
2.43.0


From e94a06ce3b2d7983c6e1bc6cae2b9e7f12057bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:27 +0000
Subject: [PATCH 02/22] fix: reject negative and overflowing strides in
 binary.Read and binary.Write

The bounds check multiplied the stride by the number of elements without
guarding against negative values and overflow, so a malformed stride made
Read and Write panic instead of returning an error.
---
 binary/encode.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/binary/encode.go b/binary/encode.go
index 258a532..2fdc8b0 100644
--- a/binary/encode.go
+++ b/binary/encode.go
@@ -3,6 +3,7 @@ package binary
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"image/color"
 	"io"
 
@@ -21,12 +22,8 @@ func Read(b []byte, byteStride int, data any) error {
 		byteStride = size
 	}
 	e := int(byteStride)
-	high := int(n) * e
-	if byteStride != size {
-		high -= int(byteStride - size)
-	}
-	if len(b) < high {
-		return io.ErrShortBuffer
+	if err := checkBounds(b, e, size, n); err != nil {
+		return err
 	}
 	switch data := data.(type) {
 	case []color.RGBA:
@@ -232,8 +229,8 @@ func Write(b []byte, stride int, data any) error {
 	if stride == 0 {
 		e = sizeOfElement
 	}
-	if len(b) < e*(int(n)-1)+sizeOfElement {
-		return io.ErrShortBuffer
+	if err := checkBounds(b, e, sizeOfElement, n); err != nil {
+		return err
 	}
 	switch data := data.(type) {
 	case []color.RGBA:
@@ -419,3 +416,18 @@ func Write(b []byte, stride int, data any) error {
 	}
 	return nil
 }
+
+// checkBounds returns an error if b can't hold n elements of the given size
+// when each of them starts stride bytes after the previous one.
+func checkBounds(b []byte, stride, size, n int) error {
+	if n == 0 {
+		return nil
+	}
+	if stride <= 0 {
+		return errors.New("gltf: invalid byte stride")
+	}
+	if len(b) < size || n-1 > (len(b)-size)/stride {
+		return io.ErrShortBuffer
+	}
+	return nil
+}
-- 
2.43.0


From 218c4d24f6fb353f6706a1bd3c755396659f7414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:28 +0000
Subject: [PATCH 03/22] fix: support UNSIGNED_INT MAT3 accessors in
 MakeSliceBuffer

The case was empty, so MakeSliceBuffer panicked for that combination
whenever it was given a non-empty buffer.
---
 binary/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary/slice.go b/binary/slice.go
index 7a1dd4f..3b37118 100644
--- a/binary/slice.go
+++ b/binary/slice.go
@@ -112,7 +112,7 @@ func castSlice(c gltf.ComponentType, t gltf.AccessorType, count int, v []byte) a
 		case gltf.AccessorMat2:
 			return reslice[[2][2]uint32](v, l, rem)
 		case gltf.AccessorMat3:
-
+			return reslice[[3][3]uint32](v, l, rem)
 		case gltf.AccessorMat4:
 			return reslice[[4][4]uint32](v, l, rem)
 		}
-- 
2.43.0


From 610d49230680c3631970e44379f163034d33dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:34 +0000
Subject: [PATCH 04/22] fix: return an error instead of panicking on invalid
 element counts

MakeSlice and MakeSliceBuffer panicked when count was negative or too big to
be allocated, which made modeler.ReadAccessor panic on malformed accessors.
---
 binary/slice.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/binary/slice.go b/binary/slice.go
index 3b37118..15df90f 100644
--- a/binary/slice.go
+++ b/binary/slice.go
@@ -144,6 +144,9 @@ func MakeSliceBuffer(c gltf.ComponentType, t gltf.AccessorType, count int, buffe
 	if err := checkAccessorType(c, t); err != nil {
 		return nil, err
 	}
+	if err := checkCount(c, t, count); err != nil {
+		return nil, err
+	}
 	buffer = buffer[:cap(buffer)] // Extend the slice to its capacity.
 	if len(buffer) == 0 {
 		return MakeSlice(c, t, count)
@@ -158,6 +161,9 @@ func MakeSlice(c gltf.ComponentType, t gltf.AccessorType, count int) (any, error
 	if err := checkAccessorType(c, t); err != nil {
 		return nil, err
 	}
+	if err := checkCount(c, t, count); err != nil {
+		return nil, err
+	}
 	var tp reflect.Type
 	switch c {
 	case gltf.ComponentUbyte:
@@ -311,3 +317,14 @@ func checkAccessorType(c gltf.ComponentType, t gltf.AccessorType) error {
 	}
 	return nil
 }
+
+// maxSliceBytes is an upper bound for the size of a slice, in bytes.
+// It is 1<<47 - 1 on 64-bit platforms and 1<<31 - 1 on 32-bit ones.
+const maxSliceBytes = 1<<(31+16*(^uint(0)>>63)) - 1
+
+func checkCount(c gltf.ComponentType, t gltf.AccessorType, count int) error {
+	if count < 0 || count > maxSliceBytes/(c.ByteSize()*t.Components()) {
+		return fmt.Errorf("gltf: invalid element count %d", count)
+	}
+	return nil
+}
-- 
2.43.0


From 121280e712fc546acc551a5122f4d926e35bb7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 05/22] fix: return an error instead of panicking when reading
 malformed documents

ReadAccessor and ReadBufferView are documented to be safe to use with
malformed documents, but negative, overflowing or out of range indices,
offsets and lengths, null entries and out of range sparse indices panicked.
---
 modeler/read.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/modeler/read.go b/modeler/read.go
index fc4d6f8..d28b0c7 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -38,6 +38,9 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 		if err != nil {
 			return nil, err
 		}
+		if acr.ByteOffset < 0 || acr.ByteOffset > len(buf) {
+			return nil, io.ErrShortBuffer
+		}
 		byteStride := doc.BufferViews[*acr.BufferView].ByteStride
 		err = binary.Read(buf[acr.ByteOffset:], byteStride, data)
 		if err != nil {
@@ -75,6 +78,9 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 		s := reflect.ValueOf(data)
 		vals := reflect.ValueOf(values)
 		for i := 0; i < int(acr.Sparse.Count); i++ {
+			if int64(indices[i]) >= int64(s.Len()) {
+				return nil, errors.New("gltf: sparse index overflows")
+			}
 			s.Index(int(indices[i])).Set(vals.Index(i))
 		}
 	}
@@ -82,7 +88,7 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 }
 
 func readBufferView(doc *gltf.Document, bufferViewIndex int) ([]byte, error) {
-	if len(doc.BufferViews) <= bufferViewIndex {
+	if bufferViewIndex < 0 || len(doc.BufferViews) <= bufferViewIndex {
 		return nil, errors.New("gltf: bufferview index overflows")
 	}
 	return ReadBufferView(doc, doc.BufferViews[bufferViewIndex])
@@ -94,15 +100,21 @@ func readBufferView(doc *gltf.Document, bufferViewIndex int) ([]byte, error) {
 // It is safe to use even with malformed documents.
 // If that happens it will return an error instead of panic.
 func ReadBufferView(doc *gltf.Document, bv *gltf.BufferView) ([]byte, error) {
-	if len(doc.Buffers) <= bv.Buffer {
+	if bv == nil {
+		return nil, errors.New("gltf: null bufferview")
+	}
+	if bv.Buffer < 0 || len(doc.Buffers) <= bv.Buffer {
 		return nil, errors.New("gltf: buffer index overflows")
 	}
+	if doc.Buffers[bv.Buffer] == nil {
+		return nil, errors.New("gltf: null buffer")
+	}
 	buf := doc.Buffers[bv.Buffer].Data
 
-	high := bv.ByteOffset + bv.ByteLength
-	if len(buf) < high {
+	if bv.ByteOffset < 0 || bv.ByteLength < 0 || bv.ByteOffset > len(buf) || bv.ByteLength > len(buf)-bv.ByteOffset {
 		return nil, io.ErrShortBuffer
 	}
+	high := bv.ByteOffset + bv.ByteLength
 	return buf[bv.ByteOffset:high], nil
 }
 
-- 
2.43.0


From b47a2a98767c732fdcd862704f6e0e0484b751eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:21 +0000
Subject: [PATCH 06/22] fix: zero the data of accessors without buffer view

ReadAccessor returned whatever the reused buffer contained when the accessor
had no buffer view, leaking data of previous reads through the typed readers,
which always use pooled buffers.
---
 modeler/read.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modeler/read.go b/modeler/read.go
index d28b0c7..faad154 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -46,6 +46,14 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 		if err != nil {
 			return nil, err
 		}
+	} else {
+		// The accessor is initialized with zeros, but data can be backed
+		// by a buffer that contains stale values.
+		s := reflect.ValueOf(data)
+		zero := reflect.Zero(s.Type().Elem())
+		for i := 0; i < s.Len(); i++ {
+			s.Index(i).Set(zero)
+		}
 	}
 
 	if acr.Sparse != nil {
-- 
2.43.0


From 31cb0fc2945dd30e89256c3c5d448e59ad03fe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:21 +0000
Subject: [PATCH 07/22] fix: return an empty slice when reading an empty
 accessor into a buffer

The whole buffer passed by the caller was returned instead.
---
 modeler/read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modeler/read.go b/modeler/read.go
index faad154..f8a98dc 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -136,9 +136,9 @@ var bufPool = sync.Pool{
 func makeBufferOf[T any](count int, buffer []T) []T {
 	if len(buffer) < count {
 		buffer = append(buffer, make([]T, count-len(buffer))...)
-	} else if count != 0 {
+	} else if buffer != nil {
 		buffer = buffer[:count]
-	} else if buffer == nil {
+	} else {
 		buffer = make([]T, 0)
 	}
 	return buffer
-- 
2.43.0


From 6aeed42722bb5d9d621b4a1c9704867152c091bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:22 +0000
Subject: [PATCH 08/22] fix: do not panic when decoding null or negative sized
 buffers and images

The size of the first GLB buffer was also truncated to 32 bits before being
compared with the length of the BIN chunk.
---
 decoder.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 8ca826c..4096146 100644
--- a/decoder.go
+++ b/decoder.go
@@ -63,6 +63,9 @@ func (d *Decoder) Decode(doc *Document) error {
 	}
 
 	for _, b := range doc.Buffers {
+		if b == nil {
+			return errors.New("gltf: null buffer")
+		}
 		if !b.IsEmbeddedResource() {
 			if uri, ok := sanitizeURI(b.URI); ok {
 				b.URI = uri
@@ -70,6 +73,9 @@ func (d *Decoder) Decode(doc *Document) error {
 		}
 	}
 	for _, im := range doc.Images {
+		if im == nil {
+			return errors.New("gltf: null image")
+		}
 		if !im.IsEmbeddedResource() {
 			if uri, ok := sanitizeURI(im.URI); ok {
 				im.URI = uri
@@ -176,7 +182,7 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 	if err != nil {
 		return err
 	}
-	if header.Type != glbChunkBIN || header.Length < uint32(buffer.ByteLength) {
+	if header.Type != glbChunkBIN || int64(header.Length) < int64(buffer.ByteLength) {
 		return errors.New("gltf: Invalid GLB BIN header")
 	}
 	buffer.Data = make([]byte, buffer.ByteLength)
@@ -185,8 +191,8 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 }
 
 func (d *Decoder) validateBuffer(buffer *Buffer) error {
-	if buffer.ByteLength == 0 {
-		return errors.New("gltf: Invalid buffer.byteLength value = 0")
+	if buffer.ByteLength <= 0 {
+		return fmt.Errorf("gltf: Invalid buffer.byteLength value = %d", buffer.ByteLength)
 	}
 	return nil
 }
-- 
2.43.0


From aaf6fa8df0f029ecc70e1c90e8e2fe27015745e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:37 +0000
Subject: [PATCH 09/22] fix: skip the remainder of the GLB JSON chunk before
 reading the next one

The JSON decoder stops reading once the value is complete, so padding that
was not yet buffered was interpreted as the header of the BIN chunk,
depending on how the underlying reader delivered its data.
---
 decoder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 4096146..80faa62 100644
--- a/decoder.go
+++ b/decoder.go
@@ -105,10 +105,12 @@ func (d *Decoder) decodeDocument(doc *Document) (bool, error) {
 	}
 	var (
 		jd       *json.Decoder
+		lr       *io.LimitedReader
 		isBinary bool
 	)
 	if glbHeader != nil {
-		jd = json.NewDecoder(&io.LimitedReader{R: d.r, N: int64(glbHeader.JSONHeader.Length)})
+		lr = &io.LimitedReader{R: d.r, N: int64(glbHeader.JSONHeader.Length)}
+		jd = json.NewDecoder(lr)
 		isBinary = true
 	} else {
 		jd = json.NewDecoder(d.r)
@@ -116,6 +118,11 @@ func (d *Decoder) decodeDocument(doc *Document) (bool, error) {
 	}
 
 	err = jd.Decode(doc)
+	if err == nil && lr != nil {
+		// The JSON decoder stops reading when the value is complete,
+		// skip the rest of the chunk so the next one is read from its start.
+		_, err = io.Copy(io.Discard, lr)
+	}
 	return isBinary, err
 }
 
-- 
2.43.0


From cf6cb77c429656f41639f0ce6949f43f55c24194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:37 +0000
Subject: [PATCH 10/22] fix: report read errors found while looking for the GLB
 header

An error other than io.EOF was discarded, which could be lost if the reader
did not return it again.
---
 decoder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 80faa62..1258196 100644
--- a/decoder.go
+++ b/decoder.go
@@ -129,9 +129,12 @@ func (d *Decoder) decodeDocument(doc *Document) (bool, error) {
 func (d *Decoder) readGLBHeader() (*glbHeader, error) {
 	var header glbHeader
 	chunk, err := d.r.Peek(binary.Size(header))
-	if err != nil {
+	if err == io.EOF {
 		return nil, nil
 	}
+	if err != nil {
+		return nil, err
+	}
 	r := bytes.NewReader(chunk)
 	binary.Read(r, binary.LittleEndian, &header)
 	if header.Magic != glbHeaderMagic {
-- 
2.43.0


From 34cfd727e07d78b08fe9e97a65b5c8dd9287df03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:37 +0000
Subject: [PATCH 11/22] fix: avoid overflow when validating the length of the
 GLB JSON chunk

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 1258196..76ea121 100644
--- a/decoder.go
+++ b/decoder.go
@@ -145,7 +145,7 @@ func (d *Decoder) readGLBHeader() (*glbHeader, error) {
 }
 
 func (d *Decoder) validateGLBHeader(header *glbHeader) error {
-	if header.JSONHeader.Type != glbChunkJSON || (header.JSONHeader.Length+uint32(binary.Size(header))) > header.Length {
+	if header.JSONHeader.Type != glbChunkJSON || (uint64(header.JSONHeader.Length)+uint64(binary.Size(header))) > uint64(header.Length) {
 		return errors.New("gltf: Invalid GLB JSON header")
 	}
 	return nil
-- 
2.43.0


From f2aec1dcc256f33cf866a6cd3b9c19a27cab03ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:56 +0000
Subject: [PATCH 12/22] fix: report write errors when encoding GLB files

The errors returned when writing the JSON chunk, its padding and the BIN
chunk were ignored, so a truncated file could be reported as a success.
---
 encode.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/encode.go b/encode.go
index f8a29ad..a81bc4d 100644
--- a/encode.go
+++ b/encode.go
@@ -175,8 +175,12 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	e.w.Write(jsonText)
-	e.w.Write(headerPadding)
+	if _, err = e.w.Write(jsonText); err != nil {
+		return false, err
+	}
+	if _, err = e.w.Write(headerPadding); err != nil {
+		return false, err
+	}
 
 	if hasBinChunk {
 		binBuffer := doc.Buffers[0]
@@ -185,8 +189,12 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 			binPadding[i] = 0
 		}
 		binHeader := chunkHeader{Length: uint32(binPaddedLength), Type: glbChunkBIN}
-		binary.Write(e.w, binary.LittleEndian, &binHeader)
-		e.w.Write(binBuffer.Data)
+		if err = binary.Write(e.w, binary.LittleEndian, &binHeader); err != nil {
+			return false, err
+		}
+		if _, err = e.w.Write(binBuffer.Data); err != nil {
+			return false, err
+		}
 		_, err = e.w.Write(binPadding)
 	}
 
-- 
2.43.0


From 09f065fb18cf33553b7e0f8a9f91ccdee870670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:23 +0000
Subject: [PATCH 13/22] fix: reject GLB buffers whose byteLength doesn't match
 their data

The length of the BIN chunk was computed from byteLength while all the data
was written, resulting in a file with inconsistent lengths.
---
 encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encode.go b/encode.go
index a81bc4d..a642058 100644
--- a/encode.go
+++ b/encode.go
@@ -167,6 +167,9 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 	hasBinChunk := len(doc.Buffers) > 0 && doc.Buffers[0].URI == ""
 	var binPaddedLength int
 	if hasBinChunk {
+		if doc.Buffers[0].ByteLength != len(doc.Buffers[0].Data) {
+			return false, errors.New("gltf: buffer.byteLength doesn't match the length of its data")
+		}
 		binPaddedLength = ((doc.Buffers[0].ByteLength + 3) / 4) * 4
 		header.Length += uint32(8 + binPaddedLength)
 	}
-- 
2.43.0


From 73f27568bb425dc44629f53b484fdd3784b47f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 14/22] fix: return an error when the document doesn't fit in a
 GLB container

The 32-bit lengths of the headers silently wrapped around.
---
 encode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encode.go b/encode.go
index a642058..f6c8984 100644
--- a/encode.go
+++ b/encode.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"io"
 	"io/fs"
+	"math"
 	"os"
 	"path/filepath"
 )
@@ -174,6 +175,11 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 		header.Length += uint32(8 + binPaddedLength)
 	}
 
+	// The lengths of the container are stored as 32-bit unsigned integers.
+	if uint64(len(jsonText))+uint64(binPaddedLength) > math.MaxUint32-64 {
+		return false, errors.New("gltf: document is too big to be encoded as GLB")
+	}
+
 	err = binary.Write(e.w, binary.LittleEndian, &header)
 	if err != nil {
 		return false, err
-- 
2.43.0


From e4c880baae822c481c909df536fc828972084f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:44 +0000
Subject: [PATCH 15/22] fix: validate the name of external buffers that is
 really used

The encoder validated the raw URI but created the file named by the sanitized
one, so percent-encoded or backslash separated URIs could escape from the
directory of the document, and silently dropped the data if the URI couldn't
be sanitized. Buffers with absolute URIs were also read from and written to
Fsys, contrary to the documentation.
---
 decoder.go |  9 +++++++--
 encode.go  | 12 ++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/decoder.go b/decoder.go
index 76ea121..40bd944 100644
--- a/decoder.go
+++ b/decoder.go
@@ -171,7 +171,7 @@ func (d *Decoder) decodeBuffer(buffer *Buffer) error {
 		buffer.Data, err = buffer.marshalData()
 	} else {
 		err = validateBufferURI(buffer.URI)
-		if err == nil && d.Fsys != nil {
+		if err == nil && d.Fsys != nil && !isAbsoluteURI(buffer.URI) {
 			buffer.Data, err = fs.ReadFile(d.Fsys, buffer.URI)
 			if len(buffer.Data) > int(buffer.ByteLength) {
 				buffer.Data = buffer.Data[:buffer.ByteLength:buffer.ByteLength]
@@ -207,8 +207,13 @@ func (d *Decoder) validateBuffer(buffer *Buffer) error {
 	return nil
 }
 
+func isAbsoluteURI(uri string) bool {
+	u, err := url.Parse(uri)
+	return err == nil && u.Scheme != ""
+}
+
 func validateBufferURI(uri string) error {
-	if u, err := url.Parse(uri); err == nil && u.Scheme != "" {
+	if isAbsoluteURI(uri) {
 		return nil
 	}
 	if !filepath.IsLocal(uri) {
diff --git a/encode.go b/encode.go
index f6c8984..35df915 100644
--- a/encode.go
+++ b/encode.go
@@ -124,14 +124,14 @@ func (e *Encoder) Encode(doc *Document) error {
 }
 
 func (e *Encoder) encodeBuffer(buffer *Buffer) error {
-	if err := validateBufferURI(buffer.URI); err != nil {
-		return err
+	uri := buffer.URI
+	if s, ok := sanitizeURI(uri); ok {
+		uri = s
 	}
-	if e.Fsys == nil {
-		return nil
+	if err := validateBufferURI(uri); err != nil {
+		return err
 	}
-	uri, ok := sanitizeURI(buffer.URI)
-	if !ok {
+	if e.Fsys == nil || isAbsoluteURI(uri) {
 		return nil
 	}
 	w, err := e.Fsys.Create(uri)
-- 
2.43.0


From 5f189c9ddc21a8b06e29ded054b116425690dd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 16/22] fix: do not panic when writing several empty
 interleaved slices

---
 modeler/write.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modeler/write.go b/modeler/write.go
index bbcfd6e..a41c4d5 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -337,6 +337,9 @@ func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int,
 	buffer.Data = append(buffer.Data, make([]byte, size)...)
 	dataOffset := offset
 	for _, d := range data {
+		if size == 0 {
+			break
+		}
 		// Cannot return error as the buffer has enough size and the data type is controlled.
 		_ = binary.Write(buffer.Data[dataOffset:], stride, d)
 		c, a, _ := binary.Type(d)
-- 
2.43.0


From fec62c84f40107859882bec7b4a7ae0a5d00c176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 17/22] fix: drop the stale URI of embedded buffers when
 writing to them

The data appended by the modeler to an embedded buffer was lost on save, as
the encoder kept the original URI.
---
 modeler/write.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modeler/write.go b/modeler/write.go
index a41c4d5..dd903b0 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -367,7 +367,13 @@ func lastBuffer(doc *gltf.Document) *gltf.Buffer {
 	if len(doc.Buffers) == 0 {
 		doc.Buffers = append(doc.Buffers, new(gltf.Buffer))
 	}
-	return doc.Buffers[len(doc.Buffers)-1]
+	buffer := doc.Buffers[len(doc.Buffers)-1]
+	if buffer.IsEmbeddedResource() && len(buffer.Data) > 0 {
+		// The data is going to change, so the URI is no longer valid.
+		// The encoder will embed it again if necessary.
+		buffer.URI = ""
+	}
+	return buffer
 }
 
 func getPadding(offset int) int {
-- 
2.43.0


From 06255eeb01cc047ae1442632d69ea5be86b78312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:14 +0000
Subject: [PATCH 18/22] fix: do not write over the content of external buffers
 which are not loaded

Appending to a buffer whose external resource is not loaded placed the new
data at the start of it, so saving the document overwrote the resource.
---
 modeler/write.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modeler/write.go b/modeler/write.go
index dd903b0..a428270 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -368,6 +368,11 @@ func lastBuffer(doc *gltf.Document) *gltf.Buffer {
 		doc.Buffers = append(doc.Buffers, new(gltf.Buffer))
 	}
 	buffer := doc.Buffers[len(doc.Buffers)-1]
+	if buffer.URI != "" && buffer.ByteLength > 0 && len(buffer.Data) == 0 {
+		// The external resource is not loaded, do not overwrite its content.
+		buffer = new(gltf.Buffer)
+		doc.Buffers = append(doc.Buffers, buffer)
+	}
 	if buffer.IsEmbeddedResource() && len(buffer.Data) > 0 {
 		// The data is going to change, so the URI is no longer valid.
 		// The encoder will embed it again if necessary.
-- 
2.43.0


From 186c28456a5fcee9a3d13b2a4d3c89081eda4ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:15 +0000
Subject: [PATCH 19/22] fix: do not edit encoded JSON to elide
 specular-glossiness defaults

The textual replacements also matched the content of nested extras and
extensions, corrupting strings or producing invalid JSON.
---
 ext/specular/specular.go | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/ext/specular/specular.go b/ext/specular/specular.go
index 6752474..ec09c86 100644
--- a/ext/specular/specular.go
+++ b/ext/specular/specular.go
@@ -1,7 +1,6 @@
 package specular
 
 import (
-	"bytes"
 	"encoding/json"
 
 	"github.com/qmuntal/gltf"
@@ -46,28 +45,15 @@ func (p *PBRSpecularGlossiness) UnmarshalJSON(data []byte) error {
 // MarshalJSON marshal the pbr with the correct default values.
 func (p *PBRSpecularGlossiness) MarshalJSON() ([]byte, error) {
 	type alias PBRSpecularGlossiness
-	out, err := json.Marshal(&struct{ *alias }{alias: (*alias)(p)})
-	if err == nil {
-		if p.GlossinessFactor != nil && *p.GlossinessFactor == 1 {
-			out = removeProperty([]byte(`"glossinessFactor":1`), out)
-		}
-		if p.DiffuseFactor != nil && *p.DiffuseFactor == [4]float64{1, 1, 1, 1} {
-			out = removeProperty([]byte(`"diffuseFactor":[1,1,1,1]`), out)
-		}
-		if p.SpecularFactor != nil && *p.SpecularFactor == [3]float64{1, 1, 1} {
-			out = removeProperty([]byte(`"specularFactor":[1,1,1]`), out)
-		}
-		out = sanitizeJSON(out)
+	tmp := alias(*p)
+	if p.GlossinessFactor != nil && *p.GlossinessFactor == 1 {
+		tmp.GlossinessFactor = nil
 	}
-	return out, err
-}
-
-func removeProperty(str []byte, b []byte) []byte {
-	b = bytes.Replace(b, str, []byte(""), 1)
-	return bytes.Replace(b, []byte(`,,`), []byte(","), 1)
-}
-
-func sanitizeJSON(b []byte) []byte {
-	b = bytes.Replace(b, []byte(`{,`), []byte("{"), 1)
-	return bytes.Replace(b, []byte(`,}`), []byte("}"), 1)
+	if p.DiffuseFactor != nil && *p.DiffuseFactor == [4]float64{1, 1, 1, 1} {
+		tmp.DiffuseFactor = nil
+	}
+	if p.SpecularFactor != nil && *p.SpecularFactor == [3]float64{1, 1, 1} {
+		tmp.SpecularFactor = nil
+	}
+	return json.Marshal(&tmp)
 }
-- 
2.43.0


From a25e117dab5d84684af92cc011904410f2e59ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 20/22] fix: encode KHR_lights_punctual values as the objects
 they are decoded from

Lights and LightIndex were encoded as a bare array and a bare number, which
are neither valid according to the extension nor decodable again.
---
 ext/lightspunctual/lightspunctual.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ext/lightspunctual/lightspunctual.go b/ext/lightspunctual/lightspunctual.go
index 6365db3..a25a9b4 100644
--- a/ext/lightspunctual/lightspunctual.go
+++ b/ext/lightspunctual/lightspunctual.go
@@ -48,6 +48,13 @@ const (
 // LightIndex is the id of the light referenced by this node.
 type LightIndex int
 
+// MarshalJSON marshal the light index as the extension object of a node.
+func (i LightIndex) MarshalJSON() ([]byte, error) {
+	return json.Marshal(&struct {
+		Light int `json:"light"`
+	}{int(i)})
+}
+
 // Spot defines the spot cone.
 type Spot struct {
 	InnerConeAngle float64  `json:"innerConeAngle,omitempty"`
@@ -76,6 +83,13 @@ func (s *Spot) UnmarshalJSON(data []byte) error {
 // Lights defines a list of Lights.
 type Lights []*Light
 
+// MarshalJSON marshal the lights as the extension object of a document.
+func (l Lights) MarshalJSON() ([]byte, error) {
+	return json.Marshal(&struct {
+		Lights []*Light `json:"lights,omitempty"`
+	}{l})
+}
+
 // Light defines a directional, point, or spot light.
 // When a light's type is spot, the spot property on the light is required.
 type Light struct {
-- 
2.43.0


From fe8527dbc9b12539923bcd45dd32e4100503691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:35 +0000
Subject: [PATCH 21/22] fix: encode lights with the default infinite range

Decoding a light without range sets it to infinity, which can't be encoded
as JSON, so any document with such a light couldn't be saved again.
---
 ext/lightspunctual/lightspunctual.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ext/lightspunctual/lightspunctual.go b/ext/lightspunctual/lightspunctual.go
index a25a9b4..1162c6f 100644
--- a/ext/lightspunctual/lightspunctual.go
+++ b/ext/lightspunctual/lightspunctual.go
@@ -127,3 +127,14 @@ func (l *Light) UnmarshalJSON(data []byte) error {
 	}
 	return err
 }
+
+// MarshalJSON marshal the light with the correct default values.
+func (l *Light) MarshalJSON() ([]byte, error) {
+	type alias Light
+	tmp := alias(*l)
+	if l.Range != nil && math.IsInf(*l.Range, 1) {
+		// An infinite range can't be represented in JSON, it is the default value.
+		tmp.Range = nil
+	}
+	return json.Marshal(&tmp)
+}
-- 
2.43.0


From 010b266e006b9a31e649c4f6c60ccce8bfe91370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:40 +0000
Subject: [PATCH 22/22] fix: drop the URI of an empty embedded buffer when it
 gets data

The encoder wrote the data URI, which is that of no data, instead of what was
appended to the buffer.
---
 modeler/write.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modeler/write.go b/modeler/write.go
index a428270..eb05c02 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -373,7 +373,7 @@ func lastBuffer(doc *gltf.Document) *gltf.Buffer {
 		buffer = new(gltf.Buffer)
 		doc.Buffers = append(doc.Buffers, buffer)
 	}
-	if buffer.IsEmbeddedResource() && len(buffer.Data) > 0 {
+	if buffer.IsEmbeddedResource() {
 		// The data is going to change, so the URI is no longer valid.
 		// The encoder will embed it again if necessary.
 		buffer.URI = ""
-- 
2.43.0

