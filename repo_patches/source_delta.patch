From 539f68de4d5a54f23a4508a4cbe084e753ee1f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:30 +0000
Subject: [PATCH 01/53] fix: encoders frame messages of every size and leave no
 trace of a message that cannot be encoded

Write emitted at most one chunk per call, so values longer than the chunk size
left more than 65535 bytes for a final chunk whose length then wrapped; a chunk
size of 0 produced an end marker in the middle of the stream; and a value refused
half-way had already been written in part.
---
 encoding/encoding_v1/encoderV1.go | 43 +++++++++++-----------------
 encoding/encoding_v2/encoderV2.go | 47 +++++++++++++------------------
 2 files changed, 35 insertions(+), 55 deletions(-)

diff --git a/encoding/encoding_v1/encoderV1.go b/encoding/encoding_v1/encoderV1.go
index ffcf13a..57e45a5 100644
--- a/encoding/encoding_v1/encoderV1.go
+++ b/encoding/encoding_v1/encoderV1.go
@@ -43,44 +43,33 @@ func Marshal(v interface{}) ([]byte, error) {
 	return x.Bytes(), err
 }
 
-// write writes to the writer.  Buffers the writes using chunkSize.
+// Write adds to the current message. Nothing reaches the underlying writer before the
+// whole message has been encoded, so that a message that turns out not to be encodable
+// leaves no trace in the stream.
 func (e EncoderV1) Write(p []byte) (n int, err error) {
-	//log.Trace("in encode write")
-	//log.Trace(fmt.Sprintf("len writing is %v", len(p)))
-	//log.Trace(fmt.Sprintf("%x", p))
-
 	n, err = e.buf.Write(p)
 	if err != nil {
 		err = errors.Wrap(err, "An error occurred writing to encoder temp buffer")
-		return n, err
 	}
 
-	length := e.buf.Len()
-	for length >= int(e.chunkSize) {
-		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
-			return 0, errors.Wrap(err, "An error occured writing chunksize")
-		}
-
-		numWritten, err := e.w.Write(e.buf.Next(int(e.chunkSize)))
-		if err != nil {
-			err = errors.Wrap(err, "An error occured writing a chunk")
-		}
+	return n, err
+}
 
-		return numWritten, err
+// flush writes the message to the writer, in chunks of at most chunkSize bytes, and ends it
+func (e EncoderV1) flush() error {
+	chunkSize := int(e.chunkSize)
+	if chunkSize == 0 {
+		chunkSize = math.MaxUint16
 	}
 
-	return n, nil
-}
+	for e.buf.Len() > 0 {
+		chunk := e.buf.Next(chunkSize)
 
-// flush finishes the encoding stream by flushing it to the writer
-func (e EncoderV1) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
-		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
+		if err := binary.Write(e.w, binary.BigEndian, uint16(len(chunk))); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(chunk); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
@@ -89,20 +78,20 @@ func (e EncoderV1) flush() error {
 	if err != nil {
 		return errors.Wrap(err, "An error occurred ending encoding message")
 	}
-	e.buf.Reset()
 
 	return nil
 }
 
 // Encode encodes an object to the stream
 func (e EncoderV1) Encode(iVal interface{}) error {
+	// whatever happens, the next message starts afresh
+	defer e.buf.Reset()
 
 	err := e.encode(iVal)
 	if err != nil {
 		return err
 	}
 
-	// Whatever is left in the buffer for the chunk at the end, write it out
 	return e.flush()
 }
 
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 3d5f7cc..e13f51b 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -46,46 +46,37 @@ func Marshal(v interface{}) ([]byte, error) {
 	return x.Bytes(), err
 }
 
-// write writes to the writer.  Buffers the writes using chunkSize.
+// Write adds to the current message. Nothing reaches the underlying writer before the
+// whole message has been encoded, so that a message that turns out not to be encodable
+// leaves no trace in the stream.
 func (e EncoderV2) Write(p []byte) (n int, err error) {
-	//log.Trace("in encode write")
-	//log.Trace(fmt.Sprintf("len writing is %v", len(p)))
-	//log.Trace(fmt.Sprintf("%x", p))
-
 	n, err = e.buf.Write(p)
 	if err != nil {
 		err = errors.Wrap(err, "An error occurred writing to encoder temp buffer")
-		return n, err
 	}
 
-	length := e.buf.Len()
-	for length >= int(e.chunkSize) {
-		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
-			return 0, errors.Wrap(err, "An error occured writing chunksize")
-		}
-
-		numWritten, err := e.w.Write(e.buf.Next(int(e.chunkSize)))
-		if err != nil {
-			err = errors.Wrap(err, "An error occured writing a chunk")
-		}
-
-		return numWritten, err
-	}
-
-	return n, nil
+	return n, err
 }
 
-// flush finishes the encoding stream by flushing it to the writer
+// flush writes the message to the writer, in chunks of at most chunkSize bytes, and ends it
 func (e EncoderV2) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
+	if e.buf.Len() > 0 {
 		log.TraceBytesFromBuf(e.buf)
+	}
+
+	chunkSize := int(e.chunkSize)
+	if chunkSize == 0 {
+		chunkSize = math.MaxUint16
+	}
+
+	for e.buf.Len() > 0 {
+		chunk := e.buf.Next(chunkSize)
 
-		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
+		if err := binary.Write(e.w, binary.BigEndian, uint16(len(chunk))); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(chunk); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
@@ -94,20 +85,20 @@ func (e EncoderV2) flush() error {
 	if err != nil {
 		return errors.Wrap(err, "An error occurred ending encoding message")
 	}
-	e.buf.Reset()
 
 	return nil
 }
 
 // Encode encodes an object to the stream
 func (e EncoderV2) Encode(iVal interface{}) error {
+	// whatever happens, the next message starts afresh
+	defer e.buf.Reset()
 
 	err := e.encode(iVal)
 	if err != nil {
 		return err
 	}
 
-	// Whatever is left in the buffer for the chunk at the end, write it out
 	return e.flush()
 }
 
-- 
2.43.0


From e7cd49272567a9612038e678ac344cc1a79a416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:30 +0000
Subject: [PATCH 02/53] fix: point values, as decoded, can be sent back

Only pointers to points implemented Structure, while the decoder returns values.
---
 structures/types/point.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structures/types/point.go b/structures/types/point.go
index 6b7dff2..defac79 100644
--- a/structures/types/point.go
+++ b/structures/types/point.go
@@ -13,11 +13,11 @@ type Point2D struct {
 	X, Y float64
 }
 
-func (p *Point2D) Signature() int {
+func (p Point2D) Signature() int {
 	return int(Point2DStructSignature)
 }
 
-func (p *Point2D) AllFields() []interface{} {
+func (p Point2D) AllFields() []interface{} {
 	return []interface{}{p.SRID, p.X, p.Y}
 }
 
@@ -26,10 +26,10 @@ type Point3D struct {
 	X, Y, Z float64
 }
 
-func (p *Point3D) Signature() int {
+func (p Point3D) Signature() int {
 	return int(Point3DStructSignature)
 }
 
-func (p *Point3D) AllFields() []interface{} {
+func (p Point3D) AllFields() []interface{} {
 	return []interface{}{p.SRID, p.X, p.Y, p.Z}
 }
-- 
2.43.0


From 25252294cc348348c170702423e7ad5422511218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:23 +0000
Subject: [PATCH 03/53] fix: read sizes of strings, lists, maps and structures
 as unsigned

Sizes of 128..255, 32768..65535 and from 2^31 were taken as negative.
---
 encoding/encoding_v1/decoderV1.go | 22 +++++++++++-----------
 encoding/encoding_v2/decoderV2.go | 22 +++++++++++-----------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index d15066f..fdb5cdc 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -161,19 +161,19 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		}
 		return string(buffer.Next(size)), nil
 	case marker == encode_consts.String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
@@ -184,19 +184,19 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == encode_consts.Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -207,19 +207,19 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == encode_consts.Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -230,13 +230,13 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == encode_consts.Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == encode_consts.Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 0641024..8f6965f 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -156,19 +156,19 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		}
 		return string(buffer.Next(size)), nil
 	case marker == encode_consts.String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
@@ -179,19 +179,19 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == encode_consts.Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -202,19 +202,19 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == encode_consts.Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -225,13 +225,13 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == encode_consts.Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == encode_consts.Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
-- 
2.43.0


From 467c14d041de1db6fdcaf03a6856cf64f26281dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:24 +0000
Subject: [PATCH 04/53] fix: refuse strings, lists and maps that exceed the
 message

A truncated string was silently shortened, and the declared size of a list or map
was allocated without regard to the bytes received.
---
 encoding/encoding_v1/decoderV1.go | 35 ++++++++++++++++++++++---------
 encoding/encoding_v2/decoderV2.go | 35 ++++++++++++++++++++++---------
 2 files changed, 50 insertions(+), 20 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index fdb5cdc..3c7893b 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -156,28 +156,25 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 	// STRING
 	case marker >= encode_consts.TinyStringMarker && marker <= encode_consts.TinyStringMarker+0x0F:
 		size := int(marker) - int(encode_consts.TinyStringMarker)
-		if size == 0 {
-			return "", nil
-		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == encode_consts.String8Marker:
 		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String16Marker:
 		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String32Marker:
 		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= encode_consts.TinySliceMarker && marker <= encode_consts.TinySliceMarker+0x0F:
@@ -248,21 +245,39 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+func (d DecoderV1) decodeString(buffer *bytes.Buffer, size int) (interface{}, error) {
+	if size > buffer.Len() {
+		return nil, errors.New("String of %d bytes exceeds the %d bytes left of the message", size, buffer.Len())
+	}
+
+	return string(buffer.Next(size)), nil
+}
+
 func (d DecoderV1) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
-	slice := make([]interface{}, size)
+	// every item takes at least one byte
+	if size > buffer.Len() {
+		return nil, errors.New("List of %d items exceeds the %d bytes left of the message", size, buffer.Len())
+	}
+
+	slice := []interface{}{}
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
 		if err != nil {
 			return nil, err
 		}
-		slice[i] = item
+		slice = append(slice, item)
 	}
 
 	return slice, nil
 }
 
 func (d DecoderV1) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
-	mapp := make(map[string]interface{}, size)
+	// every entry takes at least two bytes
+	if size > buffer.Len()/2 {
+		return nil, errors.New("Map of %d entries exceeds the %d bytes left of the message", size, buffer.Len())
+	}
+
+	mapp := map[string]interface{}{}
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
 		if err != nil {
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 8f6965f..7546ced 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -151,28 +151,25 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 	// STRING
 	case marker >= encode_consts.TinyStringMarker && marker <= encode_consts.TinyStringMarker+0x0F:
 		size := int(marker) - int(encode_consts.TinyStringMarker)
-		if size == 0 {
-			return "", nil
-		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == encode_consts.String8Marker:
 		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String16Marker:
 		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String32Marker:
 		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= encode_consts.TinySliceMarker && marker <= encode_consts.TinySliceMarker+0x0F:
@@ -243,21 +240,39 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+func (d DecoderV2) decodeString(buffer *bytes.Buffer, size int) (interface{}, error) {
+	if size > buffer.Len() {
+		return nil, errors.New("String of %d bytes exceeds the %d bytes left of the message", size, buffer.Len())
+	}
+
+	return string(buffer.Next(size)), nil
+}
+
 func (d DecoderV2) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
-	slice := make([]interface{}, size)
+	// every item takes at least one byte
+	if size > buffer.Len() {
+		return nil, errors.New("List of %d items exceeds the %d bytes left of the message", size, buffer.Len())
+	}
+
+	slice := []interface{}{}
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
 		if err != nil {
 			return nil, err
 		}
-		slice[i] = item
+		slice = append(slice, item)
 	}
 
 	return slice, nil
 }
 
 func (d DecoderV2) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
-	mapp := make(map[string]interface{}, size)
+	// every entry takes at least two bytes
+	if size > buffer.Len()/2 {
+		return nil, errors.New("Map of %d entries exceeds the %d bytes left of the message", size, buffer.Len())
+	}
+
+	mapp := map[string]interface{}{}
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
 		if err != nil {
-- 
2.43.0


From c91a4c3a76f7e3b004cced05af434f04b17924b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:26 +0000
Subject: [PATCH 05/53] fix: ill-typed identities in graph structures are an
 error, not a panic

---
 encoding/encoding_v1/decoderV1.go | 30 +++++++++++++++++++++++-------
 encoding/encoding_v2/decoderV2.go | 30 +++++++++++++++++++++++-------
 encoding/util.go                  |  6 +++++-
 3 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index 3c7893b..8bbbb3c 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -335,12 +335,16 @@ func (d DecoderV1) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, er
 
 func (d DecoderV1) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	node := graph.Node{}
+	var ok bool
 
 	nodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: NodeIdentity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -370,26 +374,35 @@ func (d DecoderV1) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 
 func (d DecoderV1) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, error) {
 	rel := graph.Relationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: StartNodeIdentity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: EndNodeIdentity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -455,14 +468,17 @@ func (d DecoderV1) decodePath(buffer *bytes.Buffer) (graph.Path, error) {
 
 func (d DecoderV1) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.UnboundRelationship, error) {
 	rel := graph.UnboundRelationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 7546ced..2e74092 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -647,12 +647,16 @@ func (d DecoderV2) decodePoint3D(buffer *bytes.Buffer) (types.Point3D, error) {
 
 func (d DecoderV2) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	node := graph.Node{}
+	var ok bool
 
 	nodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: NodeIdentity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -682,26 +686,35 @@ func (d DecoderV2) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 
 func (d DecoderV2) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, error) {
 	rel := graph.Relationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: StartNodeIdentity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: EndNodeIdentity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -767,14 +780,17 @@ func (d DecoderV2) decodePath(buffer *bytes.Buffer) (graph.Path, error) {
 
 func (d DecoderV2) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.UnboundRelationship, error) {
 	rel := graph.UnboundRelationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/util.go b/encoding/util.go
index b1409c6..bd6e2b0 100644
--- a/encoding/util.go
+++ b/encoding/util.go
@@ -20,7 +20,11 @@ func SliceInterfaceToString(from []interface{}) ([]string, error) {
 func SliceInterfaceToInt(from []interface{}) ([]int, error) {
 	to := make([]int, len(from))
 	for idx, item := range from {
-		to[idx] = int(item.(int64))
+		toItem, ok := item.(int64)
+		if !ok {
+			return nil, errors.New("Expected int value. Got %T %+v", item, item)
+		}
+		to[idx] = int(toItem)
 	}
 	return to, nil
 }
-- 
2.43.0


From c3a4cb10bc68a99b3b3fe8fe73ebc97607b14712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:27 +0000
Subject: [PATCH 06/53] fix: check the number of fields of received structures

It was ignored, so a structure with too few fields swallowed the values after it.
---
 encoding/encoding_v1/decoderV1.go | 50 +++++++++++++++++++-------
 encoding/encoding_v2/decoderV2.go | 60 ++++++++++++++++++++++++-------
 2 files changed, 86 insertions(+), 24 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index 8bbbb3c..cedef51 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -298,6 +298,17 @@ func (d DecoderV1) decodeMap(buffer *bytes.Buffer, size int) (map[string]interfa
 	return mapp, nil
 }
 
+// structFields has the number of fields of the structures that are decoded field by field
+var structFields = map[byte]int{
+	graph.NodeSignature:                3,
+	graph.RelationshipSignature:        5,
+	graph.PathSignature:                3,
+	graph.UnboundRelationshipSignature: 3,
+	messages.RecordMessageSignature:    1,
+	messages.FailureMessageSignature:   1,
+	messages.SuccessMessageSignature:   1,
+}
+
 func (d DecoderV1) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, error) {
 
 	signature, err := buffer.ReadByte()
@@ -305,6 +316,10 @@ func (d DecoderV1) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, er
 		return nil, errors.Wrap(err, "An error occurred reading struct signature byte")
 	}
 
+	if expected, ok := structFields[signature]; ok && size != expected {
+		return nil, errors.New("Structure with signature %x has %d fields instead of %d", signature, size, expected)
+	}
+
 	switch signature {
 	case graph.NodeSignature:
 		return d.decodeNode(buffer)
@@ -319,15 +334,15 @@ func (d DecoderV1) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, er
 	case messages.FailureMessageSignature:
 		return d.decodeFailureMessage(buffer)
 	case messages.IgnoredMessageSignature:
-		return d.decodeIgnoredMessage(buffer)
+		return d.decodeIgnoredMessage(buffer, size)
 	case messages.SuccessMessageSignature:
 		return d.decodeSuccessMessage(buffer)
 	case messages.DiscardAllMessageSignature:
-		return d.decodeDiscardAllMessage(buffer)
+		return d.decodeDiscardAllMessage(buffer, size)
 	case messages.PullAllMessageSignature:
-		return d.decodePullAllMessage(buffer)
+		return d.decodePullAllMessage(buffer, size)
 	case messages.ResetMessageSignature:
-		return d.decodeResetMessage(buffer)
+		return d.decodeResetMessage(buffer, size)
 	default:
 		return nil, errors.New("Unrecognized type decoding struct with signature %x", signature)
 	}
@@ -526,8 +541,8 @@ func (d DecoderV1) decodeFailureMessage(buffer *bytes.Buffer) (messages.FailureM
 	return messages.NewFailureMessage(metadata), nil
 }
 
-func (d DecoderV1) decodeIgnoredMessage(buffer *bytes.Buffer) (messages.IgnoredMessage, error) {
-	return messages.NewIgnoredMessage(), nil
+func (d DecoderV1) decodeIgnoredMessage(buffer *bytes.Buffer, size int) (messages.IgnoredMessage, error) {
+	return messages.NewIgnoredMessage(), d.skip(buffer, size)
 }
 
 func (d DecoderV1) decodeSuccessMessage(buffer *bytes.Buffer) (messages.SuccessMessage, error) {
@@ -543,14 +558,25 @@ func (d DecoderV1) decodeSuccessMessage(buffer *bytes.Buffer) (messages.SuccessM
 	return messages.NewSuccessMessage(metadata), nil
 }
 
-func (d DecoderV1) decodeDiscardAllMessage(buffer *bytes.Buffer) (messages.DiscardAllMessage, error) {
-	return messages.NewDiscardAllMessage(), nil
+func (d DecoderV1) decodeDiscardAllMessage(buffer *bytes.Buffer, size int) (messages.DiscardAllMessage, error) {
+	return messages.NewDiscardAllMessage(), d.skip(buffer, size)
 }
 
-func (d DecoderV1) decodePullAllMessage(buffer *bytes.Buffer) (messages.PullAllMessage, error) {
-	return messages.NewPullAllMessage(), nil
+func (d DecoderV1) decodePullAllMessage(buffer *bytes.Buffer, size int) (messages.PullAllMessage, error) {
+	return messages.NewPullAllMessage(), d.skip(buffer, size)
 }
 
-func (d DecoderV1) decodeResetMessage(buffer *bytes.Buffer) (messages.ResetMessage, error) {
-	return messages.NewResetMessage(), nil
+func (d DecoderV1) decodeResetMessage(buffer *bytes.Buffer, size int) (messages.ResetMessage, error) {
+	return messages.NewResetMessage(), d.skip(buffer, size)
+}
+
+// skip reads and drops n values
+func (d DecoderV1) skip(buffer *bytes.Buffer, n int) error {
+	for i := 0; i < n; i++ {
+		if _, err := d.decode(buffer); err != nil {
+			return err
+		}
+	}
+
+	return nil
 }
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 2e74092..4479a8f 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -293,6 +293,27 @@ func (d DecoderV2) decodeMap(buffer *bytes.Buffer, size int) (map[string]interfa
 	return mapp, nil
 }
 
+// structFields has the number of fields of the structures that are decoded field by field
+var structFields = map[byte]int{
+	graph.NodeSignature:                3,
+	graph.RelationshipSignature:        5,
+	graph.PathSignature:                3,
+	graph.UnboundRelationshipSignature: 3,
+	types.Point2DStructSignature:       types.Point2DStructSize,
+	types.Point3DStructSignature:       types.Point3DStructSize,
+	messages.RecordMessageSignature:    1,
+	messages.FailureMessageSignature:   1,
+	messages.SuccessMessageSignature:   1,
+
+	encode_consts.DateSignature:                   encode_consts.DateStructSize,
+	encode_consts.TimeSignature:                   encode_consts.TimeStructSize,
+	encode_consts.LocalTimeSignature:              encode_consts.LocalTimeStructSize,
+	encode_consts.LocalDateTimeSignature:          encode_consts.LocalDateTimeStructSize,
+	encode_consts.DateTimeWithZoneOffsetSignature: encode_consts.DateTimeStructSize,
+	encode_consts.DateTimeWithZoneIdSignature:     encode_consts.DateTimeStructSize,
+	encode_consts.DurationSignature:               encode_consts.DurationTimeStructSize,
+}
+
 func (d DecoderV2) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, error) {
 
 	signature, err := buffer.ReadByte()
@@ -300,6 +321,10 @@ func (d DecoderV2) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, er
 		return nil, errors.Wrap(err, "An error occurred reading struct signature byte")
 	}
 
+	if expected, ok := structFields[signature]; ok && size != expected {
+		return nil, errors.New("Structure with signature %x has %d fields instead of %d", signature, size, expected)
+	}
+
 	switch signature {
 	case graph.NodeSignature:
 		return d.decodeNode(buffer)
@@ -318,15 +343,15 @@ func (d DecoderV2) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, er
 	case messages.FailureMessageSignature:
 		return d.decodeFailureMessage(buffer)
 	case messages.IgnoredMessageSignature:
-		return d.decodeIgnoredMessage(buffer)
+		return d.decodeIgnoredMessage(buffer, size)
 	case messages.SuccessMessageSignature:
 		return d.decodeSuccessMessage(buffer)
 	case messages.DiscardAllMessageSignature:
-		return d.decodeDiscardAllMessage(buffer)
+		return d.decodeDiscardAllMessage(buffer, size)
 	case messages.PullAllMessageSignature:
-		return d.decodePullAllMessage(buffer)
+		return d.decodePullAllMessage(buffer, size)
 	case messages.ResetMessageSignature:
-		return d.decodeResetMessage(buffer)
+		return d.decodeResetMessage(buffer, size)
 	case encode_consts.DateSignature:
 		return d.decodeDate(buffer)
 	case encode_consts.TimeSignature:
@@ -838,8 +863,8 @@ func (d DecoderV2) decodeFailureMessage(buffer *bytes.Buffer) (messages.FailureM
 	return messages.NewFailureMessage(metadata), nil
 }
 
-func (d DecoderV2) decodeIgnoredMessage(buffer *bytes.Buffer) (messages.IgnoredMessage, error) {
-	return messages.NewIgnoredMessage(), nil
+func (d DecoderV2) decodeIgnoredMessage(buffer *bytes.Buffer, size int) (messages.IgnoredMessage, error) {
+	return messages.NewIgnoredMessage(), d.skip(buffer, size)
 }
 
 func (d DecoderV2) decodeSuccessMessage(buffer *bytes.Buffer) (messages.SuccessMessage, error) {
@@ -855,14 +880,25 @@ func (d DecoderV2) decodeSuccessMessage(buffer *bytes.Buffer) (messages.SuccessM
 	return messages.NewSuccessMessage(metadata), nil
 }
 
-func (d DecoderV2) decodeDiscardAllMessage(buffer *bytes.Buffer) (messages.DiscardAllMessage, error) {
-	return messages.NewDiscardAllMessage(), nil
+func (d DecoderV2) decodeDiscardAllMessage(buffer *bytes.Buffer, size int) (messages.DiscardAllMessage, error) {
+	return messages.NewDiscardAllMessage(), d.skip(buffer, size)
 }
 
-func (d DecoderV2) decodePullAllMessage(buffer *bytes.Buffer) (messages.PullAllMessage, error) {
-	return messages.NewPullAllMessage(), nil
+func (d DecoderV2) decodePullAllMessage(buffer *bytes.Buffer, size int) (messages.PullAllMessage, error) {
+	return messages.NewPullAllMessage(), d.skip(buffer, size)
 }
 
-func (d DecoderV2) decodeResetMessage(buffer *bytes.Buffer) (messages.ResetMessage, error) {
-	return messages.NewResetMessage(), nil
+func (d DecoderV2) decodeResetMessage(buffer *bytes.Buffer, size int) (messages.ResetMessage, error) {
+	return messages.NewResetMessage(), d.skip(buffer, size)
+}
+
+// skip reads and drops n values
+func (d DecoderV2) skip(buffer *bytes.Buffer, n int) error {
+	for i := 0; i < n; i++ {
+		if _, err := d.decode(buffer); err != nil {
+			return err
+		}
+	}
+
+	return nil
 }
-- 
2.43.0


From b1850b0ada29565e86ab2ffdf7b6b1afecae2b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 07/53] fix: bound the nesting of received values

A deeply nested message overflowed the stack, which ends the process.
---
 encoding/encoding_v1/decoderV1.go | 13 +++++++++++--
 encoding/encoding_v2/decoderV2.go | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index cedef51..e7c253f 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -21,10 +21,14 @@ import (
 // map[string]interface{} and []interface{} are supported.
 // The interface for maps and slices may be more permissive in the future.
 type DecoderV1 struct {
-	r   io.Reader
-	buf *bytes.Buffer
+	r     io.Reader
+	buf   *bytes.Buffer
+	depth int // of the value being decoded
 }
 
+// maxDepth bounds the nesting of values, because a stack overflow can not be recovered from
+const maxDepth = 10000
+
 // NewDecoder Creates a new DecoderV1 object
 func NewDecoder(r io.Reader) DecoderV1 {
 	return DecoderV1{
@@ -101,6 +105,11 @@ func (d DecoderV1) Decode() (interface{}, error) {
 }
 
 func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
+	// d is a copy: this counts the enclosing values only
+	d.depth++
+	if d.depth > maxDepth {
+		return nil, errors.New("Values nested more than %d levels deep", maxDepth)
+	}
 
 	marker, err := buffer.ReadByte()
 	if err != nil {
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 4479a8f..70e50a1 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -16,10 +16,14 @@ import (
 )
 
 type DecoderV2 struct {
-	r   io.Reader
-	buf *bytes.Buffer
+	r     io.Reader
+	buf   *bytes.Buffer
+	depth int // of the value being decoded
 }
 
+// maxDepth bounds the nesting of values, because a stack overflow can not be recovered from
+const maxDepth = 10000
+
 // NewDecoder Creates a new DecoderV2 object
 func NewDecoder(r io.Reader) DecoderV2 {
 	return DecoderV2{
@@ -96,6 +100,11 @@ func (d DecoderV2) Decode() (interface{}, error) {
 }
 
 func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
+	// d is a copy: this counts the enclosing values only
+	d.depth++
+	if d.depth > maxDepth {
+		return nil, errors.New("Values nested more than %d levels deep", maxDepth)
+	}
 
 	marker, err := buffer.ReadByte()
 	if err != nil {
-- 
2.43.0


From f46170e79a8a2e786786f15001e2379e6d6ff5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:29 +0000
Subject: [PATCH 08/53] fix: accept readers that return the last bytes together
 with the end of the stream

---
 encoding/encoding_v1/decoderV1.go | 17 ++---------------
 encoding/encoding_v2/decoderV2.go | 17 ++---------------
 2 files changed, 4 insertions(+), 30 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index e7c253f..3a692b8 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -74,21 +74,8 @@ func (d DecoderV1) read() (*bytes.Buffer, error) {
 
 func (d DecoderV1) readData(messageLen uint16) ([]byte, error) {
 	output := make([]byte, messageLen)
-	var totalRead uint16
-	for totalRead < messageLen {
-		data := make([]byte, messageLen-totalRead)
-		numRead, err := d.r.Read(data)
-		if err != nil {
-			return nil, errors.Wrap(err, "An error occurred reading from stream")
-		} else if numRead == 0 {
-			return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", totalRead, messageLen)
-		}
-
-		for idx, b := range data {
-			output[uint16(idx)+totalRead] = b
-		}
-
-		totalRead += uint16(numRead)
+	if numRead, err := io.ReadFull(d.r, output); err != nil {
+		return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", numRead, messageLen)
 	}
 
 	return output, nil
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 70e50a1..65f92ec 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -69,21 +69,8 @@ func (d DecoderV2) read() (*bytes.Buffer, error) {
 
 func (d DecoderV2) readData(messageLen uint16) ([]byte, error) {
 	output := make([]byte, messageLen)
-	var totalRead uint16
-	for totalRead < messageLen {
-		data := make([]byte, messageLen-totalRead)
-		numRead, err := d.r.Read(data)
-		if err != nil {
-			return nil, errors.Wrap(err, "An error occurred reading from stream")
-		} else if numRead == 0 {
-			return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", totalRead, messageLen)
-		}
-
-		for idx, b := range data {
-			output[uint16(idx)+totalRead] = b
-		}
-
-		totalRead += uint16(numRead)
+	if numRead, err := io.ReadFull(d.r, output); err != nil {
+		return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", numRead, messageLen)
 	}
 
 	return output, nil
-- 
2.43.0


From 47379a0db3c8fcf07031e281e0172293aafe54cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:05 +0000
Subject: [PATCH 09/53] fix: accept a handshake reply that arrives in pieces

---
 connection/connection.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 2308c83..2b9a8ec 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -242,11 +242,10 @@ func (c *Connection) handshake() ([]byte, error) {
 	}
 
 	version := make([]byte, 4, 4)
-	numRead, err := c.readWrite.Read(version)
+	// the four bytes may arrive in several pieces
+	_, err = io.ReadFull(c.readWrite, version)
 	if err != nil {
 		return nil, err
-	} else if numRead != 4 {
-		return nil, fmt.Errorf("expected [4] bytes but got [%v]", numRead)
 	} else if bytes.Equal(version, noVersionSupported) {
 		return nil, errors.New("server responded with no supported version")
 	}
-- 
2.43.0


From 763d1e57d0ff85b9eee51cf76bbd57fd7f531d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 10/53] fix: a connection that cannot be initialized is closed
 and reported

---
 connection/connection.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 2b9a8ec..ec7d8df 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -97,6 +97,13 @@ func CreateBoltConn(connStr string) (IConnection, error) {
 
 	err = conn.initialize()
 	if err != nil {
+		// do not leave the socket behind, unless it was closed already
+		if conn.conn != nil && !conn.closed {
+			conn.closed = true
+			if closeErr := conn.conn.Close(); closeErr != nil {
+				log.Errorf("An error occurred closing the connection: %s", closeErr)
+			}
+		}
 		return nil, err
 	}
 
@@ -299,7 +306,7 @@ func (c *Connection) sendInit(message structures.Structure) error {
 		return nil
 	default:
 		log.Errorf("Got an unrecognized message when initializing connection :%+v", resp)
-		return c.Close()
+		return fmt.Errorf("unexpected response of type [%T] initializing connection", resp)
 	}
 }
 
-- 
2.43.0


From e200418a41ac6421b828e759ca6e748e8c1d9474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 11/53] fix: a connection whose stream broke is never used
 again

After a transport error, a timeout, an undecodable or an unexpected response
the connection went on as if nothing had happened and read the responses of
earlier requests. The end of the stream was not reported as a bad connection.
---
 connection/connection.go  | 46 +++++++++++++++++++++++++++++++--------
 connection/transaction.go |  8 +++----
 2 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index ec7d8df..0ef9b7c 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -28,26 +28,39 @@ type readWrite struct {
 }
 
 func (r *readWrite) Write(p []byte) (n int, err error) {
+	if r.connection.broken {
+		return 0, driver.ErrBadConn
+	}
+
 	if err := r.connection.conn.SetWriteDeadline(time.Now().Add(r.connection.timeout)); err != nil {
 		//c.connErr = errors.Wrap(err, "An error occurred setting write deadline")
+		r.connection.markBroken()
 		return 0, driver.ErrBadConn
 	}
 
 	n, err = r.connection.conn.Write(p)
 
 	if err != nil {
+		r.connection.markBroken()
 		err = driver.ErrBadConn
 	}
 	return n, err
 }
 
 func (r *readWrite) Read(p []byte) (n int, err error) {
+	if r.connection.broken {
+		return 0, driver.ErrBadConn
+	}
+
 	if err := r.connection.conn.SetReadDeadline(time.Now().Add(r.connection.timeout)); err != nil {
+		r.connection.markBroken()
 		return 0, driver.ErrBadConn
 	}
 
 	n, err = r.connection.conn.Read(p)
-	if err != nil && err != io.EOF {
+	if err != nil {
+		// the end of the stream is never expected while waiting for a response
+		r.connection.markBroken()
 		err = driver.ErrBadConn
 	}
 	return n, err
@@ -82,6 +95,7 @@ type Connection struct {
 	chunkSize uint16
 	conn      net.Conn
 	closed    bool
+	broken    bool // the stream can not be used any more
 	openQuery bool
 	mutex     sync.Mutex
 
@@ -310,9 +324,21 @@ func (c *Connection) sendInit(message structures.Structure) error {
 	}
 }
 
+// markBroken records that requests and responses can not be matched any more,
+// nothing may be sent or read from then on
+func (c *Connection) markBroken() {
+	c.broken = true
+}
+
+// unexpectedResponse is the error for a response that does not fit the request
+func (c *Connection) unexpectedResponse(doing string, resp interface{}) error {
+	c.markBroken()
+	return errors.New("Unrecognized response type %s: %#v", doing, resp)
+}
+
 func (c *Connection) ValidateOpen() bool {
 	//log.Tracef("checking validate open")
-	if c.closed {
+	if c.closed || c.broken {
 		return false
 	}
 
@@ -408,7 +434,7 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 
 	_, ok := resp.(messages.SuccessMessage)
 	if !ok {
-		return nil, nil, fmt.Errorf("unexpected response of type [%T], should be [messages.SuccessMessage]", resp)
+		return nil, nil, c.unexpectedResponse("running query", resp)
 	}
 
 	output := [][]interface{}{}
@@ -426,7 +452,7 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 			log.Tracef("Got record message: %#v", resp)
 			output = append(output, resp.Fields)
 		default:
-			return nil, nil, errors.New("Unrecognized response type getting next runQuery row: %#v", resp)
+			return nil, nil, c.unexpectedResponse("getting next runQuery row", resp)
 		}
 	}
 }
@@ -512,15 +538,15 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 		}
 	}
 
-	success, ok := runSucc.(messages.SuccessMessage)
+	_, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response type beginning transaction: %#v", success)
+		return nil, c.unexpectedResponse("beginning transaction", runSucc)
 	}
 
 	if !isBeginMsg {
-		pull, ok := pullSucc.(messages.SuccessMessage)
+		_, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
-			return nil, errors.New("Unrecognized response beginning transaction:  %#v", pull)
+			return nil, c.unexpectedResponse("beginning transaction", pullSucc)
 		}
 	}
 
@@ -557,7 +583,8 @@ func (c *Connection) consume() (interface{}, error) {
 
 	respInt, err := c.boltProtocol.NewDecoder(c.readWrite).Decode()
 	if err != nil {
-		return respInt, err
+		c.markBroken()
+		return nil, err
 	}
 
 	if log.GetLevel() >= log.TraceLevel {
@@ -588,6 +615,7 @@ func (c *Connection) reset() error {
 	for {
 		respInt, err := c.boltProtocol.NewDecoder(c.readWrite).Decode()
 		if err != nil {
+			c.markBroken()
 			return errors.Wrap(err, "An error occurred decoding reset message response")
 		}
 
diff --git a/connection/transaction.go b/connection/transaction.go
index 36a14d3..4b9b984 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -88,7 +88,7 @@ func (t *boltTransaction) Commit() error {
 
 	success, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type committing transaction: %#v", success)
+		return t.conn.unexpectedResponse("committing transaction", runSucc)
 	}
 
 	log.Tracef("Got success message committing transaction: %#v", success)
@@ -96,7 +96,7 @@ func (t *boltTransaction) Commit() error {
 	if !isCommitType {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
-			return errors.New("Unrecognized response type pulling transaction:  %#v", pull)
+			return t.conn.unexpectedResponse("pulling transaction", pullSucc)
 		}
 
 		log.Tracef("Got success message pulling transaction: %#v", pull)
@@ -149,7 +149,7 @@ func (t *boltTransaction) Rollback() error {
 
 	success, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type rolling back transaction: %#v", success)
+		return t.conn.unexpectedResponse("rolling back transaction", runSucc)
 	}
 
 	log.Tracef("Got success message rolling back transaction: %#v", success)
@@ -157,7 +157,7 @@ func (t *boltTransaction) Rollback() error {
 	if !isRollbackType {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
-			return errors.New("Unrecognized response type pulling transaction:  %#v", pull)
+			return t.conn.unexpectedResponse("pulling transaction", pullSucc)
 		}
 
 		log.Tracef("Got success message pulling transaction: %#v", pull)
-- 
2.43.0


From 2341bd5b9d37de3601e89cfa72bf8b0ed637c9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:17 +0000
Subject: [PATCH 12/53] fix: notice that the peer of an idle connection is gone

With a read deadline of now the read never looks at the socket, so a closed or
reset connection passed for open.
---
 connection/connection.go | 14 ++++++++++----
 connection/const.go      |  5 +++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 0ef9b7c..973c724 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -346,16 +346,22 @@ func (c *Connection) ValidateOpen() bool {
 		return false
 	}
 
+	// a deadline that has passed already would hide the end of the stream
 	one := make([]byte, 1)
-	err := c.conn.SetReadDeadline(time.Now())
+	err := c.conn.SetReadDeadline(time.Now().Add(validateTimeout))
 	if err != nil {
+		c.markBroken()
 		return false
 	}
-	if _, err := c.conn.Read(one); err == io.EOF {
-		return false
-	} else {
+
+	// a healthy idle connection has nothing to read
+	_, err = c.conn.Read(one)
+	if netErr, ok := err.(net.Error); ok && netErr.Timeout() {
 		return true
 	}
+
+	c.markBroken()
+	return false
 }
 
 // Sets the size of the chunks to write to the stream
diff --git a/connection/const.go b/connection/const.go
index 359b206..79fd270 100644
--- a/connection/const.go
+++ b/connection/const.go
@@ -1,5 +1,10 @@
 package connection
 
+import "time"
+
+// validateTimeout is how long an idle connection is given to show that it is dead
+const validateTimeout = time.Millisecond
+
 var (
 	magicPreamble     = []byte{0x60, 0x60, 0xb0, 0x17}
 	supportedVersions = []byte{
-- 
2.43.0


From 45e040f1cc1128ab100a42124d7d3276845de226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 13/53] fix: closing a connection always closes its socket

A failing rollback or goodbye returned early and left the socket open, and a
refused reset closed the connection by way of the rollback, which was refused
again, without end.
---
 connection/connection.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 973c724..4e04ed3 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -468,33 +468,34 @@ func (c *Connection) Close() error {
 		return errors.ErrClosed
 	}
 
-	if c.transaction != nil {
+	if c.conn == nil {
+		return errors.New("can not close nil transaction")
+	}
+
+	// whatever can not be said to the server any more, the socket has to be closed
+	if c.transaction != nil && !c.broken {
 		err := c.transaction.Rollback()
 		if err != nil {
-			return err
+			log.Errorf("An error occurred rolling back the transaction of a closing connection: %s", err)
 		}
-	}
 
-	if c.conn == nil {
-		return errors.New("can not close nil transaction")
+		// rolling back failed in a way that closed the connection
+		if c.closed {
+			return nil
+		}
 	}
 
-	if msg, ok := c.boltProtocol.GetCloseMessage(); ok {
+	if msg, ok := c.boltProtocol.GetCloseMessage(); ok && !c.broken {
 		err := c.sendMessage(msg)
 		if err != nil {
-			return err
+			log.Errorf("An error occurred saying goodbye: %s", err)
 		}
 
 		// explicitly not consuming since we're closing the connection
 	}
 
-	err := c.conn.Close()
 	c.closed = true
-	if err != nil {
-		return err
-	}
-
-	return nil
+	return c.conn.Close()
 }
 
 func (c *Connection) MakeIdle() error {
@@ -634,6 +635,7 @@ func (c *Connection) reset() error {
 			return nil
 		case messages.FailureMessage:
 			log.Errorf("Got failure message when resetting session: %#v", resp)
+			c.markBroken()
 			err = c.Close()
 			if err != nil {
 				log.Errorf("An error occurred closing the session: %s", err)
@@ -641,6 +643,7 @@ func (c *Connection) reset() error {
 			return errors.Wrap(resp, "Error resetting session. CLOSING SESSION!")
 		default:
 			log.Errorf("Got unrecognized response from resetting session: %#v", resp)
+			c.markBroken()
 			c.Close()
 			return driver.ErrBadConn
 		}
-- 
2.43.0


From 875935268beb2bffd9283a62e123b1dcc8910303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 14/53] fix: an error text is not a format

---
 connection/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 4e04ed3..447becd 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -602,7 +602,7 @@ func (c *Connection) consume() (interface{}, error) {
 		log.Errorf("Got failure message: %#v", failure)
 		err := c.reset()
 		if err != nil {
-			return nil, errors.Wrap(failure, err.Error())
+			return nil, errors.Wrap(failure, "%s", err.Error())
 		}
 		return failure, errors.Wrap(failure, "Neo4J reported a failure for the runQuery")
 	}
-- 
2.43.0


From bb19a4f5c8ed35bbac5a2029098fd1bb82968ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:50 +0000
Subject: [PATCH 15/53] fix: a transaction ends with the failure of a statement
 and is not used afterwards

After a failure the driver resets the connection, which rolls the transaction
back, but the transaction stayed open on the client: later statements of it ran
outside of any transaction and a new one could not be started. Statements of a
closed transaction were executed, and Exec ran as an auto-commit statement.
---
 connection/connection.go  | 27 +++++++++++++++++++++++----
 connection/transaction.go | 12 +++++-------
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 447becd..54c7f95 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -88,7 +88,7 @@ type Connection struct {
 
 	// handlers
 	readWrite   *readWrite
-	transaction ITransaction
+	transaction *boltTransaction
 
 	// connection stuff
 	timeout   time.Duration
@@ -328,6 +328,15 @@ func (c *Connection) sendInit(message structures.Structure) error {
 // nothing may be sent or read from then on
 func (c *Connection) markBroken() {
 	c.broken = true
+	c.endTransaction()
+}
+
+// endTransaction records that the open transaction, if any, is over
+func (c *Connection) endTransaction() {
+	if c.transaction != nil {
+		c.transaction.closed = true
+		c.transaction = nil
+	}
 }
 
 // unexpectedResponse is the error for a response that does not fit the request
@@ -383,7 +392,7 @@ func (c *Connection) ExecWithDb(query string, params QueryParams, db string) (IR
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
 	}
 
-	_, metadata, err := c.runQuery(query, params, db, false)
+	_, metadata, err := c.runQuery(query, params, db, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -400,7 +409,7 @@ func (c *Connection) QueryWithDb(query string, params QueryParams, db string) ([
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
 	}
 
-	rows, metadata, err := c.runQuery(query, params, db, false)
+	rows, metadata, err := c.runQuery(query, params, db, nil)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -408,7 +417,7 @@ func (c *Connection) QueryWithDb(query string, params QueryParams, db string) ([
 	return rows, newBoltResult(metadata), nil
 }
 
-func (c *Connection) runQuery(query string, params QueryParams, dbName string, inTx bool) ([][]interface{}, map[string]interface{}, error) {
+func (c *Connection) runQuery(query string, params QueryParams, dbName string, tx *boltTransaction) ([][]interface{}, map[string]interface{}, error) {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 	if c.openQuery {
@@ -419,6 +428,13 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 		return nil, nil, errors.New("connection already closed")
 	}
 
+	if tx != nil && tx.closed {
+		return nil, nil, errors.New("Transaction already closed")
+	}
+
+	// the server runs it in the open transaction, whoever asked
+	inTx := c.transaction != nil
+
 	log.Tracef("running query")
 	err := c.sendMessage(c.boltProtocol.GetRunMessage(query, params, dbName, c.accessMode, !inTx))
 	if err != nil {
@@ -495,6 +511,7 @@ func (c *Connection) Close() error {
 	}
 
 	c.closed = true
+	c.endTransaction()
 	return c.conn.Close()
 }
 
@@ -600,6 +617,8 @@ func (c *Connection) consume() (interface{}, error) {
 
 	if failure, isFail := respInt.(messages.FailureMessage); isFail {
 		log.Errorf("Got failure message: %#v", failure)
+		// the server rolls an open transaction back on failure
+		c.endTransaction()
 		err := c.reset()
 		if err != nil {
 			return nil, errors.Wrap(failure, "%s", err.Error())
diff --git a/connection/transaction.go b/connection/transaction.go
index 4b9b984..980ccb2 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -13,7 +13,7 @@ type boltTransaction struct {
 }
 
 func (t *boltTransaction) Exec(query string, params QueryParams) (IResult, error) {
-	return t.conn.Exec(query, params)
+	return t.ExecWithDb(query, params, "")
 }
 
 func (t *boltTransaction) ExecWithDb(query string, params QueryParams, db string) (IResult, error) {
@@ -21,7 +21,7 @@ func (t *boltTransaction) ExecWithDb(query string, params QueryParams, db string
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
-	_, metadata, err := t.conn.runQuery(query, params, db, true)
+	_, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, err
 	}
@@ -38,7 +38,7 @@ func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db strin
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
-	rows, metadata, err := t.conn.runQuery(query, params, db, true)
+	rows, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -102,8 +102,7 @@ func (t *boltTransaction) Commit() error {
 		log.Tracef("Got success message pulling transaction: %#v", pull)
 	}
 
-	t.conn.transaction = nil
-	t.closed = true
+	t.conn.endTransaction()
 	return err
 }
 
@@ -163,8 +162,7 @@ func (t *boltTransaction) Rollback() error {
 		log.Tracef("Got success message pulling transaction: %#v", pull)
 	}
 
-	t.conn.transaction = nil
-	t.closed = true
+	t.conn.endTransaction()
 	return err
 }
 
-- 
2.43.0


From 5f90717456b0b9b53475bc61d90873f3d98ca588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 16/53] fix: refuse to begin a transaction on a named database
 without multi database support

---
 connection/connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/connection/connection.go b/connection/connection.go
index 54c7f95..7ff248d 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -524,6 +524,10 @@ func (c *Connection) MakeIdle() error {
 }
 
 func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
+	if !c.boltProtocol.SupportsMultiDatabase() && db != "" {
+		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
+	}
+
 	if c.transaction != nil {
 		return nil, errors.New("transaction already open")
 	}
-- 
2.43.0


From 8bcdd8b72e28df9cfe0c57460dcffb2c4d6e11b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 17/53] fix: refuse statements for another database than that
 of the transaction

The database of a transaction is fixed when it begins; the database asked for
in a statement was dropped and the statement ran on the wrong one.
---
 connection/connection.go  | 4 ++++
 connection/transaction.go | 1 +
 2 files changed, 5 insertions(+)

diff --git a/connection/connection.go b/connection/connection.go
index 7ff248d..74b2f5a 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -434,6 +434,9 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, t
 
 	// the server runs it in the open transaction, whoever asked
 	inTx := c.transaction != nil
+	if inTx && dbName != "" && dbName != c.transaction.db {
+		return nil, nil, errors.New("can not use database [%s] in a transaction on database [%s]", dbName, c.transaction.db)
+	}
 
 	log.Tracef("running query")
 	err := c.sendMessage(c.boltProtocol.GetRunMessage(query, params, dbName, c.accessMode, !inTx))
@@ -580,6 +583,7 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 
 	c.transaction = &boltTransaction{
 		conn:   c,
+		db:     db,
 		closed: false,
 	}
 
diff --git a/connection/transaction.go b/connection/transaction.go
index 980ccb2..626f058 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -9,6 +9,7 @@ import (
 
 type boltTransaction struct {
 	conn   *Connection
+	db     string
 	closed bool
 }
 
-- 
2.43.0


From 17144bf3024302fe8df2fb4b85d86ad843e4c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 18/53] fix: transactions and closing take the lock of the
 connection as queries do

---
 connection/connection.go  | 25 +++++++++++++++++++++----
 connection/transaction.go | 11 +++++++++++
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 74b2f5a..6157f7e 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -347,6 +347,9 @@ func (c *Connection) unexpectedResponse(doing string, resp interface{}) error {
 
 func (c *Connection) ValidateOpen() bool {
 	//log.Tracef("checking validate open")
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.closed || c.broken {
 		return false
 	}
@@ -483,6 +486,14 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, t
 }
 
 func (c *Connection) Close() error {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	return c.close()
+}
+
+// close requires that the mutex is held
+func (c *Connection) close() error {
 	if c.closed {
 		return errors.ErrClosed
 	}
@@ -493,7 +504,7 @@ func (c *Connection) Close() error {
 
 	// whatever can not be said to the server any more, the socket has to be closed
 	if c.transaction != nil && !c.broken {
-		err := c.transaction.Rollback()
+		err := c.transaction.rollback()
 		if err != nil {
 			log.Errorf("An error occurred rolling back the transaction of a closing connection: %s", err)
 		}
@@ -519,8 +530,11 @@ func (c *Connection) Close() error {
 }
 
 func (c *Connection) MakeIdle() error {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.transaction != nil {
-		return c.transaction.Rollback()
+		return c.transaction.rollback()
 	}
 
 	return nil
@@ -531,6 +545,9 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.transaction != nil {
 		return nil, errors.New("transaction already open")
 	}
@@ -663,7 +680,7 @@ func (c *Connection) reset() error {
 		case messages.FailureMessage:
 			log.Errorf("Got failure message when resetting session: %#v", resp)
 			c.markBroken()
-			err = c.Close()
+			err = c.close()
 			if err != nil {
 				log.Errorf("An error occurred closing the session: %s", err)
 			}
@@ -671,7 +688,7 @@ func (c *Connection) reset() error {
 		default:
 			log.Errorf("Got unrecognized response from resetting session: %#v", resp)
 			c.markBroken()
-			c.Close()
+			c.close()
 			return driver.ErrBadConn
 		}
 	}
diff --git a/connection/transaction.go b/connection/transaction.go
index 626f058..04f72c8 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -48,6 +48,9 @@ func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db strin
 }
 
 func (t *boltTransaction) Commit() error {
+	t.conn.mutex.Lock()
+	defer t.conn.mutex.Unlock()
+
 	if t.closed {
 		return errors.New("Transaction already closed")
 	}
@@ -108,6 +111,14 @@ func (t *boltTransaction) Commit() error {
 }
 
 func (t *boltTransaction) Rollback() error {
+	t.conn.mutex.Lock()
+	defer t.conn.mutex.Unlock()
+
+	return t.rollback()
+}
+
+// rollback requires that the mutex of the connection is held
+func (t *boltTransaction) rollback() error {
 	if t.closed {
 		return errors.New("Transaction already closed")
 	}
-- 
2.43.0


From 4fae1f8f9a23ba5596c4edde76ce781c9db5ae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 19/53] fix: opening a TLS connection observes the timeout

---
 connection/connection.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 6157f7e..0f28a8b 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -199,7 +199,8 @@ func (c *Connection) createConnection() error {
 			return err
 		}
 
-		conn, err = tls.Dial("tcp", c.hostPort, config)
+		// the timeout covers connecting and the TLS handshake
+		conn, err = tls.DialWithDialer(&net.Dialer{Timeout: c.timeout}, "tcp", c.hostPort, config)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 90d87ab40f40122b94a3f2ff31851d87150d1a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 20/53] fix: summary counters that are absent or no integers
 are reported as absent

---
 connection/result.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/connection/result.go b/connection/result.go
index 12159c6..131599a 100644
--- a/connection/result.go
+++ b/connection/result.go
@@ -24,14 +24,23 @@ func (b *boltResult) GetStats() (map[string]interface{}, bool) {
 	return statMap, true
 }
 
+// counter returns the counter of the given name, if there is one
+func (b *boltResult) counter(stats map[string]interface{}, name string) (int64, bool) {
+	num, ok := stats[name].(int64)
+	if !ok {
+		return -1, false
+	}
+
+	return num, true
+}
+
 func (b *boltResult) GetNodesCreated() (int64, bool) {
 	stats, ok := b.GetStats()
 	if !ok {
 		return -1, false
 	}
 
-	num, ok := stats["nodes-created"]
-	return num.(int64), ok
+	return b.counter(stats, "nodes-created")
 }
 
 func (b *boltResult) GetRelationshipsCreated() (int64, bool) {
@@ -40,8 +49,7 @@ func (b *boltResult) GetRelationshipsCreated() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["relationships-created"]
-	return num.(int64), ok
+	return b.counter(stats, "relationships-created")
 }
 
 func (b *boltResult) GetNodesDeleted() (int64, bool) {
@@ -50,11 +58,7 @@ func (b *boltResult) GetNodesDeleted() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["nodes-deleted"]
-	if !ok {
-		return -1, false
-	}
-	return num.(int64), ok
+	return b.counter(stats, "nodes-deleted")
 }
 
 func (b *boltResult) GetRelationshipsDeleted() (int64, bool) {
@@ -63,8 +67,7 @@ func (b *boltResult) GetRelationshipsDeleted() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["relationships-deleted"]
-	return num.(int64), ok
+	return b.counter(stats, "relationships-deleted")
 }
 
 func (b *boltResult) Metadata() map[string]interface{} {
-- 
2.43.0


From d07408c34ae215239e354595a90093a6db98c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 21/53] fix: read access mode is what is announced as read
 access

---
 connection/connection.go       | 8 +++++---
 structures/messages/builder.go | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 0f28a8b..23f4686 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -133,9 +133,11 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 	}
 
 	connection := Connection{
-		timeout:   time.Second * time.Duration(60),
-		chunkSize: math.MaxUint16,
-		mutex:     sync.Mutex{},
+		// the access mode only matters for routing, which chooses the server
+		accessMode: bolt_mode.WriteMode,
+		timeout:    time.Second * time.Duration(60),
+		chunkSize:  math.MaxUint16,
+		mutex:      sync.Mutex{},
 	}
 
 	connection.hostPort = _url.Host
diff --git a/structures/messages/builder.go b/structures/messages/builder.go
index fe4f891..1ccf6be 100644
--- a/structures/messages/builder.go
+++ b/structures/messages/builder.go
@@ -25,7 +25,8 @@ func BuildTxMetadataWithDatabase(txTimeout *time.Duration, txMetadata map[string
 	bookmarksPresent := false
 	txTimeoutPresent := txTimeout != nil && *txTimeout != 0
 	txMetaDataPresent := txMetadata != nil && len(txMetadata) != 0
-	accessModePresent := mode != bolt_mode.ReadMode
+	// write access is the default of the protocol
+	accessModePresent := mode == bolt_mode.ReadMode
 	databaseNamePresent := databaseName != ""
 
 	if !bookmarksPresent && !txTimeoutPresent && !txMetaDataPresent && !accessModePresent && !databaseNamePresent {
-- 
2.43.0


From f66d8ddc877dc1e4de03aa1066828cc93a63dd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 22/53] fix: the realm is sent if there is one

---
 structures/messages/init.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structures/messages/init.go b/structures/messages/init.go
index dc1a48f..f8ba096 100644
--- a/structures/messages/init.go
+++ b/structures/messages/init.go
@@ -28,7 +28,7 @@ func BuildAuthTokenBasicWithRealm(username, password, realm string) map[string]i
 		CredentialsKey: password,
 	}
 
-	if realm == "" {
+	if realm != "" {
 		toReturn[RealmKey] = realm
 	}
 
-- 
2.43.0


From 869c66a32a680c70d9f5ae0f8604221d0449e243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 23/53] fix: DISCARD carries its amount and query id, which
 version 3 does not have

---
 protocol/protocol_v3/bolt.go   | 2 +-
 structures/messages/discard.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/protocol_v3/bolt.go b/protocol/protocol_v3/bolt.go
index fae8b4a..2eca833 100644
--- a/protocol/protocol_v3/bolt.go
+++ b/protocol/protocol_v3/bolt.go
@@ -20,7 +20,7 @@ func (b *BoltProtocolV3) GetResultConsumedAfterKey() string {
 }
 
 func (b *BoltProtocolV3) GetDiscardMessage(qid int64) structures.Structure {
-	return messages.NewDiscardMessage(messages.StreamUnlimited, qid)
+	return messages.NewDiscardAllMessage()
 }
 
 func (b *BoltProtocolV3) GetDiscardAllMessage() structures.Structure {
diff --git a/structures/messages/discard.go b/structures/messages/discard.go
index 1be4272..451aa70 100644
--- a/structures/messages/discard.go
+++ b/structures/messages/discard.go
@@ -33,5 +33,5 @@ func (i DiscardMessage) Signature() int {
 
 // AllFields gets the fields to encode for the struct
 func (i DiscardMessage) AllFields() []interface{} {
-	return []interface{}{}
+	return []interface{}{i.metadata}
 }
-- 
2.43.0


From 3200c988d0f0e8c94af42eeebb77318ec12a6605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:04 +0000
Subject: [PATCH 24/53] fix: decoding a local time does not write to standard
 output

---
 encoding/encoding_v2/decoderV2.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 65f92ec..9118688 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -416,7 +416,6 @@ func (d DecoderV2) decodeLocalTime(buffer *bytes.Buffer) (gotime.LocalClock, err
 	}
 
 	nanoOfDayLocal, ok := nanoOfDayLocalI.(int64)
-	fmt.Println(nanoOfDayLocal)
 	if !ok {
 		return gotime.LocalClock{}, fmt.Errorf("unable to cast [%T] to [int64]", nanoOfDayLocalI)
 	}
-- 
2.43.0


From 20e398326186db2c5de3840338027bef0c65e8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:06 +0000
Subject: [PATCH 25/53] fix: durations are the sum of their parts, which are
 integers

---
 encoding/encoding_v2/decoderV2.go | 21 ++++++++++++++++++++-
 encoding/encoding_v2/encoderV2.go | 14 +++++---------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 9118688..20b9014 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -12,9 +12,13 @@ import (
 	"github.com/mindstand/go-bolt/structures/types"
 	"github.com/mindstand/gotime"
 	"io"
+	"math/big"
 	"time"
 )
 
+// secondsPerMonth is the average length of a month
+const secondsPerMonth = 2629746
+
 type DecoderV2 struct {
 	r     io.Reader
 	buf   *bytes.Buffer
@@ -575,7 +579,22 @@ func (d DecoderV2) decodeDuration(buffer *bytes.Buffer) (time.Duration, error) {
 		return -1, fmt.Errorf("unable to cast [%T] to [int64]", nanoSecondsI)
 	}
 
-	return time.Duration(month * days * seconds * nanoSeconds), nil
+	// time.Duration is elapsed time, calendar months count with their average length
+	total := big.NewInt(0)
+	for _, part := range []struct{ count, nanos int64 }{
+		{month, int64(secondsPerMonth * time.Second)},
+		{days, int64(24 * time.Hour)},
+		{seconds, int64(time.Second)},
+		{nanoSeconds, 1},
+	} {
+		total.Add(total, new(big.Int).Mul(big.NewInt(part.count), big.NewInt(part.nanos)))
+	}
+
+	if !total.IsInt64() {
+		return -1, errors.New("duration of %d months, %d days, %d seconds and %d nanoseconds is too long", month, days, seconds, nanoSeconds)
+	}
+
+	return time.Duration(total.Int64()), nil
 }
 
 func (d DecoderV2) decodePoint2D(buffer *bytes.Buffer) (types.Point2D, error) {
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index e13f51b..47cca04 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -294,11 +294,6 @@ func (e EncoderV2) encodeTime(t time.Time) error {
 }
 
 func (e EncoderV2) encodeDuration(d time.Duration) error {
-	months := d.Seconds() / 2600640
-	days := d.Seconds() / 86400
-	seconds := d.Seconds()
-	nano := d.Nanoseconds()
-
 	_, err := e.Write([]byte{byte(encode_consts.TinyStructMarker | encode_consts.DurationTimeStructSize)})
 	if err != nil {
 		return err
@@ -309,22 +304,23 @@ func (e EncoderV2) encodeDuration(d time.Duration) error {
 		return err
 	}
 
-	err = e.encode(months)
+	// the parts add up, elapsed time has neither months nor days
+	err = e.encode(int64(0))
 	if err != nil {
 		return err
 	}
 
-	err = e.encode(days)
+	err = e.encode(int64(0))
 	if err != nil {
 		return err
 	}
 
-	err = e.encode(seconds)
+	err = e.encode(int64(d / time.Second))
 	if err != nil {
 		return err
 	}
 
-	return e.encode(nano)
+	return e.encode(int64(d % time.Second))
 }
 
 func (e EncoderV2) encodeNil() error {
-- 
2.43.0


From c62ead143c2f22b0f058269050b3518bbfad88fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:38 +0000
Subject: [PATCH 26/53] fix: dates more than 292 years away from 1970

---
 encoding/encoding_v2/encoderV2.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 47cca04..bba29a2 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -30,6 +30,8 @@ type EncoderV2 struct {
 	chunkSize uint16
 }
 
+const secondsPerDay = 24 * 60 * 60
+
 // NewEncoder Creates a new EncoderV2 object
 func NewEncoder(w io.Writer, chunkSize uint16) EncoderV2 {
 	return EncoderV2{
@@ -201,7 +203,8 @@ func (e EncoderV2) encodeDate(d gotime.Date) error {
 		return err
 	}
 
-	return e.encode(int64(d.ToEpochDays()))
+	// a date is midnight UTC, time.Duration is too short to count the days since the epoch
+	return e.encode(d.GetTime().Unix() / secondsPerDay)
 }
 
 func (e EncoderV2) encodeClock(c gotime.Clock) error {
-- 
2.43.0


From f8301899a0fa2d29e73804a1b5c2834c55029452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:40 +0000
Subject: [PATCH 27/53] fix: a time of day is what the clock shows, not the
 time since 1970

---
 encoding/encoding_v2/encoderV2.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index bba29a2..ab8ab40 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -207,6 +207,12 @@ func (e EncoderV2) encodeDate(d gotime.Date) error {
 	return e.encode(d.GetTime().Unix() / secondsPerDay)
 }
 
+// nanoOfDay is the time of day that the clock shows, whatever day it is from
+func nanoOfDay(t time.Time) int64 {
+	hour, minute, second := t.Clock()
+	return int64((hour*60+minute)*60+second)*int64(time.Second) + int64(t.Nanosecond())
+}
+
 func (e EncoderV2) encodeClock(c gotime.Clock) error {
 	_, err := e.Write([]byte{byte(encode_consts.TinyStructMarker | encode_consts.TimeStructSize)})
 	if err != nil {
@@ -218,7 +224,7 @@ func (e EncoderV2) encodeClock(c gotime.Clock) error {
 		return err
 	}
 
-	err = e.encode(c.ToDayNano())
+	err = e.encode(nanoOfDay(c.GetTime()))
 	if err != nil {
 		return err
 	}
@@ -239,7 +245,7 @@ func (e EncoderV2) encodeLocalClock(lc gotime.LocalClock) error {
 		return err
 	}
 
-	return e.encode(lc.ToDayNano())
+	return e.encode(nanoOfDay(lc.GetTime()))
 }
 
 func (e EncoderV2) encodeLocalTime(lt gotime.LocalTime) error {
-- 
2.43.0


From a7b477139848836f777f85ceaabf7c6c8ababa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:42 +0000
Subject: [PATCH 28/53] fix: wall clock times near transitions of the time zone

---
 encoding/encoding_v2/decoderV2.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 20b9014..bde937c 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -427,6 +427,16 @@ func (d DecoderV2) decodeLocalTime(buffer *bytes.Buffer) (gotime.LocalClock, err
 	return gotime.NewLocalClockOfDayNano(nanoOfDayLocal), nil
 }
 
+// wallClock is the time at which clocks in the location show what clocks in UTC show the given
+// time after the epoch
+func wallClock(epochSeconds, nanos int64, loc *time.Location) time.Time {
+	utc := time.Unix(epochSeconds, nanos).UTC()
+	year, month, day := utc.Date()
+	hour, minute, second := utc.Clock()
+
+	return time.Date(year, month, day, hour, minute, second, utc.Nanosecond(), loc)
+}
+
 func (d DecoderV2) decodeLocalDateTime(buffer *bytes.Buffer) (gotime.LocalTime, error) {
 	epochSecondsI, err := d.decode(buffer)
 	if err != nil {
@@ -448,7 +458,7 @@ func (d DecoderV2) decodeLocalDateTime(buffer *bytes.Buffer) (gotime.LocalTime,
 		return gotime.LocalTime{}, fmt.Errorf("unable to cast [%T] to [int64]", nanoOfDayI)
 	}
 
-	return gotime.NewLocalTimeFromUnix(epochSeconds, nanoOfDay), nil
+	return gotime.NewLocalTimeFromTime(wallClock(epochSeconds, nanoOfDay, time.Local)), nil
 }
 
 func (d DecoderV2) decodeDateTimeWithZoneOffset(buffer *bytes.Buffer) (time.Time, error) {
@@ -525,16 +535,10 @@ func (d DecoderV2) decodeTimeWithZoneId(buffer *bytes.Buffer) (time.Time, error)
 
 	loc, err := time.LoadLocation(zoneId)
 	if err != nil {
-		return time.Time{}, fmt.Errorf("unable to load zone info for [%v]", loc)
+		return time.Time{}, fmt.Errorf("unable to load zone info for [%v]", zoneId)
 	}
 
-	timeWithoutOffsetCorrection := time.Unix(epochSecondLocal, nanoOfDayLocal).In(loc)
-
-	_, offset := timeWithoutOffsetCorrection.Zone() // get second offset from zone
-
-	return timeWithoutOffsetCorrection.
-			Add(time.Duration(-offset) * time.Second), // correct for zone offset
-		nil
+	return wallClock(epochSecondLocal, nanoOfDayLocal, loc), nil
 }
 
 // todo improve time functions
-- 
2.43.0


From 4555e78c58a8b012e3a206d757e309e4121d56ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:16 +0000
Subject: [PATCH 29/53] fix: user names, passwords, hosts and files are escaped
 in connection strings

---
 client.go | 55 +++++++++++++++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/client.go b/client.go
index a9002be..54b6f85 100644
--- a/client.go
+++ b/client.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mindstand/go-bolt/errors"
 	"math"
+	"net"
 	"net/url"
 	"strconv"
 	"strings"
@@ -95,14 +96,18 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, errors.Wrap(errors.ErrConfiguration, "user can not be empty")
 		}
 
-		client.connStr = fmt.Sprintf("%s://%s:%s@%s:%v", protocol, client.user, client.password, client.host, client.port)
+		connUrl := url.URL{
+			Scheme: protocol,
+			User:   url.UserPassword(client.user, client.password),
+			Host:   net.JoinHostPort(client.host, strconv.Itoa(client.port)),
+		}
 
 		// append tls portion if needed
 		if client.useTLS {
-			tlsPortion := fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%t",
-				client.certFile, client.keyFile, client.caCertFile, client.tlsNoVerify)
-			client.connStr += tlsPortion
+			connUrl.RawQuery = client.tlsQuery().Encode()
 		}
+
+		client.connStr = connUrl.String()
 	} else {
 		client.routing = strings.Contains(client.connStr, "+routing")
 		_url, err := url.Parse(client.connStr)
@@ -112,14 +117,9 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, fmt.Errorf("unsupported connection string scheme: %s. Driver only supports 'bolt' and 'bolt+routing' scheme", _url.Scheme)
 		}
 
-		hostPort := _url.Host
-		if strings.Contains(hostPort, ":") {
-			parts := strings.Split(hostPort, ":")
-			if len(parts) != 2 {
-				return nil, errors.New("host/port invalid")
-			}
-			client.host = parts[0]
-			_port, err := strconv.ParseInt(parts[1], 10, 64)
+		if _url.Port() != "" {
+			client.host = _url.Hostname()
+			_port, err := strconv.ParseInt(_url.Port(), 10, 64)
 			if err != nil {
 				return nil, err
 			}
@@ -161,10 +161,20 @@ func NewClient(opts ...Opt) (IClient, error) {
 	return client, nil
 }
 
+// tlsQuery is the part of a connection string's query that configures TLS
+func (c *Client) tlsQuery() url.Values {
+	query := url.Values{}
+	query.Set("tls_cert_file", c.certFile)
+	query.Set("tls_key_file", c.keyFile)
+	query.Set("tls_ca_cert_file", c.caCertFile)
+	query.Set("tls_no_verify", strconv.FormatBool(c.tlsNoVerify))
+
+	return query
+}
+
 func (c *Client) getTlsPortion() (string, error) {
 	if c.certFile != "" {
-		return fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%t",
-			c.certFile, c.keyFile, c.caCertFile, c.tlsNoVerify), nil
+		return "?" + c.tlsQuery().Encode(), nil
 	} else {
 		// parse connection string
 		u, err := url.Parse(c.connStr)
@@ -181,8 +191,13 @@ func (c *Client) getTlsPortion() (string, error) {
 			return "", nil
 		}
 
-		return fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%s",
-			certFile, keyFile, caCertFile, tlsNoVerify), nil
+		query := url.Values{}
+		query.Set("tls_cert_file", certFile)
+		query.Set("tls_key_file", keyFile)
+		query.Set("tls_ca_cert_file", caCertFile)
+		query.Set("tls_no_verify", tlsNoVerify)
+
+		return "?" + query.Encode(), nil
 	}
 }
 
@@ -196,12 +211,8 @@ func (c *Client) getUsernamePassword() (string, error) {
 		return "", nil
 	}
 
-	pwd, ok := u.User.Password()
-	if !ok {
-		pwd = ""
-	}
-
-	return fmt.Sprintf("%s:%s", u.User.Username(), pwd), nil
+	// in the form for connection strings
+	return u.User.String(), nil
 }
 
 func (c *Client) NewDriver() (IDriver, error) {
-- 
2.43.0


From ee8eebab717b4ed9c060a4b0ac94d3cb43f75c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:19 +0000
Subject: [PATCH 30/53] fix: WithTLS enables TLS

---
 client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 54b6f85..712ec9a 100644
--- a/client.go
+++ b/client.go
@@ -99,7 +99,7 @@ func NewClient(opts ...Opt) (IClient, error) {
 		connUrl := url.URL{
 			Scheme: protocol,
 			User:   url.UserPassword(client.user, client.password),
-			Host:   net.JoinHostPort(client.host, strconv.Itoa(client.port)),
+			Host:   net.JoinHostPort(strings.Trim(client.host, "[]"), strconv.Itoa(client.port)),
 		}
 
 		// append tls portion if needed
@@ -164,6 +164,7 @@ func NewClient(opts ...Opt) (IClient, error) {
 // tlsQuery is the part of a connection string's query that configures TLS
 func (c *Client) tlsQuery() url.Values {
 	query := url.Values{}
+	query.Set("tls", "true")
 	query.Set("tls_cert_file", c.certFile)
 	query.Set("tls_key_file", c.keyFile)
 	query.Set("tls_ca_cert_file", c.caCertFile)
-- 
2.43.0


From a678222c931e963313991e15effd8ca29c1151eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:03 +0000
Subject: [PATCH 31/53] fix: routing is asked for by the scheme, not by
 '+routing' anywhere in the connection string

---
 client.go       | 3 ++-
 opt.go          | 4 ++++
 routing/pool.go | 4 ++--
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 712ec9a..1a785f2 100644
--- a/client.go
+++ b/client.go
@@ -109,7 +109,6 @@ func NewClient(opts ...Opt) (IClient, error) {
 
 		client.connStr = connUrl.String()
 	} else {
-		client.routing = strings.Contains(client.connStr, "+routing")
 		_url, err := url.Parse(client.connStr)
 		if err != nil {
 			return nil, fmt.Errorf("an error occurred parsing bolt URL, %w", err)
@@ -117,6 +116,8 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, fmt.Errorf("unsupported connection string scheme: %s. Driver only supports 'bolt' and 'bolt+routing' scheme", _url.Scheme)
 		}
 
+		client.routing = strings.ToLower(_url.Scheme) == "bolt+routing"
+
 		if _url.Port() != "" {
 			client.host = _url.Hostname()
 			_port, err := strconv.ParseInt(_url.Port(), 10, 64)
diff --git a/opt.go b/opt.go
index 5380af0..adf6696 100644
--- a/opt.go
+++ b/opt.go
@@ -18,6 +18,10 @@ func WithConnectionString(connString string) Opt {
 			return errors.Wrap(errors.ErrConfiguration, "can not call WithConnectionString and WithHostPort")
 		}
 
+		if client.routing {
+			return errors.Wrap(errors.ErrConfiguration, "can not call WithConnectionString and WithRouting")
+		}
+
 		client.connStr = connString
 		return nil
 	}
diff --git a/routing/pool.go b/routing/pool.go
index 2451d5f..f4271c0 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -57,8 +57,8 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 		return nil, errors.New("leaderConnStr can not be nil")
 	}
 
-	if strings.Contains(leaderConnStr, "+routing") {
-		leaderConnStr = strings.Replace(leaderConnStr, "+routing", "", -1)
+	if strings.HasPrefix(leaderConnStr, "bolt+routing://") {
+		leaderConnStr = strings.Replace(leaderConnStr, "+routing", "", 1)
 	}
 
 	if numConns == 0 || numConns == 1 {
-- 
2.43.0


From 876bfcb21e8ae07d442e128c068c7f765fbd28b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:05 +0000
Subject: [PATCH 32/53] fix: WithTimeout reaches the connections

---
 client.go                | 18 +++++++++++++-----
 connection/connection.go | 20 ++++++++++++++++----
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/client.go b/client.go
index 1a785f2..98c3de4 100644
--- a/client.go
+++ b/client.go
@@ -2,6 +2,7 @@ package goBolt
 
 import (
 	"fmt"
+	"github.com/mindstand/go-bolt/connection"
 	"github.com/mindstand/go-bolt/errors"
 	"math"
 	"net"
@@ -103,10 +104,14 @@ func NewClient(opts ...Opt) (IClient, error) {
 		}
 
 		// append tls portion if needed
+		query := url.Values{}
 		if client.useTLS {
-			connUrl.RawQuery = client.tlsQuery().Encode()
+			query = client.tlsQuery()
 		}
 
+		query.Set("timeout", client.timeout.String())
+		connUrl.RawQuery = query.Encode()
+
 		client.connStr = connUrl.String()
 	} else {
 		_url, err := url.Parse(client.connStr)
@@ -139,12 +144,15 @@ func NewClient(opts ...Opt) (IClient, error) {
 
 		timeout := _url.Query().Get("timeout")
 		if timeout != "" {
-			timeoutInt, err := strconv.Atoi(timeout)
+			client.timeout, err = connection.ParseTimeout(timeout)
 			if err != nil {
-				return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be integer", timeout)
+				return nil, err
 			}
-
-			client.timeout = time.Duration(timeoutInt) * time.Second
+		} else {
+			query := _url.Query()
+			query.Set("timeout", client.timeout.String())
+			_url.RawQuery = query.Encode()
+			client.connStr = _url.String()
 		}
 
 		useTLS := _url.Query().Get("tls")
diff --git a/connection/connection.go b/connection/connection.go
index 23f4686..c7d9284 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -153,12 +153,10 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 
 	timeout := _url.Query().Get("timeout")
 	if timeout != "" {
-		timeoutInt, err := strconv.Atoi(timeout)
+		connection.timeout, err = ParseTimeout(timeout)
 		if err != nil {
-			return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be integer", timeout)
+			return nil, err
 		}
-
-		connection.timeout = time.Duration(timeoutInt) * time.Second
 	}
 
 	useTLS := _url.Query().Get("tls")
@@ -175,6 +173,20 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 	return &connection, nil
 }
 
+// ParseTimeout parses the timeout of a connection string: an integer number of seconds or a duration
+func ParseTimeout(timeout string) (time.Duration, error) {
+	if seconds, err := strconv.Atoi(timeout); err == nil {
+		return time.Duration(seconds) * time.Second, nil
+	}
+
+	duration, err := time.ParseDuration(timeout)
+	if err != nil {
+		return 0, fmt.Errorf("Invalid format for timeout: %s.  Must be integer or duration", timeout)
+	}
+
+	return duration, nil
+}
+
 func (c *Connection) GetConnectionId() string {
 	return c.id
 }
-- 
2.43.0


From 88411f70af6fc367952ce87e225e040ac47911cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:06 +0000
Subject: [PATCH 33/53] fix: WithTLS and WithBasicAuth apply together with a
 connection string too

---
 client.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 98c3de4..d3fdda2 100644
--- a/client.go
+++ b/client.go
@@ -140,6 +140,9 @@ func NewClient(opts ...Opt) (IClient, error) {
 			if !isSet {
 				return nil, errors.New("must specify password when passing user")
 			}
+		} else if client.user != "" {
+			_url.User = url.UserPassword(client.user, client.password)
+			client.connStr = _url.String()
 		}
 
 		timeout := _url.Query().Get("timeout")
@@ -156,9 +159,16 @@ func NewClient(opts ...Opt) (IClient, error) {
 		}
 
 		useTLS := _url.Query().Get("tls")
-		client.useTLS = strings.HasPrefix(strings.ToLower(useTLS), "t") || useTLS == "1"
-
 		if client.useTLS {
+			// the option stands
+			query := _url.Query()
+			for name, value := range client.tlsQuery() {
+				query[name] = value
+			}
+			_url.RawQuery = query.Encode()
+			client.connStr = _url.String()
+		} else if strings.HasPrefix(strings.ToLower(useTLS), "t") || useTLS == "1" {
+			client.useTLS = true
 			client.certFile = _url.Query().Get("tls_cert_file")
 			client.keyFile = _url.Query().Get("tls_key_file")
 			client.caCertFile = _url.Query().Get("tls_ca_cert_file")
-- 
2.43.0


From f0dc485e7e6a63c43bdd31266f1dbde2b850b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:39 +0000
Subject: [PATCH 34/53] fix: connections to the servers of a cluster use TLS,
 timeout and no user like the one to the configured server

---
 client.go              | 38 ++++++++++++--------------------------
 driver_routing_pool.go | 11 +++++++++--
 routing/pool.go        |  7 ++++++-
 3 files changed, 27 insertions(+), 29 deletions(-)

diff --git a/client.go b/client.go
index d3fdda2..9cdede2 100644
--- a/client.go
+++ b/client.go
@@ -192,42 +192,28 @@ func (c *Client) tlsQuery() url.Values {
 	return query
 }
 
+// getTlsPortion is the part of the connection string that configures TLS, and the timeout
 func (c *Client) getTlsPortion() (string, error) {
-	if c.certFile != "" {
-		return "?" + c.tlsQuery().Encode(), nil
-	} else {
-		// parse connection string
-		u, err := url.Parse(c.connStr)
-		if err != nil {
-			return "", nil
-		}
-
-		certFile := u.Query().Get("tls_cert_file")
-		keyFile := u.Query().Get("tls_key_file")
-		caCertFile := u.Query().Get("tls_ca_cert_file")
-		tlsNoVerify := u.Query().Get("tls_no_verify")
-
-		if certFile == "" {
-			return "", nil
-		}
-
-		query := url.Values{}
-		query.Set("tls_cert_file", certFile)
-		query.Set("tls_key_file", keyFile)
-		query.Set("tls_ca_cert_file", caCertFile)
-		query.Set("tls_no_verify", tlsNoVerify)
+	// parse connection string
+	u, err := url.Parse(c.connStr)
+	if err != nil {
+		return "", err
+	}
 
-		return "?" + query.Encode(), nil
+	if u.RawQuery == "" {
+		return "", nil
 	}
+
+	return "?" + u.RawQuery, nil
 }
 
 func (c *Client) getUsernamePassword() (string, error) {
 	u, err := url.Parse(c.connStr)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 
-	if u.User.Username() == "" {
+	if u.User == nil {
 		return "", nil
 	}
 
diff --git a/driver_routing_pool.go b/driver_routing_pool.go
index bd12fc4..7eb7fbe 100644
--- a/driver_routing_pool.go
+++ b/driver_routing_pool.go
@@ -19,8 +19,15 @@ func newRoutingPool(client *Client, size int) (*RoutingDriverPool, error) {
 		return nil, errors.New("client can not be nil")
 	}
 
-	userPart, _ := client.getUsernamePassword()
-	tlsPart, _ := client.getTlsPortion()
+	userPart, err := client.getUsernamePassword()
+	if err != nil {
+		return nil, err
+	}
+
+	tlsPart, err := client.getTlsPortion()
+	if err != nil {
+		return nil, err
+	}
 
 	internalPool, err := routing.NewRoutingPool(client.connStr, size, refreshInterval, userPart, tlsPart)
 	if err != nil {
diff --git a/routing/pool.go b/routing/pool.go
index f4271c0..2f532c8 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -556,6 +556,11 @@ func (r *routingPool) addAuthInfoToConnStr(connStr string) string {
 		return connStr
 	}
 
+	userPass := ""
+	if r.userPassPart != "" {
+		userPass = r.userPassPart + "@"
+	}
+
 	hostPort := strings.Replace(connStr, "bolt://", "", -1)
-	return fmt.Sprintf("bolt://%s@%s%s", r.userPassPart, hostPort, r.tlsInfo)
+	return fmt.Sprintf("bolt://%s%s%s", userPass, hostPort, r.tlsInfo)
 }
-- 
2.43.0


From 59d84dffe7a2f9ec6260150f8b2f8450fe535512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:42 +0000
Subject: [PATCH 35/53] fix: reject pools without capacity

---
 driver_pool.go  | 4 ++++
 routing/pool.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/driver_pool.go b/driver_pool.go
index 1d8f3b8..f20113d 100644
--- a/driver_pool.go
+++ b/driver_pool.go
@@ -18,6 +18,10 @@ type driverPool struct {
 }
 
 func newDriverPool(connStr string, maxConns int) (*driverPool, error) {
+	if maxConns < 1 {
+		return nil, errors.Wrap(errors.ErrConfiguration, "number of connections must be at least 1, provided [%v]", maxConns)
+	}
+
 	dPool := pool.NewObjectPool(context.Background(), &ConnectionPooledObjectFactory{connectionString: connStr}, &pool.ObjectPoolConfig{
 		LIFO:                     true,
 		MaxTotal:                 maxConns,
diff --git a/routing/pool.go b/routing/pool.go
index 2f532c8..c04a475 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -61,7 +61,7 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 		leaderConnStr = strings.Replace(leaderConnStr, "+routing", "", 1)
 	}
 
-	if numConns == 0 || numConns == 1 {
+	if numConns <= 1 {
 		return nil, fmt.Errorf("number of connections must be greater than 1, provided [%v]", numConns)
 	}
 
-- 
2.43.0


From e007116eba368a57c46d676abb9ea2e04259e5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:04 +0000
Subject: [PATCH 36/53] fix: dead connections dropped by the pool are closed

---
 connection_pool_factory.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/connection_pool_factory.go b/connection_pool_factory.go
index fda8531..0f23c64 100644
--- a/connection_pool_factory.go
+++ b/connection_pool_factory.go
@@ -35,11 +35,8 @@ func (c *ConnectionPooledObjectFactory) DestroyObject(ctx context.Context, objec
 		return fmt.Errorf("unable to cast [%T] to [connection.IConnection]", object.Object)
 	}
 
-	if conn.ValidateOpen() {
-		return conn.Close()
-	} else {
-		return nil
-	}
+	// a connection that is dead still has a socket
+	return conn.Close()
 }
 
 func (c *ConnectionPooledObjectFactory) ValidateObject(ctx context.Context, object *pool.PooledObject) bool {
-- 
2.43.0


From 86a137dca078dce0bbfa7e1c712c0cf1d49b9706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 37/53] fix: the pool replaces dead connections instead of
 exchanging them behind its back

---
 connection_pool_factory.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/connection_pool_factory.go b/connection_pool_factory.go
index 0f23c64..243a8bb 100644
--- a/connection_pool_factory.go
+++ b/connection_pool_factory.go
@@ -70,15 +70,9 @@ func (c *ConnectionPooledObjectFactory) ActivateObject(ctx context.Context, obje
 		return fmt.Errorf("unable to cast [%T] to [connection.IConnection]", object.Object)
 	}
 
-	var err error
-
 	if !conn.ValidateOpen() {
-		conn, err = connection.CreateBoltConn(c.connectionString)
-		if err != nil {
-			return err
-		}
-
-		object.Object = conn
+		// the pool knows objects by their identity: it has to make a new one
+		return errors.New("connection is not open any more")
 	}
 
 	return nil
-- 
2.43.0


From c8f112cd859fc9205d013172144b34071849d0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:07 +0000
Subject: [PATCH 38/53] fix: a connection that dies while it is borrowed does
 not take its place in the pool with it

---
 driver_pool.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/driver_pool.go b/driver_pool.go
index f20113d..093f5a5 100644
--- a/driver_pool.go
+++ b/driver_pool.go
@@ -6,6 +6,7 @@ import (
 	"github.com/mindstand/go-bolt/bolt_mode"
 	"github.com/mindstand/go-bolt/connection"
 	"github.com/mindstand/go-bolt/errors"
+	"github.com/mindstand/go-bolt/log"
 	"sync"
 )
 
@@ -60,6 +61,10 @@ func (d *driverPool) open() (connection.IConnection, error) {
 		}
 
 		if !conn.ValidateOpen() {
+			// the pool would count it as lent for ever
+			if err := d.pool.InvalidateObject(context.Background(), connObj); err != nil {
+				log.Errorf("An error occurred discarding a dead connection: %s", err)
+			}
 			return nil, errors.New("pool returned dead connection")
 		}
 
-- 
2.43.0


From e8716618a847160717820b853954ecfb2cce6120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 39/53] fix: waiting for a connection neither keeps the pool
 from closing nor misses that one came back

---
 driver_pool.go | 78 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 54 insertions(+), 24 deletions(-)

diff --git a/driver_pool.go b/driver_pool.go
index 093f5a5..d9b7e99 100644
--- a/driver_pool.go
+++ b/driver_pool.go
@@ -14,6 +14,8 @@ type driverPool struct {
 	connStr  string
 	maxConns int
 	pool     *pool.ObjectPool
+	slots    chan struct{} // has an element for every connection lent
+	done     chan struct{} // closed with the pool
 	refLock  sync.Mutex
 	closed   bool
 }
@@ -32,7 +34,7 @@ func newDriverPool(connStr string, maxConns int) (*driverPool, error) {
 		TestOnBorrow:             true,
 		TestOnReturn:             true,
 		TestWhileIdle:            true,
-		BlockWhenExhausted:       true,
+		BlockWhenExhausted:       false,
 		MinEvictableIdleTime:     pool.DefaultMinEvictableIdleTime,
 		SoftMinEvictableIdleTime: pool.DefaultSoftMinEvictableIdleTime,
 		NumTestsPerEvictionRun:   3,
@@ -43,34 +45,55 @@ func newDriverPool(connStr string, maxConns int) (*driverPool, error) {
 		connStr:  connStr,
 		maxConns: maxConns,
 		pool:     dPool,
+		slots:    make(chan struct{}, maxConns),
+		done:     make(chan struct{}),
 	}, nil
 }
 
 func (d *driverPool) open() (connection.IConnection, error) {
-	d.refLock.Lock()
-	defer d.refLock.Unlock()
-	if !d.closed {
-		connObj, err := d.pool.BorrowObject(context.Background())
-		if err != nil {
-			return nil, err
-		}
+	select {
+	case <-d.done:
+		return nil, errors.New("Driver pool has been closed")
+	default:
+	}
 
-		conn, ok := connObj.(connection.IConnection)
-		if !ok {
-			return nil, errors.Wrap(errors.ErrInternal, "cannot cast from [%T] to [IConnection]", connObj)
-		}
+	// wait here and not in the object pool, which forgets to wake those who wait
+	select {
+	case d.slots <- struct{}{}:
+	case <-d.done:
+		return nil, errors.New("Driver pool has been closed")
+	}
 
-		if !conn.ValidateOpen() {
-			// the pool would count it as lent for ever
-			if err := d.pool.InvalidateObject(context.Background(), connObj); err != nil {
-				log.Errorf("An error occurred discarding a dead connection: %s", err)
-			}
-			return nil, errors.New("pool returned dead connection")
-		}
+	conn, err := d.borrow()
+	if err != nil {
+		<-d.slots
+		return nil, err
+	}
+
+	return conn, nil
+}
+
+// borrow requires that a slot is held
+func (d *driverPool) borrow() (connection.IConnection, error) {
+	connObj, err := d.pool.BorrowObject(context.Background())
+	if err != nil {
+		return nil, err
+	}
 
-		return conn, nil
+	conn, ok := connObj.(connection.IConnection)
+	if !ok {
+		return nil, errors.Wrap(errors.ErrInternal, "cannot cast from [%T] to [IConnection]", connObj)
 	}
-	return nil, errors.New("Driver pool has been closed")
+
+	if !conn.ValidateOpen() {
+		// the pool would count it as lent for ever
+		if err := d.pool.InvalidateObject(context.Background(), connObj); err != nil {
+			log.Errorf("An error occurred discarding a dead connection: %s", err)
+		}
+		return nil, errors.New("pool returned dead connection")
+	}
+
+	return conn, nil
 }
 
 func (d *driverPool) close() error {
@@ -85,9 +108,10 @@ func (d *driverPool) close() error {
 		return errors.Wrap(errors.ErrPool, "connection pool is nil")
 	}
 
-	d.pool.Close(context.Background())
-
 	d.closed = true
+	close(d.done)
+
+	d.pool.Close(context.Background())
 
 	return nil
 }
@@ -97,7 +121,13 @@ func (d *driverPool) reclaim(conn connection.IConnection) error {
 		return errors.New("cannot reclaim nil connection")
 	}
 
-	return d.pool.ReturnObject(context.Background(), conn)
+	err := d.pool.ReturnObject(context.Background(), conn)
+	if err != nil {
+		return err
+	}
+
+	<-d.slots
+	return nil
 }
 
 // ----------------------
-- 
2.43.0


From 8e82bf9e083d069a0ecff98e70eefa8ab5135dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:48 +0000
Subject: [PATCH 40/53] fix: the bolt address of a cluster member is the one
 with the bolt scheme

---
 routing/routing_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/routing/routing_handler.go b/routing/routing_handler.go
index 15ff404..1f418e3 100644
--- a/routing/routing_handler.go
+++ b/routing/routing_handler.go
@@ -130,7 +130,7 @@ func (c *boltRoutingHandler) refreshClusterInfo(conn connection.IConnection) err
 		var boltStr string
 
 		for _, str := range addresses {
-			if strings.Contains(str, "bolt") {
+			if strings.HasPrefix(str, "bolt://") {
 				boltStr = str
 			}
 		}
-- 
2.43.0


From 750470f6cfc22a1c83641178713ec4ab49fd7cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:50 +0000
Subject: [PATCH 41/53] fix: starting a routed pool reports why the cluster
 overview can not be used

---
 routing/pool.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index c04a475..b88231c 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -189,16 +189,19 @@ func (r *routingPool) newConnection(connType bolt_mode.AccessMode, connStr strin
 	return connWrap, nil
 }
 
-func (r *routingPool) refreshConnections() {
+func (r *routingPool) refreshConnections() error {
 	conn, err := connection.CreateBoltConn(r.leaderConnStr)
 	if err != nil {
-		log.Error(err)
-		return
+		return err
 	}
 
 	defer conn.Close()
 
+	// without an overview that is understood the last known roles stay in force
 	err = r.routingHandler.refreshClusterInfo(conn)
+	if err != nil {
+		return err
+	}
 
 	newWriteStrs := r.routingHandler.getWriteConnectionStrings()
 	newReadStrs := r.routingHandler.getReadOnlyConnectionString()
@@ -259,6 +262,8 @@ func (r *routingPool) refreshConnections() {
 
 	r.rwStrings = actualWrites
 	r.readStrings = actualReads
+
+	return nil
 }
 
 func (r *routingPool) prune() {
@@ -348,7 +353,10 @@ func (r *routingPool) refreshHandler() {
 		<-time.After(r.refreshInterval)
 		r.mutex.Lock()
 		// refresh connections and mark dead conns
-		r.refreshConnections()
+		err := r.refreshConnections()
+		if err != nil {
+			log.Error(err)
+		}
 		// remove dead conns
 		r.prune()
 		// balance pool to params
@@ -381,7 +389,10 @@ func (r *routingPool) Start() error {
 	//defer conn.Close()
 
 	// refresh connections and mark dead conns
-	r.refreshConnections()
+	err := r.refreshConnections()
+	if err != nil {
+		return err
+	}
 
 	for i := 0; i < r.maxWriteIdle; i++ {
 		err := r.addWriteConn()
-- 
2.43.0


From 5395831781491206e7372348e225b34f7ac841dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:12 +0000
Subject: [PATCH 42/53] fix: connections to servers that lost their role are
 not lent in the old role any more

---
 routing/pool.go | 87 +++++++++++++++++--------------------------------
 1 file changed, 29 insertions(+), 58 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index b88231c..e2849b7 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -36,7 +36,6 @@ type routingPool struct {
 	routingHandler  *boltRoutingHandler
 
 	// lookups
-	connStrLookup map[string][]*connectionPoolWrapper
 	borrowedConns map[string]*connectionPoolWrapper
 	heldConns     map[string]*connectionPoolWrapper
 
@@ -86,7 +85,6 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 			Followers:    []neoNodeConfig{},
 			ReadReplicas: []neoNodeConfig{},
 		},
-		connStrLookup: map[string][]*connectionPoolWrapper{},
 		borrowedConns: map[string]*connectionPoolWrapper{},
 		heldConns:     map[string]*connectionPoolWrapper{},
 		rwStrings:     []string{},
@@ -123,7 +121,7 @@ func (r *routingPool) addWriteConn() error {
 	r.rwIndex++
 
 	// make sure its not an overflow
-	if r.rwIndex == len(r.rwStrings) {
+	if r.rwIndex >= len(r.rwStrings) {
 		r.rwIndex = 0
 	}
 
@@ -148,7 +146,7 @@ func (r *routingPool) addReadConn() error {
 	r.readIndex++
 
 	// make sure its not an overflow
-	if r.readIndex == len(r.readStrings) {
+	if r.readIndex >= len(r.readStrings) {
 		r.readIndex = 0
 	}
 
@@ -203,66 +201,21 @@ func (r *routingPool) refreshConnections() error {
 		return err
 	}
 
-	newWriteStrs := r.routingHandler.getWriteConnectionStrings()
-	newReadStrs := r.routingHandler.getReadOnlyConnectionString()
+	r.rwStrings = r.withAuthInfo(r.routingHandler.getWriteConnectionStrings())
+	r.readStrings = r.withAuthInfo(r.routingHandler.getReadOnlyConnectionString())
 
-	var deadStrs, actualWrites, actualReads []string
-
-	// check for dead strings
-	for _, curStr := range r.rwStrings {
-		// string is not found, so it must be dead
-		if !stringSliceContains(newWriteStrs, curStr) {
-			deadStrs = append(deadStrs, curStr)
-		} else {
-			actualWrites = append(actualWrites, curStr)
-		}
-	}
-
-	for _, curStr := range r.readStrings {
-		// string is not found, so it must be dead
-		if !stringSliceContains(newReadStrs, curStr) {
-			deadStrs = append(deadStrs, curStr)
-		} else {
-			actualReads = append(actualReads, curStr)
-		}
-	}
-
-	// add anything new
-	for _, newStr := range newWriteStrs {
-		newStr = r.addAuthInfoToConnStr(newStr)
-		if !stringSliceContains(actualWrites, newStr) {
-			actualWrites = append(actualWrites, newStr)
-		}
-	}
-
-	for _, newStr := range newReadStrs {
-		newStr = r.addAuthInfoToConnStr(newStr)
-		if !stringSliceContains(actualReads, newStr) {
-			actualReads = append(actualReads, newStr)
-		}
-	}
-
-	// mark them for deletion, system will rebalance elsewhere
-	if len(deadStrs) != 0 {
-		for _, str := range deadStrs {
-			conns, ok := r.connStrLookup[str]
-			if !ok || conns == nil || len(conns) == 0 {
-				continue
+	// mark connections to servers that lost their role for deletion, whether they are held or lent
+	for _, conns := range []map[string]*connectionPoolWrapper{r.heldConns, r.borrowedConns} {
+		for _, connWrap := range conns {
+			connStrs := r.readStrings
+			if connWrap.ConnType == bolt_mode.WriteMode {
+				connStrs = r.rwStrings
 			}
 
-			for _, markedConn := range conns {
-				if markedConn == nil {
-					continue
-				}
-
-				markedConn.markForDeletion = true
-			}
+			connWrap.markForDeletion = !stringSliceContains(connStrs, connWrap.ConnStr)
 		}
 	}
 
-	r.rwStrings = actualWrites
-	r.readStrings = actualReads
-
 	return nil
 }
 
@@ -540,6 +493,11 @@ func (r *routingPool) Reclaim(conn connection.IConnection) error {
 	delete(r.borrowedConns, connId)
 	r.heldConns[connId] = connWrap
 
+	// the server lost its role in the meantime
+	if connWrap.markForDeletion {
+		return r.removeConn(connWrap)
+	}
+
 	// check if the connection is dead, if it is discard and make a new one
 	if !connWrap.Connection.ValidateOpen() {
 		err := r.removeConn(connWrap)
@@ -561,6 +519,19 @@ func (r *routingPool) Reclaim(conn connection.IConnection) error {
 	return nil
 }
 
+// withAuthInfo makes the connection strings of servers as they are used
+func (r *routingPool) withAuthInfo(connStrs []string) []string {
+	var out []string
+	for _, connStr := range connStrs {
+		connStr = r.addAuthInfoToConnStr(connStr)
+		if !stringSliceContains(out, connStr) {
+			out = append(out, connStr)
+		}
+	}
+
+	return out
+}
+
 func (r *routingPool) addAuthInfoToConnStr(connStr string) string {
 
 	if r.userPassPart == "" && r.tlsInfo == "" {
-- 
2.43.0


From 54bf889bb8120dfd461ec3e25381bf89958a146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:40 +0000
Subject: [PATCH 43/53] fix: connections dropped by the routed pool are closed,
 open ones too

---
 routing/pool.go | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index e2849b7..94e7807 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -10,6 +10,7 @@ import (
 
 	"github.com/mindstand/go-bolt/bolt_mode"
 	"github.com/mindstand/go-bolt/connection"
+	bolterrors "github.com/mindstand/go-bolt/errors"
 	"github.com/mindstand/go-bolt/log"
 )
 
@@ -101,14 +102,14 @@ func (r *routingPool) removeConn(conn *connectionPoolWrapper) error {
 		return errors.New("invalid connection, can not be nil")
 	}
 
-	if !conn.Connection.ValidateOpen() {
-		err := conn.Connection.Close()
-		if err != nil {
-			return err
-		}
+	delete(r.heldConns, conn.Connection.GetConnectionId())
+
+	// whether the connection still works or not, there is a socket to close
+	err := conn.Connection.Close()
+	if err != nil && !errors.Is(err, bolterrors.ErrClosed) {
+		return err
 	}
 
-	delete(r.heldConns, conn.Connection.GetConnectionId())
 	return nil
 }
 
@@ -224,7 +225,7 @@ func (r *routingPool) prune() {
 	writes := []*connectionPoolWrapper{}
 	for _, connWrap := range r.readQueue.items {
 		if connWrap.markForDeletion {
-			err := connWrap.Connection.Close()
+			err := r.removeConn(connWrap)
 			if err != nil {
 				log.Error(err)
 				continue
@@ -373,21 +374,24 @@ func (r *routingPool) Stop() error {
 
 	r.setRunning(false)
 
+	// one connection that can not be closed properly does not keep the others open
+	var firstErr error
+
 	for r.readQueue.Size() != 0 {
 		err := r.removeConn(r.readQueue.Dequeue())
-		if err != nil {
-			return err
+		if err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
 
 	for r.writeQueue.Size() != 0 {
 		err := r.removeConn(r.writeQueue.Dequeue())
-		if err != nil {
-			return err
+		if err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
 
-	return nil
+	return firstErr
 }
 
 func (r *routingPool) internalBorrow(queue *Queue) (*connectionPoolWrapper, error) {
@@ -400,18 +404,10 @@ func (r *routingPool) internalBorrow(queue *Queue) (*connectionPoolWrapper, erro
 		return nil, fmt.Errorf("stale queue")
 	}
 
-	if conn.markForDeletion {
-		err := r.removeConn(conn)
-		if err != nil {
-			return nil, err
-		}
-		return r.internalBorrow(queue)
-	}
-
-	if !conn.Connection.ValidateOpen() {
+	if conn.markForDeletion || !conn.Connection.ValidateOpen() {
 		err := r.removeConn(conn)
 		if err != nil {
-			return nil, err
+			log.Error(err)
 		}
 		return r.internalBorrow(queue)
 	}
-- 
2.43.0


From a9e3473b2c95db9ad94e5d9965b5f67928338f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:42 +0000
Subject: [PATCH 44/53] fix: borrowing from, starting and stopping the routed
 pool exclude each other and refreshes

---
 routing/pool.go | 19 +++++++++++++------
 routing/util.go |  7 +++++++
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index 94e7807..f9acb0c 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -20,7 +20,7 @@ type routingPool struct {
 	leaderConnStr string
 
 	// access mutex
-	mutex sync.RWMutex
+	mutex sync.Mutex
 
 	// running
 	running *int32
@@ -72,7 +72,7 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 		userPassPart:    authPart,
 		tlsInfo:         tlsInfo,
 		leaderConnStr:   leaderConnStr,
-		mutex:           sync.RWMutex{},
+		mutex:           sync.Mutex{},
 		running:         &run,
 		updating:        &update,
 		totalConns:      numConns,
@@ -320,6 +320,9 @@ func (r *routingPool) refreshHandler() {
 }
 
 func (r *routingPool) Start() error {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
 	if r.isRunning() {
 		return errors.New("pool already running")
 	}
@@ -368,6 +371,10 @@ func (r *routingPool) Start() error {
 }
 
 func (r *routingPool) Stop() error {
+	// wait for a refresh in progress
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
 	if !r.isRunning() {
 		return errors.New("routingPool is not running")
 	}
@@ -419,8 +426,8 @@ func (r *routingPool) internalBorrow(queue *Queue) (*connectionPoolWrapper, erro
 }
 
 func (r *routingPool) BorrowRConnection() (connection.IConnection, error) {
-	r.mutex.RLock()
-	defer r.mutex.RUnlock()
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 
 	connWrap, err := r.internalBorrow(r.readQueue)
 	if err != nil {
@@ -431,8 +438,8 @@ func (r *routingPool) BorrowRConnection() (connection.IConnection, error) {
 }
 
 func (r *routingPool) BorrowRWConnection() (connection.IConnection, error) {
-	r.mutex.RLock()
-	defer r.mutex.RUnlock()
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 
 	connWrap, err := r.internalBorrow(r.writeQueue)
 	if err != nil {
diff --git a/routing/util.go b/routing/util.go
index 8d4e151..93d9260 100644
--- a/routing/util.go
+++ b/routing/util.go
@@ -2,13 +2,20 @@ package routing
 
 import (
 	"math/rand"
+	"sync"
 	"time"
 )
 
 var seededRand *rand.Rand = rand.New(
 	rand.NewSource(time.Now().UnixNano()))
 
+// seededRand is shared by all pools
+var seededRandMutex sync.Mutex
+
 func stringWithCharset(length int, charset string) string {
+	seededRandMutex.Lock()
+	defer seededRandMutex.Unlock()
+
 	b := make([]byte, length)
 	for i := range b {
 		b[i] = charset[seededRand.Intn(len(charset))]
-- 
2.43.0


From 32b601ffdcce81cf3e72025896c323eb0639a0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:35 +0000
Subject: [PATCH 45/53] fix: the routed pool replaces connections that were
 dropped

---
 routing/pool.go | 55 ++++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index f9acb0c..9aecd92 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -401,22 +401,43 @@ func (r *routingPool) Stop() error {
 	return firstErr
 }
 
-func (r *routingPool) internalBorrow(queue *Queue) (*connectionPoolWrapper, error) {
-	if queue == nil {
-		return nil, errors.New("queue can not be nil")
+func (r *routingPool) internalBorrow(connType bolt_mode.AccessMode) (*connectionPoolWrapper, error) {
+	queue, maxConns, addConn := r.readQueue, r.maxReadIdle, r.addReadConn
+	if connType == bolt_mode.WriteMode {
+		queue, maxConns, addConn = r.writeQueue, r.maxWriteIdle, r.addWriteConn
+	}
+
+	created := queue.IsEmpty()
+	if created {
+		lent := 0
+		for _, connWrap := range r.borrowedConns {
+			if connWrap.ConnType == connType {
+				lent++
+			}
+		}
+
+		if lent >= maxConns {
+			return nil, fmt.Errorf("all connections are borrowed")
+		}
+
+		// replace a connection that was dropped
+		err := addConn()
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	conn := queue.Dequeue()
-	if conn == nil {
-		return nil, fmt.Errorf("stale queue")
-	}
 
 	if conn.markForDeletion || !conn.Connection.ValidateOpen() {
 		err := r.removeConn(conn)
 		if err != nil {
 			log.Error(err)
 		}
-		return r.internalBorrow(queue)
+		if created {
+			return nil, errors.New("new connection is not open any more")
+		}
+		return r.internalBorrow(connType)
 	}
 
 	delete(r.heldConns, conn.Connection.GetConnectionId())
@@ -429,7 +450,7 @@ func (r *routingPool) BorrowRConnection() (connection.IConnection, error) {
 	r.mutex.Lock()
 	defer r.mutex.Unlock()
 
-	connWrap, err := r.internalBorrow(r.readQueue)
+	connWrap, err := r.internalBorrow(bolt_mode.ReadMode)
 	if err != nil {
 		return nil, err
 	}
@@ -441,7 +462,7 @@ func (r *routingPool) BorrowRWConnection() (connection.IConnection, error) {
 	r.mutex.Lock()
 	defer r.mutex.Unlock()
 
-	connWrap, err := r.internalBorrow(r.writeQueue)
+	connWrap, err := r.internalBorrow(bolt_mode.WriteMode)
 	if err != nil {
 		return nil, err
 	}
@@ -496,23 +517,11 @@ func (r *routingPool) Reclaim(conn connection.IConnection) error {
 	delete(r.borrowedConns, connId)
 	r.heldConns[connId] = connWrap
 
-	// the server lost its role in the meantime
-	if connWrap.markForDeletion {
+	// the server lost its role in the meantime, or the connection is dead: a new one is made when it is needed
+	if connWrap.markForDeletion || !connWrap.Connection.ValidateOpen() {
 		return r.removeConn(connWrap)
 	}
 
-	// check if the connection is dead, if it is discard and make a new one
-	if !connWrap.Connection.ValidateOpen() {
-		err := r.removeConn(connWrap)
-		if err != nil {
-			if connWrap.ConnType == bolt_mode.WriteMode {
-				return r.addWriteConn()
-			} else {
-				return r.addReadConn()
-			}
-		}
-	}
-
 	if connWrap.ConnType == bolt_mode.WriteMode {
 		r.writeQueue.Enqueue(connWrap)
 	} else {
-- 
2.43.0


From 3222f56d826cd0ebd40788dea8acf10d93ffd9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:38 +0000
Subject: [PATCH 46/53] fix: the routed pool turns to another server of the
 role when one can not be reached

---
 routing/pool.go | 64 +++++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index 9aecd92..96379a5 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -119,23 +119,29 @@ func (r *routingPool) addWriteConn() error {
 		return errors.New("no connection strings")
 	}
 
-	r.rwIndex++
+	var err error
 
-	// make sure its not an overflow
-	if r.rwIndex >= len(r.rwStrings) {
-		r.rwIndex = 0
-	}
+	// one server that can not be reached does not keep the others from being used
+	for range r.rwStrings {
+		r.rwIndex++
 
-	// create the bolt connection
-	connWrap, err := r.newConnection(bolt_mode.WriteMode, r.rwStrings[r.rwIndex])
-	if err != nil {
-		return err
-	}
+		// make sure its not an overflow
+		if r.rwIndex >= len(r.rwStrings) {
+			r.rwIndex = 0
+		}
 
-	// add it to the queue
-	r.writeQueue.Enqueue(connWrap)
+		// create the bolt connection
+		var connWrap *connectionPoolWrapper
+		connWrap, err = r.newConnection(bolt_mode.WriteMode, r.rwStrings[r.rwIndex])
+		if err == nil {
+			// add it to the queue
+			r.writeQueue.Enqueue(connWrap)
 
-	return nil
+			return nil
+		}
+	}
+
+	return err
 }
 
 func (r *routingPool) addReadConn() error {
@@ -144,23 +150,29 @@ func (r *routingPool) addReadConn() error {
 		return errors.New("no connection strings")
 	}
 
-	r.readIndex++
+	var err error
 
-	// make sure its not an overflow
-	if r.readIndex >= len(r.readStrings) {
-		r.readIndex = 0
-	}
+	// one server that can not be reached does not keep the others from being used
+	for range r.readStrings {
+		r.readIndex++
 
-	// create the bolt connection
-	connWrap, err := r.newConnection(bolt_mode.ReadMode, r.readStrings[r.readIndex])
-	if err != nil {
-		return err
-	}
+		// make sure its not an overflow
+		if r.readIndex >= len(r.readStrings) {
+			r.readIndex = 0
+		}
 
-	// add it to the queue
-	r.readQueue.Enqueue(connWrap)
+		// create the bolt connection
+		var connWrap *connectionPoolWrapper
+		connWrap, err = r.newConnection(bolt_mode.ReadMode, r.readStrings[r.readIndex])
+		if err == nil {
+			// add it to the queue
+			r.readQueue.Enqueue(connWrap)
 
-	return nil
+			return nil
+		}
+	}
+
+	return err
 }
 
 func (r *routingPool) makeConnID(connType bolt_mode.AccessMode) string {
-- 
2.43.0


From 6131b9fc2cd74fc24129467c0184acf24edce641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:41 +0000
Subject: [PATCH 47/53] fix: transactions left open on connections returned to
 the routed pool are rolled back

---
 routing/pool.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/routing/pool.go b/routing/pool.go
index 96379a5..c154911 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -534,6 +534,13 @@ func (r *routingPool) Reclaim(conn connection.IConnection) error {
 		return r.removeConn(connWrap)
 	}
 
+	// leave nothing of this borrower to the next one
+	err := connWrap.Connection.MakeIdle()
+	if err != nil {
+		log.Error(err)
+		return r.removeConn(connWrap)
+	}
+
 	if connWrap.ConnType == bolt_mode.WriteMode {
 		r.writeQueue.Enqueue(connWrap)
 	} else {
-- 
2.43.0


From eae7e626ade54a348de04981460b69bcb38744b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:44 +0000
Subject: [PATCH 48/53] fix: returning no connection to the routed pool is an
 error, not a crash

---
 routing/pool.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/routing/pool.go b/routing/pool.go
index c154911..f8174cc 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -507,6 +507,10 @@ func (r *routingPool) setUpdating(b bool) {
 }
 
 func (r *routingPool) Reclaim(conn connection.IConnection) error {
+	if conn == nil {
+		return errors.New("cannot reclaim nil connection")
+	}
+
 	r.mutex.Lock()
 	defer r.mutex.Unlock()
 
-- 
2.43.0


From b4a4ed905d5ff79d78cd05b724d84887c7bb1753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 49/53] fix: connections returned after the routed pool was
 stopped are closed

---
 routing/pool.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index f8174cc..5d4251f 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -514,10 +514,6 @@ func (r *routingPool) Reclaim(conn connection.IConnection) error {
 	r.mutex.Lock()
 	defer r.mutex.Unlock()
 
-	if !r.isRunning() {
-		return errors.New("pool is not running")
-	}
-
 	connId := conn.GetConnectionId()
 
 	connWrap, ok := r.borrowedConns[connId]
@@ -529,8 +525,13 @@ func (r *routingPool) Reclaim(conn connection.IConnection) error {
 		return fmt.Errorf("connection not found with id [%s]", connId)
 	}
 
-	// remove from borrowed and replace in held
 	delete(r.borrowedConns, connId)
+
+	// nobody will borrow it again
+	if !r.isRunning() {
+		return r.removeConn(connWrap)
+	}
+
 	r.heldConns[connId] = connWrap
 
 	// the server lost its role in the meantime, or the connection is dead: a new one is made when it is needed
-- 
2.43.0


From b2256306a7367ac56fd99ef240bf579e08bdc59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:49 +0000
Subject: [PATCH 50/53] fix: a stopped routed pool neither refreshes nor lends
 connections

---
 routing/pool.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index 5d4251f..298f8ee 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -26,6 +26,8 @@ type routingPool struct {
 	running *int32
 	// is updating
 	updating *int32
+	// closed when the pool is stopped
+	stopped chan struct{}
 
 	// configuration
 	totalConns      int
@@ -313,11 +315,25 @@ func (r *routingPool) balance() {
 	}
 }
 
-func (r *routingPool) refreshHandler() {
-	for r.isRunning() {
+func (r *routingPool) refreshHandler(stopped <-chan struct{}) {
+	for {
 		// block routine until interval is up
-		<-time.After(r.refreshInterval)
+		select {
+		case <-time.After(r.refreshInterval):
+		case <-stopped:
+			return
+		}
+
 		r.mutex.Lock()
+
+		// the pool may have been stopped while waiting for it
+		select {
+		case <-stopped:
+			r.mutex.Unlock()
+			return
+		default:
+		}
+
 		// refresh connections and mark dead conns
 		err := r.refreshConnections()
 		if err != nil {
@@ -377,7 +393,8 @@ func (r *routingPool) Start() error {
 		}
 	}
 
-	go r.refreshHandler()
+	r.stopped = make(chan struct{})
+	go r.refreshHandler(r.stopped)
 
 	return nil
 }
@@ -392,6 +409,7 @@ func (r *routingPool) Stop() error {
 	}
 
 	r.setRunning(false)
+	close(r.stopped)
 
 	// one connection that can not be closed properly does not keep the others open
 	var firstErr error
@@ -414,6 +432,10 @@ func (r *routingPool) Stop() error {
 }
 
 func (r *routingPool) internalBorrow(connType bolt_mode.AccessMode) (*connectionPoolWrapper, error) {
+	if !r.isRunning() {
+		return nil, errors.New("pool is not running")
+	}
+
 	queue, maxConns, addConn := r.readQueue, r.maxReadIdle, r.addReadConn
 	if connType == bolt_mode.WriteMode {
 		queue, maxConns, addConn = r.writeQueue, r.maxWriteIdle, r.addWriteConn
-- 
2.43.0


From d851ba016d1efa9d86a366a361b116135f181db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:03 +0000
Subject: [PATCH 51/53] fix: a routed pool that can not be started leaves no
 connections behind

---
 routing/pool.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index 298f8ee..f13e1c6 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -355,8 +355,6 @@ func (r *routingPool) Start() error {
 		return errors.New("pool already running")
 	}
 
-	r.setRunning(true)
-
 	if r.totalConns%2 == 0 {
 		r.maxWriteIdle = r.totalConns / 2
 		r.maxReadIdle = r.totalConns / 2
@@ -382,6 +380,7 @@ func (r *routingPool) Start() error {
 	for i := 0; i < r.maxWriteIdle; i++ {
 		err := r.addWriteConn()
 		if err != nil {
+			r.removeIdleConns()
 			return err
 		}
 	}
@@ -389,10 +388,12 @@ func (r *routingPool) Start() error {
 	for i := 0; i < r.maxReadIdle; i++ {
 		err := r.addReadConn()
 		if err != nil {
+			r.removeIdleConns()
 			return err
 		}
 	}
 
+	r.setRunning(true)
 	r.stopped = make(chan struct{})
 	go r.refreshHandler(r.stopped)
 
@@ -411,6 +412,11 @@ func (r *routingPool) Stop() error {
 	r.setRunning(false)
 	close(r.stopped)
 
+	return r.removeIdleConns()
+}
+
+// removeIdleConns closes all connections that are not lent
+func (r *routingPool) removeIdleConns() error {
 	// one connection that can not be closed properly does not keep the others open
 	var firstErr error
 
-- 
2.43.0


From e9f70d8e057b055ca38d83cf78e8ba278aad8c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:52 +0000
Subject: [PATCH 52/53] fix: the text of a failing client option is not a
 format

NewClient passed the text of the error that an option returned as format
to errors.Wrap, which garbled every percent sign in it.
---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 9cdede2..2dde183 100644
--- a/client.go
+++ b/client.go
@@ -58,7 +58,7 @@ func NewClient(opts ...Opt) (IClient, error) {
 
 		err := opt(client)
 		if err != nil {
-			return nil, errors.Wrap(errors.ErrConfiguration, err.Error())
+			return nil, errors.Wrap(errors.ErrConfiguration, "%s", err.Error())
 		}
 	}
 
-- 
2.43.0


From aae434e40bf7f7734e43fa114c9d3112b7729c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:18 +0000
Subject: [PATCH 53/53] fix: a routed pool that is started again counts the
 connections still lent

Start filled the pool completely although connections lent before Stop
come back into it, so that more sockets were open and more connections
of a role lent than configured.
---
 routing/pool.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index f13e1c6..2846d7d 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -377,7 +377,8 @@ func (r *routingPool) Start() error {
 		return err
 	}
 
-	for i := 0; i < r.maxWriteIdle; i++ {
+	// connections that were lent before the pool was stopped count as well
+	for i := r.lentConns(bolt_mode.WriteMode); i < r.maxWriteIdle; i++ {
 		err := r.addWriteConn()
 		if err != nil {
 			r.removeIdleConns()
@@ -385,7 +386,7 @@ func (r *routingPool) Start() error {
 		}
 	}
 
-	for i := 0; i < r.maxReadIdle; i++ {
+	for i := r.lentConns(bolt_mode.ReadMode); i < r.maxReadIdle; i++ {
 		err := r.addReadConn()
 		if err != nil {
 			r.removeIdleConns()
@@ -437,6 +438,18 @@ func (r *routingPool) removeIdleConns() error {
 	return firstErr
 }
 
+// lentConns is the number of connections of a type that are lent
+func (r *routingPool) lentConns(connType bolt_mode.AccessMode) int {
+	lent := 0
+	for _, connWrap := range r.borrowedConns {
+		if connWrap.ConnType == connType {
+			lent++
+		}
+	}
+
+	return lent
+}
+
 func (r *routingPool) internalBorrow(connType bolt_mode.AccessMode) (*connectionPoolWrapper, error) {
 	if !r.isRunning() {
 		return nil, errors.New("pool is not running")
@@ -449,14 +462,7 @@ func (r *routingPool) internalBorrow(connType bolt_mode.AccessMode) (*connection
 
 	created := queue.IsEmpty()
 	if created {
-		lent := 0
-		for _, connWrap := range r.borrowedConns {
-			if connWrap.ConnType == connType {
-				lent++
-			}
-		}
-
-		if lent >= maxConns {
+		if r.lentConns(connType) >= maxConns {
 			return nil, fmt.Errorf("all connections are borrowed")
 		}
 
-- 
2.43.0

