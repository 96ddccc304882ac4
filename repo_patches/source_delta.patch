From 845618f252ab41b2d4dc2099ab54c2081b1dae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:26 +0000
Subject: [PATCH 01/32] fix: encode the follows flag of request frames

RequestPayload.Encode dropped the Follows marker, so a fragmented request
looked complete to the receiver.
---
 go/internal/frames/request_payload.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index f9095c1..a8b4ddc 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -72,6 +72,9 @@ func (f *RequestPayload) Encode(buf []byte) {
 	payload := buf
 	metadataLen := uint32(len(f.Metadata))
 	var flags FrameFlag
+	if f.Follows {
+		flags |= FlagFollow
+	}
 	if f.FrameType == FrameTypeRequestChannel && f.Complete {
 		flags |= FlagComplete
 	}
-- 
2.43.0


From 623623593ef548c675e7a072c58b43af4c9b8484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 02/32] fix: refuse truncated frames when decoding

---
 go/internal/frames/error.go           | 3 +++
 go/internal/frames/payload.go         | 6 ++++++
 go/internal/frames/request_n.go       | 3 +++
 go/internal/frames/request_payload.go | 9 +++++++++
 go/internal/frames/util.go            | 3 +++
 5 files changed, 24 insertions(+)

diff --git a/go/internal/frames/error.go b/go/internal/frames/error.go
index f6966b6..5f49589 100644
--- a/go/internal/frames/error.go
+++ b/go/internal/frames/error.go
@@ -21,6 +21,9 @@ func (f *Error) Type() FrameType {
 }
 
 func (f *Error) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return errTruncated
+	}
 	code := binary.BigEndian.Uint32(payload)
 	data := string(payload[4:])
 
diff --git a/go/internal/frames/payload.go b/go/internal/frames/payload.go
index 6a6b18b..90393b6 100644
--- a/go/internal/frames/payload.go
+++ b/go/internal/frames/payload.go
@@ -32,10 +32,16 @@ func (f *Payload) Decode(header *FrameHeader, payload []byte) error {
 	metadata := emptyBuffer
 
 	if hasMetadata {
+		if len(payload) < 3 {
+			return errTruncated
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], payload[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		payload = payload[3:]
+		if len(payload) < int(mdLength) {
+			return errTruncated
+		}
 		metadata = payload[:mdLength]
 		payload = payload[mdLength:]
 	}
diff --git a/go/internal/frames/request_n.go b/go/internal/frames/request_n.go
index 636df9d..6a6627f 100644
--- a/go/internal/frames/request_n.go
+++ b/go/internal/frames/request_n.go
@@ -20,6 +20,9 @@ func (f *RequestN) Type() FrameType {
 }
 
 func (f *RequestN) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return errTruncated
+	}
 	n := binary.BigEndian.Uint32(payload)
 
 	*f = RequestN{
diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index a8b4ddc..1abfe7e 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -38,6 +38,9 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 	complete := true
 
 	if frameType == FrameTypeRequestStream || frameType == FrameTypeRequestChannel {
+		if len(payload) < 4 {
+			return errTruncated
+		}
 		initialN = binary.BigEndian.Uint32(payload)
 		payload = payload[4:]
 	}
@@ -47,10 +50,16 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 
 	metadata := emptyBuffer
 	if hasMetadata {
+		if len(payload) < 3 {
+			return errTruncated
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], payload[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		payload = payload[3:]
+		if len(payload) < int(mdLength) {
+			return errTruncated
+		}
 		metadata = payload[:mdLength]
 		payload = payload[mdLength:]
 	}
diff --git a/go/internal/frames/util.go b/go/internal/frames/util.go
index d962f97..f960f98 100644
--- a/go/internal/frames/util.go
+++ b/go/internal/frames/util.go
@@ -2,10 +2,13 @@ package frames
 
 import (
 	"encoding/binary"
+	"errors"
 )
 
 var emptyBuffer = []byte{}
 
+var errTruncated = errors.New("frame is truncated")
+
 func readString(payload []byte) (string, []byte) {
 	strLen := binary.BigEndian.Uint16(payload[:2])
 	payload = payload[2:]
-- 
2.43.0


From 1d975878aa0fad7dbc81c3840614e1f4a8933fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 03/32] fix: never hand out stream id zero when server ids wrap

---
 go/internal/socket/stream_id.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/internal/socket/stream_id.go b/go/internal/socket/stream_id.go
index 974ab23..b25f404 100644
--- a/go/internal/socket/stream_id.go
+++ b/go/internal/socket/stream_id.go
@@ -20,9 +20,9 @@ type ServerStreamIDs uint64
 func (p *ServerStreamIDs) Next() (uint32, bool) {
 	// 2,4,6,8...
 	seed := atomic.AddUint64((*uint64)(p), 1)
-	v := 2 * seed
+	v := _maskStreamID & (2 * seed)
 	if v != 0 {
-		return uint32(_maskStreamID & v), seed <= _halfSeed
+		return uint32(v), seed <= _halfSeed
 	}
 	return p.Next()
 }
-- 
2.43.0


From 798700fad6dc8755ebcde9d49e0f069fd4a0d9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:02 +0000
Subject: [PATCH 04/32] fix: bounds-check msgpack lengths without wrapping
 around

---
 go/msgpack/data_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/msgpack/data_reader.go b/go/msgpack/data_reader.go
index 4240605..eb2c84b 100644
--- a/go/msgpack/data_reader.go
+++ b/go/msgpack/data_reader.go
@@ -240,7 +240,7 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	if d.err != nil {
 		return d.err
 	}
-	if d.byteOffset+length > uint32(len(d.buffer)) {
+	if uint64(d.byteOffset)+uint64(length) > uint64(len(d.buffer)) {
 		d.err = ErrRange
 		return ErrRange
 	}
-- 
2.43.0


From 1ed5a5d5080c7681344de8f30412f05d9f963024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:02 +0000
Subject: [PATCH 05/32] fix: size 255-byte msgpack binaries as the encoder
 writes them

---
 go/msgpack/sizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/msgpack/sizer.go b/go/msgpack/sizer.go
index 0fc83c0..0fbee96 100644
--- a/go/msgpack/sizer.go
+++ b/go/msgpack/sizer.go
@@ -115,7 +115,7 @@ func (s *Sizer) WriteArraySize(length uint32) {
 }
 
 func (s *Sizer) writeBinLength(length uint32) {
-	if length < math.MaxUint8 {
+	if length <= math.MaxUint8 {
 		s.length += 1
 	} else if length <= math.MaxUint16 {
 		s.length += 2
-- 
2.43.0


From 91e174d98e1ff8be4a4cacdc62c82a9e05a2c400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:03 +0000
Subject: [PATCH 06/32] fix: encode a dynamic nil as one msgpack value

---
 go/msgpack/encoder.go | 3 ---
 go/msgpack/sizer.go   | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/go/msgpack/encoder.go b/go/msgpack/encoder.go
index 2fd74c0..ebe87d2 100644
--- a/go/msgpack/encoder.go
+++ b/go/msgpack/encoder.go
@@ -312,9 +312,6 @@ func (e *Encoder) WriteMapSize(length uint32) {
 }
 
 func (e *Encoder) WriteAny(value any) {
-	if value == nil {
-		e.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		e.WriteNil()
diff --git a/go/msgpack/sizer.go b/go/msgpack/sizer.go
index 0fbee96..e409960 100644
--- a/go/msgpack/sizer.go
+++ b/go/msgpack/sizer.go
@@ -276,9 +276,6 @@ func (s *Sizer) WriteNillableFloat64(value *float64) {
 }
 
 func (s *Sizer) WriteAny(value any) {
-	if value == nil {
-		s.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		s.WriteNil()
-- 
2.43.0


From 4b7245bf0f2a52c83c66da27945aa39bd5318043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:04 +0000
Subject: [PATCH 07/32] fix: encode dynamic times, which the sizer already
 counts

---
 go/msgpack/encoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/go/msgpack/encoder.go b/go/msgpack/encoder.go
index ebe87d2..5e380eb 100644
--- a/go/msgpack/encoder.go
+++ b/go/msgpack/encoder.go
@@ -345,6 +345,8 @@ func (e *Encoder) WriteAny(value any) {
 		e.WriteFloat64(v)
 	case string:
 		e.WriteString(v)
+	case time.Time:
+		e.WriteTime(v)
 	case []byte:
 		e.WriteByteArray(v)
 	case []interface{}:
@@ -359,6 +361,12 @@ func (e *Encoder) WriteAny(value any) {
 		for _, v := range v {
 			e.WriteString(v)
 		}
+	case []time.Time:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteTime(v)
+		}
 	case []bool:
 		size := uint32(len(v))
 		e.WriteArraySize(size)
-- 
2.43.0


From 08a0c52fd74c2ec9f3349791316a5e1c37bd0ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:48 +0000
Subject: [PATCH 08/32] fix: report truncated values when skipping

---
 go/msgpack/decoder.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 85af61f..bac9943 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -616,7 +616,7 @@ func (d *Decoder) getSize() (uint32, error) {
 		// Noop, will just discard the leadbyte
 	} else if isFixedString(leadByte) {
 		strLen := uint32(leadByte & 0x1f)
-		d.reader.Discard(strLen)
+		err = d.reader.Discard(strLen)
 	} else if isFixedArray(leadByte) {
 		objectsToDiscard = uint32(leadByte & FormatFourLeastSigBitsInByte)
 	} else if isFixedMap(leadByte) {
@@ -652,27 +652,27 @@ func (d *Decoder) getSize() (uint32, error) {
 				return 0, err
 			}
 		case FormatFloat32:
-			d.reader.Discard(4)
+			err = d.reader.Discard(4)
 		case FormatFloat64:
-			d.reader.Discard(8)
+			err = d.reader.Discard(8)
 		case FormatUint8, FormatInt8:
-			d.reader.Discard(1)
+			err = d.reader.Discard(1)
 		case FormatUint16, FormatInt16:
-			d.reader.Discard(2)
+			err = d.reader.Discard(2)
 		case FormatUint32, FormatInt32:
-			d.reader.Discard(4)
+			err = d.reader.Discard(4)
 		case FormatUint64, FormatInt64:
-			d.reader.Discard(8)
+			err = d.reader.Discard(8)
 		case FormatFixExt1:
-			d.reader.Discard(1)
+			err = d.reader.Discard(1)
 		case FormatFixExt2:
-			d.reader.Discard(3)
+			err = d.reader.Discard(3)
 		case FormatFixExt4:
-			d.reader.Discard(5)
+			err = d.reader.Discard(5)
 		case FormatFixExt8:
-			d.reader.Discard(9)
+			err = d.reader.Discard(9)
 		case FormatFixExt16:
-			d.reader.Discard(17)
+			err = d.reader.Discard(17)
 		case FormatArray16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
@@ -702,6 +702,10 @@ func (d *Decoder) getSize() (uint32, error) {
 		}
 	}
 
+	if err != nil {
+		return 0, err
+	}
+
 	return objectsToDiscard, nil
 }
 
-- 
2.43.0


From a61bca28a6aa4839d6137b9def11c679c7eb80fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:48 +0000
Subject: [PATCH 09/32] fix: skip msgpack extension values in full

---
 go/msgpack/decoder.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index bac9943..7d56c67 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -664,7 +664,7 @@ func (d *Decoder) getSize() (uint32, error) {
 		case FormatUint64, FormatInt64:
 			err = d.reader.Discard(8)
 		case FormatFixExt1:
-			err = d.reader.Discard(1)
+			err = d.reader.Discard(2)
 		case FormatFixExt2:
 			err = d.reader.Discard(3)
 		case FormatFixExt4:
@@ -673,6 +673,37 @@ func (d *Decoder) getSize() (uint32, error) {
 			err = d.reader.Discard(9)
 		case FormatFixExt16:
 			err = d.reader.Discard(17)
+		case FormatExt8:
+			length, err := d.reader.GetUint8()
+			if err != nil {
+				return 0, err
+			}
+			err = d.reader.Discard(1 + uint32(length))
+			if err != nil {
+				return 0, err
+			}
+		case FormatExt16:
+			length, err := d.reader.GetUint16()
+			if err != nil {
+				return 0, err
+			}
+			err = d.reader.Discard(1 + uint32(length))
+			if err != nil {
+				return 0, err
+			}
+		case FormatExt32:
+			length, err := d.reader.GetUint32()
+			if err != nil {
+				return 0, err
+			}
+			err = d.reader.Discard(1)
+			if err != nil {
+				return 0, err
+			}
+			err = d.reader.Discard(length)
+			if err != nil {
+				return 0, err
+			}
 		case FormatArray16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
-- 
2.43.0


From 93f3db513b7c182db2704d5520b9ea2d34a26d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:49 +0000
Subject: [PATCH 10/32] fix: skip maps of more than 2^31 entries in full

---
 go/msgpack/decoder.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 7d56c67..7980d8e 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -605,12 +605,12 @@ func (d *Decoder) Skip() error {
 	return nil
 }
 
-func (d *Decoder) getSize() (uint32, error) {
+func (d *Decoder) getSize() (uint64, error) {
 	leadByte, err := d.reader.GetUint8()
 	if err != nil {
 		return 0, err
 	}
-	var objectsToDiscard uint32 = 0
+	var objectsToDiscard uint64 = 0
 
 	if isNegativeFixedInt(leadByte) || isFixedInt(leadByte) {
 		// Noop, will just discard the leadbyte
@@ -618,9 +618,9 @@ func (d *Decoder) getSize() (uint32, error) {
 		strLen := uint32(leadByte & 0x1f)
 		err = d.reader.Discard(strLen)
 	} else if isFixedArray(leadByte) {
-		objectsToDiscard = uint32(leadByte & FormatFourLeastSigBitsInByte)
+		objectsToDiscard = uint64(leadByte & FormatFourLeastSigBitsInByte)
 	} else if isFixedMap(leadByte) {
-		objectsToDiscard = 2 * uint32(leadByte&FormatFourLeastSigBitsInByte)
+		objectsToDiscard = 2 * uint64(leadByte&FormatFourLeastSigBitsInByte)
 	} else {
 		switch leadByte {
 		case FormatNil, FormatTrue, FormatFalse:
@@ -709,25 +709,25 @@ func (d *Decoder) getSize() (uint32, error) {
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = uint32(v)
+			objectsToDiscard = uint64(v)
 		case FormatArray32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = v
+			objectsToDiscard = uint64(v)
 		case FormatMap16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * uint32(v)
+			objectsToDiscard = 2 * uint64(v)
 		case FormatMap32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * v
+			objectsToDiscard = 2 * uint64(v)
 		default:
 			return 0, ReadError{"bad prefix"}
 		}
-- 
2.43.0


From cb79aad3a6cf76cd0612875cdf1f8f2cd28ec018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:49 +0000
Subject: [PATCH 11/32] fix: read msgpack extension lengths as raw integers

---
 go/msgpack/decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 7980d8e..fcc5112 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -921,13 +921,13 @@ func (d *Decoder) parseExtLen(c byte) (uint32, error) {
 	case FormatFixExt16:
 		return 16, nil
 	case FormatExt8:
-		n, err := d.ReadUint8()
+		n, err := d.reader.GetUint8()
 		return uint32(n), err
 	case FormatExt16:
-		n, err := d.ReadUint16()
+		n, err := d.reader.GetUint16()
 		return uint32(n), err
 	case FormatExt32:
-		n, err := d.ReadUint32()
+		n, err := d.reader.GetUint32()
 		return n, err
 	default:
 		return 0, ReadError{"msgpack: invalid code=" + strconv.FormatUint(uint64(c), 16) + " decoding ext len"}
-- 
2.43.0


From c4f998d3cae1623e19effb894a4c2295c6495591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:49 +0000
Subject: [PATCH 12/32] fix: refuse msgpack map keys that Go maps cannot hold

---
 go/msgpack/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index fcc5112..d4c1f87 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -881,6 +881,10 @@ func (d *Decoder) readMap(m map[any]any, length uint32) error {
 		if err != nil {
 			return err
 		}
+		switch key.(type) {
+		case []any, map[any]any, []byte:
+			return ReadError{"bad value for map key"}
+		}
 		m[key] = value
 	}
 	return nil
-- 
2.43.0


From 03a813fb844e1f109a1eff02a476cf72a96d898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:49 +0000
Subject: [PATCH 13/32] fix: do not allocate for more msgpack elements than
 bytes are left

---
 go/msgpack/decoder.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index d4c1f87..18386d1 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -810,6 +810,10 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
+		// Every element takes at least one byte.
+		if err := d.reader.checkBufferSize(uint32(v)); err != nil {
+			return nil, err
+		}
 		ary := make([]any, v)
 		err = d.readArray(ary)
 		return ary, err
@@ -818,6 +822,10 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
+		// Every element takes at least one byte.
+		if err := d.reader.checkBufferSize(uint32(v)); err != nil {
+			return nil, err
+		}
 		ary := make([]any, v)
 		err = d.readArray(ary)
 		return ary, err
@@ -826,6 +834,10 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
+		// Every element takes at least one byte.
+		if err := d.reader.checkBufferSize(uint32(v)); err != nil {
+			return nil, err
+		}
 		m := make(map[any]any, v)
 		err = d.readMap(m, uint32(v))
 		return m, err
@@ -834,6 +846,10 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
+		// Every element takes at least one byte.
+		if err := d.reader.checkBufferSize(uint32(v)); err != nil {
+			return nil, err
+		}
 		m := make(map[any]any, v)
 		err = d.readMap(m, v)
 		return m, err
-- 
2.43.0


From 95fbe1b67aa9cbdea8a31ec2aa82ecc93d47178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:51 +0000
Subject: [PATCH 14/32] fix: read dynamic times back

---
 go/msgpack/decoder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 18386d1..4ce2c0c 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -390,6 +390,10 @@ func (d *Decoder) ReadTime() (time.Time, error) {
 	}
 
 	d.reader.Discard(1)
+	return d.readTimeExt(prefix)
+}
+
+func (d *Decoder) readTimeExt(prefix byte) (time.Time, error) {
 	extID, extLen, err := d.extHeader(prefix)
 	if err != nil {
 		return time.Time{}, err
@@ -871,6 +875,8 @@ func (d *Decoder) ReadAny() (any, error) {
 			return nil, err
 		}
 		return d.reader.GetBytes(binLen)
+	case FormatFixExt4, FormatFixExt8, FormatExt8:
+		return d.readTimeExt(prefix)
 	}
 
 	return nil, ReadError{"bad value for bool"}
-- 
2.43.0


From cfd9199a683dace1a6c7944c61e636571f8edce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 15/32] fix: give the next and complete flags of port messages
 distinct bits

---
 go/invoke/portio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/invoke/portio.go b/go/invoke/portio.go
index 0f787ce..44e7e80 100644
--- a/go/invoke/portio.go
+++ b/go/invoke/portio.go
@@ -71,7 +71,7 @@ func (f Flags) String() string {
 
 // All frame flags
 const (
-	FlagNext Flags = 1
+	FlagNext Flags = 1 << iota
 	FlagComplete
 )
 
-- 
2.43.0


From 14065650085cb55f3ba122aada6a426090134956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 16/32] fix: refuse truncated port messages

---
 go/invoke/portio.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/go/invoke/portio.go b/go/invoke/portio.go
index 44e7e80..6e19292 100644
--- a/go/invoke/portio.go
+++ b/go/invoke/portio.go
@@ -2,9 +2,12 @@ package invoke
 
 import (
 	"encoding/binary"
+	"errors"
 	"strings"
 )
 
+var errTruncated = errors.New("port message is truncated")
+
 type PortIO struct {
 	Port     string
 	Data     []byte
@@ -13,12 +16,18 @@ type PortIO struct {
 }
 
 func (f *PortIO) Decode(data []byte) error {
+	if len(data) < 3 {
+		return errTruncated
+	}
 	flags := Flags(data[0])
 	complete := flags.Check(FlagComplete)
 	next := flags.Check(FlagNext)
 	data = data[1:]
 	portLength := binary.BigEndian.Uint16(data)
 	data = data[2:]
+	if len(data) < int(portLength) {
+		return errTruncated
+	}
 	port := string(data[:portLength])
 	data = data[portLength:]
 
-- 
2.43.0


From 7d39b96c15ab45f2f69da4ebcb82aa3de09d8062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 17/32] fix: refuse truncated operation tables and skip long
 reserved parts in full

---
 go/operations/operatons.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/go/operations/operatons.go b/go/operations/operatons.go
index bca2fb2..375634f 100644
--- a/go/operations/operatons.go
+++ b/go/operations/operatons.go
@@ -63,12 +63,21 @@ func (d Direction) String() string {
 var Magic = []byte{0x00, 0x77, 0x72, 0x73}
 var ErrInvalidMagicNumber = errors.New("invalid magic number")
 
+var errTruncated = errors.New("operation table is truncated")
+
+// minOperationSize is the encoded size of an operation with empty names.
+const minOperationSize = 12
+
 func FromBytes(buf []byte) (Table, error) {
-	if !bytes.Equal(buf[0:4], Magic) {
+	if len(buf) < 4 || !bytes.Equal(buf[0:4], Magic) {
 		return nil, ErrInvalidMagicNumber
 	}
 	buf = buf[4:]
 
+	if len(buf) < 6 {
+		return nil, errTruncated
+	}
+
 	// Read version.
 	version := binary.BigEndian.Uint16(buf)
 	if version != 1 {
@@ -76,18 +85,30 @@ func FromBytes(buf []byte) (Table, error) {
 	}
 	buf = buf[2:]
 	numOps := binary.BigEndian.Uint32(buf)
-	operations := make(Table, numOps)
 	buf = buf[4:]
+	if uint64(numOps)*minOperationSize > uint64(len(buf)) {
+		return nil, errTruncated
+	}
+	operations := make(Table, numOps)
 	for i := 0; i < int(numOps); i++ {
+		if len(buf) < 8 {
+			return nil, errTruncated
+		}
 		opType := RequestType(buf[0])
 		dir := Direction(buf[1])
 		id := binary.BigEndian.Uint32(buf[2:6])
 		nsLen := binary.BigEndian.Uint16(buf[6:8])
 		buf = buf[8:]
+		if len(buf) < int(nsLen)+2 {
+			return nil, errTruncated
+		}
 		ns := string(buf[:nsLen])
 		buf = buf[nsLen:]
 		opLen := binary.BigEndian.Uint16(buf[0:2])
 		buf = buf[2:]
+		if len(buf) < int(opLen)+2 {
+			return nil, errTruncated
+		}
 		op := string(buf[:opLen])
 		buf = buf[opLen:]
 		operations[i] = Operation{
@@ -98,7 +119,10 @@ func FromBytes(buf []byte) (Table, error) {
 			Operation: op,
 		}
 		reservedLen := binary.BigEndian.Uint16(buf)
-		buf = buf[2+reservedLen:] // Reserved
+		if len(buf) < 2+int(reservedLen) {
+			return nil, errTruncated
+		}
+		buf = buf[2+int(reservedLen):] // Reserved
 	}
 
 	return operations, nil
-- 
2.43.0


From 9fdbbbde711dc1c949952bd094522063b547cca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 18/32] fix: refuse 38-character UUIDs without braces

---
 go/types/uuid/uuid.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/go/types/uuid/uuid.go b/go/types/uuid/uuid.go
index 61a3725..1d18343 100644
--- a/go/types/uuid/uuid.go
+++ b/go/types/uuid/uuid.go
@@ -76,6 +76,9 @@ func Parse(s string) (UUID, error) {
 
 	// {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
 	case 36 + 2:
+		if s[0] != '{' || s[37] != '}' {
+			return uuid, errors.New("invalid UUID format")
+		}
 		s = s[1:]
 
 	// xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
@@ -122,6 +125,9 @@ func ParseBytes(b []byte) (UUID, error) {
 		}
 		b = b[9:]
 	case 36 + 2: // {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
+		if b[0] != '{' || b[37] != '}' {
+			return uuid, errors.New("invalid UUID format")
+		}
 		b = b[1:]
 	case 32: // xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
 		var ok bool
-- 
2.43.0


From a9419d4315208c937244f2a848c3140b775ef23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 19/32] fix: unlink removed streams at the ends of the lookup

---
 go/proxy/lookup.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/proxy/lookup.go b/go/proxy/lookup.go
index 3dddd04..0211127 100644
--- a/go/proxy/lookup.go
+++ b/go/proxy/lookup.go
@@ -58,9 +58,13 @@ func (l *Lookup) Remove(id uint32) {
 
 	if prevNode != nil {
 		prevNode.next = nodeToDelete.next
+	} else {
+		l.head = nextNode
 	}
 	if nextNode != nil {
 		nextNode.prev = nodeToDelete.prev
+	} else {
+		l.tail = prevNode
 	}
 }
 
-- 
2.43.0


From cbfcb4780af08052bc7c0dc35e4d2d4cd002821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 20/32] fix: rsocket splitter dropped frames still buffered at
 end of stream

---
 go/transport/rsocket/decoder.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/go/transport/rsocket/decoder.go b/go/transport/rsocket/decoder.go
index 7e9be2e..f3206e0 100644
--- a/go/transport/rsocket/decoder.go
+++ b/go/transport/rsocket/decoder.go
@@ -42,9 +42,6 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 }
 
 func doSplit(data []byte, eof bool) (advance int, token []byte, err error) {
-	if eof {
-		return
-	}
 	if len(data) < lengthFieldSize {
 		return
 	}
-- 
2.43.0


From 84a037e693431d8c0b7b0f7b2e4fd8f9e3f96250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 21/32] fix: nillable conversions panicked on an absent value

---
 go/msgpack/convert/convert.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/go/msgpack/convert/convert.go b/go/msgpack/convert/convert.go
index 455fc93..9a26284 100644
--- a/go/msgpack/convert/convert.go
+++ b/go/msgpack/convert/convert.go
@@ -71,6 +71,9 @@ func String[T ~string](value string, err error) (T, error) {
 }
 
 func NillableString[T ~string](value *string, err error) (*T, error) {
+	if value == nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
@@ -80,6 +83,9 @@ func Bool[T ~bool](value bool, err error) (T, error) {
 }
 
 func NillableBool[T ~bool](value *bool, err error) (*T, error) {
+	if value == nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
@@ -95,6 +101,9 @@ func Numeric[T, I numberic](value I, err error) (T, error) {
 }
 
 func NillableNumeric[T, I numberic](value *I, err error) (*T, error) {
+	if value == nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
-- 
2.43.0


From a0fd230c6b0a8270a016f631e9cc665a002af890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:36 +0000
Subject: [PATCH 22/32] fix: constant monos did not run the finally callback

---
 go/rx/mono/mono.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 002c985..047ccc6 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -42,6 +42,9 @@ func (e errorSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -74,6 +77,9 @@ func (j justSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnSuccess != nil {
 		sub.OnSuccess(j.value)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalComplete)
+	}
 	return j
 }
 
-- 
2.43.0


From aa9d167f043c43b33e09e8a3b9c9c31ae227f6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:36 +0000
Subject: [PATCH 23/32] fix: a notification registered while a mono reported
 its error was told it completed

---
 go/rx/mono/mono.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 047ccc6..374a9ca 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -177,6 +177,7 @@ func (s *subscriber[T]) Error(err error) {
 		return
 	}
 	s.err = err
+	s.signal = rx.SignalError
 	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
-- 
2.43.0


From a910b5e05e50cc7acc39235827f4b8467c8fc8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:36 +0000
Subject: [PATCH 24/32] fix: a mono processor delivered a later signal instead
 of the first when it was signalled before being subscribed

---
 go/rx/mono/processor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/rx/mono/processor.go b/go/rx/mono/processor.go
index a7bb35d..1d02282 100644
--- a/go/rx/mono/processor.go
+++ b/go/rx/mono/processor.go
@@ -29,7 +29,7 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 func (p *ProcessorImpl[T]) Success(value T) {
 	if p.sink != nil {
 		p.sink.Success(value)
-	} else {
+	} else if p.success == nil && p.err == nil {
 		p.success = &value
 	}
 }
@@ -37,7 +37,7 @@ func (p *ProcessorImpl[T]) Success(value T) {
 func (p *ProcessorImpl[T]) Error(err error) {
 	if p.sink != nil {
 		p.sink.Error(err)
-	} else {
+	} else if p.success == nil && p.err == nil {
 		p.err = err
 	}
 }
-- 
2.43.0


From 493d53fa69cebd8ce3f270df447998ffdec23157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 25/32] fix: cancelling a flux ran its finally callback again
 after a terminal signal and did not notify

---
 go/rx/flux/flux.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 864f7e5..23da3b0 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -200,13 +200,15 @@ func (s *subscriber[T]) Request(n int) {
 }
 
 func (s *subscriber[T]) Cancel() {
+	if s.closed {
+		return
+	}
+	s.signal = rx.SignalCancel
 	s.closed = true
 	if s.sub.Cancel != nil {
 		s.sub.Cancel()
 	}
-	if s.doFinally != nil {
-		s.doFinally(rx.SignalCancel)
-	}
+	s.finally(rx.SignalCancel)
 }
 
 func (s *subscriber[T]) Close() {
-- 
2.43.0


From 7353f49d1dea3717ad64189e897ec12b6424966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 26/32] fix: a notification registered while a flux reported
 its error was told it completed

---
 go/rx/flux/flux.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 23da3b0..7233f75 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -154,6 +154,7 @@ func (s *subscriber[T]) Error(err error) {
 		return
 	}
 	s.err = err
+	s.signal = rx.SignalError
 	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
-- 
2.43.0


From 8ae1e63e0f44634868dcb0f7e5e872373860fdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 27/32] fix: a constant error flux did not run the finally
 callback

---
 go/rx/flux/flux.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 7233f75..e5f6ad3 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -47,6 +47,9 @@ func (e errorFlow[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
-- 
2.43.0


From af67940661742b0d845928afd639986c8017e970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:05 +0000
Subject: [PATCH 28/32] fix: a mapped flux kept delivering values and ran
 finally twice after a conversion error

---
 go/rx/flux/flux.go | 61 +++++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index e5f6ad3..a34536c 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -231,33 +231,50 @@ type mapper[S, D any] struct {
 	tx rx.Transform[S, D]
 }
 
-type closable[T any] interface {
-	Close()
-}
-
 func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
-	m.f.Subscribe(Subscribe[S]{
+	failed := false
+	wrapper := Subscribe[S]{
 		OnNext: func(value S) {
-			if converted, err := m.tx(value); err != nil {
-				if close, ok := m.f.(closable[S]); ok {
-					close.Close()
-				}
-				if sub.OnError != nil {
-					sub.OnError(err)
-				}
-				if sub.Finally != nil {
-					sub.Finally(rx.SignalError)
+			if failed {
+				return
+			}
+			converted, err := m.tx(value)
+			if err == nil {
+				if sub.OnNext != nil {
+					sub.OnNext(converted)
 				}
-			} else if sub.OnNext != nil {
-				sub.OnNext(converted)
+				return
+			}
+			failed = true
+			if source := m.f.Subscription(); source != nil {
+				source.Cancel()
+			}
+			if sub.OnError != nil {
+				sub.OnError(err)
+			}
+			if sub.Finally != nil {
+				sub.Finally(rx.SignalError)
 			}
 		},
-		OnComplete: sub.OnComplete,
-		OnError:    sub.OnError,
-		OnRequest:  sub.OnRequest,
-		Finally:    sub.Finally,
-		NoRequest:  sub.NoRequest,
-	})
+		OnComplete: func() {
+			if !failed && sub.OnComplete != nil {
+				sub.OnComplete()
+			}
+		},
+		OnError: func(err error) {
+			if !failed && sub.OnError != nil {
+				sub.OnError(err)
+			}
+		},
+		OnRequest: sub.OnRequest,
+		Finally: func(signal rx.SignalType) {
+			if !failed && sub.Finally != nil {
+				sub.Finally(signal)
+			}
+		},
+		NoRequest: sub.NoRequest,
+	}
+	m.f.Subscribe(wrapper)
 	return m
 }
 
-- 
2.43.0


From f99281a47545b9adac2a6bd7a29514ac5ec7f59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 29/32] fix: a request-n for a stream that takes no demand
 crashed the process

---
 go/handler/handler.go                | 5 +++--
 go/transport/wasmrs/guest/guest.go   | 5 +++--
 go/transport/wasmrs/host/instance.go | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index d0ed8ea..a656872 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -158,8 +158,9 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		}
 
 	case *frames.RequestN:
-		s := str.(DoRequest)
-		go s.DoRequest(int(v.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(v.N))
+		}
 
 	case *frames.Cancel:
 		str.OnComplete()
diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 92fffb0..4470f49 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -212,8 +212,9 @@ func GuestSend(endPos uint32) {
 				return
 			}
 
-			s := str.(DoRequest)
-			s.DoRequest(int(rn.N))
+			if s, ok := str.(DoRequest); ok {
+				s.DoRequest(int(rn.N))
+			}
 
 		case frames.FrameTypeCancel:
 			str.OnComplete()
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 04dfbbb..972861a 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -346,8 +346,9 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		s := str.(DoRequest)
-		go s.DoRequest(int(rn.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(rn.N))
+		}
 
 	case frames.FrameTypeCancel:
 		str.OnComplete()
-- 
2.43.0


From 000fe9e6bdbd6d94d22da2830e3a73c196b58e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 30/32] fix: a cancel, value or error for a stream without
 inbound values crashed the process

---
 go/handler/handler.go                | 12 +++++++++---
 go/transport/wasmrs/guest/guest.go   | 12 +++++++++---
 go/transport/wasmrs/host/instance.go | 12 +++++++++---
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index a656872..543fe85 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -704,13 +704,19 @@ func (r *requestStream) DoRequest(n int) {
 }
 
 func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
+	if r.sink != nil {
+		r.sink.Next(p)
+	}
 }
 
 func (r *requestStream) OnComplete() {
-	r.sink.Complete()
+	if r.sink != nil {
+		r.sink.Complete()
+	}
 }
 
 func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+	if r.sink != nil {
+		r.sink.Error(err)
+	}
 }
diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 4470f49..99c96dd 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -600,15 +600,21 @@ func (r *requestStream) DoRequest(n int) {
 }
 
 func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
+	if r.sink != nil {
+		r.sink.Next(p)
+	}
 }
 
 func (r *requestStream) OnComplete() {
-	r.sink.Complete()
+	if r.sink != nil {
+		r.sink.Complete()
+	}
 }
 
 func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+	if r.sink != nil {
+		r.sink.Error(err)
+	}
 }
 
 //go:inline
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 972861a..c06229b 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -724,13 +724,19 @@ func (r *requestStream) DoRequest(n int) {
 }
 
 func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
+	if r.sink != nil {
+		r.sink.Next(p)
+	}
 }
 
 func (r *requestStream) OnComplete() {
-	r.sink.Complete()
+	if r.sink != nil {
+		r.sink.Complete()
+	}
 }
 
 func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+	if r.sink != nil {
+		r.sink.Error(err)
+	}
 }
-- 
2.43.0


From 23c960452d0092ead90e1666432038207edd54e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 31/32] fix: answering a stream request with an error flux
 crashed the process

---
 go/handler/handler.go                | 8 ++++++--
 go/transport/wasmrs/guest/guest.go   | 8 ++++++--
 go/transport/wasmrs/host/instance.go | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index 543fe85..7e7a80d 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -696,11 +696,15 @@ func (r *requestStream) StreamID() uint32 {
 }
 
 func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
+	if r.sub != nil {
+		r.sub.Request(n)
+	}
 }
 
 func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
+	if r.sub != nil {
+		r.sub.Request(n)
+	}
 }
 
 func (r *requestStream) OnNext(p payload.Payload) {
diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 99c96dd..bce403d 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -592,11 +592,15 @@ func (r *requestStream) StreamID() uint32 {
 }
 
 func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
+	if r.sub != nil {
+		r.sub.Request(n)
+	}
 }
 
 func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
+	if r.sub != nil {
+		r.sub.Request(n)
+	}
 }
 
 func (r *requestStream) OnNext(p payload.Payload) {
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index c06229b..6830383 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -716,11 +716,15 @@ func (r *requestStream) StreamID() uint32 {
 }
 
 func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
+	if r.sub != nil {
+		r.sub.Request(n)
+	}
 }
 
 func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
+	if r.sub != nil {
+		r.sub.Request(n)
+	}
 }
 
 func (r *requestStream) OnNext(p payload.Payload) {
-- 
2.43.0


From d9df1c931968af3b5ee93a926ffdd1df63b79dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 32/32] fix: a request-n for a stream without subscribed
 inbound values crashed the process

---
 go/proxy/flux.go   | 8 ++++++--
 go/rx/flux/flux.go | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 6f0f588..c39bd11 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -122,8 +122,12 @@ func (s *streamFlux) Cancel() {
 }
 
 func (s *streamFlux) DoRequest(n int) {
-	sub := s.in.Subscription()
-	sub.Request(n)
+	if s.in == nil {
+		return
+	}
+	if sub := s.in.Subscription(); sub != nil {
+		sub.Request(n)
+	}
 }
 
 func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index a34536c..bd25c88 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -96,6 +96,9 @@ func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 }
 
 func (f *flux[T]) Subscription() rx.Subscription {
+	if f.subscriber == nil {
+		return nil
+	}
 	return f.subscriber
 }
 
-- 
2.43.0

