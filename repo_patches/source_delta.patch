From 258e124c600830847fc368d627cec63f0e8265db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 01/54] fix: v2 decoder must reject truncated and unterminated
 varints instead of panicking

---
 v2/decode.go | 98 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 98 insertions(+)

diff --git a/v2/decode.go b/v2/decode.go
index 5548906..83db064 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -89,28 +89,42 @@ func decodeBytes(b []byte, ret []byte) ([]byte, []byte, error) {
 			offset = 3
 		} else {
 			x := cb & (continuation - 1)
+			if len(b) <= 3 {
+				return b, nil, ErrInvalidBytes
+			}
 			cb = uint32(b[3])
 			if cb < continuation {
 				size = int(x | (cb << 7))
 				offset = 4
 			} else {
 				x |= (cb & (continuation - 1)) << 7
+				if len(b) <= 4 {
+					return b, nil, ErrInvalidBytes
+				}
 				cb = uint32(b[4])
 				if cb < continuation {
 					size = int(x | (cb << 14))
 					offset = 5
 				} else {
 					x |= (cb & (continuation - 1)) << 14
+					if len(b) <= 5 {
+						return b, nil, ErrInvalidBytes
+					}
 					cb = uint32(b[5])
 					if cb < continuation {
 						size = int(x | (cb << 21))
 						offset = 6
 					} else {
 						x |= (cb & (continuation - 1)) << 21
+						if len(b) <= 6 {
+							return b, nil, ErrInvalidBytes
+						}
 						cb = uint32(b[6])
 						if cb < continuation {
 							size = int(x | (cb << 28))
 							offset = 7
+						} else {
+							return b, nil, ErrInvalidBytes
 						}
 					}
 				}
@@ -178,12 +192,18 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) <= 2 {
+			return b, 0, ErrInvalidUint16
+		}
 		cb = uint16(b[2])
 		if cb < continuation {
 			return b[3:], x | (cb << 7), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) <= 3 {
+			return b, 0, ErrInvalidUint16
+		}
 		cb = uint16(b[3])
 		if cb < continuation {
 			return b[4:], x | (cb << 14), nil
@@ -200,24 +220,36 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) <= 2 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[2])
 		if cb < continuation {
 			return b[3:], x | (cb << 7), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) <= 3 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[3])
 		if cb < continuation {
 			return b[4:], x | (cb << 14), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) <= 4 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[4])
 		if cb < continuation {
 			return b[5:], x | (cb << 21), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) <= 5 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[5])
 		if cb < continuation {
 			return b[6:], x | (cb << 28), nil
@@ -234,54 +266,81 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) <= 2 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[2])
 		if cb < continuation {
 			return b[3:], x | (cb << 7), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) <= 3 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[3])
 		if cb < continuation {
 			return b[4:], x | (cb << 14), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) <= 4 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[4])
 		if cb < continuation {
 			return b[5:], x | (cb << 21), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) <= 5 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[5])
 		if cb < continuation {
 			return b[6:], x | (cb << 28), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 28
+		if len(b) <= 6 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[6])
 		if cb < continuation {
 			return b[7:], x | (cb << 35), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 35
+		if len(b) <= 7 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[7])
 		if cb < continuation {
 			return b[8:], x | (cb << 42), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 42
+		if len(b) <= 8 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[8])
 		if cb < continuation {
 			return b[9:], x | (cb << 49), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 49
+		if len(b) <= 9 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[9])
 		if cb < continuation {
 			return b[10:], x | (cb << 56), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 56
+		if len(b) <= 10 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[10])
 		if cb < continuation {
 			return b[11:], x | (cb << 63), nil
@@ -302,6 +361,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) <= 2 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[2])
 		if cb < continuation {
 			x |= cb << 7
@@ -312,6 +374,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) <= 3 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[3])
 		if cb < continuation {
 			x |= cb << 14
@@ -322,6 +387,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) <= 4 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[4])
 		if cb < continuation {
 			x |= cb << 21
@@ -332,6 +400,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) <= 5 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[5])
 		if cb < continuation {
 			x |= cb << 28
@@ -356,6 +427,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) <= 2 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[2])
 		if cb < continuation {
 			x |= cb << 7
@@ -366,6 +440,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) <= 3 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[3])
 		if cb < continuation {
 			x |= cb << 14
@@ -376,6 +453,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) <= 4 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[4])
 		if cb < continuation {
 			x |= cb << 21
@@ -386,6 +466,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) <= 5 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[5])
 		if cb < continuation {
 			x |= cb << 28
@@ -396,6 +479,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 28
+		if len(b) <= 6 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[6])
 		if cb < continuation {
 			x |= cb << 35
@@ -406,6 +492,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 35
+		if len(b) <= 7 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[7])
 		if cb < continuation {
 			x |= cb << 42
@@ -416,6 +505,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 42
+		if len(b) <= 8 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[8])
 		if cb < continuation {
 			x |= cb << 49
@@ -426,6 +518,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 49
+		if len(b) <= 9 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[9])
 		if cb < continuation {
 			x |= cb << 56
@@ -436,6 +531,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 56
+		if len(b) <= 10 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[10])
 		if cb < continuation {
 			x |= cb << 63
-- 
2.43.0


From 8e15fbe0bd0ceb04a9b6e2373302dedd33787fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 02/54] fix: v1 decoder must reject truncated varints instead
 of panicking

---
 decode.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/decode.go b/decode.go
index b9d58cf..3d5f69b 100644
--- a/decode.go
+++ b/decode.go
@@ -172,7 +172,7 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 	if len(b) > 1 && b[0] == Uint16Kind[0] {
 		var x uint16
 		var s uint
-		for i := 1; i < VarIntLen16+1; i++ {
+		for i := 1; i < VarIntLen16+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -193,7 +193,7 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 	if len(b) > 1 && b[0] == Uint32Kind[0] {
 		var x uint32
 		var s uint
-		for i := 1; i < VarIntLen32+1; i++ {
+		for i := 1; i < VarIntLen32+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -215,7 +215,7 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 	if len(b) > 1 && b[0] == Uint64Kind[0] {
 		var x uint64
 		var s uint
-		for i := 1; i < VarIntLen64+1; i++ {
+		for i := 1; i < VarIntLen64+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -238,7 +238,7 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 	if len(b) > 1 && b[0] == Int32Kind[0] {
 		var ux uint32
 		var s uint
-		for i := 1; i < VarIntLen32+1; i++ {
+		for i := 1; i < VarIntLen32+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -266,7 +266,7 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 	if len(b) > 1 && b[0] == Int64Kind[0] {
 		var ux uint64
 		var s uint
-		for i := 1; i < VarIntLen64+1; i++ {
+		for i := 1; i < VarIntLen64+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-- 
2.43.0


From 7e6eeb9da17dd496947802ca2b9b48fdfb40e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 03/54] fix: v2 encoder dropped the last length byte of byte
 slices of 2^28 bytes and more

---
 v2/encode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v2/encode.go b/v2/encode.go
index 8422540..0a7b355 100644
--- a/v2/encode.go
+++ b/v2/encode.go
@@ -232,6 +232,7 @@ func encodeBytes(b *Buffer, value []byte) {
 					castValue >>= 7
 					if castValue < continuation {
 						b.b[offset] = byte(castValue)
+						offset++
 					} else {
 						b.b[offset] = byte(castValue&(continuation-1)) | continuation
 						offset++
-- 
2.43.0


From 650885fc1178cbc6235d4826e9f5129a84d36126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 04/54] fix: v2 encoding into a NewBufferFromBytes buffer whose
 slice is shorter than its capacity

---
 v2/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v2/buffer.go b/v2/buffer.go
index 1c85560..d20d46c 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -41,7 +41,7 @@ func NewBufferSize(size int) *Buffer {
 
 func NewBufferFromBytes(b []byte) *Buffer {
 	return &Buffer{
-		b:      b,
+		b:      b[:cap(b)],
 		offset: 0,
 	}
 }
-- 
2.43.0


From 7c76bac8f1cdac615ee4c461975f0ed0685f7c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 05/54] fix: v1 Bytes must not return the stale tail of a
 longer reused slice

---
 decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decode.go b/decode.go
index 3d5f69b..63d4492 100644
--- a/decode.go
+++ b/decode.go
@@ -103,7 +103,7 @@ func decodeBytes(b, ret []byte) ([]byte, []byte, error) {
 						ret = append(ret[:0], b[:size]...)
 					}
 				} else {
-					copy(ret[0:], b[:size])
+					ret = ret[:copy(ret, b[:size])]
 				}
 				return b[size:], ret, nil
 			}
-- 
2.43.0


From 815bd0b43e66b8a568c90ea95fd9aa0d15b7af24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 06/54] fix: Rust decode_array, decode_map and decode_error
 must not consume input on a type mismatch

---
 decoder.rs | 49 +++++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index 43624e9..b1522f5 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -88,32 +88,35 @@ where
     }
 
     fn decode_array(&mut self, val_kind: Kind) -> Result<usize, DecodingError> {
+        let position = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidArray)?;
-        let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidArray)?;
-        if kind == Kind::Array as u8 && val_kind as u8 == defined_val_kind {
-            return match self.decode_u32() {
-                Err(err) => Err(err),
-                Ok(val) => Ok(val as usize),
-            };
+        if kind == Kind::Array as u8 {
+            let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidArray)?;
+            if val_kind as u8 == defined_val_kind {
+                return match self.decode_u32() {
+                    Err(err) => Err(err),
+                    Ok(val) => Ok(val as usize),
+                };
+            }
         }
-        self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU32)
+        self.set_position(position);
+        Err(DecodingError::InvalidArray)
     }
 
     fn decode_map(&mut self, key_kind: Kind, val_kind: Kind) -> Result<usize, DecodingError> {
+        let position = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
-        let defined_key_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
-        let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
-        if kind == Kind::Map as u8
-            && key_kind as u8 == defined_key_kind
-            && val_kind as u8 == defined_val_kind
-        {
-            return match self.decode_u32() {
-                Err(err) => Err(err),
-                Ok(val) => Ok(val as usize),
-            };
+        if kind == Kind::Map as u8 {
+            let defined_key_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
+            let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
+            if key_kind as u8 == defined_key_kind && val_kind as u8 == defined_val_kind {
+                return match self.decode_u32() {
+                    Err(err) => Err(err),
+                    Ok(val) => Ok(val as usize),
+                };
+            }
         }
-        self.set_position(self.position() - 1);
+        self.set_position(position);
         Err(DecodingError::InvalidMap)
     }
 
@@ -151,9 +154,11 @@ where
     }
 
     fn decode_error(&mut self) -> Result<Box<dyn Error>, DecodingError> {
+        let position = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
-        let nested_kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
-        if kind == Kind::Error as u8 && nested_kind == Kind::String as u8 {
+        if kind == Kind::Error as u8
+            && self.read_u8().ok().ok_or(DecodingError::InvalidError)? == Kind::String as u8
+        {
             let size = self.decode_u32()? as usize;
             let mut str_buf = vec![0u8; size];
             self.read_exact(&mut str_buf)
@@ -165,7 +170,7 @@ where
                 .ok_or(DecodingError::InvalidError)?;
             return Ok(Box::<dyn Error>::from(result.to_owned()));
         }
-        self.set_position(self.position() - 2);
+        self.set_position(position);
         Err(DecodingError::InvalidError)
     }
 
-- 
2.43.0


From b079bad39cc93b405ad3210e50f6575da5ac8c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 07/54] fix: Rust decode_u16 and decode_u64 reported InvalidU32
 on a type mismatch

---
 decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index b1522f5..ab10c3e 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -209,7 +209,7 @@ where
             }
         }
         self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU32)
+        Err(DecodingError::InvalidU16)
     }
 
     fn decode_u32(&mut self) -> Result<u32, DecodingError> {
@@ -247,7 +247,7 @@ where
             }
         }
         self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU32)
+        Err(DecodingError::InvalidU64)
     }
 
     fn decode_i32(&mut self) -> Result<i32, DecodingError> {
-- 
2.43.0


From 39863ec5242748c3d9902e7793d156664d8cfc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 08/54] fix: Rust decoder must not allocate an untrusted length
 before checking the input holds it

---
 decoder.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/decoder.rs b/decoder.rs
index ab10c3e..86b850c 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -73,6 +73,15 @@ pub trait Decoder {
     fn decode_f64(&mut self) -> Result<f64, DecodingError>;
 }
 
+// Number of bytes left to read, which bounds the size of anything that can still be decoded.
+fn remaining<T>(cursor: &Cursor<T>) -> usize
+where
+    T: AsRef<[u8]>,
+{
+    let len = cursor.get_ref().as_ref().len() as u64;
+    len.saturating_sub(cursor.position()) as usize
+}
+
 impl<T> Decoder for Cursor<T>
 where
     T: AsRef<[u8]>,
@@ -124,6 +133,9 @@ where
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidBytes)?;
         if kind == Kind::Bytes as u8 {
             let size = self.decode_u32()? as usize;
+            if size > remaining(self) {
+                return Err(DecodingError::InvalidBytes);
+            }
             let mut buf = vec![0u8; size];
             self.read_exact(&mut buf)
                 .ok()
@@ -139,6 +151,9 @@ where
 
         if kind == Kind::String as u8 {
             let size = self.decode_u32()? as usize;
+            if size > remaining(self) {
+                return Err(DecodingError::InvalidString);
+            }
             let mut str_buf = vec![0u8; size];
             self.read_exact(&mut str_buf)
                 .ok()
@@ -160,6 +175,9 @@ where
             && self.read_u8().ok().ok_or(DecodingError::InvalidError)? == Kind::String as u8
         {
             let size = self.decode_u32()? as usize;
+            if size > remaining(self) {
+                return Err(DecodingError::InvalidError);
+            }
             let mut str_buf = vec![0u8; size];
             self.read_exact(&mut str_buf)
                 .ok()
-- 
2.43.0


From 13c691f26a561e9e9e52d523eee1d936f2e7664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 09/54] fix: C polyglot_decode_none dereferenced a null
 decoder; it and polyglot_encoder_size left the status unset

---
 c_bindings/decoder.rs | 6 +++++-
 c_bindings/encoder.rs | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/c_bindings/decoder.rs b/c_bindings/decoder.rs
index d518ba4..d645514 100644
--- a/c_bindings/decoder.rs
+++ b/c_bindings/decoder.rs
@@ -70,9 +70,13 @@ pub extern "C" fn polyglot_decode_none(status: *mut Status, decoder: *mut Decode
         unsafe {
             *status = Status::NullPointer;
         }
+        return false;
     }
 
-    unsafe { (*decoder).cursor.decode_none() }
+    unsafe {
+        *status = Status::Pass;
+        (*decoder).cursor.decode_none()
+    }
 }
 
 #[no_mangle]
diff --git a/c_bindings/encoder.rs b/c_bindings/encoder.rs
index 556da37..b7c073e 100644
--- a/c_bindings/encoder.rs
+++ b/c_bindings/encoder.rs
@@ -54,6 +54,7 @@ pub extern "C" fn polyglot_encoder_size(status: *mut Status, encoder: *mut Encod
     }
 
     unsafe {
+        *status = Status::Pass;
         (*encoder).cursor.get_ref().len() as u32
     }
 }
-- 
2.43.0


From 5f8e0eec548ce5f057e95a09e6afcc0407691983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 10/54] fix: C polyglot_free_decode_bytes freed the data with
 the layout of a single byte

---
 c_bindings/decoder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/c_bindings/decoder.rs b/c_bindings/decoder.rs
index d645514..2534358 100644
--- a/c_bindings/decoder.rs
+++ b/c_bindings/decoder.rs
@@ -173,9 +173,8 @@ pub extern "C" fn polyglot_decode_bytes(status: *mut Status, decoder: *mut Decod
 pub extern "C" fn polyglot_free_decode_bytes(buffer: *mut Buffer) {
     if !buffer.is_null() {
         unsafe {
-            let boxed_value =
-                std::slice::from_raw_parts_mut((*buffer).data, (*buffer).length as usize);
-            let value = boxed_value.as_mut_ptr();
+            let value =
+                std::ptr::slice_from_raw_parts_mut((*buffer).data, (*buffer).length as usize);
             drop(Box::from_raw(value));
             drop(Box::from_raw(buffer));
         }
-- 
2.43.0


From 174253d86ede7fc25cd40f5364b07914c38e157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 11/54] fix: C polyglot_encode_string and polyglot_encode_error
 must report a null string

---
 c_bindings/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c_bindings/encoder.rs b/c_bindings/encoder.rs
index b7c073e..ae88b38 100644
--- a/c_bindings/encoder.rs
+++ b/c_bindings/encoder.rs
@@ -194,7 +194,7 @@ pub extern "C" fn polyglot_encode_bytes(status: *mut Status, encoder: *mut Encod
 pub extern "C" fn polyglot_encode_string(status: *mut Status, encoder: *mut Encoder, string_pointer: *const c_char) {
     Status::check_not_null(status);
 
-    if encoder.is_null() {
+    if encoder.is_null() || string_pointer.is_null() {
         unsafe {
             *status = Status::NullPointer;
         }
@@ -224,7 +224,7 @@ pub extern "C" fn polyglot_encode_string(status: *mut Status, encoder: *mut Enco
 pub extern "C" fn polyglot_encode_error(status: *mut Status, encoder: *mut Encoder, string_pointer: *mut c_char) {
     Status::check_not_null(status);
 
-    if encoder.is_null() {
+    if encoder.is_null() || string_pointer.is_null() {
         unsafe {
             *status = Status::NullPointer;
         }
-- 
2.43.0


From 812b1aac3fa6a3db9f15de53e80b3fe7ef5cdb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 12/54] fix: TS Decoder.uint16 masked continuation groups with
 a shifted mask

---
 decoder.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.ts b/decoder.ts
index ccc108d..f62a36f 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -225,7 +225,7 @@ export class Decoder {
       if (b < CONTINUATION) {
         return (num | (b << shift)) >>> 0;
       }
-      num |= b & ((CONTINUATION - 1) << shift);
+      num |= (b & (CONTINUATION - 1)) << shift;
       shift += 7;
     }
     return num;
-- 
2.43.0


From 35196d20863919651121e7d2684c680f5f63e4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 13/54] fix: TS Encoder did not grow its buffer far enough and
 dropped bytes

---
 encoder.ts | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/encoder.ts b/encoder.ts
index fca1760..5b6fe24 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -38,10 +38,11 @@ export class Encoder {
   }
 
   private resize(minLen: number) {
-    if (this.#buf.length - this.#pos < minLen) {
+    const required = this.#pos + minLen;
+    if (this.#buf.length < required) {
       const oldBuf = this.#buf;
 
-      this.#buf = new Uint8Array(this.#buf.buffer.byteLength * 2);
+      this.#buf = new Uint8Array(Math.max(oldBuf.length * 2, required));
       this.#buf.set(oldBuf);
     }
   }
@@ -52,7 +53,7 @@ export class Encoder {
 
   private varint(value: number, kind: Kind, maxBytes: number, signed = false) {
     let val = value;
-    this.resize(maxBytes);
+    this.resize(maxBytes + 1);
     this.#buf[this.#pos] = kind;
     this.#pos += 1;
 
@@ -75,7 +76,7 @@ export class Encoder {
     signed = false,
   ) {
     let val = BigInt(value);
-    this.resize(maxBytes);
+    this.resize(maxBytes + 1);
     this.#buf[this.#pos] = kind;
     this.#pos += 1;
 
@@ -136,7 +137,7 @@ export class Encoder {
   }
 
   uint64(value: bigint) {
-    return this.varintBig(value, Kind.Uint64, 9);
+    return this.varintBig(value, Kind.Uint64, 10);
   }
 
   int32(value: number) {
@@ -144,7 +145,7 @@ export class Encoder {
   }
 
   int64(value: bigint) {
-    return this.varintBig(value, Kind.Int64, 9, true);
+    return this.varintBig(value, Kind.Int64, 10, true);
   }
 
   float32(value: number) {
-- 
2.43.0


From ba6b5b5ee31fdf7e3e036299b50d7aa2fc63ea92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 14/54] fix: TS Encoder.bytes ignored the offset of the
 caller's array in its buffer

---
 encoder.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoder.ts b/encoder.ts
index 5b6fe24..ae6e2a0 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -48,7 +48,7 @@ export class Encoder {
   }
 
   get bytes() {
-    return new Uint8Array(this.#buf.buffer, 0, this.#pos);
+    return new Uint8Array(this.#buf.buffer, this.#buf.byteOffset, this.#pos);
   }
 
   private varint(value: number, kind: Kind, maxBytes: number, signed = false) {
-- 
2.43.0


From af3f26bfeec934d7324a733a8299f5604916b3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 15/54] fix: TS Decoder must keep a leading byte order mark of
 a string

---
 decoder.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index f62a36f..48e533e 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -299,7 +299,7 @@ export class Decoder {
   string(): string {
     this.validateKind(Kind.String, InvalidStringError);
     const size = this.uint32();
-    const value = new TextDecoder().decode(
+    const value = new TextDecoder("utf-8", { ignoreBOM: true }).decode(
       this.buf.slice(this.#pos, this.#pos + size),
     );
     this.#pos += size;
@@ -315,7 +315,7 @@ export class Decoder {
 
     const size = this.uint32();
     const value = new Error(
-      new TextDecoder().decode(this.buf.slice(this.#pos, this.#pos + size)),
+      new TextDecoder("utf-8", { ignoreBOM: true }).decode(this.buf.slice(this.#pos, this.#pos + size)),
     );
     this.#pos += size;
     return value;
-- 
2.43.0


From 8e9ba7c4bc61cff95fe224047a1cb7686eeef10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 16/54] fix: TS Decoder must not consume input on an array, map
 or error type mismatch

---
 decoder.ts | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index 48e533e..52e5834 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -154,10 +154,16 @@ export class Decoder {
   }
 
   private validateKind(expected: Kind, Err: new () => Error) {
-    if ((this.peek() as Kind) !== expected) {
-      throw new Err();
-    }
-    this.#pos += 1;
+    this.validateKinds([expected], Err);
+  }
+
+  private validateKinds(expected: Kind[], Err: new () => Error) {
+    expected.forEach((kind, i) => {
+      if ((this.buf[this.#pos + i] as Kind) !== kind) {
+        throw new Err();
+      }
+    });
+    this.#pos += expected.length;
   }
 
   get length(): number {
@@ -276,15 +282,12 @@ export class Decoder {
   }
 
   array(valueKind: Kind): number {
-    this.validateKind(Kind.Array, InvalidArrayError);
-    this.validateKind(valueKind, InvalidArrayError);
+    this.validateKinds([Kind.Array, valueKind], InvalidArrayError);
     return this.uint32();
   }
 
   map(keyKind: Kind, valueKind: Kind): number {
-    this.validateKind(Kind.Map, InvalidMapError);
-    this.validateKind(keyKind, InvalidMapError);
-    this.validateKind(valueKind, InvalidMapError);
+    this.validateKinds([Kind.Map, keyKind, valueKind], InvalidMapError);
     return this.uint32();
   }
 
@@ -307,12 +310,7 @@ export class Decoder {
   }
 
   error(): Error {
-    this.validateKind(Kind.Error, InvalidErrorError);
-    const nestedType = this.pop() as Kind;
-    if (nestedType !== Kind.String) {
-      throw new InvalidErrorError();
-    }
-
+    this.validateKinds([Kind.Error, Kind.String], InvalidErrorError);
     const size = this.uint32();
     const value = new Error(
       new TextDecoder("utf-8", { ignoreBOM: true }).decode(this.buf.slice(this.#pos, this.#pos + size)),
-- 
2.43.0


From 1fae90c3c3c5f8f797001372970c3e38cf4a4e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 17/54] fix: TS Decoder must reject truncated input and
 unterminated varints

---
 decoder.ts | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index 52e5834..11e477d 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -166,14 +166,25 @@ export class Decoder {
     this.#pos += expected.length;
   }
 
+  private validateLength(size: number, Err: new () => Error) {
+    if (this.length < size) {
+      throw new Err();
+    }
+  }
+
   get length(): number {
     return this.buf.length - this.#pos;
   }
 
-  private varint(maxLen: number, signed = false): bigint {
+  private varint(
+    maxLen: number,
+    Err: new () => Error,
+    signed = false,
+  ): bigint {
     let num = 0n;
     let shift = 0n;
     for (let i = 1; i < maxLen + 1; i += 1) {
+      this.validateLength(1, Err);
       const b = this.pop();
       if (b < BigInt(CONTINUATION)) {
         num += BigInt(b) << shift;
@@ -186,7 +197,7 @@ export class Decoder {
       num += BigInt(b & (CONTINUATION - 1)) << shift;
       shift += 7n;
     }
-    return num;
+    throw new Err();
   }
 
   null(): boolean {
@@ -207,11 +218,13 @@ export class Decoder {
 
   boolean(): boolean {
     this.validateKind(Kind.Boolean, InvalidBooleanError);
+    this.validateLength(1, InvalidBooleanError);
     return this.pop() === BOOLEAN_TRUE;
   }
 
   uint8(): number {
     this.validateKind(Kind.Uint8, InvalidUint8Error);
+    this.validateLength(1, InvalidUint8Error);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -227,6 +240,7 @@ export class Decoder {
     let num = 0;
     let shift = 0;
     for (let i = 1; i < MAXLEN16 + 1; i += 1) {
+      this.validateLength(1, InvalidUint16Error);
       const b = this.pop();
       if (b < CONTINUATION) {
         return (num | (b << shift)) >>> 0;
@@ -234,31 +248,32 @@ export class Decoder {
       num |= (b & (CONTINUATION - 1)) << shift;
       shift += 7;
     }
-    return num;
+    throw new InvalidUint16Error();
   }
 
   uint32(): number {
     this.validateKind(Kind.Uint32, InvalidUint32Error);
-    return Number(this.varint(MAXLEN32));
+    return Number(this.varint(MAXLEN32, InvalidUint32Error));
   }
 
   uint64(): bigint {
     this.validateKind(Kind.Uint64, InvalidUint64Error);
-    return this.varint(MAXLEN64);
+    return this.varint(MAXLEN64, InvalidUint64Error);
   }
 
   int32(): number {
     this.validateKind(Kind.Int32, InvalidInt32Error);
-    return Number(this.varint(MAXLEN32, true));
+    return Number(this.varint(MAXLEN32, InvalidInt32Error, true));
   }
 
   int64(): bigint {
     this.validateKind(Kind.Int64, InvalidInt64Error);
-    return this.varint(MAXLEN64, true);
+    return this.varint(MAXLEN64, InvalidInt64Error, true);
   }
 
   float32(): number {
     this.validateKind(Kind.Float32, InvalidFloat32Error);
+    this.validateLength(4, InvalidFloat32Error);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -271,6 +286,7 @@ export class Decoder {
 
   float64(): number {
     this.validateKind(Kind.Float64, InvalidFloat64Error);
+    this.validateLength(8, InvalidFloat64Error);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -294,6 +310,7 @@ export class Decoder {
   uint8Array(): Uint8Array {
     this.validateKind(Kind.Uint8Array, InvalidUint8ArrayError);
     const size = this.uint32();
+    this.validateLength(size, InvalidUint8ArrayError);
     const value = this.buf.slice(this.#pos, this.#pos + size);
     this.#pos += size;
     return value;
@@ -302,6 +319,7 @@ export class Decoder {
   string(): string {
     this.validateKind(Kind.String, InvalidStringError);
     const size = this.uint32();
+    this.validateLength(size, InvalidStringError);
     const value = new TextDecoder("utf-8", { ignoreBOM: true }).decode(
       this.buf.slice(this.#pos, this.#pos + size),
     );
@@ -312,6 +330,7 @@ export class Decoder {
   error(): Error {
     this.validateKinds([Kind.Error, Kind.String], InvalidErrorError);
     const size = this.uint32();
+    this.validateLength(size, InvalidErrorError);
     const value = new Error(
       new TextDecoder("utf-8", { ignoreBOM: true }).decode(this.buf.slice(this.#pos, this.#pos + size)),
     );
-- 
2.43.0


From 903aacd3a65af073e5affca45eaf88eb3ca42c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 18/54] fix: generated Go code for repeated enums, repeated
 bytes and maps of bytes did not compile

---
 generator/golang/templates/decode.templ       | 6 ++++++
 generator/golang/templates/decodeMap.templ    | 2 ++
 generator/golang/templates/encode.templ       | 4 ++++
 v2/generator/golang/templates/decode.templ    | 6 ++++++
 v2/generator/golang/templates/decodeMap.templ | 2 ++
 v2/generator/golang/templates/encode.templ    | 4 ++++
 6 files changed, 24 insertions(+)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index e701386..b9fe0f3 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -56,6 +56,12 @@ var err error
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+    x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
+    {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+    var {{ CamelCaseName $field.Name }}Temp uint32
+    {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}({{ CamelCaseName $field.Name }}Temp)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/generator/golang/templates/decodeMap.templ b/generator/golang/templates/decodeMap.templ
index 93bff31..db58116 100644
--- a/generator/golang/templates/decodeMap.templ
+++ b/generator/golang/templates/decodeMap.templ
@@ -36,6 +36,8 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.Decoder, size uint32) err
             {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
                 {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
                 v = {{ FindValue .MapValue }}({{ CamelCaseName .MapValue.Name }}Temp)
+            {{else if eq .MapValue.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+                v, err = d{{$valDecoder}}(nil)
             {{else -}}
                 v, err = d{{$valDecoder}}()
             {{end -}}
diff --git a/generator/golang/templates/encode.templ b/generator/golang/templates/encode.templ
index eb7a696..1a24608 100644
--- a/generator/golang/templates/encode.templ
+++ b/generator/golang/templates/encode.templ
@@ -29,7 +29,11 @@ func (x *{{ CamelCase .FullName }}) Encode (b *polyglot.Buffer) {
         {{else -}}
         polyglot.Encoder(b).Slice(uint32(len(x.{{ CamelCaseName $field.Name }})), {{ GetKindLUT $field.Kind }})
         for _, v := range x.{{ CamelCaseName $field.Name }} {
+            {{ if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            polyglot.Encoder(b){{$encoder}}(uint32(v))
+            {{else -}}
             polyglot.Encoder(b){{$encoder}}(v)
+            {{end -}}
         }
         {{end -}}
     {{end -}}
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index d953142..7b8beeb 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -54,6 +54,12 @@ var err error
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+    x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
+    {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+    var {{ CamelCaseName $field.Name }}Temp uint32
+    {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}({{ CamelCaseName $field.Name }}Temp)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/v2/generator/golang/templates/decodeMap.templ b/v2/generator/golang/templates/decodeMap.templ
index 9092a07..485e6b9 100644
--- a/v2/generator/golang/templates/decodeMap.templ
+++ b/v2/generator/golang/templates/decodeMap.templ
@@ -36,6 +36,8 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.BufferDecoder, size uint3
             {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
                 {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
                 v = {{ FindValue .MapValue }}({{ CamelCaseName .MapValue.Name }}Temp)
+            {{else if eq .MapValue.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+                v, err = d{{$valDecoder}}(nil)
             {{else -}}
                 v, err = d{{$valDecoder}}()
             {{end -}}
diff --git a/v2/generator/golang/templates/encode.templ b/v2/generator/golang/templates/encode.templ
index eb7a696..1a24608 100644
--- a/v2/generator/golang/templates/encode.templ
+++ b/v2/generator/golang/templates/encode.templ
@@ -29,7 +29,11 @@ func (x *{{ CamelCase .FullName }}) Encode (b *polyglot.Buffer) {
         {{else -}}
         polyglot.Encoder(b).Slice(uint32(len(x.{{ CamelCaseName $field.Name }})), {{ GetKindLUT $field.Kind }})
         for _, v := range x.{{ CamelCaseName $field.Name }} {
+            {{ if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            polyglot.Encoder(b){{$encoder}}(uint32(v))
+            {{else -}}
             polyglot.Encoder(b){{$encoder}}(v)
+            {{end -}}
         }
         {{end -}}
     {{end -}}
-- 
2.43.0


From 982a46a74013b6a88549d253259a80587c8e99e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 19/54] fix: Go and Rust generators left out enums declared
 inside nested messages

---
 generator/golang/templates/messages.templ    | 4 ----
 generator/golang/templates/structs.templ     | 3 +++
 generator/rust/templates/messages.templ      | 4 ----
 generator/rust/templates/structs.templ       | 3 +++
 v2/generator/golang/templates/messages.templ | 4 ----
 v2/generator/golang/templates/structs.templ  | 3 +++
 v2/generator/rust/templates/messages.templ   | 4 ----
 v2/generator/rust/templates/structs.templ    | 3 +++
 8 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/generator/golang/templates/messages.templ b/generator/golang/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/generator/golang/templates/messages.templ
+++ b/generator/golang/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/generator/golang/templates/structs.templ b/generator/golang/templates/structs.templ
index 6fc09e7..a1aab06 100644
--- a/generator/golang/templates/structs.templ
+++ b/generator/golang/templates/structs.templ
@@ -1,4 +1,7 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) }}
+        {{template "enum" ($.Enums.Get $i)}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/generator/rust/templates/messages.templ b/generator/rust/templates/messages.templ
index db077ec..195744a 100644
--- a/generator/rust/templates/messages.templ
+++ b/generator/rust/templates/messages.templ
@@ -8,10 +8,6 @@ pub trait Decode {
 }
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/generator/rust/templates/structs.templ b/generator/rust/templates/structs.templ
index 8890eca..0211e3a 100644
--- a/generator/rust/templates/structs.templ
+++ b/generator/rust/templates/structs.templ
@@ -1,4 +1,7 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) }}
+        {{template "enum" ($.Enums.Get $i)}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/v2/generator/golang/templates/messages.templ b/v2/generator/golang/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/v2/generator/golang/templates/messages.templ
+++ b/v2/generator/golang/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/golang/templates/structs.templ b/v2/generator/golang/templates/structs.templ
index 0f3c571..1363657 100644
--- a/v2/generator/golang/templates/structs.templ
+++ b/v2/generator/golang/templates/structs.templ
@@ -1,4 +1,7 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) }}
+        {{template "enum" ($.Enums.Get $i)}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/v2/generator/rust/templates/messages.templ b/v2/generator/rust/templates/messages.templ
index db077ec..195744a 100644
--- a/v2/generator/rust/templates/messages.templ
+++ b/v2/generator/rust/templates/messages.templ
@@ -8,10 +8,6 @@ pub trait Decode {
 }
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/rust/templates/structs.templ b/v2/generator/rust/templates/structs.templ
index 8890eca..0211e3a 100644
--- a/v2/generator/rust/templates/structs.templ
+++ b/v2/generator/rust/templates/structs.templ
@@ -1,4 +1,7 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) }}
+        {{template "enum" ($.Enums.Get $i)}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
-- 
2.43.0


From 34b0dce3b31483851c52d7c23da6a30fd3d82ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 20/54] fix: v2 generated Go decoders kept a stale message
 field when decoding nil into a reused struct

---
 v2/generator/golang/templates/decode.templ | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 7b8beeb..7846156 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -91,6 +91,8 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
         }
     {{end -}}
 {{end -}}
-- 
2.43.0


From 663e8fddd40f80b6511645f74f05e404ae70383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 21/54] fix: generated Go decoders must not allocate the
 element count claimed by the input

---
 generator/golang/templates/decode.templ    | 8 ++++++--
 v2/generator/golang/templates/decode.templ | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index b9fe0f3..2026020 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -47,9 +47,13 @@ var err error
     return err
     }
     if uint32(len(x.{{ CamelCaseName $field.Name }})) != sliceSize {
-    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, sliceSize)
+    // The encoded size is not trusted with an allocation, the slice grows with the decoded elements.
+    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, 0, min(sliceSize, 1024))
     }
     for i := uint32(0); i < sliceSize; i++ {
+    if i == uint32(len(x.{{ CamelCaseName $field.Name }})) {
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}, make({{ FindValue $field }}, 1)...)
+    }
     {{ $decoder := GetLUTDecoder $field.Kind -}}
     {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
     if x.{{ CamelCaseName $field.Name }}[i] == nil {
@@ -80,7 +84,7 @@ var err error
         if err != nil {
         return err
         }
-        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map({{ CamelCaseName $field.Name }}Size)
+        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map(min({{ CamelCaseName $field.Name }}Size, 1024))
         err = x.{{ CamelCaseName $field.Name }}.decode(d, {{ CamelCaseName $field.Name }}Size)
         if err != nil {
         return err
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 7846156..d91079f 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -45,9 +45,13 @@ var err error
     return err
     }
     if uint32(len(x.{{ CamelCaseName $field.Name }})) != sliceSize {
-    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, sliceSize)
+    // The encoded size is not trusted with an allocation, the slice grows with the decoded elements.
+    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, 0, min(sliceSize, 1024))
     }
     for i := uint32(0); i < sliceSize; i++ {
+    if i == uint32(len(x.{{ CamelCaseName $field.Name }})) {
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}, make({{ FindValue $field }}, 1)...)
+    }
     {{ $decoder := GetLUTDecoder $field.Kind -}}
     {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
     if x.{{ CamelCaseName $field.Name }}[i] == nil {
@@ -78,7 +82,7 @@ var err error
         if err != nil {
         return err
         }
-        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map({{ CamelCaseName $field.Name }}Size)
+        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map(min({{ CamelCaseName $field.Name }}Size, 1024))
         err = x.{{ CamelCaseName $field.Name }}.decode(d, {{ CamelCaseName $field.Name }}Size)
         if err != nil {
         return err
-- 
2.43.0


From 8452c254d198a875197b07fcf97206a6dcdbb3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 22/54] fix: generated Rust code for repeated scalars, bytes
 and enums and for most maps did not compile

---
 generator/rust/templates/decode.templ    |  2 ++
 generator/rust/templates/encode.templ    | 12 ++++++++----
 v2/generator/rust/templates/decode.templ |  2 ++
 v2/generator/rust/templates/encode.templ | 12 ++++++++----
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/generator/rust/templates/decode.templ b/generator/rust/templates/decode.templ
index 4232690..7bf435c 100644
--- a/generator/rust/templates/decode.templ
+++ b/generator/rust/templates/decode.templ
@@ -23,6 +23,8 @@ impl Decode for {{ CamelCase .FullName }} {
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
+                {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+                temp.push({{ CamelCase $field.Enum.FullName }}::try_from(b{{ $decoder }}()?).ok().ok_or(DecodingError::InvalidEnum)?);
                 {{ else -}}
                 temp.push(b{{ $decoder }}()?);
                 {{ end -}}
diff --git a/generator/rust/templates/encode.templ b/generator/rust/templates/encode.templ
index 8a92671..8f0901a 100644
--- a/generator/rust/templates/encode.templ
+++ b/generator/rust/templates/encode.templ
@@ -28,10 +28,12 @@ impl Encode for {{ CamelCase .FullName }} {
         {{else -}}
         b.encode_array(self.{{ SnakeCaseName $field.Name}}.len(), {{ GetKindLUT $field.Kind }})?;
         for item in &self.{{ SnakeCaseName $field.Name}} {
-            {{ if eq $field.Kind 9 -}} {{/* protoreflect.StringKind */ -}}
-            b{{$encoder}}(&item)?;
-            {{ else -}}
+            {{ if or (eq $field.Kind 9) (eq $field.Kind 12) -}} {{/* protoreflect.StringKind protoreflect.BytesKind */ -}}
             b{{$encoder}}(item)?;
+            {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            b{{$encoder}}(*item as u32)?;
+            {{ else -}}
+            b{{$encoder}}(*item)?;
             {{ end -}}
         }
         {{end -}}
@@ -55,7 +57,7 @@ impl Encode for {{ CamelCase .FullName }} {
                 {{ else if eq $field.MapKey.Kind 9 -}}  {{/* protoreflect.StringsKind */ -}}
                 b{{$keyEncoder}}(&k)?;
                 {{else -}}
-                    b{{$keyEncoder}}(k)?;
+                    b{{$keyEncoder}}(*k)?;
                 {{end -}}
             {{end -}}
             {{ $valEncoder := GetLUTEncoder $field.MapValue.Kind -}}
@@ -64,6 +66,8 @@ impl Encode for {{ CamelCase .FullName }} {
             {{else -}}
                 {{ if eq $field.MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
                 b.encode_u32(*v as u32)?;
+                {{ else if or (eq $field.MapValue.Kind 9) (eq $field.MapValue.Kind 12) -}} {{/* protoreflect.StringKind protoreflect.BytesKind */ -}}
+                    b{{$valEncoder}}(v)?;
                 {{else -}}
                     b{{$valEncoder}}(*v)?;
                 {{end -}}
diff --git a/v2/generator/rust/templates/decode.templ b/v2/generator/rust/templates/decode.templ
index 4232690..7bf435c 100644
--- a/v2/generator/rust/templates/decode.templ
+++ b/v2/generator/rust/templates/decode.templ
@@ -23,6 +23,8 @@ impl Decode for {{ CamelCase .FullName }} {
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
+                {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+                temp.push({{ CamelCase $field.Enum.FullName }}::try_from(b{{ $decoder }}()?).ok().ok_or(DecodingError::InvalidEnum)?);
                 {{ else -}}
                 temp.push(b{{ $decoder }}()?);
                 {{ end -}}
diff --git a/v2/generator/rust/templates/encode.templ b/v2/generator/rust/templates/encode.templ
index 8a92671..8f0901a 100644
--- a/v2/generator/rust/templates/encode.templ
+++ b/v2/generator/rust/templates/encode.templ
@@ -28,10 +28,12 @@ impl Encode for {{ CamelCase .FullName }} {
         {{else -}}
         b.encode_array(self.{{ SnakeCaseName $field.Name}}.len(), {{ GetKindLUT $field.Kind }})?;
         for item in &self.{{ SnakeCaseName $field.Name}} {
-            {{ if eq $field.Kind 9 -}} {{/* protoreflect.StringKind */ -}}
-            b{{$encoder}}(&item)?;
-            {{ else -}}
+            {{ if or (eq $field.Kind 9) (eq $field.Kind 12) -}} {{/* protoreflect.StringKind protoreflect.BytesKind */ -}}
             b{{$encoder}}(item)?;
+            {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            b{{$encoder}}(*item as u32)?;
+            {{ else -}}
+            b{{$encoder}}(*item)?;
             {{ end -}}
         }
         {{end -}}
@@ -55,7 +57,7 @@ impl Encode for {{ CamelCase .FullName }} {
                 {{ else if eq $field.MapKey.Kind 9 -}}  {{/* protoreflect.StringsKind */ -}}
                 b{{$keyEncoder}}(&k)?;
                 {{else -}}
-                    b{{$keyEncoder}}(k)?;
+                    b{{$keyEncoder}}(*k)?;
                 {{end -}}
             {{end -}}
             {{ $valEncoder := GetLUTEncoder $field.MapValue.Kind -}}
@@ -64,6 +66,8 @@ impl Encode for {{ CamelCase .FullName }} {
             {{else -}}
                 {{ if eq $field.MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
                 b.encode_u32(*v as u32)?;
+                {{ else if or (eq $field.MapValue.Kind 9) (eq $field.MapValue.Kind 12) -}} {{/* protoreflect.StringKind protoreflect.BytesKind */ -}}
+                    b{{$valEncoder}}(v)?;
                 {{else -}}
                     b{{$valEncoder}}(*v)?;
                 {{end -}}
-- 
2.43.0


From 80173b9bfd6c2639de8aaf226c131caca8e757ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 23/54] fix: Rust generator overflowed its stack on recursive
 messages and missed imports for nested enums and maps

---
 generator/rust/imports.go    | 31 +++++++++++--------------------
 v2/generator/rust/imports.go | 31 +++++++++++--------------------
 2 files changed, 22 insertions(+), 40 deletions(-)

diff --git a/generator/rust/imports.go b/generator/rust/imports.go
index c8e7e00..b7eb450 100644
--- a/generator/rust/imports.go
+++ b/generator/rust/imports.go
@@ -18,7 +18,6 @@ package rust
 
 import (
 	"google.golang.org/protobuf/compiler/protogen"
-	"google.golang.org/protobuf/reflect/protoreflect"
 )
 
 type Dependencies struct {
@@ -36,30 +35,22 @@ func DependencyAnalysis(file *protogen.File) *Dependencies {
 		dependencies.Enums = true
 	}
 	for _, message := range file.Messages {
-		for _, field := range message.Fields {
-			if field.Desc.Kind() == protoreflect.MessageKind {
-				if field.Desc.Message().IsMapEntry() {
-					dependencies.Maps = true
-				}
-				if field.Desc.Message().Fields().Len() > 0 {
-					dependencies = traverseFields(field.Message, dependencies)
-				}
-			}
-		}
+		analyseMessage(message, dependencies)
 	}
 	return dependencies
 }
 
-func traverseFields(message *protogen.Message, dependencies *Dependencies) *Dependencies {
+// analyseMessage records what the definitions of a message, and of the messages declared inside it, depend on.
+func analyseMessage(message *protogen.Message, dependencies *Dependencies) {
+	if len(message.Enums) > 0 {
+		dependencies.Enums = true
+	}
 	for _, field := range message.Fields {
-		if field.Desc.Kind() == protoreflect.MessageKind {
-			if field.Desc.Message().IsMapEntry() {
-				dependencies.Maps = true
-			}
-			if field.Desc.Message().Fields().Len() > 0 {
-				dependencies = traverseFields(field.Message, dependencies)
-			}
+		if field.Desc.IsMap() {
+			dependencies.Maps = true
 		}
 	}
-	return dependencies
+	for _, nested := range message.Messages {
+		analyseMessage(nested, dependencies)
+	}
 }
diff --git a/v2/generator/rust/imports.go b/v2/generator/rust/imports.go
index c8e7e00..b7eb450 100644
--- a/v2/generator/rust/imports.go
+++ b/v2/generator/rust/imports.go
@@ -18,7 +18,6 @@ package rust
 
 import (
 	"google.golang.org/protobuf/compiler/protogen"
-	"google.golang.org/protobuf/reflect/protoreflect"
 )
 
 type Dependencies struct {
@@ -36,30 +35,22 @@ func DependencyAnalysis(file *protogen.File) *Dependencies {
 		dependencies.Enums = true
 	}
 	for _, message := range file.Messages {
-		for _, field := range message.Fields {
-			if field.Desc.Kind() == protoreflect.MessageKind {
-				if field.Desc.Message().IsMapEntry() {
-					dependencies.Maps = true
-				}
-				if field.Desc.Message().Fields().Len() > 0 {
-					dependencies = traverseFields(field.Message, dependencies)
-				}
-			}
-		}
+		analyseMessage(message, dependencies)
 	}
 	return dependencies
 }
 
-func traverseFields(message *protogen.Message, dependencies *Dependencies) *Dependencies {
+// analyseMessage records what the definitions of a message, and of the messages declared inside it, depend on.
+func analyseMessage(message *protogen.Message, dependencies *Dependencies) {
+	if len(message.Enums) > 0 {
+		dependencies.Enums = true
+	}
 	for _, field := range message.Fields {
-		if field.Desc.Kind() == protoreflect.MessageKind {
-			if field.Desc.Message().IsMapEntry() {
-				dependencies.Maps = true
-			}
-			if field.Desc.Message().Fields().Len() > 0 {
-				dependencies = traverseFields(field.Message, dependencies)
-			}
+		if field.Desc.IsMap() {
+			dependencies.Maps = true
 		}
 	}
-	return dependencies
+	for _, nested := range message.Messages {
+		analyseMessage(nested, dependencies)
+	}
 }
-- 
2.43.0


From d6937f1f1c35da576f557d0783ad929f5f5ad85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 24/54] fix: generated Rust decoders must not allocate the
 element count claimed by the input

---
 generator/rust/templates/decode.templ    | 2 +-
 v2/generator/rust/templates/decode.templ | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/rust/templates/decode.templ b/generator/rust/templates/decode.templ
index 7bf435c..070d4fa 100644
--- a/generator/rust/templates/decode.templ
+++ b/generator/rust/templates/decode.templ
@@ -19,7 +19,7 @@ impl Decode for {{ CamelCase .FullName }} {
             {{ $decoder := GetLUTDecoder $field.Kind -}}
 
             let {{ SnakeCaseName $field.Name }}_size = b.decode_array({{ $kind }})?;
-            let mut temp = Vec::with_capacity({{ SnakeCaseName $field.Name }}_size);
+            let mut temp = Vec::with_capacity({{ SnakeCaseName $field.Name }}_size.min(1024));
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
diff --git a/v2/generator/rust/templates/decode.templ b/v2/generator/rust/templates/decode.templ
index 7bf435c..070d4fa 100644
--- a/v2/generator/rust/templates/decode.templ
+++ b/v2/generator/rust/templates/decode.templ
@@ -19,7 +19,7 @@ impl Decode for {{ CamelCase .FullName }} {
             {{ $decoder := GetLUTDecoder $field.Kind -}}
 
             let {{ SnakeCaseName $field.Name }}_size = b.decode_array({{ $kind }})?;
-            let mut temp = Vec::with_capacity({{ SnakeCaseName $field.Name }}_size);
+            let mut temp = Vec::with_capacity({{ SnakeCaseName $field.Name }}_size.min(1024));
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
-- 
2.43.0


From c50b602f83c84693f876f05e9c11e66bba799130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 25/54] fix: TypeScript generators left out enums declared
 inside nested messages

---
 generator/typescript/templates/messages.templ    | 4 ----
 generator/typescript/templates/structs.templ     | 3 +++
 v2/generator/typescript/templates/messages.templ | 4 ----
 v2/generator/typescript/templates/structs.templ  | 3 +++
 4 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/generator/typescript/templates/messages.templ b/generator/typescript/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/generator/typescript/templates/messages.templ
+++ b/generator/typescript/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/generator/typescript/templates/structs.templ b/generator/typescript/templates/structs.templ
index f954fda..5634a6a 100644
--- a/generator/typescript/templates/structs.templ
+++ b/generator/typescript/templates/structs.templ
@@ -1,4 +1,7 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) }}
+        {{template "enum" ($.Enums.Get $i)}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/v2/generator/typescript/templates/messages.templ b/v2/generator/typescript/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/v2/generator/typescript/templates/messages.templ
+++ b/v2/generator/typescript/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/typescript/templates/structs.templ b/v2/generator/typescript/templates/structs.templ
index f954fda..5634a6a 100644
--- a/v2/generator/typescript/templates/structs.templ
+++ b/v2/generator/typescript/templates/structs.templ
@@ -1,4 +1,7 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) }}
+        {{template "enum" ($.Enums.Get $i)}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
-- 
2.43.0


From 02e7fe994788411ba51869d6ee1ed345682c93c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 26/54] fix: TS Encoder reserved too few bytes for length
 prefixes of 2^21 and more

---
 encoder.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/encoder.ts b/encoder.ts
index ae6e2a0..0d71d67 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -194,7 +194,7 @@ export class Encoder {
   }
 
   uint8Array(value: Uint8Array) {
-    this.resize(5 + value.length);
+    this.resize(7 + value.length);
     this.#buf[this.#pos] = Kind.Uint8Array;
     this.#pos += 1;
     this.uint32(value.length);
@@ -206,7 +206,7 @@ export class Encoder {
   string(value: string) {
     const v = new TextEncoder().encode(value);
 
-    this.resize(5 + v.length);
+    this.resize(7 + v.length);
     this.#buf[this.#pos] = Kind.String;
     this.#pos += 1;
     this.uint32(v.length);
@@ -218,7 +218,7 @@ export class Encoder {
   error(value: Error) {
     const v = new TextEncoder().encode(value.message);
 
-    this.resize(6 + v.length);
+    this.resize(8 + v.length);
     this.#buf[this.#pos] = Kind.Error;
     this.#buf[this.#pos + 1] = Kind.String;
     this.#pos += 2;
-- 
2.43.0


From 990ebe92164020bba5cd37fa3cb1d0dc422fe877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 27/54] fix: trailing newline of the version file broke the
 generated Go header

---
 v2/version/version.go | 3 ++-
 version/version.go    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/v2/version/version.go b/v2/version/version.go
index f725f09..d67d143 100644
--- a/v2/version/version.go
+++ b/v2/version/version.go
@@ -18,11 +18,12 @@ package version
 
 import (
 	_ "embed"
+	"strings"
 )
 
 //go:embed current_version
 var currentVersion string
 
 func Version() string {
-	return currentVersion
+	return strings.TrimSpace(currentVersion)
 }
diff --git a/version/version.go b/version/version.go
index f725f09..d67d143 100644
--- a/version/version.go
+++ b/version/version.go
@@ -18,11 +18,12 @@ package version
 
 import (
 	_ "embed"
+	"strings"
 )
 
 //go:embed current_version
 var currentVersion string
 
 func Version() string {
-	return currentVersion
+	return strings.TrimSpace(currentVersion)
 }
-- 
2.43.0


From 92f34b19700cd7fb780c37306cc64558f77daf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 28/54] fix: generated Go code named repeated enums of a lower
 case package wrongly and did not compile

---
 generator/golang/structs.go    | 2 +-
 v2/generator/golang/structs.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index b5bf4e0..99472be 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -114,7 +114,7 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 			case protoreflect.Optional, protoreflect.Required:
 				return utils.CamelCase(string(field.Enum().FullName()))
 			case protoreflect.Repeated:
-				return utils.CamelCase(utils.AppendString(Slice, string(field.Enum().FullName())))
+				return utils.AppendString(Slice, utils.CamelCase(string(field.Enum().FullName())))
 			default:
 				panic(errUnknownCardinality)
 			}
diff --git a/v2/generator/golang/structs.go b/v2/generator/golang/structs.go
index e4473c2..29f998d 100644
--- a/v2/generator/golang/structs.go
+++ b/v2/generator/golang/structs.go
@@ -114,7 +114,7 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 			case protoreflect.Optional, protoreflect.Required:
 				return utils.CamelCase(string(field.Enum().FullName()))
 			case protoreflect.Repeated:
-				return utils.CamelCase(utils.AppendString(Slice, string(field.Enum().FullName())))
+				return utils.AppendString(Slice, utils.CamelCase(string(field.Enum().FullName())))
 			default:
 				panic(errUnknownCardinality)
 			}
-- 
2.43.0


From a5a9746a9f83c0e13f25d263d155d2170195bea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 29/54] fix: generated Go code for a message of maps only did
 not compile

---
 generator/golang/templates/decode.templ    | 3 ++-
 v2/generator/golang/templates/decode.templ | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index 2026020..5f1bc3d 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -80,7 +80,8 @@ var err error
         {{ $keyKind := GetKind $field.MapKey.Kind -}}
         {{ $valKind := GetKind $field.MapValue.Kind -}}
 
-        {{ CamelCaseName $field.Name }}Size, err := d.Map({{ $keyKind }}, {{ $valKind }})
+        var {{ CamelCaseName $field.Name }}Size uint32
+        {{ CamelCaseName $field.Name }}Size, err = d.Map({{ $keyKind }}, {{ $valKind }})
         if err != nil {
         return err
         }
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index d91079f..3634ab5 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -78,7 +78,8 @@ var err error
         {{ $keyKind := GetKind $field.MapKey.Kind -}}
         {{ $valKind := GetKind $field.MapValue.Kind -}}
 
-        {{ CamelCaseName $field.Name }}Size, err := d.Map({{ $keyKind }}, {{ $valKind }})
+        var {{ CamelCaseName $field.Name }}Size uint32
+        {{ CamelCaseName $field.Name }}Size, err = d.Map({{ $keyKind }}, {{ $valKind }})
         if err != nil {
         return err
         }
-- 
2.43.0


From 8066c3a64cd1e60c686835ec8ead2e19a75d6eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 30/54] fix: generated Go code for a file without messages did
 not compile

---
 generator/golang/templates/imports.templ    | 4 ++++
 v2/generator/golang/templates/imports.templ | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/generator/golang/templates/imports.templ b/generator/golang/templates/imports.templ
index 63e4e5b..6d5db44 100644
--- a/generator/golang/templates/imports.templ
+++ b/generator/golang/templates/imports.templ
@@ -4,4 +4,8 @@ import (
     "{{$im}}"
 {{end -}}
 )
+{{ if not .messages.Len -}}
+// Only the code of messages uses the polyglot package.
+var _ *polyglot.Buffer
+{{ end -}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/golang/templates/imports.templ b/v2/generator/golang/templates/imports.templ
index 63e4e5b..6d5db44 100644
--- a/v2/generator/golang/templates/imports.templ
+++ b/v2/generator/golang/templates/imports.templ
@@ -4,4 +4,8 @@ import (
     "{{$im}}"
 {{end -}}
 )
+{{ if not .messages.Len -}}
+// Only the code of messages uses the polyglot package.
+var _ *polyglot.Buffer
+{{ end -}}
 {{end}}
\ No newline at end of file
-- 
2.43.0


From 87b95f4ad45073ce627bda76918e272ef7be1145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 31/54] fix: generated Go decoders kept previous content when
 decoding nil into a reused value

---
 generator/golang/templates/decode.templ    | 3 +++
 v2/generator/golang/templates/decode.templ | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index 5f1bc3d..b3b179b 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -12,6 +12,7 @@ func (x *{{ CamelCase .FullName }}) Decode (b []byte) error {
 {{define "internalDecode"}}
 func (x *{{CamelCase .FullName}}) decode(d *polyglot.Decoder) error {
     if d.Nil() {
+        *x = *New{{ CamelCase .FullName }}()
         return nil
     }
 
@@ -90,6 +91,8 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
         }
     {{ else -}}
         if x.{{ CamelCaseName $field.Name }} == nil {
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 3634ab5..e3b8fa2 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -10,6 +10,7 @@ func (x *{{ CamelCase .FullName }}) Decode (b []byte) error {
 {{define "internalDecode"}}
 func (x *{{CamelCase .FullName}}) decode(d *polyglot.BufferDecoder) error {
     if d.Nil() {
+        *x = *New{{ CamelCase .FullName }}()
         return nil
     }
 
@@ -88,6 +89,8 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
         }
     {{ else -}}
         if !d.Nil() {
-- 
2.43.0


From 0d534389177a56024e7cf892ea557257952fa647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 32/54] fix: generated Go v1 constructors of messages that
 contain themselves never ended

---
 generator/golang/generator.go            |  1 +
 generator/golang/structs.go              | 24 ++++++++++++++++++++++++
 generator/golang/templates/structs.templ |  2 ++
 3 files changed, 27 insertions(+)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index 075cf3f..a762df8 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -52,6 +52,7 @@ func New() *Generator {
 		"GetEncodingFields":  GetEncodingFields,
 		"GetDecodingFields":  GetDecodingFields,
 		"GetKindLUT":         GetKindLUT,
+		"IsRecursive":        IsRecursive,
 		"CustomFields": func() string {
 			return g.CustomFields()
 		},
diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index 99472be..6b96227 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -142,6 +142,30 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 	}
 }
 
+// IsRecursive reports whether the message of a singular field contains the message that declares the field through
+// singular fields, so that a constructor that fills it in would never end.
+func IsRecursive(field protoreflect.FieldDescriptor) bool {
+	seen := make(map[protoreflect.FullName]struct{})
+	var contains func(message protoreflect.MessageDescriptor) bool
+	contains = func(message protoreflect.MessageDescriptor) bool {
+		if message.FullName() == field.Parent().FullName() {
+			return true
+		}
+		if _, ok := seen[message.FullName()]; ok {
+			return false
+		}
+		seen[message.FullName()] = struct{}{}
+		for i := 0; i < message.Fields().Len(); i++ {
+			f := message.Fields().Get(i)
+			if f.Kind() == protoreflect.MessageKind && f.Cardinality() != protoreflect.Repeated && contains(f.Message()) {
+				return true
+			}
+		}
+		return false
+	}
+	return contains(field.Message())
+}
+
 type EncodingFields struct {
 	MessageFields []protoreflect.FieldDescriptor
 	SliceFields   []protoreflect.FieldDescriptor
diff --git a/generator/golang/templates/structs.templ b/generator/golang/templates/structs.templ
index a1aab06..6955a5d 100644
--- a/generator/golang/templates/structs.templ
+++ b/generator/golang/templates/structs.templ
@@ -45,7 +45,9 @@ func New{{ CamelCase .FullName }}() *{{ CamelCase .FullName }} {
         {{ range $i, $v := (MakeIterable .Fields.Len) -}}
             {{ $field := $.Fields.Get $i -}}
             {{ if and (eq $field.Kind 11) (ne $field.Cardinality 3) -}} {{/* protoreflect.MessageKind protoreflect.Repeated */ -}}
+                {{ if not (IsRecursive $field) -}}
                 {{ CamelCaseName $field.Name }}: New{{ CamelCase $field.Message.FullName }}(),
+                {{end -}}
             {{end -}}
         {{end -}}
     }
-- 
2.43.0


From 3e000f5631c5fffd5e08391792f74f03aefa6293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:06 +0000
Subject: [PATCH 33/54] fix: generated Rust decoders skipped a malformed error
 and decoded what followed it

---
 generator/rust/templates/decode.templ    | 8 ++++++--
 v2/generator/rust/templates/decode.templ | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/generator/rust/templates/decode.templ b/generator/rust/templates/decode.templ
index 070d4fa..00c97d8 100644
--- a/generator/rust/templates/decode.templ
+++ b/generator/rust/templates/decode.templ
@@ -6,8 +6,12 @@ impl Decode for {{ CamelCase .FullName }} {
             return Ok(None);
         }
 
-        if let Ok(error) = b.decode_error() {
-            return Err(error);
+        let position = b.position();
+        match b.decode_error() {
+            Ok(error) => return Err(error),
+            // Nothing is read unless there is an error, which then is a malformed one.
+            Err(error) if b.position() != position => return Err(error.into()),
+            Err(_) => {}
         }
 
 
diff --git a/v2/generator/rust/templates/decode.templ b/v2/generator/rust/templates/decode.templ
index 070d4fa..00c97d8 100644
--- a/v2/generator/rust/templates/decode.templ
+++ b/v2/generator/rust/templates/decode.templ
@@ -6,8 +6,12 @@ impl Decode for {{ CamelCase .FullName }} {
             return Ok(None);
         }
 
-        if let Ok(error) = b.decode_error() {
-            return Err(error);
+        let position = b.position();
+        match b.decode_error() {
+            Ok(error) => return Err(error),
+            // Nothing is read unless there is an error, which then is a malformed one.
+            Err(error) if b.position() != position => return Err(error.into()),
+            Err(_) => {}
         }
 
 
-- 
2.43.0


From 953188a14993519f25b78fab60c87998556270e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:19 +0000
Subject: [PATCH 34/54] fix: TypeScript generators imported what earlier files
 of the request needed

---
 generator/typescript/generator.go    | 2 ++
 v2/generator/typescript/generator.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/generator/typescript/generator.go b/generator/typescript/generator.go
index 8b467f9..122e332 100644
--- a/generator/typescript/generator.go
+++ b/generator/typescript/generator.go
@@ -142,6 +142,8 @@ func (g *Generator) ExecuteTemplate(
 	packageName string,
 	header bool,
 ) error {
+	g.dependencies = make(map[string]struct{})
+
 	var bodyBuf bytes.Buffer
 	if err := g.templ.ExecuteTemplate(&bodyBuf, "body.templ", map[string]interface{}{
 		"enums":    protoFile.Desc.Enums(),
diff --git a/v2/generator/typescript/generator.go b/v2/generator/typescript/generator.go
index 29f538a..b0ef6c8 100644
--- a/v2/generator/typescript/generator.go
+++ b/v2/generator/typescript/generator.go
@@ -142,6 +142,8 @@ func (g *Generator) ExecuteTemplate(
 	packageName string,
 	header bool,
 ) error {
+	g.dependencies = make(map[string]struct{})
+
 	var bodyBuf bytes.Buffer
 	if err := g.templ.ExecuteTemplate(&bodyBuf, "body.templ", map[string]interface{}{
 		"enums":    protoFile.Desc.Enums(),
-- 
2.43.0


From e16b087319cb2771cf857a6992aef561fb6fcd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:57 +0000
Subject: [PATCH 35/54] fix: generated Go code for fields named encode, decode
 or error did not compile

---
 generator/golang/generator.go    |  2 +-
 generator/golang/structs.go      | 16 ++++++++++++++--
 v2/generator/golang/generator.go |  2 +-
 v2/generator/golang/structs.go   | 16 ++++++++++++++--
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index a762df8..a764ecf 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -40,7 +40,7 @@ func New() *Generator {
 	var g *Generator
 	templ := template.Must(template.New("main").Funcs(template.FuncMap{
 		"CamelCase":          utils.CamelCaseFullName,
-		"CamelCaseName":      utils.CamelCaseName,
+		"CamelCaseName":      FieldName,
 		"MakeIterable":       utils.MakeIterable,
 		"Counter":            utils.Counter,
 		"FirstLowerCase":     utils.FirstLowerCase,
diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index 6b96227..3150c03 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -166,6 +166,18 @@ func IsRecursive(field protoreflect.FieldDescriptor) bool {
 	return contains(field.Message())
 }
 
+// FieldName returns the name of the struct field generated for a field. It must
+// differ from the names of the methods generated for the message.
+func FieldName(name protoreflect.Name) string {
+	fieldName := utils.CamelCaseName(name)
+	switch fieldName {
+	case "Encode", "Decode", "Error":
+		return fieldName + "_"
+	default:
+		return fieldName
+	}
+}
+
 type EncodingFields struct {
 	MessageFields []protoreflect.FieldDescriptor
 	SliceFields   []protoreflect.FieldDescriptor
@@ -191,9 +203,9 @@ func GetEncodingFields(fields protoreflect.FieldDescriptors) EncodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, FieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, FieldName(field.Name())))
 				}
 			}
 		}
diff --git a/v2/generator/golang/generator.go b/v2/generator/golang/generator.go
index 2a33a27..0acbc2d 100644
--- a/v2/generator/golang/generator.go
+++ b/v2/generator/golang/generator.go
@@ -40,7 +40,7 @@ func New() *Generator {
 	var g *Generator
 	templ := template.Must(template.New("main").Funcs(template.FuncMap{
 		"CamelCase":          utils.CamelCaseFullName,
-		"CamelCaseName":      utils.CamelCaseName,
+		"CamelCaseName":      FieldName,
 		"MakeIterable":       utils.MakeIterable,
 		"Counter":            utils.Counter,
 		"FirstLowerCase":     utils.FirstLowerCase,
diff --git a/v2/generator/golang/structs.go b/v2/generator/golang/structs.go
index 29f998d..694cb5a 100644
--- a/v2/generator/golang/structs.go
+++ b/v2/generator/golang/structs.go
@@ -142,6 +142,18 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 	}
 }
 
+// FieldName returns the name of the struct field generated for a field. It must
+// differ from the names of the methods generated for the message.
+func FieldName(name protoreflect.Name) string {
+	fieldName := utils.CamelCaseName(name)
+	switch fieldName {
+	case "Encode", "Decode", "Error":
+		return fieldName + "_"
+	default:
+		return fieldName
+	}
+}
+
 type EncodingFields struct {
 	MessageFields []protoreflect.FieldDescriptor
 	SliceFields   []protoreflect.FieldDescriptor
@@ -167,9 +179,9 @@ func GetEncodingFields(fields protoreflect.FieldDescriptors) EncodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, FieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, FieldName(field.Name())))
 				}
 			}
 		}
-- 
2.43.0


From 7cd7f12fe6ffbdd0f588296e055ba8de6cb1ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 36/54] fix: generated Rust code for fields named like keywords
 did not compile

---
 generator/rust/generator.go    |  2 +-
 generator/rust/structs.go      | 34 ++++++++++++++++++++++++++++++----
 v2/generator/rust/generator.go |  2 +-
 v2/generator/rust/structs.go   | 34 ++++++++++++++++++++++++++++++----
 4 files changed, 62 insertions(+), 10 deletions(-)

diff --git a/generator/rust/generator.go b/generator/rust/generator.go
index 7ebb320..38d9809 100644
--- a/generator/rust/generator.go
+++ b/generator/rust/generator.go
@@ -68,7 +68,7 @@ func New() *Generator {
 		"GetDecodingFields":  getDecodingFields,
 		"GetKindLUT":         getKindLUT,
 		"SnakeCase":          utils.SnakeCase,
-		"SnakeCaseName":      utils.SnakeCaseName,
+		"SnakeCaseName":      fieldName,
 		"CustomFields": func() string {
 			return g.CustomFields()
 		},
diff --git a/generator/rust/structs.go b/generator/rust/structs.go
index 6fe5abd..4cfb2dd 100644
--- a/generator/rust/structs.go
+++ b/generator/rust/structs.go
@@ -23,6 +23,7 @@ import (
 
 	"errors"
 	"fmt"
+	"strings"
 )
 
 var (
@@ -143,6 +144,31 @@ func findValue(field protoreflect.FieldDescriptor) string {
 	}
 }
 
+// keywords are the strict and reserved keywords of Rust.
+var keywords = map[string]struct{}{}
+
+func init() {
+	for _, keyword := range strings.Fields(`abstract as async await become box break const continue do dyn else enum
+		extern false final fn for gen if impl in let loop macro match mod move mut override priv pub ref return static
+		struct trait true try type typeof unsafe unsized use virtual where while yield`) {
+		keywords[keyword] = struct{}{}
+	}
+}
+
+// fieldName returns the identifier of the struct field generated for a field.
+func fieldName(name protoreflect.Name) string {
+	identifier := utils.SnakeCaseName(name)
+	switch identifier {
+	case "self", "super", "crate":
+		// These cannot be raw identifiers.
+		return identifier + "_"
+	}
+	if _, ok := keywords[identifier]; ok {
+		return "r#" + identifier
+	}
+	return identifier
+}
+
 type encodingFields struct {
 	MessageFields []protoreflect.FieldDescriptor
 	SliceFields   []protoreflect.FieldDescriptor
@@ -168,13 +194,13 @@ func getEncodingFields(fields protoreflect.FieldDescriptors) encodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(self.%s  as u32)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(self.%s  as u32)", encoder, fieldName(field.Name())))
 				} else if field.Kind() == protoreflect.StringKind {
-					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, fieldName(field.Name())))
 				} else if field.Kind() == protoreflect.BytesKind {
-					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, fieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(self.%s)", encoder, fieldName(field.Name())))
 				}
 			}
 		}
diff --git a/v2/generator/rust/generator.go b/v2/generator/rust/generator.go
index 75c60ca..95f1a9d 100644
--- a/v2/generator/rust/generator.go
+++ b/v2/generator/rust/generator.go
@@ -68,7 +68,7 @@ func New() *Generator {
 		"GetDecodingFields":  getDecodingFields,
 		"GetKindLUT":         getKindLUT,
 		"SnakeCase":          utils.SnakeCase,
-		"SnakeCaseName":      utils.SnakeCaseName,
+		"SnakeCaseName":      fieldName,
 		"CustomFields": func() string {
 			return g.CustomFields()
 		},
diff --git a/v2/generator/rust/structs.go b/v2/generator/rust/structs.go
index c154992..73da6ea 100644
--- a/v2/generator/rust/structs.go
+++ b/v2/generator/rust/structs.go
@@ -23,6 +23,7 @@ import (
 
 	"errors"
 	"fmt"
+	"strings"
 )
 
 var (
@@ -143,6 +144,31 @@ func findValue(field protoreflect.FieldDescriptor) string {
 	}
 }
 
+// keywords are the strict and reserved keywords of Rust.
+var keywords = map[string]struct{}{}
+
+func init() {
+	for _, keyword := range strings.Fields(`abstract as async await become box break const continue do dyn else enum
+		extern false final fn for gen if impl in let loop macro match mod move mut override priv pub ref return static
+		struct trait true try type typeof unsafe unsized use virtual where while yield`) {
+		keywords[keyword] = struct{}{}
+	}
+}
+
+// fieldName returns the identifier of the struct field generated for a field.
+func fieldName(name protoreflect.Name) string {
+	identifier := utils.SnakeCaseName(name)
+	switch identifier {
+	case "self", "super", "crate":
+		// These cannot be raw identifiers.
+		return identifier + "_"
+	}
+	if _, ok := keywords[identifier]; ok {
+		return "r#" + identifier
+	}
+	return identifier
+}
+
 type encodingFields struct {
 	MessageFields []protoreflect.FieldDescriptor
 	SliceFields   []protoreflect.FieldDescriptor
@@ -168,13 +194,13 @@ func getEncodingFields(fields protoreflect.FieldDescriptors) encodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(self.%s  as u32)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(self.%s  as u32)", encoder, fieldName(field.Name())))
 				} else if field.Kind() == protoreflect.StringKind {
-					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, fieldName(field.Name())))
 				} else if field.Kind() == protoreflect.BytesKind {
-					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, fieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(self.%s)", encoder, fieldName(field.Name())))
 				}
 			}
 		}
-- 
2.43.0


From 222e6bb0296badf96f49a6d4bbc32a8f2718324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 37/54] fix: generated TypeScript encoders passed no buffer to
 the header of a list of scalars

---
 generator/typescript/templates/encode.templ    | 2 +-
 v2/generator/typescript/templates/encode.templ | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/typescript/templates/encode.templ b/generator/typescript/templates/encode.templ
index 6459655..4c59546 100644
--- a/generator/typescript/templates/encode.templ
+++ b/generator/typescript/templates/encode.templ
@@ -29,7 +29,7 @@
             encoded = field.encode(encoded)
         })
         {{else -}}
-        encoded = {{ TrackDependency "encodeArray" }}(this._{{ LowercaseCamelCaseName $field.Name}}.length, {{ GetKindLUT $field.Kind }})
+        encoded = {{ TrackDependency "encodeArray" }}(encoded, this._{{ LowercaseCamelCaseName $field.Name}}.length, {{ GetKindLUT $field.Kind }})
         this._{{ LowercaseCamelCaseName $field.Name}}.forEach((field) => {
             encoded = {{$encoder}}(encoded, field)
         })
diff --git a/v2/generator/typescript/templates/encode.templ b/v2/generator/typescript/templates/encode.templ
index 6459655..4c59546 100644
--- a/v2/generator/typescript/templates/encode.templ
+++ b/v2/generator/typescript/templates/encode.templ
@@ -29,7 +29,7 @@
             encoded = field.encode(encoded)
         })
         {{else -}}
-        encoded = {{ TrackDependency "encodeArray" }}(this._{{ LowercaseCamelCaseName $field.Name}}.length, {{ GetKindLUT $field.Kind }})
+        encoded = {{ TrackDependency "encodeArray" }}(encoded, this._{{ LowercaseCamelCaseName $field.Name}}.length, {{ GetKindLUT $field.Kind }})
         this._{{ LowercaseCamelCaseName $field.Name}}.forEach((field) => {
             encoded = {{$encoder}}(encoded, field)
         })
-- 
2.43.0


From d5740a7a484e300cbf3b40b86a1cc5b2ac1f0643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 38/54] fix: generated TypeScript decoders of enums returned
 the decoder's result object

---
 generator/typescript/templates/decode.templ       | 6 +++---
 generator/typescript/templates/decodeMap.templ    | 4 ++--
 v2/generator/typescript/templates/decode.templ    | 6 +++---
 v2/generator/typescript/templates/decodeMap.templ | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/generator/typescript/templates/decode.templ b/generator/typescript/templates/decode.templ
index 01cee76..a005312 100644
--- a/generator/typescript/templates/decode.templ
+++ b/generator/typescript/templates/decode.templ
@@ -14,8 +14,8 @@
             for (let i = 0; i < {{ LowercaseCamelCaseName $field.Name }}.size; i++) {
                 {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
                     let elementEnum = {{ TrackDependency "decodeUint32" }}(decoded)
-                    const element = { value: elementEnum as {{ $val }} }
-                    decoded = element.bufEnum
+                    const element = { value: elementEnum.value as {{ TrimSuffix $val "[]" }} }
+                    decoded = elementEnum.buf
                 {{ else if eq $field.Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
                     let element = {{ TrimSuffix $val "[]" }}.decode(decoded)
                     decoded = element.buf
@@ -42,7 +42,7 @@
             {{ $decoder := GetLUTDecoder $field.Kind -}}
             {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
                 let {{ LowercaseCamelCaseName $field.Name }}U32 = {{ TrackDependency "decodeUint32" }}(decoded)
-                const {{ LowercaseCamelCaseName $field.Name }}Temp = { value: {{ LowercaseCamelCaseName $field.Name }}U32 as {{ $val }} }
+                const {{ LowercaseCamelCaseName $field.Name }}Temp = { value: {{ LowercaseCamelCaseName $field.Name }}U32.value as {{ $val }} }
                 decoded = {{ LowercaseCamelCaseName $field.Name }}U32.buf
             {{ else -}}
                 let {{ LowercaseCamelCaseName $field.Name }}Temp = {{ $decoder }}(decoded)
diff --git a/generator/typescript/templates/decodeMap.templ b/generator/typescript/templates/decodeMap.templ
index a370586..c88afb3 100644
--- a/generator/typescript/templates/decodeMap.templ
+++ b/generator/typescript/templates/decodeMap.templ
@@ -10,7 +10,7 @@ const {{ LowercaseCamelCaseName .Name }}Temp: { value: Map<{{ $mapKeyValue }},{{
 for (let i = 0; i < {{ LowercaseCamelCaseName .Name }}.size; i++) {
     {{ if eq .MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
         let keyEnum = {{ TrackDependency "decodeUint32" }}(decoded)
-        const key = { value: keyEnum as {{ $mapKeyValue }} }
+        const key = { value: keyEnum.value as {{ $mapKeyValue }} }
         decoded = keyEnum.buf
     {{ else if eq .MapKey.Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
         let key = {{ TrimSuffix $mapKeyValue "[]" }}.decode(decoded)
@@ -22,7 +22,7 @@ for (let i = 0; i < {{ LowercaseCamelCaseName .Name }}.size; i++) {
 
     {{ if eq .MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
         let valueEnum = {{ TrackDependency "decodeUint32" }}(decoded)
-        const value = { value: valueEnum as {{ $mapValueValue }} }
+        const value = { value: valueEnum.value as {{ $mapValueValue }} }
         decoded = valueEnum.buf
     {{ else if eq .MapValue.Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
         let value = {{ TrimSuffix $mapValueValue "[]" }}.decode(decoded)
diff --git a/v2/generator/typescript/templates/decode.templ b/v2/generator/typescript/templates/decode.templ
index 01cee76..a005312 100644
--- a/v2/generator/typescript/templates/decode.templ
+++ b/v2/generator/typescript/templates/decode.templ
@@ -14,8 +14,8 @@
             for (let i = 0; i < {{ LowercaseCamelCaseName $field.Name }}.size; i++) {
                 {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
                     let elementEnum = {{ TrackDependency "decodeUint32" }}(decoded)
-                    const element = { value: elementEnum as {{ $val }} }
-                    decoded = element.bufEnum
+                    const element = { value: elementEnum.value as {{ TrimSuffix $val "[]" }} }
+                    decoded = elementEnum.buf
                 {{ else if eq $field.Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
                     let element = {{ TrimSuffix $val "[]" }}.decode(decoded)
                     decoded = element.buf
@@ -42,7 +42,7 @@
             {{ $decoder := GetLUTDecoder $field.Kind -}}
             {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
                 let {{ LowercaseCamelCaseName $field.Name }}U32 = {{ TrackDependency "decodeUint32" }}(decoded)
-                const {{ LowercaseCamelCaseName $field.Name }}Temp = { value: {{ LowercaseCamelCaseName $field.Name }}U32 as {{ $val }} }
+                const {{ LowercaseCamelCaseName $field.Name }}Temp = { value: {{ LowercaseCamelCaseName $field.Name }}U32.value as {{ $val }} }
                 decoded = {{ LowercaseCamelCaseName $field.Name }}U32.buf
             {{ else -}}
                 let {{ LowercaseCamelCaseName $field.Name }}Temp = {{ $decoder }}(decoded)
diff --git a/v2/generator/typescript/templates/decodeMap.templ b/v2/generator/typescript/templates/decodeMap.templ
index a370586..c88afb3 100644
--- a/v2/generator/typescript/templates/decodeMap.templ
+++ b/v2/generator/typescript/templates/decodeMap.templ
@@ -10,7 +10,7 @@ const {{ LowercaseCamelCaseName .Name }}Temp: { value: Map<{{ $mapKeyValue }},{{
 for (let i = 0; i < {{ LowercaseCamelCaseName .Name }}.size; i++) {
     {{ if eq .MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
         let keyEnum = {{ TrackDependency "decodeUint32" }}(decoded)
-        const key = { value: keyEnum as {{ $mapKeyValue }} }
+        const key = { value: keyEnum.value as {{ $mapKeyValue }} }
         decoded = keyEnum.buf
     {{ else if eq .MapKey.Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
         let key = {{ TrimSuffix $mapKeyValue "[]" }}.decode(decoded)
@@ -22,7 +22,7 @@ for (let i = 0; i < {{ LowercaseCamelCaseName .Name }}.size; i++) {
 
     {{ if eq .MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
         let valueEnum = {{ TrackDependency "decodeUint32" }}(decoded)
-        const value = { value: valueEnum as {{ $mapValueValue }} }
+        const value = { value: valueEnum.value as {{ $mapValueValue }} }
         decoded = valueEnum.buf
     {{ else if eq .MapValue.Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
         let value = {{ TrimSuffix $mapValueValue "[]" }}.decode(decoded)
-- 
2.43.0


From f86602feccfea4f0f36a4e50368b48d62646b4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 39/54] fix: generated TypeScript decoders of maps stored the
 entries nowhere

---
 generator/typescript/templates/decodeMap.templ    | 2 +-
 v2/generator/typescript/templates/decodeMap.templ | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/typescript/templates/decodeMap.templ b/generator/typescript/templates/decodeMap.templ
index c88afb3..bf6a1ca 100644
--- a/generator/typescript/templates/decodeMap.templ
+++ b/generator/typescript/templates/decodeMap.templ
@@ -32,6 +32,6 @@ for (let i = 0; i < {{ LowercaseCamelCaseName .Name }}.size; i++) {
         decoded = value.buf
     {{end}}
 
-    {{ LowercaseCamelCaseName .Name }}.value.set(key, value)
+    {{ LowercaseCamelCaseName .Name }}Temp.value.set(key.value, value.value)
 }
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/typescript/templates/decodeMap.templ b/v2/generator/typescript/templates/decodeMap.templ
index c88afb3..bf6a1ca 100644
--- a/v2/generator/typescript/templates/decodeMap.templ
+++ b/v2/generator/typescript/templates/decodeMap.templ
@@ -32,6 +32,6 @@ for (let i = 0; i < {{ LowercaseCamelCaseName .Name }}.size; i++) {
         decoded = value.buf
     {{end}}
 
-    {{ LowercaseCamelCaseName .Name }}.value.set(key, value)
+    {{ LowercaseCamelCaseName .Name }}Temp.value.set(key.value, value.value)
 }
 {{end}}
\ No newline at end of file
-- 
2.43.0


From 0996c1eca525cff564c6635785b6d8207bb6315f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:36 +0000
Subject: [PATCH 40/54] fix: generated TypeScript decoders read fields in
 another order than encoders wrote them

---
 generator/typescript/templates/decode.templ   | 35 ++++++++-----------
 .../typescript/templates/decode.templ         | 35 ++++++++-----------
 2 files changed, 30 insertions(+), 40 deletions(-)

diff --git a/generator/typescript/templates/decode.templ b/generator/typescript/templates/decode.templ
index a005312..65949c6 100644
--- a/generator/typescript/templates/decode.templ
+++ b/generator/typescript/templates/decode.templ
@@ -3,6 +3,19 @@
         let decoded = buf
         
         {{ $decoding := GetDecodingFields .Fields -}}
+        {{ range $field := $decoding.Other -}}
+            {{ $val := FindValue $field }}
+            {{ $decoder := GetLUTDecoder $field.Kind -}}
+            {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
+                let {{ LowercaseCamelCaseName $field.Name }}U32 = {{ TrackDependency "decodeUint32" }}(decoded)
+                const {{ LowercaseCamelCaseName $field.Name }}Temp = { value: {{ LowercaseCamelCaseName $field.Name }}U32.value as {{ $val }} }
+                decoded = {{ LowercaseCamelCaseName $field.Name }}U32.buf
+            {{ else -}}
+                let {{ LowercaseCamelCaseName $field.Name }}Temp = {{ $decoder }}(decoded)
+                decoded = {{ LowercaseCamelCaseName $field.Name }}Temp.buf
+            {{end -}}
+        {{end}}
+
         {{ range $field := $decoding.SliceFields -}}
             {{ $val := FindValue $field }}
             {{ $kind := GetKind $field.Kind -}}
@@ -37,29 +50,11 @@
             {{ end -}}
         {{ end -}}
 
-        {{ range $field := $decoding.Other -}}
-            {{ $val := FindValue $field }}
-            {{ $decoder := GetLUTDecoder $field.Kind -}}
-            {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                let {{ LowercaseCamelCaseName $field.Name }}U32 = {{ TrackDependency "decodeUint32" }}(decoded)
-                const {{ LowercaseCamelCaseName $field.Name }}Temp = { value: {{ LowercaseCamelCaseName $field.Name }}U32.value as {{ $val }} }
-                decoded = {{ LowercaseCamelCaseName $field.Name }}U32.buf
-            {{ else -}}
-                let {{ LowercaseCamelCaseName $field.Name }}Temp = {{ $decoder }}(decoded)
-                decoded = {{ LowercaseCamelCaseName $field.Name }}Temp.buf
-            {{end -}}
-        {{end}}
-
         return { buf: decoded, value: new {{ CamelCase .FullName }}(
-            {{ range $field := $decoding.Other -}}
+            {{ range $i, $v := (MakeIterable .Fields.Len) -}}
+                {{ $field := $.Fields.Get $i -}}
                 {{ LowercaseCamelCaseName $field.Name }}Temp.value,
             {{end -}}
-            {{ range $field := $decoding.SliceFields -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value,
-            {{ end -}}
-            {{ range $field := $decoding.MessageFields -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value,
-            {{ end -}}
         )}
     }
 {{end}}
diff --git a/v2/generator/typescript/templates/decode.templ b/v2/generator/typescript/templates/decode.templ
index a005312..65949c6 100644
--- a/v2/generator/typescript/templates/decode.templ
+++ b/v2/generator/typescript/templates/decode.templ
@@ -3,6 +3,19 @@
         let decoded = buf
         
         {{ $decoding := GetDecodingFields .Fields -}}
+        {{ range $field := $decoding.Other -}}
+            {{ $val := FindValue $field }}
+            {{ $decoder := GetLUTDecoder $field.Kind -}}
+            {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
+                let {{ LowercaseCamelCaseName $field.Name }}U32 = {{ TrackDependency "decodeUint32" }}(decoded)
+                const {{ LowercaseCamelCaseName $field.Name }}Temp = { value: {{ LowercaseCamelCaseName $field.Name }}U32.value as {{ $val }} }
+                decoded = {{ LowercaseCamelCaseName $field.Name }}U32.buf
+            {{ else -}}
+                let {{ LowercaseCamelCaseName $field.Name }}Temp = {{ $decoder }}(decoded)
+                decoded = {{ LowercaseCamelCaseName $field.Name }}Temp.buf
+            {{end -}}
+        {{end}}
+
         {{ range $field := $decoding.SliceFields -}}
             {{ $val := FindValue $field }}
             {{ $kind := GetKind $field.Kind -}}
@@ -37,29 +50,11 @@
             {{ end -}}
         {{ end -}}
 
-        {{ range $field := $decoding.Other -}}
-            {{ $val := FindValue $field }}
-            {{ $decoder := GetLUTDecoder $field.Kind -}}
-            {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                let {{ LowercaseCamelCaseName $field.Name }}U32 = {{ TrackDependency "decodeUint32" }}(decoded)
-                const {{ LowercaseCamelCaseName $field.Name }}Temp = { value: {{ LowercaseCamelCaseName $field.Name }}U32.value as {{ $val }} }
-                decoded = {{ LowercaseCamelCaseName $field.Name }}U32.buf
-            {{ else -}}
-                let {{ LowercaseCamelCaseName $field.Name }}Temp = {{ $decoder }}(decoded)
-                decoded = {{ LowercaseCamelCaseName $field.Name }}Temp.buf
-            {{end -}}
-        {{end}}
-
         return { buf: decoded, value: new {{ CamelCase .FullName }}(
-            {{ range $field := $decoding.Other -}}
+            {{ range $i, $v := (MakeIterable .Fields.Len) -}}
+                {{ $field := $.Fields.Get $i -}}
                 {{ LowercaseCamelCaseName $field.Name }}Temp.value,
             {{end -}}
-            {{ range $field := $decoding.SliceFields -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value,
-            {{ end -}}
-            {{ range $field := $decoding.MessageFields -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value,
-            {{ end -}}
         )}
     }
 {{end}}
-- 
2.43.0


From 12d29f822589a8f62c66768c932231507ca0f10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 41/54] fix: generated TypeScript encoders named kinds that the
 runtime does not have

---
 generator/typescript/structs.go    | 24 ++++++++++++------------
 v2/generator/typescript/structs.go | 24 ++++++++++++------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/generator/typescript/structs.go b/generator/typescript/structs.go
index db99571..d114013 100644
--- a/generator/typescript/structs.go
+++ b/generator/typescript/structs.go
@@ -88,22 +88,22 @@ var (
 	}
 
 	kindLUT = map[protoreflect.Kind]string{
-		protoreflect.BoolKind:     "Kind.Bool",
+		protoreflect.BoolKind:     "Kind.Boolean",
 		protoreflect.Int32Kind:    "Kind.Int32",
 		protoreflect.Sint32Kind:   "Kind.Int32",
-		protoreflect.Uint32Kind:   "Kind.U32",
-		protoreflect.Int64Kind:    "Kind.I64",
-		protoreflect.Sint64Kind:   "Kind.I64",
-		protoreflect.Uint64Kind:   "Kind.U64",
+		protoreflect.Uint32Kind:   "Kind.Uint32",
+		protoreflect.Int64Kind:    "Kind.Int64",
+		protoreflect.Sint64Kind:   "Kind.Int64",
+		protoreflect.Uint64Kind:   "Kind.Uint64",
 		protoreflect.Sfixed32Kind: "Kind.Int32",
-		protoreflect.Sfixed64Kind: "Kind.I64",
-		protoreflect.Fixed32Kind:  "Kind.U32",
-		protoreflect.Fixed64Kind:  "Kind.U64",
+		protoreflect.Sfixed64Kind: "Kind.Int64",
+		protoreflect.Fixed32Kind:  "Kind.Uint32",
+		protoreflect.Fixed64Kind:  "Kind.Uint64",
 		protoreflect.StringKind:   "Kind.String",
-		protoreflect.FloatKind:    "Kind.F32",
-		protoreflect.DoubleKind:   "Kind.F64",
-		protoreflect.BytesKind:    "Kind.Bytes",
-		protoreflect.EnumKind:     "Kind.U32",
+		protoreflect.FloatKind:    "Kind.Float32",
+		protoreflect.DoubleKind:   "Kind.Float64",
+		protoreflect.BytesKind:    "Kind.Uint8Array",
+		protoreflect.EnumKind:     "Kind.Uint32",
 	}
 )
 
diff --git a/v2/generator/typescript/structs.go b/v2/generator/typescript/structs.go
index 6b0eae5..9f71f18 100644
--- a/v2/generator/typescript/structs.go
+++ b/v2/generator/typescript/structs.go
@@ -88,22 +88,22 @@ var (
 	}
 
 	kindLUT = map[protoreflect.Kind]string{
-		protoreflect.BoolKind:     "Kind.Bool",
+		protoreflect.BoolKind:     "Kind.Boolean",
 		protoreflect.Int32Kind:    "Kind.Int32",
 		protoreflect.Sint32Kind:   "Kind.Int32",
-		protoreflect.Uint32Kind:   "Kind.U32",
-		protoreflect.Int64Kind:    "Kind.I64",
-		protoreflect.Sint64Kind:   "Kind.I64",
-		protoreflect.Uint64Kind:   "Kind.U64",
+		protoreflect.Uint32Kind:   "Kind.Uint32",
+		protoreflect.Int64Kind:    "Kind.Int64",
+		protoreflect.Sint64Kind:   "Kind.Int64",
+		protoreflect.Uint64Kind:   "Kind.Uint64",
 		protoreflect.Sfixed32Kind: "Kind.Int32",
-		protoreflect.Sfixed64Kind: "Kind.I64",
-		protoreflect.Fixed32Kind:  "Kind.U32",
-		protoreflect.Fixed64Kind:  "Kind.U64",
+		protoreflect.Sfixed64Kind: "Kind.Int64",
+		protoreflect.Fixed32Kind:  "Kind.Uint32",
+		protoreflect.Fixed64Kind:  "Kind.Uint64",
 		protoreflect.StringKind:   "Kind.String",
-		protoreflect.FloatKind:    "Kind.F32",
-		protoreflect.DoubleKind:   "Kind.F64",
-		protoreflect.BytesKind:    "Kind.Bytes",
-		protoreflect.EnumKind:     "Kind.U32",
+		protoreflect.FloatKind:    "Kind.Float32",
+		protoreflect.DoubleKind:   "Kind.Float64",
+		protoreflect.BytesKind:    "Kind.Uint8Array",
+		protoreflect.EnumKind:     "Kind.Uint32",
 	}
 )
 
-- 
2.43.0


From f7c52781c27406f2aae6ae1d7db5b1ba696c7420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 42/54] fix: generated TypeScript code declared 64-bit integers
 as number, which the runtime has as bigint

---
 generator/typescript/structs.go    | 10 +++++-----
 v2/generator/typescript/structs.go | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/generator/typescript/structs.go b/generator/typescript/structs.go
index d114013..234720d 100644
--- a/generator/typescript/structs.go
+++ b/generator/typescript/structs.go
@@ -36,13 +36,13 @@ var (
 		protoreflect.Int32Kind:    "number",
 		protoreflect.Sint32Kind:   "number",
 		protoreflect.Uint32Kind:   "number",
-		protoreflect.Int64Kind:    "number",
-		protoreflect.Sint64Kind:   "number",
-		protoreflect.Uint64Kind:   "number",
+		protoreflect.Int64Kind:    "bigint",
+		protoreflect.Sint64Kind:   "bigint",
+		protoreflect.Uint64Kind:   "bigint",
 		protoreflect.Sfixed32Kind: "number",
-		protoreflect.Sfixed64Kind: "number",
+		protoreflect.Sfixed64Kind: "bigint",
 		protoreflect.Fixed32Kind:  "number",
-		protoreflect.Fixed64Kind:  "number",
+		protoreflect.Fixed64Kind:  "bigint",
 		protoreflect.FloatKind:    "number",
 		protoreflect.DoubleKind:   "number",
 		protoreflect.StringKind:   "string",
diff --git a/v2/generator/typescript/structs.go b/v2/generator/typescript/structs.go
index 9f71f18..9bf7453 100644
--- a/v2/generator/typescript/structs.go
+++ b/v2/generator/typescript/structs.go
@@ -36,13 +36,13 @@ var (
 		protoreflect.Int32Kind:    "number",
 		protoreflect.Sint32Kind:   "number",
 		protoreflect.Uint32Kind:   "number",
-		protoreflect.Int64Kind:    "number",
-		protoreflect.Sint64Kind:   "number",
-		protoreflect.Uint64Kind:   "number",
+		protoreflect.Int64Kind:    "bigint",
+		protoreflect.Sint64Kind:   "bigint",
+		protoreflect.Uint64Kind:   "bigint",
 		protoreflect.Sfixed32Kind: "number",
-		protoreflect.Sfixed64Kind: "number",
+		protoreflect.Sfixed64Kind: "bigint",
 		protoreflect.Fixed32Kind:  "number",
-		protoreflect.Fixed64Kind:  "number",
+		protoreflect.Fixed64Kind:  "bigint",
 		protoreflect.FloatKind:    "number",
 		protoreflect.DoubleKind:   "number",
 		protoreflect.StringKind:   "string",
-- 
2.43.0


From dfce323ece128eb76dbfc4ae7110a962be3846ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:10 +0000
Subject: [PATCH 43/54] fix: generated TypeScript code for fields named like
 words of the language did not compile

---
 generator/typescript/generator.go    |  2 +-
 generator/typescript/structs.go      | 30 ++++++++++++++++++++++++++--
 v2/generator/typescript/generator.go |  2 +-
 v2/generator/typescript/structs.go   | 30 ++++++++++++++++++++++++++--
 4 files changed, 58 insertions(+), 6 deletions(-)

diff --git a/generator/typescript/generator.go b/generator/typescript/generator.go
index 122e332..c344cb0 100644
--- a/generator/typescript/generator.go
+++ b/generator/typescript/generator.go
@@ -71,7 +71,7 @@ func New() *Generator {
 			return getKindLUT(g.trackDependency, kind)
 		},
 		"LowercaseCamelCase":     utils.LowercaseCamelCase,
-		"LowercaseCamelCaseName": utils.LowercaseCamelCaseName,
+		"LowercaseCamelCaseName": fieldName,
 		"CustomFields": func() string {
 			return g.CustomFields()
 		},
diff --git a/generator/typescript/structs.go b/generator/typescript/structs.go
index 234720d..e3e5fc3 100644
--- a/generator/typescript/structs.go
+++ b/generator/typescript/structs.go
@@ -23,6 +23,7 @@ import (
 
 	"errors"
 	"fmt"
+	"strings"
 )
 
 var (
@@ -143,6 +144,31 @@ func findValue(field protoreflect.FieldDescriptor) string {
 	}
 }
 
+// reserved holds the names that fields cannot have in generated code: words
+// of the language, and what generated classes and their methods declare.
+var reserved = map[string]struct{}{}
+
+func init() {
+	for _, word := range strings.Fields(`
+		arguments await break case catch class const continue debugger default
+		delete do else enum eval export extends false finally for function if
+		implements import in instanceof interface let new null package private
+		protected public return static super switch this throw true try typeof
+		var void while with yield
+		constructor encode buf encoded decoded i`) {
+		reserved[word] = struct{}{}
+	}
+}
+
+// fieldName returns the identifier generated for a field.
+func fieldName(name protoreflect.Name) string {
+	identifier := utils.LowercaseCamelCaseName(name)
+	if _, ok := reserved[identifier]; ok {
+		return identifier + "_"
+	}
+	return identifier
+}
+
 type encodingFields struct {
 	MessageFields []protoreflect.FieldDescriptor
 	SliceFields   []protoreflect.FieldDescriptor
@@ -168,9 +194,9 @@ func getEncodingFields(trackDependency func(dep string) string, fields protorefl
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(encoded, this.%s as number)", encoder, utils.LowercaseCamelCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(encoded, this.%s as number)", encoder, fieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(encoded, this.%s)", encoder, utils.LowercaseCamelCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(encoded, this.%s)", encoder, fieldName(field.Name())))
 				}
 			}
 		}
diff --git a/v2/generator/typescript/generator.go b/v2/generator/typescript/generator.go
index b0ef6c8..44da113 100644
--- a/v2/generator/typescript/generator.go
+++ b/v2/generator/typescript/generator.go
@@ -71,7 +71,7 @@ func New() *Generator {
 			return getKindLUT(g.trackDependency, kind)
 		},
 		"LowercaseCamelCase":     utils.LowercaseCamelCase,
-		"LowercaseCamelCaseName": utils.LowercaseCamelCaseName,
+		"LowercaseCamelCaseName": fieldName,
 		"CustomFields": func() string {
 			return g.CustomFields()
 		},
diff --git a/v2/generator/typescript/structs.go b/v2/generator/typescript/structs.go
index 9bf7453..fb96da3 100644
--- a/v2/generator/typescript/structs.go
+++ b/v2/generator/typescript/structs.go
@@ -23,6 +23,7 @@ import (
 
 	"errors"
 	"fmt"
+	"strings"
 )
 
 var (
@@ -143,6 +144,31 @@ func findValue(field protoreflect.FieldDescriptor) string {
 	}
 }
 
+// reserved holds the names that fields cannot have in generated code: words
+// of the language, and what generated classes and their methods declare.
+var reserved = map[string]struct{}{}
+
+func init() {
+	for _, word := range strings.Fields(`
+		arguments await break case catch class const continue debugger default
+		delete do else enum eval export extends false finally for function if
+		implements import in instanceof interface let new null package private
+		protected public return static super switch this throw true try typeof
+		var void while with yield
+		constructor encode buf encoded decoded i`) {
+		reserved[word] = struct{}{}
+	}
+}
+
+// fieldName returns the identifier generated for a field.
+func fieldName(name protoreflect.Name) string {
+	identifier := utils.LowercaseCamelCaseName(name)
+	if _, ok := reserved[identifier]; ok {
+		return identifier + "_"
+	}
+	return identifier
+}
+
 type encodingFields struct {
 	MessageFields []protoreflect.FieldDescriptor
 	SliceFields   []protoreflect.FieldDescriptor
@@ -168,9 +194,9 @@ func getEncodingFields(trackDependency func(dep string) string, fields protorefl
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(encoded, this.%s as number)", encoder, utils.LowercaseCamelCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(encoded, this.%s as number)", encoder, fieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(encoded, this.%s)", encoder, utils.LowercaseCamelCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(encoded, this.%s)", encoder, fieldName(field.Name())))
 				}
 			}
 		}
-- 
2.43.0


From 20c34cc14f23cab215baabe8c374cd459c6fdabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:32 +0000
Subject: [PATCH 44/54] fix: generated Go code of a package whose name is a Go
 keyword did not parse

A proto package whose last component is a keyword of Go (type, func, map, ...)
gave a package clause the plugin could not format, and the plugin crashed.
---
 generator/golang/generator.go    | 4 ++++
 v2/generator/golang/generator.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index a764ecf..fddc7b7 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -25,6 +25,7 @@ import (
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/pluginpb"
 
+	"go/token"
 	"text/template"
 )
 
@@ -101,6 +102,9 @@ func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.
 		if packageName == "" {
 			packageName = string(f.GoPackageName)
 		}
+		if token.IsKeyword(packageName) {
+			packageName = "_" + packageName
+		}
 
 		err = g.ExecuteTemplate(genFile, f, packageName, true)
 		if err != nil {
diff --git a/v2/generator/golang/generator.go b/v2/generator/golang/generator.go
index 0acbc2d..354d388 100644
--- a/v2/generator/golang/generator.go
+++ b/v2/generator/golang/generator.go
@@ -25,6 +25,7 @@ import (
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/pluginpb"
 
+	"go/token"
 	"text/template"
 )
 
@@ -100,6 +101,9 @@ func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.
 		if packageName == "" {
 			packageName = string(f.GoPackageName)
 		}
+		if token.IsKeyword(packageName) {
+			packageName = "_" + packageName
+		}
 
 		err = g.ExecuteTemplate(genFile, f, packageName, true)
 		if err != nil {
-- 
2.43.0


From aaca558563b4137e261f0ef2773b6ef89a7fccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 45/54] fix: Rust code generation failed for a message whose
 full name was too long for one line

---
 generator/rust/generator.go    | 9 ++++++++-
 v2/generator/rust/generator.go | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/generator/rust/generator.go b/generator/rust/generator.go
index 38d9809..697918d 100644
--- a/generator/rust/generator.go
+++ b/generator/rust/generator.go
@@ -28,9 +28,12 @@ import (
 	"bytes"
 	"flag"
 	"os/exec"
+	"regexp"
 	"text/template"
 )
 
+var trailingSpace = regexp.MustCompile(`[ \t]+\n`)
+
 type GeneratedFieldPrivacy string
 
 const (
@@ -153,8 +156,12 @@ func (g *Generator) ExecuteTemplate(
 		return err
 	}
 
+	// rustfmt leaves an item it can't fit into its line width as it is, and then
+	// fails if there is whitespace at the end of a line in it
+	source := trailingSpace.ReplaceAll(buf.Bytes(), []byte("\n"))
+
 	cmd := exec.Command("rustfmt")
-	cmd.Stdin = bytes.NewReader(buf.Bytes())
+	cmd.Stdin = bytes.NewReader(source)
 	output, err := cmd.CombinedOutput()
 	if err != nil {
 		println(string(output))
diff --git a/v2/generator/rust/generator.go b/v2/generator/rust/generator.go
index 95f1a9d..df36670 100644
--- a/v2/generator/rust/generator.go
+++ b/v2/generator/rust/generator.go
@@ -28,9 +28,12 @@ import (
 	"bytes"
 	"flag"
 	"os/exec"
+	"regexp"
 	"text/template"
 )
 
+var trailingSpace = regexp.MustCompile(`[ \t]+\n`)
+
 type GeneratedFieldPrivacy string
 
 const (
@@ -153,8 +156,12 @@ func (g *Generator) ExecuteTemplate(
 		return err
 	}
 
+	// rustfmt leaves an item it can't fit into its line width as it is, and then
+	// fails if there is whitespace at the end of a line in it
+	source := trailingSpace.ReplaceAll(buf.Bytes(), []byte("\n"))
+
 	cmd := exec.Command("rustfmt")
-	cmd.Stdin = bytes.NewReader(buf.Bytes())
+	cmd.Stdin = bytes.NewReader(source)
 	output, err := cmd.CombinedOutput()
 	if err != nil {
 		println(string(output))
-- 
2.43.0


From cdb95be54217026c974973b98af4b4117dbf73e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:20 +0000
Subject: [PATCH 46/54] fix: Go v1 decoders accepted varints too large for
 their type, the check compared with the wrong group

---
 decode.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/decode.go b/decode.go
index 63d4492..9246732 100644
--- a/decode.go
+++ b/decode.go
@@ -176,8 +176,9 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen16 && cb > 1 {
-					return b, 0, InvalidUint32
+				// The last group holds the top 2 bits
+				if i == VarIntLen16 && cb > 3 {
+					return b, 0, InvalidUint16
 				}
 				// End of varint, add the last bits and advance the buffer
 				return b[i+1:], x | uint16(cb)<<s, nil
@@ -197,7 +198,8 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen32 && cb > 1 {
+				// The last group holds the top 4 bits
+				if i == VarIntLen32 && cb > 15 {
 					return b, 0, InvalidUint32
 				}
 				// End of varint, add the last bits and advance the buffer
@@ -219,8 +221,8 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				// Check for overflow
-				if i > VarIntLen64 && cb > 1 {
+				// The last group holds the top bit
+				if i == VarIntLen64 && cb > 1 {
 					return b, 0, InvalidUint64
 				}
 				// End of varint, add the last bits and advance the buffer
@@ -242,7 +244,8 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen32 && cb > 1 {
+				// The last group holds the top 4 bits
+				if i == VarIntLen32 && cb > 15 {
 					return b, 0, InvalidInt32
 				}
 				// End of varint, add the last bits
@@ -270,7 +273,8 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen64 && cb > 1 {
+				// The last group holds the top bit
+				if i == VarIntLen64 && cb > 1 {
 					return b, 0, InvalidInt64
 				}
 				// End of varint, add the last bits
-- 
2.43.0


From ad8b970db199266b25c02cf2580e36321bdbf73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:20 +0000
Subject: [PATCH 47/54] fix: Go v2 decoders accepted varints too large for
 their type and took them modulo its size

---
 v2/decode.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/v2/decode.go b/v2/decode.go
index 83db064..67213b3 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -120,7 +120,8 @@ func decodeBytes(b []byte, ret []byte) ([]byte, []byte, error) {
 							return b, nil, ErrInvalidBytes
 						}
 						cb = uint32(b[6])
-						if cb < continuation {
+						// The last group holds the top 4 bits
+						if cb <= 15 {
 							size = int(x | (cb << 28))
 							offset = 7
 						} else {
@@ -205,7 +206,8 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 			return b, 0, ErrInvalidUint16
 		}
 		cb = uint16(b[3])
-		if cb < continuation {
+		// The last group holds the top 2 bits
+		if cb <= 3 {
 			return b[4:], x | (cb << 14), nil
 		}
 	}
@@ -251,7 +253,8 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 			return b, 0, ErrInvalidUint32
 		}
 		cb = uint32(b[5])
-		if cb < continuation {
+		// The last group holds the top 4 bits
+		if cb <= 15 {
 			return b[6:], x | (cb << 28), nil
 		}
 	}
@@ -342,7 +345,8 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 			return b, 0, ErrInvalidUint64
 		}
 		cb = uint64(b[10])
-		if cb < continuation {
+		// The last group holds the top bit
+		if cb <= 1 {
 			return b[11:], x | (cb << 63), nil
 		}
 	}
@@ -404,7 +408,8 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 			return b, 0, ErrInvalidInt32
 		}
 		cb = uint32(b[5])
-		if cb < continuation {
+		// The last group holds the top 4 bits
+		if cb <= 15 {
 			x |= cb << 28
 			if x&1 != 0 {
 				return b[6:], -(int32(x>>1) + 1), nil
@@ -535,7 +540,8 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 			return b, 0, ErrInvalidInt64
 		}
 		cb = uint64(b[10])
-		if cb < continuation {
+		// The last group holds the top bit
+		if cb <= 1 {
 			x |= cb << 63
 			if x&1 != 0 {
 				return b[11:], -(int64(x>>1) + 1), nil
-- 
2.43.0


From 949e4a72fcb2b1d9e24c3963c4ededf0c526a0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:20 +0000
Subject: [PATCH 48/54] fix: Rust decoders accepted varints too large for their
 type and took them modulo its size

---
 decoder.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/decoder.rs b/decoder.rs
index 86b850c..8b569ac 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -220,6 +220,9 @@ where
             for _ in 0..VARINT_LEN16 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU16)?;
                 if byte < CONTINUATION {
+                    if ((byte as u16) << s) >> s != byte as u16 {
+                        break;
+                    }
                     return Ok(x | ((byte as u16) << s));
                 }
                 x |= (byte as u16 & ((CONTINUATION as u16) - 1)) << s;
@@ -239,6 +242,9 @@ where
             for _ in 0..VARINT_LEN32 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU32)?;
                 if byte < CONTINUATION {
+                    if ((byte as u32) << s) >> s != byte as u32 {
+                        break;
+                    }
                     return Ok(x | ((byte as u32) << s));
                 }
                 x |= (byte as u32 & ((CONTINUATION as u32) - 1)) << s;
@@ -258,6 +264,9 @@ where
             for _ in 0..VARINT_LEN64 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU64)?;
                 if byte < CONTINUATION {
+                    if ((byte as u64) << s) >> s != byte as u64 {
+                        break;
+                    }
                     return Ok(x | ((byte as u64) << s));
                 }
                 x |= (byte as u64 & ((CONTINUATION as u64) - 1)) << s;
@@ -277,6 +286,9 @@ where
             for _ in 0..VARINT_LEN32 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidI32)?;
                 if byte < CONTINUATION {
+                    if ((byte as u32) << s) >> s != byte as u32 {
+                        break;
+                    }
                     ux |= (byte as u32) << s;
                     let mut x = (ux >> 1) as i32;
                     if ux & 1 != 0 {
@@ -301,6 +313,9 @@ where
             for _ in 0..VARINT_LEN64 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidI64)?;
                 if byte < CONTINUATION {
+                    if ((byte as u64) << s) >> s != byte as u64 {
+                        break;
+                    }
                     ux |= (byte as u64) << s;
                     let mut x = (ux >> 1) as i64;
                     if ux & 1 != 0 {
-- 
2.43.0


From 47bb046c38b452aa65ce1bab507d94360e903e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:20 +0000
Subject: [PATCH 49/54] fix: TypeScript decoders accepted varints too large for
 their type and returned numbers outside it

---
 decoder.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/decoder.ts b/decoder.ts
index 11e477d..e448178 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -188,6 +188,9 @@ export class Decoder {
       const b = this.pop();
       if (b < BigInt(CONTINUATION)) {
         num += BigInt(b) << shift;
+        if (num >> (maxLen === MAXLEN64 ? 64n : 32n) !== 0n) {
+          break;
+        }
         if (signed) {
           // two's complement
           num = num % 2n === 0n ? num / 2n : -(num + 1n) / 2n;
@@ -243,7 +246,11 @@ export class Decoder {
       this.validateLength(1, InvalidUint16Error);
       const b = this.pop();
       if (b < CONTINUATION) {
-        return (num | (b << shift)) >>> 0;
+        num |= b << shift;
+        if (num > 0xffff) {
+          break;
+        }
+        return num;
       }
       num |= (b & (CONTINUATION - 1)) << shift;
       shift += 7;
-- 
2.43.0


From ac957d1d498839e4a183305f1e60b66333ea1a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:51 +0000
Subject: [PATCH 50/54] fix: Go v1 decoder took every boolean byte but 1 for
 false

---
 decode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decode.go b/decode.go
index 9246732..c6cdc76 100644
--- a/decode.go
+++ b/decode.go
@@ -147,9 +147,10 @@ func decodeError(b []byte) ([]byte, error, error) {
 func decodeBool(b []byte) ([]byte, bool, error) {
 	if len(b) > 1 {
 		if b[0] == BoolKind[0] {
-			if b[1] == trueBool {
+			switch b[1] {
+			case trueBool:
 				return b[2:], true, nil
-			} else {
+			case falseBool:
 				return b[2:], false, nil
 			}
 		}
-- 
2.43.0


From 070ef2fca370ae547155d6e61b97f4f2d664b8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:51 +0000
Subject: [PATCH 51/54] fix: Rust decoder took every boolean byte but 1 for
 false

---
 decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decoder.rs b/decoder.rs
index 8b569ac..adec94a 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -196,7 +196,9 @@ where
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidBool)?;
         if kind == Kind::Bool as u8 {
             let val = self.read_u8().ok().ok_or(DecodingError::InvalidBool)?;
-            return Ok(val == 1);
+            if val <= 1 {
+                return Ok(val == 1);
+            }
         }
         self.set_position(self.position() - 1);
         Err(DecodingError::InvalidBool)
-- 
2.43.0


From 64b9f4d97668bec3b9d74d824b3dab3d31df3d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:51 +0000
Subject: [PATCH 52/54] fix: TypeScript decoder took every boolean byte but 1
 for false

---
 decoder.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index e448178..c513cbb 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -14,7 +14,7 @@
  	limitations under the License.
  */
 
-import { BOOLEAN_TRUE } from "./encoder";
+import { BOOLEAN_FALSE, BOOLEAN_TRUE } from "./encoder";
 import { Kind } from "./kind";
 
 /* eslint-disable no-bitwise */
@@ -222,7 +222,11 @@ export class Decoder {
   boolean(): boolean {
     this.validateKind(Kind.Boolean, InvalidBooleanError);
     this.validateLength(1, InvalidBooleanError);
-    return this.pop() === BOOLEAN_TRUE;
+    const b = this.pop();
+    if (b !== BOOLEAN_TRUE && b !== BOOLEAN_FALSE) {
+      throw new InvalidBooleanError();
+    }
+    return b === BOOLEAN_TRUE;
   }
 
   uint8(): number {
-- 
2.43.0


From 488df6a1905d0c5f4e410dee2a03aa5220434d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:43 +0000
Subject: [PATCH 53/54] fix: TypeScript decoder replaced text that is not UTF-8
 instead of failing

---
 decoder.ts | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index c513cbb..fb4e39e 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -153,6 +153,19 @@ export class Decoder {
     return val;
   }
 
+  private text(size: number, Err: new () => Error): string {
+    let value: string;
+    try {
+      value = new TextDecoder("utf-8", { fatal: true, ignoreBOM: true }).decode(
+        this.buf.slice(this.#pos, this.#pos + size),
+      );
+    } catch {
+      throw new Err();
+    }
+    this.#pos += size;
+    return value;
+  }
+
   private validateKind(expected: Kind, Err: new () => Error) {
     this.validateKinds([expected], Err);
   }
@@ -331,21 +344,13 @@ export class Decoder {
     this.validateKind(Kind.String, InvalidStringError);
     const size = this.uint32();
     this.validateLength(size, InvalidStringError);
-    const value = new TextDecoder("utf-8", { ignoreBOM: true }).decode(
-      this.buf.slice(this.#pos, this.#pos + size),
-    );
-    this.#pos += size;
-    return value;
+    return this.text(size, InvalidStringError);
   }
 
   error(): Error {
     this.validateKinds([Kind.Error, Kind.String], InvalidErrorError);
     const size = this.uint32();
     this.validateLength(size, InvalidErrorError);
-    const value = new Error(
-      new TextDecoder("utf-8", { ignoreBOM: true }).decode(this.buf.slice(this.#pos, this.#pos + size)),
-    );
-    this.#pos += size;
-    return value;
+    return new Error(this.text(size, InvalidErrorError));
   }
 }
-- 
2.43.0


From 6874ad5100dacce1938e85d0de1e53de3e510b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:45 +0000
Subject: [PATCH 54/54] fix: TypeScript decoder gave byte arrays that shared
 memory with a Buffer input

---
 decoder.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder.ts b/decoder.ts
index fb4e39e..4dbbaf6 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -140,7 +140,8 @@ export class Decoder {
   #pos = 0;
 
   constructor(private readonly buf: Uint8Array) {
-    this.buf = buf;
+    // A plain view: the slices of a subclass like Node's Buffer share memory.
+    this.buf = new Uint8Array(buf.buffer, buf.byteOffset, buf.length);
   }
 
   private peek(): number {
-- 
2.43.0

