From c8eaba4301e3e86738efe99c8b9a208aa9fb4480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:27 +0000
Subject: [PATCH 001/106] fix: compact protocol refuses boolean fields whose
 value is false

---
 lib/go/src/thrift/tcompact_protocol.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 52a80af..2a29230 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -813,8 +813,7 @@ func (p *TCompactProtocol) getTType(t TCompactType) (TType, error) {
 	switch byte(t) & 0x0f {
 	case STOP:
 		return STOP, nil
-	case COMPACT_BOOLEAN_FALSE:
-	case COMPACT_BOOLEAN_TRUE:
+	case COMPACT_BOOLEAN_FALSE, COMPACT_BOOLEAN_TRUE:
 		return BOOL, nil
 	case COMPACT_BYTE:
 		return BYTE, nil
-- 
2.43.0


From 08f6ba5d138e362bb870f16a3ed428e2ed0c2fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:26 +0000
Subject: [PATCH 002/106] fix: compact protocol reads ONEWAY messages as type 0
 (the type has three bits)

---
 lib/go/src/thrift/tcompact_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 2a29230..03730a4 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -357,7 +357,7 @@ func (p *TCompactProtocol) ReadMessageBegin() (name string, typeId TMessageType,
 	}
 	versionAndType, err := p.ReadByte()
 	version := versionAndType & COMPACT_VERSION_MASK
-	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x03)
+	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x07)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 07b0c67b7e6ab64e3c0c56572659a78d7eb80ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:27 +0000
Subject: [PATCH 003/106] fix: compact ReadStructEnd leaves the field stack one
 deeper, so ids after two nested structs are wrong

---
 lib/go/src/thrift/tcompact_protocol.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 03730a4..0edc231 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -394,6 +394,7 @@ func (p *TCompactProtocol) ReadStructBegin() (name string, err TProtocolExceptio
 func (p *TCompactProtocol) ReadStructEnd() TProtocolException {
 	// consume the last field we read off the wire.
 	p.lastFieldId = p.lastField[len(p.lastField)-1]
+	p.lastField = p.lastField[:len(p.lastField)-1]
 	return nil
 }
 
-- 
2.43.0


From 522b0c5536e2f94ecb7829a3883bc652691845b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:29 +0000
Subject: [PATCH 004/106] fix: compact protocol panics on fields and elements
 of type BINARY

---
 lib/go/src/thrift/tcompact_protocol.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 0edc231..0f6ad08 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -58,7 +58,7 @@ var (
 
 func init() {
 	_TSTOP = NewTField("", STOP, 0)
-	_TTypeToCompactType = make([]TCompactType, int(UTF16)+1)
+	_TTypeToCompactType = make([]TCompactType, int(BINARY)+1)
 	_TTypeToCompactType[int(STOP)] = STOP
 	_TTypeToCompactType[int(BOOL)] = COMPACT_BOOLEAN_TRUE
 	_TTypeToCompactType[int(BYTE)] = COMPACT_BYTE
@@ -67,6 +67,7 @@ func init() {
 	_TTypeToCompactType[int(I64)] = COMPACT_I64
 	_TTypeToCompactType[int(DOUBLE)] = COMPACT_DOUBLE
 	_TTypeToCompactType[int(STRING)] = COMPACT_BINARY
+	_TTypeToCompactType[int(BINARY)] = COMPACT_BINARY
 	_TTypeToCompactType[int(LIST)] = COMPACT_LIST
 	_TTypeToCompactType[int(SET)] = COMPACT_SET
 	_TTypeToCompactType[int(MAP)] = COMPACT_MAP
-- 
2.43.0


From caff3ea07dc25daeeea01a2e695f4b469ccfa9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:44 +0000
Subject: [PATCH 005/106] fix: JSON protocol reads fields, keys and values of
 type i16 as STOP

---
 lib/go/src/thrift/tjson_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 34ab7ca..bdabdbc 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -509,7 +509,7 @@ func (p *TJSONProtocol) StringToTypeId(fieldType string) TType {
 		return TType(BYTE)
 	case "dbl":
 		return TType(DOUBLE)
-	case "16":
+	case "i16":
 		return TType(I16)
 	case "i32":
 		return TType(I32)
-- 
2.43.0


From 54072b728f40df84b5eb382c7e59e16792e5fec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:46 +0000
Subject: [PATCH 006/106] fix: JSON protocol writes an empty type name for
 BINARY, so that readers take it for STOP

---
 lib/go/src/thrift/tjson_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index bdabdbc..8f9abe7 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -477,7 +477,7 @@ func (p *TJSONProtocol) TypeIdToString(fieldType TType) string {
 		return "i32"
 	case I64:
 		return "i64"
-	case STRING:
+	case STRING, BINARY:
 		return "str"
 	case STRUCT:
 		return "rec"
-- 
2.43.0


From 776ecbe09c88f2e9356b5dc72ee23b07595fa166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:59 +0000
Subject: [PATCH 007/106] fix: Skip ignores its depth limit and recurses
 without bound

---
 lib/go/src/thrift/tprotocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tprotocol.go b/lib/go/src/thrift/tprotocol.go
index 2ea8b97..263f91e 100644
--- a/lib/go/src/thrift/tprotocol.go
+++ b/lib/go/src/thrift/tprotocol.go
@@ -118,6 +118,9 @@ func SkipDefaultDepth(prot TProtocol, typeId TType) (err TProtocolException) {
  *   recursive depth, to prevent Java stack overflow.
  */
 func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException) {
+	if maxDepth <= 0 {
+		return NewTProtocolException(SIZE_LIMIT, "Maximum skip depth exceeded")
+	}
 	switch fieldType {
 	case STOP:
 		return
-- 
2.43.0


From e6b77fc5b0f4a8693f7445147c4a15bf084dc22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:35 +0000
Subject: [PATCH 008/106] fix: Skip drops the errors of nested values and loops
 on a failed field header

---
 lib/go/src/thrift/tprotocol.go | 35 +++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/lib/go/src/thrift/tprotocol.go b/lib/go/src/thrift/tprotocol.go
index 263f91e..292e907 100644
--- a/lib/go/src/thrift/tprotocol.go
+++ b/lib/go/src/thrift/tprotocol.go
@@ -152,12 +152,21 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 				return
 			}
 			for {
-				_, typeId, _, _ := self.ReadFieldBegin()
+				_, typeId, _, err := self.ReadFieldBegin()
+				if err != nil {
+					return err
+				}
 				if typeId == STOP {
 					break
 				}
-				Skip(self, typeId, maxDepth-1)
-				self.ReadFieldEnd()
+				err = Skip(self, typeId, maxDepth-1)
+				if err != nil {
+					return err
+				}
+				err = self.ReadFieldEnd()
+				if err != nil {
+					return err
+				}
 			}
 			return self.ReadStructEnd()
 		}
@@ -169,8 +178,14 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, keyType, maxDepth-1)
-				self.Skip(valueType)
+				err = Skip(self, keyType, maxDepth-1)
+				if err != nil {
+					return err
+				}
+				err = Skip(self, valueType, maxDepth-1)
+				if err != nil {
+					return err
+				}
 			}
 			return self.ReadMapEnd()
 		}
@@ -182,7 +197,10 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, elemType, maxDepth-1)
+				err = Skip(self, elemType, maxDepth-1)
+				if err != nil {
+					return err
+				}
 			}
 			return self.ReadSetEnd()
 		}
@@ -194,7 +212,10 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, elemType, maxDepth-1)
+				err = Skip(self, elemType, maxDepth-1)
+				if err != nil {
+					return err
+				}
 			}
 			return self.ReadListEnd()
 		}
-- 
2.43.0


From c5a65b93f83b59c5b2fd050f33b2aae513f42aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:45 +0000
Subject: [PATCH 009/106] fix: Skip does not skip values of type BINARY

---
 lib/go/src/thrift/tprotocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tprotocol.go b/lib/go/src/thrift/tprotocol.go
index 292e907..dc783d0 100644
--- a/lib/go/src/thrift/tprotocol.go
+++ b/lib/go/src/thrift/tprotocol.go
@@ -145,6 +145,9 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 	case STRING:
 		_, err = self.ReadString()
 		return
+	case BINARY:
+		_, err = self.ReadBinary()
+		return
 	case STRUCT:
 		{
 			_, err = self.ReadStructBegin()
-- 
2.43.0


From c837d86230b831b93ded3ce20820bb1330698a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:47 +0000
Subject: [PATCH 010/106] fix: Skip reports success for values of types it
 cannot read

---
 lib/go/src/thrift/tprotocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tprotocol.go b/lib/go/src/thrift/tprotocol.go
index dc783d0..5d71e4b 100644
--- a/lib/go/src/thrift/tprotocol.go
+++ b/lib/go/src/thrift/tprotocol.go
@@ -223,5 +223,5 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			return self.ReadListEnd()
 		}
 	}
-	return nil
+	return NewTProtocolException(INVALID_DATA, "Unable to skip a value of type "+fieldType.String())
 }
-- 
2.43.0


From 89b7ec26a3d597c586dd5c3ced203f8e6da39e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:29 +0000
Subject: [PATCH 011/106] fix: binary ReadBinary panics on a negative length

---
 lib/go/src/thrift/tbinary_protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tbinary_protocol.go b/lib/go/src/thrift/tbinary_protocol.go
index 424fd84..4977339 100644
--- a/lib/go/src/thrift/tbinary_protocol.go
+++ b/lib/go/src/thrift/tbinary_protocol.go
@@ -432,6 +432,9 @@ func (p *TBinaryProtocol) ReadBinary() ([]byte, TProtocolException) {
 		return nil, e
 	}
 	isize := int(size)
+	if isize < 0 {
+		return nil, NewTProtocolException(NEGATIVE_SIZE, "Negative size in ReadBinary")
+	}
 	e = p.checkReadLength(isize)
 	if e != nil {
 		return nil, e
-- 
2.43.0


From 4a75ebeed3515bd47b65ce100f97defcbce9107a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:30 +0000
Subject: [PATCH 012/106] fix: binary ReadString takes a negative length for an
 empty string

---
 lib/go/src/thrift/tbinary_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tbinary_protocol.go b/lib/go/src/thrift/tbinary_protocol.go
index 4977339..19157d5 100644
--- a/lib/go/src/thrift/tbinary_protocol.go
+++ b/lib/go/src/thrift/tbinary_protocol.go
@@ -482,7 +482,7 @@ func (p *TBinaryProtocol) checkReadLength(length int) TProtocolException {
 
 func (p *TBinaryProtocol) readStringBody(size int) (value string, err TProtocolException) {
 	if size < 0 {
-		return "", nil
+		return "", NewTProtocolException(NEGATIVE_SIZE, "Negative size in ReadString")
 	}
 	err = p.checkReadLength(size)
 	if err != nil {
-- 
2.43.0


From f4778397812193ab1a786df5b20f8ff3f220bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:32 +0000
Subject: [PATCH 013/106] fix: binary protocol passes on negative container
 sizes

---
 lib/go/src/thrift/tbinary_protocol.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/go/src/thrift/tbinary_protocol.go b/lib/go/src/thrift/tbinary_protocol.go
index 19157d5..ed26f6d 100644
--- a/lib/go/src/thrift/tbinary_protocol.go
+++ b/lib/go/src/thrift/tbinary_protocol.go
@@ -328,6 +328,10 @@ func (p *TBinaryProtocol) ReadMapBegin() (kType, vType TType, size int, err TPro
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative size in ReadMapBegin")
+		return
+	}
 	return kType, vType, size, nil
 }
 
@@ -348,6 +352,10 @@ func (p *TBinaryProtocol) ReadListBegin() (elemType TType, size int, err TProtoc
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative size in ReadListBegin")
+		return
+	}
 	return elemType, size, nil
 }
 
@@ -368,6 +376,10 @@ func (p *TBinaryProtocol) ReadSetBegin() (elemType TType, size int, err TProtoco
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative size in ReadSetBegin")
+		return
+	}
 	return elemType, size, nil
 }
 
-- 
2.43.0


From e4c5db195db2f78bc3dfd1b3aa234924a58516af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:34 +0000
Subject: [PATCH 014/106] fix: compact ReadMessageBegin reports a failed read
 as a bad protocol id

---
 lib/go/src/thrift/tcompact_protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 0f6ad08..570da19 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -352,6 +352,9 @@ func (p *TCompactProtocol) WriteBinary(bin []byte) TProtocolException {
  */
 func (p *TCompactProtocol) ReadMessageBegin() (name string, typeId TMessageType, seqId int32, err TProtocolException) {
 	protocolId, err := p.ReadByte()
+	if err != nil {
+		return
+	}
 	if protocolId != COMPACT_PROTOCOL_ID {
 		s := fmt.Sprintf("Expected protocol id %02x but got %02x", COMPACT_PROTOCOL_ID, protocolId)
 		return "", typeId, seqId, NewTProtocolException(BAD_VERSION, s)
-- 
2.43.0


From aeeb6375199d260814b3684ec7412eb3fc6b2de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:36 +0000
Subject: [PATCH 015/106] fix: compact ReadBinary and ReadString ignore failed
 and short reads

---
 lib/go/src/thrift/tcompact_protocol.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 570da19..3f3acfa 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -607,8 +607,8 @@ func (p *TCompactProtocol) ReadBinary() (value []byte, err TProtocolException) {
 	}
 
 	buf := make([]byte, length)
-	p.trans.ReadAll(buf)
-	return buf, nil
+	_, e = p.trans.ReadAll(buf)
+	return buf, NewTProtocolExceptionFromOsError(e)
 }
 
 func (p *TCompactProtocol) Flush() (err TProtocolException) {
-- 
2.43.0


From 68d6abd3ccde3a965728407e80c1549f34d83fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:37 +0000
Subject: [PATCH 016/106] fix: compact ReadBinary and ReadString panic on a
 negative length

---
 lib/go/src/thrift/tcompact_protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 3f3acfa..7e06a9d 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -605,6 +605,9 @@ func (p *TCompactProtocol) ReadBinary() (value []byte, err TProtocolException) {
 	if length == 0 {
 		return []byte{}, nil
 	}
+	if length < 0 {
+		return []byte{}, NewTProtocolException(NEGATIVE_SIZE, "Negative size in ReadBinary")
+	}
 
 	buf := make([]byte, length)
 	_, e = p.trans.ReadAll(buf)
-- 
2.43.0


From 77e7d17bbc0757335fdaeb223ef50f018338e708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:39 +0000
Subject: [PATCH 017/106] fix: compact protocol passes on negative container
 sizes

---
 lib/go/src/thrift/tcompact_protocol.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 7e06a9d..77d17a9 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -460,6 +460,10 @@ func (p *TCompactProtocol) ReadMapBegin() (keyType TType, valueType TType, size
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative size in ReadMapBegin")
+		return
+	}
 	keyAndValueType := byte(STOP)
 	if size != 0 {
 		keyAndValueType, err = p.ReadByte()
@@ -494,6 +498,10 @@ func (p *TCompactProtocol) ReadListBegin() (elemType TType, size int, err TProto
 		}
 		size = int(size2)
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative size in ReadListBegin")
+		return
+	}
 	elemType, e := p.getTType(TCompactType(size_and_type))
 	if e != nil {
 		err = NewTProtocolExceptionFromOsError(e)
-- 
2.43.0


From 297190231600d7d42860ff70d4eeda2b7cec0f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 018/106] fix: compact ReadMapBegin reads unknown key and value
 types as STOP

---
 lib/go/src/thrift/tcompact_protocol.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 77d17a9..8f32e80 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -471,8 +471,15 @@ func (p *TCompactProtocol) ReadMapBegin() (keyType TType, valueType TType, size
 			return
 		}
 	}
-	keyType, _ = p.getTType(TCompactType(keyAndValueType >> 4))
-	valueType, _ = p.getTType(TCompactType(keyAndValueType & 0xf))
+	keyType, e = p.getTType(TCompactType(keyAndValueType >> 4))
+	if e != nil {
+		err = NewTProtocolExceptionFromOsError(e)
+		return
+	}
+	valueType, e = p.getTType(TCompactType(keyAndValueType & 0xf))
+	if e != nil {
+		err = NewTProtocolExceptionFromOsError(e)
+	}
 	return
 }
 
-- 
2.43.0


From 8ee6fc7bb676ce5e3eba397770342cfd49feaefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:43 +0000
Subject: [PATCH 019/106] fix: compact protocol reads varints of any length

---
 lib/go/src/thrift/tcompact_protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 8f32e80..5f2a94b 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -778,6 +778,9 @@ func (p *TCompactProtocol) readVarint64() (int64, error) {
 			break
 		}
 		shift += 7
+		if shift >= 70 {
+			return 0, NewTProtocolException(INVALID_DATA, "Varint longer than 10 bytes")
+		}
 	}
 	return result, nil
 }
-- 
2.43.0


From 0be4af54472dc11e2dab6a67b3d96fd0b08a58da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:41 +0000
Subject: [PATCH 020/106] fix: JSON readers take separators, nulls, stops and
 literals for missing when they are not buffered yet

---
 lib/go/src/thrift/tjson_protocol.go        | 12 ++--
 lib/go/src/thrift/tsimple_json_protocol.go | 73 +++++++++++-----------
 2 files changed, 45 insertions(+), 40 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 8f9abe7..34a1008 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -22,6 +22,7 @@ package thrift
 import (
 	"encoding/base64"
 	"fmt"
+	"io"
 )
 
 const (
@@ -241,11 +242,14 @@ func (p *TJSONProtocol) ReadStructEnd() TProtocolException {
 }
 
 func (p *TJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolException) {
-	if p.reader.Buffered() < 1 {
-		return "", STOP, -1, nil
+	b, e := p.peekSignificant()
+	if e == nil && len(b) < 1 {
+		e = io.EOF
+	}
+	if e != nil {
+		return "", STOP, -1, NewTProtocolExceptionFromOsError(e)
 	}
-	b, _ := p.reader.Peek(1)
-	if len(b) < 1 || b[0] == JSON_RBRACE[0] || b[0] == JSON_RBRACKET[0] {
+	if b[0] == JSON_RBRACE[0] || b[0] == JSON_RBRACKET[0] {
 		return "", STOP, -1, nil
 	}
 	fieldId, err := p.ReadI16()
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index ee7184b..463cc88 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -337,9 +337,6 @@ func (p *TSimpleJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolE
 	if err := p.ParsePreValue(); err != nil {
 		return "", STOP, 0, err
 	}
-	if p.reader.Buffered() < 1 {
-		return "", STOP, 0, nil
-	}
 	b, _ := p.reader.Peek(1)
 	if len(b) > 0 {
 		switch b[0] {
@@ -735,10 +732,10 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 		return NewTProtocolExceptionFromOsError(e)
 	}
 	cxt := _ParseContext(p.parseContextStack[len(p.parseContextStack)-1])
-	if p.reader.Buffered() < 1 {
-		return nil
+	b, e := p.peekSignificant()
+	if e != nil {
+		return NewTProtocolExceptionFromOsError(e)
 	}
-	b, _ := p.reader.Peek(1)
 	switch cxt {
 	case _CONTEXT_IN_LIST:
 		if len(b) > 0 {
@@ -747,7 +744,7 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 				return nil
 			case JSON_COMMA[0]:
 				p.reader.ReadByte()
-				if e := p.readNonSignificantWhitespace(); e != nil {
+				if _, e := p.peekSignificant(); e != nil {
 					return NewTProtocolExceptionFromOsError(e)
 				}
 				return nil
@@ -763,7 +760,7 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 				return nil
 			case JSON_COMMA[0]:
 				p.reader.ReadByte()
-				if e := p.readNonSignificantWhitespace(); e != nil {
+				if _, e := p.peekSignificant(); e != nil {
 					return NewTProtocolExceptionFromOsError(e)
 				}
 				return nil
@@ -777,7 +774,7 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 			switch b[0] {
 			case JSON_COLON[0]:
 				p.reader.ReadByte()
-				if e := p.readNonSignificantWhitespace(); e != nil {
+				if _, e := p.peekSignificant(); e != nil {
 					return NewTProtocolExceptionFromOsError(e)
 				}
 				return nil
@@ -830,6 +827,26 @@ func (p *TSimpleJSONProtocol) readNonSignificantWhitespace() error {
 	return nil
 }
 
+// peekSignificant waits for the next byte that is not whitespace; it returns
+// nothing at the end of the input.
+func (p *TSimpleJSONProtocol) peekSignificant() ([]byte, error) {
+	for {
+		b, e := p.reader.Peek(1)
+		if len(b) < 1 {
+			if e == io.EOF {
+				e = nil
+			}
+			return nil, e
+		}
+		switch b[0] {
+		case ' ', '\r', '\n', '\t':
+			p.reader.ReadByte()
+		default:
+			return b, nil
+		}
+	}
+}
+
 func (p *TSimpleJSONProtocol) ParseStringBody() (string, TProtocolException) {
 	line, err := p.reader.ReadString(JSON_QUOTE)
 	if err != nil {
@@ -1046,7 +1063,7 @@ func (p *TSimpleJSONProtocol) readSingleValue() (interface{}, TType, TProtocolEx
 		switch c {
 		case JSON_NULL[0]:
 			buf := make([]byte, len(JSON_NULL))
-			_, e := p.reader.Read(buf)
+			_, e := io.ReadFull(p.reader, buf)
 			if e != nil {
 				return nil, VOID, NewTProtocolExceptionFromOsError(e)
 			}
@@ -1071,7 +1088,7 @@ func (p *TSimpleJSONProtocol) readSingleValue() (interface{}, TType, TProtocolEx
 			return v, UTF8, nil
 		case JSON_TRUE[0]:
 			buf := make([]byte, len(JSON_TRUE))
-			_, e := p.reader.Read(buf)
+			_, e := io.ReadFull(p.reader, buf)
 			if e != nil {
 				return true, BOOL, NewTProtocolExceptionFromOsError(e)
 			}
@@ -1082,7 +1099,7 @@ func (p *TSimpleJSONProtocol) readSingleValue() (interface{}, TType, TProtocolEx
 			return true, BOOL, nil
 		case JSON_FALSE[0]:
 			buf := make([]byte, len(JSON_FALSE))
-			_, e := p.reader.Read(buf)
+			_, e := io.ReadFull(p.reader, buf)
 			if e != nil {
 				return false, BOOL, NewTProtocolExceptionFromOsError(e)
 			}
@@ -1110,27 +1127,14 @@ func (p *TSimpleJSONProtocol) readSingleValue() (interface{}, TType, TProtocolEx
 }
 
 func (p *TSimpleJSONProtocol) readIfNull() (bool, TProtocolException) {
-	cont := true
-	for p.reader.Buffered() > 0 && cont {
-		b, _ := p.reader.Peek(1)
-		if len(b) < 1 {
-			return false, nil
-		}
-		switch b[0] {
-		default:
-			return false, nil
-		case JSON_NULL[0]:
-			cont = false
-			break
-		case ' ', '\n', '\r', '\t':
-			p.reader.ReadByte()
-			break
-		}
+	b, e := p.peekSignificant()
+	if e != nil {
+		return false, NewTProtocolExceptionFromOsError(e)
 	}
-	if p.reader.Buffered() == 0 {
+	if len(b) < 1 || b[0] != JSON_NULL[0] {
 		return false, nil
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ = p.reader.Peek(len(JSON_NULL))
 	if string(b) == string(JSON_NULL) {
 		p.reader.Read(b[0:len(JSON_NULL)])
 		return true, nil
@@ -1139,9 +1143,6 @@ func (p *TSimpleJSONProtocol) readIfNull() (bool, TProtocolException) {
 }
 
 func (p *TSimpleJSONProtocol) readQuoteIfNext() {
-	if p.reader.Buffered() < 1 {
-		return
-	}
 	b, _ := p.reader.Peek(1)
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
@@ -1200,7 +1201,7 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 			if buf.Len() == 0 {
 				buffer := make([]byte, len(JSON_NAN))
 				buffer[0] = c
-				_, e := p.reader.Read(buffer[1:])
+				_, e := io.ReadFull(p.reader, buffer[1:])
 				if e != nil {
 					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
 				}
@@ -1219,7 +1220,7 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 			if buf.Len() == 0 || (buf.Len() == 1 && buf.Bytes()[0] == '+') {
 				buffer := make([]byte, len(JSON_INFINITY))
 				buffer[0] = c
-				_, e := p.reader.Read(buffer[1:])
+				_, e := io.ReadFull(p.reader, buffer[1:])
 				if e != nil {
 					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
 				}
@@ -1235,7 +1236,7 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 				buffer := make([]byte, len(JSON_NEGATIVE_INFINITY))
 				buffer[0] = JSON_NEGATIVE_INFINITY[0]
 				buffer[1] = c
-				_, e := p.reader.Read(buffer[2:])
+				_, e := io.ReadFull(p.reader, buffer[2:])
 				if e != nil {
 					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
 				}
-- 
2.43.0


From 928168026d14d50cb84c590484c1b7c2be777fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:11 +0000
Subject: [PATCH 021/106] fix: JSON readers wait for bytes after the value,
 which may never come

---
 lib/go/src/thrift/tjson_protocol.go        |  6 ++--
 lib/go/src/thrift/tsimple_json_protocol.go | 33 +++++++++++++++++-----
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 34a1008..897b295 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -318,7 +318,7 @@ func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return value, err
 	}
-	b, _ := p.reader.Peek(len(JSON_FALSE))
+	b, _ := p.peekValue()
 	if len(b) > 0 {
 		switch b[0] {
 		case JSON_TRUE[0]:
@@ -381,7 +381,7 @@ func (p *TJSONProtocol) ReadString() (string, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return v, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ := p.peekValue()
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseStringBody()
@@ -405,7 +405,7 @@ func (p *TJSONProtocol) ReadBinary() ([]byte, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return nil, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ := p.peekValue()
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseBase64EncodedBody()
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 463cc88..b2c159e 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -425,7 +425,7 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return value, err
 	}
-	b, _ := p.reader.Peek(len(JSON_FALSE))
+	b, _ := p.peekValue()
 	if len(b) > 0 {
 		switch b[0] {
 		case JSON_TRUE[0]:
@@ -488,7 +488,7 @@ func (p *TSimpleJSONProtocol) ReadString() (string, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return v, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ := p.peekValue()
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseStringBody()
@@ -512,7 +512,7 @@ func (p *TSimpleJSONProtocol) ReadBinary() ([]byte, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return nil, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ := p.peekValue()
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseBase64EncodedBody()
@@ -847,6 +847,25 @@ func (p *TSimpleJSONProtocol) peekSignificant() ([]byte, error) {
 	}
 }
 
+// peekValue waits for the first byte of a value, or for as many bytes as there
+// are in null, true or false if one of these begins; waiting for more could
+// be waiting for bytes that the peer never sends.
+func (p *TSimpleJSONProtocol) peekValue() ([]byte, error) {
+	b, e := p.reader.Peek(1)
+	if len(b) < 1 {
+		return b, e
+	}
+	switch b[0] {
+	case JSON_NULL[0]:
+		return p.reader.Peek(len(JSON_NULL))
+	case JSON_TRUE[0]:
+		return p.reader.Peek(len(JSON_TRUE))
+	case JSON_FALSE[0]:
+		return p.reader.Peek(len(JSON_FALSE))
+	}
+	return b, e
+}
+
 func (p *TSimpleJSONProtocol) ParseStringBody() (string, TProtocolException) {
 	line, err := p.reader.ReadString(JSON_QUOTE)
 	if err != nil {
@@ -921,7 +940,7 @@ func (p *TSimpleJSONProtocol) ParseI64() (int64, bool, TProtocolException) {
 	}
 	var value int64
 	var isnull bool
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ := p.peekValue()
 	if len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
 		p.reader.Read(b[0:len(JSON_NULL)])
 		isnull = true
@@ -944,7 +963,7 @@ func (p *TSimpleJSONProtocol) ParseF64() (float64, bool, TProtocolException) {
 	}
 	var value float64
 	var isnull bool
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ := p.peekValue()
 	if len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
 		p.reader.Read(b[0:len(JSON_NULL)])
 		isnull = true
@@ -965,7 +984,7 @@ func (p *TSimpleJSONProtocol) ParseObjectStart() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return false, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ := p.peekValue()
 	if len(b) > 0 && b[0] == JSON_LBRACE[0] {
 		p.reader.ReadByte()
 		p.parseContextStack = append(p.parseContextStack, int(_CONTEXT_IN_OBJECT_FIRST))
@@ -1004,7 +1023,7 @@ func (p *TSimpleJSONProtocol) ParseListBegin() (bool, TProtocolException) {
 	if e := p.ParsePreValue(); e != nil {
 		return false, e
 	}
-	b, e := p.reader.Peek(len(JSON_NULL))
+	b, e := p.peekValue()
 	if e == nil && len(b) >= 1 && b[0] == JSON_LBRACKET[0] {
 		p.parseContextStack = append(p.parseContextStack, int(_CONTEXT_IN_LIST_FIRST))
 		p.reader.ReadByte()
-- 
2.43.0


From dd4119b75063460d0597a1544244194e5fdefbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:14 +0000
Subject: [PATCH 022/106] fix: JSON ReadBool compares bytes beyond the end of
 the input

---
 lib/go/src/thrift/tjson_protocol.go        | 6 +++---
 lib/go/src/thrift/tsimple_json_protocol.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 897b295..3d37aa0 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -322,7 +322,7 @@ func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
 	if len(b) > 0 {
 		switch b[0] {
 		case JSON_TRUE[0]:
-			if string(b[0:len(JSON_TRUE)]) == string(JSON_TRUE) {
+			if string(b) == string(JSON_TRUE) {
 				p.reader.Read(b[0:len(JSON_TRUE)])
 				value = true
 			} else {
@@ -330,7 +330,7 @@ func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
 			}
 			break
 		case JSON_FALSE[0]:
-			if string(b[0:len(JSON_FALSE)]) == string(JSON_FALSE) {
+			if string(b) == string(JSON_FALSE) {
 				p.reader.Read(b[0:len(JSON_FALSE)])
 				value = false
 			} else {
@@ -338,7 +338,7 @@ func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
 			}
 			break
 		case JSON_NULL[0]:
-			if string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
+			if string(b) == string(JSON_NULL) {
 				p.reader.Read(b[0:len(JSON_NULL)])
 				value = false
 			} else {
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index b2c159e..3f1043d 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -429,7 +429,7 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 	if len(b) > 0 {
 		switch b[0] {
 		case JSON_TRUE[0]:
-			if string(b[0:len(JSON_TRUE)]) == string(JSON_TRUE) {
+			if string(b) == string(JSON_TRUE) {
 				p.reader.Read(b[0:len(JSON_TRUE)])
 				value = true
 			} else {
@@ -437,7 +437,7 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 			}
 			break
 		case JSON_FALSE[0]:
-			if string(b[0:len(JSON_FALSE)]) == string(JSON_FALSE) {
+			if string(b) == string(JSON_FALSE) {
 				p.reader.Read(b[0:len(JSON_FALSE)])
 				value = false
 			} else {
@@ -445,7 +445,7 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 			}
 			break
 		case JSON_NULL[0]:
-			if string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
+			if string(b) == string(JSON_NULL) {
 				p.reader.Read(b[0:len(JSON_NULL)])
 				value = false
 			} else {
-- 
2.43.0


From 714faa2f681a8be1266441a27172b81d163b2873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:16 +0000
Subject: [PATCH 023/106] fix: JSON ReadBool reads false from an empty or
 failing input

---
 lib/go/src/thrift/tjson_protocol.go        | 5 ++++-
 lib/go/src/thrift/tsimple_json_protocol.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 3d37aa0..d5b1f6c 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -318,7 +318,10 @@ func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return value, err
 	}
-	b, _ := p.peekValue()
+	b, e := p.peekValue()
+	if len(b) == 0 {
+		return value, NewTProtocolExceptionFromOsError(e)
+	}
 	if len(b) > 0 {
 		switch b[0] {
 		case JSON_TRUE[0]:
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 3f1043d..a49412c 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -425,7 +425,10 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return value, err
 	}
-	b, _ := p.peekValue()
+	b, e := p.peekValue()
+	if len(b) == 0 {
+		return value, NewTProtocolExceptionFromOsError(e)
+	}
 	if len(b) > 0 {
 		switch b[0] {
 		case JSON_TRUE[0]:
-- 
2.43.0


From c253224bb6216622c8c9d165f4109e89dcf9d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:18 +0000
Subject: [PATCH 024/106] fix: JSON readers take malformed strings for empty
 ones

---
 lib/go/src/thrift/tsimple_json_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index a49412c..1d8d011 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -885,7 +885,7 @@ func (p *TSimpleJSONProtocol) ParseStringBody() (string, TProtocolException) {
 	if i&0x01 == 1 {
 		v, ok := JsonUnquote(string(JSON_QUOTE) + line)
 		if !ok {
-			return "", NewTProtocolExceptionFromOsError(err)
+			return "", NewTProtocolException(INVALID_DATA, "Unable to parse as JSON string "+line)
 		}
 		return v, nil
 	}
-- 
2.43.0


From a671c58608dc9c7406cc3791b287797d52b54125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:02 +0000
Subject: [PATCH 025/106] fix: JSON readers accept numbers with unbalanced
 quotes, and digits after the closing one

---
 lib/go/src/thrift/tsimple_json_protocol.go | 25 ++++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 1d8d011..ff15455 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -1164,11 +1164,13 @@ func (p *TSimpleJSONProtocol) readIfNull() (bool, TProtocolException) {
 	return false, nil
 }
 
-func (p *TSimpleJSONProtocol) readQuoteIfNext() {
+func (p *TSimpleJSONProtocol) readQuoteIfNext() bool {
 	b, _ := p.reader.Peek(1)
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
+		return true
 	}
+	return false
 }
 
 func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
@@ -1231,8 +1233,8 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 					e := NewTProtocolException(INVALID_DATA, "Expected '"+JSON_NAN+"' but found '"+string(buffer)+"' while parsing JSON.")
 					return NUMERIC_NULL, e
 				}
-				if inQuotes {
-					p.readQuoteIfNext()
+				if inQuotes && !p.readQuoteIfNext() {
+					return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, "Unterminated quotes around number")
 				}
 				return NAN, nil
 			} else {
@@ -1250,8 +1252,8 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 					e := NewTProtocolException(INVALID_DATA, "Expected '"+JSON_INFINITY+"' but found '"+string(buffer)+"' while parsing JSON.")
 					return NUMERIC_NULL, e
 				}
-				if inQuotes {
-					p.readQuoteIfNext()
+				if inQuotes && !p.readQuoteIfNext() {
+					return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, "Unterminated quotes around number")
 				}
 				return INFINITY, nil
 			} else if buf.Len() == 1 && buf.Bytes()[0] == JSON_NEGATIVE_INFINITY[0] {
@@ -1266,18 +1268,20 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 					e := NewTProtocolException(INVALID_DATA, "Expected '"+JSON_NEGATIVE_INFINITY+"' but found '"+string(buffer)+"' while parsing JSON.")
 					return NUMERIC_NULL, e
 				}
-				if inQuotes {
-					p.readQuoteIfNext()
+				if inQuotes && !p.readQuoteIfNext() {
+					return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, "Unterminated quotes around number")
 				}
 				return NEGATIVE_INFINITY, nil
 			} else {
 				return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Unable to parse number starting with character '%c' due to existing buffer %s", c, buf.String()))
 			}
 		case JSON_QUOTE:
-			if !inQuotes {
+			if !inQuotes && buf.Len() == 0 {
 				inQuotes = true
+			} else if inQuotes {
+				inQuotes, continueFor = false, false
 			} else {
-				break
+				return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Unable to parse number with a quote after '%s'", buf.String()))
 			}
 		default:
 			return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Unable to parse number starting with character '%c'", c))
@@ -1286,5 +1290,8 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 	if buf.Len() == 0 {
 		return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprint("Unable to parse number from empty string ''"))
 	}
+	if inQuotes {
+		return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, "Unterminated quotes around number "+buf.String())
+	}
 	return NewNumericFromJSONString(buf.String(), false), nil
 }
-- 
2.43.0


From abd35a7e682e2e82cb572abe7f451e368552b7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:04 +0000
Subject: [PATCH 026/106] fix: JSON readers take malformed numbers, and
 integers that do not fit, for other numbers

---
 lib/go/src/thrift/tsimple_json_protocol.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index ff15455..ca0de94 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -956,6 +956,9 @@ func (p *TSimpleJSONProtocol) ParseI64() (int64, bool, TProtocolException) {
 		if err != nil {
 			return value, isnull, err
 		}
+		if _, e := strconv.ParseInt(num.String(), 10, 64); e != nil {
+			return 0, false, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Expected an integer of 64 bits, found '%s'", num.String()))
+		}
 	}
 	return value, isnull, p.ParsePostValue()
 }
@@ -1293,5 +1296,8 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 	if inQuotes {
 		return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, "Unterminated quotes around number "+buf.String())
 	}
+	if _, e := strconv.ParseFloat(buf.String(), 64); e != nil {
+		return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Unable to parse number '%s'", buf.String()))
+	}
 	return NewNumericFromJSONString(buf.String(), false), nil
 }
-- 
2.43.0


From 505cc0bf2aefccd2aee973588418134942285b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:06 +0000
Subject: [PATCH 027/106] fix: JSON readers take null for a message without a
 name

---
 lib/go/src/thrift/tjson_protocol.go        | 3 +++
 lib/go/src/thrift/tsimple_json_protocol.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index d5b1f6c..5e43370 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -204,6 +204,9 @@ func (p *TJSONProtocol) WriteBinary(v []byte) TProtocolException {
 
 func (p *TJSONProtocol) ReadMessageBegin() (name string, typeId TMessageType, seqId int32, err TProtocolException) {
 	if isNull, err := p.ParseListBegin(); isNull || err != nil {
+		if err == nil {
+			err = NewTProtocolException(INVALID_DATA, "Expected a message, found null")
+		}
 		return name, typeId, seqId, err
 	}
 	version, err := p.ReadI32()
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index ca0de94..4ca84bb 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -304,6 +304,9 @@ func (p *TSimpleJSONProtocol) WriteBinary(v []byte) TProtocolException {
 
 func (p *TSimpleJSONProtocol) ReadMessageBegin() (name string, typeId TMessageType, seqId int32, err TProtocolException) {
 	if isNull, err := p.ParseListBegin(); isNull || err != nil {
+		if err == nil {
+			err = NewTProtocolException(INVALID_DATA, "Expected a message, found null")
+		}
 		return name, typeId, seqId, err
 	}
 	if name, err = p.ReadString(); err != nil {
-- 
2.43.0


From 9ab9493940967016a2a70d0432f482fb4fb66da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:31 +0000
Subject: [PATCH 028/106] fix: JSON readers pass on negative container sizes

---
 lib/go/src/thrift/tjson_protocol.go        | 3 +++
 lib/go/src/thrift/tsimple_json_protocol.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 5e43370..e38a862 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -293,6 +293,9 @@ func (p *TJSONProtocol) ReadMapBegin() (keyType TType, valueType TType, size int
 	// read size
 	iSize, err := p.ReadI64()
 	size = int(iSize)
+	if err == nil && size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative size in ReadMapBegin")
+	}
 	return keyType, valueType, size, err
 }
 
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 4ca84bb..4728ba4 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -400,6 +400,9 @@ func (p *TSimpleJSONProtocol) ReadMapBegin() (keyType TType, valueType TType, si
 	// read size
 	iSize, err := p.ReadI64()
 	size = int(iSize)
+	if err == nil && size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative size in ReadMapBegin")
+	}
 	return keyType, valueType, size, err
 }
 
@@ -1054,6 +1057,9 @@ func (p *TSimpleJSONProtocol) ParseElemListBegin() (elemType TType, size int, e
 	}
 	nSize, err2 := p.ReadI64()
 	size = int(nSize)
+	if err2 == nil && size < 0 {
+		err2 = NewTProtocolException(NEGATIVE_SIZE, "Negative size in ReadListBegin")
+	}
 	return elemType, size, err2
 }
 
-- 
2.43.0


From b9a61a90b67f524a847f8ca4411b154569f6be52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:41 +0000
Subject: [PATCH 029/106] fix: simple JSON reader accepts a comma before the
 end of a struct

---
 lib/go/src/thrift/tsimple_json_protocol.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 4728ba4..ffb6a26 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -337,6 +337,7 @@ func (p *TSimpleJSONProtocol) ReadStructEnd() TProtocolException {
 }
 
 func (p *TSimpleJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolException) {
+	first, _ := p.peekSignificant()
 	if err := p.ParsePreValue(); err != nil {
 		return "", STOP, 0, err
 	}
@@ -344,6 +345,9 @@ func (p *TSimpleJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolE
 	if len(b) > 0 {
 		switch b[0] {
 		case JSON_RBRACE[0]:
+			if len(first) > 0 && first[0] == JSON_COMMA[0] {
+				return "", STOP, 0, NewTProtocolException(INVALID_DATA, "Expected a field after \",\", but found \"}\"")
+			}
 			return "", STOP, 0, nil
 		case JSON_QUOTE:
 			p.reader.ReadByte()
-- 
2.43.0


From 9021888c7209fbd475242559f56776e9453c7b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:41 +0000
Subject: [PATCH 030/106] fix: JSON WriteBinary ignores failed writes

---
 lib/go/src/thrift/tjson_protocol.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index e38a862..2f16f7d 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -188,13 +188,19 @@ func (p *TJSONProtocol) WriteBinary(v []byte) TProtocolException {
 	if e := p.OutputPreValue(); e != nil {
 		return e
 	}
-	p.writer.Write(JSON_QUOTE_BYTES)
+	if _, e := p.writer.Write(JSON_QUOTE_BYTES); e != nil {
+		return NewTProtocolExceptionFromOsError(e)
+	}
 	writer := base64.NewEncoder(base64.StdEncoding, p.writer)
 	if _, e := writer.Write(v); e != nil {
 		return NewTProtocolExceptionFromOsError(e)
 	}
-	writer.Close()
-	p.writer.Write(JSON_QUOTE_BYTES)
+	if e := writer.Close(); e != nil {
+		return NewTProtocolExceptionFromOsError(e)
+	}
+	if _, e := p.writer.Write(JSON_QUOTE_BYTES); e != nil {
+		return NewTProtocolExceptionFromOsError(e)
+	}
 	return p.OutputPostValue()
 }
 
-- 
2.43.0


From 5c96246dfee607a3ff0b75f45e03cb3fd199c6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:30 +0000
Subject: [PATCH 031/106] fix: ReadAll reports success when a read makes no
 progress, and failure when the last bytes come with an error

---
 lib/go/src/thrift/ttransport.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/go/src/thrift/ttransport.go b/lib/go/src/thrift/ttransport.go
index db384c6..e1c04fd 100644
--- a/lib/go/src/thrift/ttransport.go
+++ b/lib/go/src/thrift/ttransport.go
@@ -163,14 +163,12 @@ func ReadAllTransport(p TTransport, buf []byte) (n int, err error) {
 	for n < size {
 		ret, err = p.Read(buf[n:])
 		if ret <= 0 {
-			if err != nil {
-				err = NewTTransportExceptionDefaultString("Cannot read. Remote side has closed. Tried to read " + strconv.Itoa(size) + " bytes, but only got " + strconv.Itoa(n) + " bytes.")
-			}
-			return ret, err
+			err = NewTTransportExceptionDefaultString("Cannot read. Remote side has closed. Tried to read " + strconv.Itoa(size) + " bytes, but only got " + strconv.Itoa(n) + " bytes.")
+			return n, err
 		}
 		n += ret
 	}
-	return n, err
+	return n, nil
 }
 
 var (
-- 
2.43.0


From 649b201f8e03c37f4ebcb2a785359fdb7ea1927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:31 +0000
Subject: [PATCH 032/106] fix: framed transport hides read errors and takes an
 empty frame for the end of the stream

---
 lib/go/src/thrift/tframed_transport.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index c1a78d2..2a8a477 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -73,7 +73,11 @@ func (p *TFramedTransport) Read(buf []byte) (int, error) {
 	}
 
 	// Read another frame of data
-	p.readFrame()
+	for len(buf) > 0 && p.readBuffer.Len() == 0 {
+		if _, err := p.readFrame(); err != nil {
+			return 0, NewTTransportExceptionFromOsError(err)
+		}
+	}
 
 	got, err := p.readBuffer.Read(buf)
 	return got, NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From e0c30874a842de2bd58c333f68e86baced13c7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:34 +0000
Subject: [PATCH 033/106] fix: stream transport panics on a write of no bytes

---
 lib/go/src/thrift/tiostream_transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tiostream_transport.go b/lib/go/src/thrift/tiostream_transport.go
index 0195da5..475633f 100644
--- a/lib/go/src/thrift/tiostream_transport.go
+++ b/lib/go/src/thrift/tiostream_transport.go
@@ -204,7 +204,7 @@ func (p *TIOStreamTransport) Write(buf []byte) (int, error) {
 		return 0, NewTTransportException(NOT_OPEN, "Cannot write to null outputStream")
 	}
 	n, err := p.Writer.Write(buf)
-	if n == 0 || err != nil {
+	if err != nil {
 		LOGGER.Print("Error writing to iostream, only wrote ", n, " bytes: ", err.Error(), "\n")
 	}
 	return n, NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From 8ecbce65b62bfbeccd08d4060a47348d8c04c63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:55 +0000
Subject: [PATCH 034/106] fix: Less holds for the lesser value, not the greater

---
 lib/go/src/thrift/tmap.go  | 2 +-
 lib/go/src/thrift/tset.go  | 2 +-
 lib/go/src/thrift/ttype.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index 824a339..f2307e7 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -735,7 +735,7 @@ func (p *tMap) ValueIter() <-chan interface{} {
 
 func (p *tMap) Less(other interface{}) bool {
 	cmp, ok := p.CompareTo(other)
-	return ok && cmp > 0
+	return ok && cmp < 0
 }
 
 func (p *tMap) Equals(other interface{}) bool {
diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index ec9a29b..3c393de 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -103,7 +103,7 @@ func (p *tSet) Remove(data interface{}) {
 
 func (p *tSet) Less(other interface{}) bool {
 	cmp, ok := p.CompareTo(other)
-	return ok && cmp > 0
+	return ok && cmp < 0
 }
 
 func (p *tSet) Equals(other interface{}) bool {
diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 32ef8ea..8dfb57c 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -254,7 +254,7 @@ func (p TType) LessType(other interface{}) bool {
 
 func (p TType) Less(i, j interface{}) bool {
 	cmp, ok := p.Compare(i, j)
-	return ok && cmp > 0
+	return ok && cmp < 0
 }
 
 func (p TType) Compare(i, j interface{}) (int, bool) {
-- 
2.43.0


From ff213563fb6bd7e45b788d988d9e39950dc1416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:55 +0000
Subject: [PATCH 035/106] fix: comparing values of types Go cannot compare does
 not panic

---
 lib/go/src/thrift/ttype.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 8dfb57c..08ec7c5 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -258,8 +258,8 @@ func (p TType) Less(i, j interface{}) bool {
 }
 
 func (p TType) Compare(i, j interface{}) (int, bool) {
-	if p != BINARY {
-		if i == j {
+	if p != BINARY && p != STRUCT {
+		if _, isBinary := i.([]byte); !isBinary && i == j {
 			return 0, true
 		}
 	}
@@ -284,7 +284,7 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 	if !iok && !jok {
 		return 0, false
 	}
-	if p != BINARY {
+	if p != BINARY && p != STRUCT {
 		if ci == cj {
 			return 0, true
 		}
-- 
2.43.0


From ef8e51283eb567120fae6475b410fea8e08407c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:55 +0000
Subject: [PATCH 036/106] fix: NaN has a place in the order of doubles

---
 lib/go/src/thrift/tcompare.go | 6 ++++--
 lib/go/src/thrift/ttype.go    | 8 +-------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/lib/go/src/thrift/tcompare.go b/lib/go/src/thrift/tcompare.go
index aa41eb3..c9827f0 100644
--- a/lib/go/src/thrift/tcompare.go
+++ b/lib/go/src/thrift/tcompare.go
@@ -82,6 +82,7 @@ func CompareString(i, j string) int {
 	return 0
 }
 
+// CompareFloat orders numbers; NaN equals itself and is below them.
 func CompareFloat(i, j float32) int {
 	if i > j {
 		return 1
@@ -89,9 +90,10 @@ func CompareFloat(i, j float32) int {
 	if i < j {
 		return -1
 	}
-	return 0
+	return CompareBool(i == i, j == j)
 }
 
+// CompareDouble orders numbers; NaN equals itself and is below them.
 func CompareDouble(i, j float64) int {
 	if i > j {
 		return 1
@@ -99,7 +101,7 @@ func CompareDouble(i, j float64) int {
 	if i < j {
 		return -1
 	}
-	return 0
+	return CompareBool(i == i, j == j)
 }
 
 func CompareByte(i, j byte) int {
diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 08ec7c5..8396ac0 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -334,13 +334,7 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 		if !iok || !jok {
 			return 0, false
 		}
-		if vi == vj {
-			return 0, true
-		}
-		if vi < vj {
-			return -1, true
-		}
-		return 1, true
+		return CompareDouble(vi, vj), true
 	case I16:
 		vi, iok := ci.(int16)
 		vj, jok := cj.(int16)
-- 
2.43.0


From 35a8d9e2d7250469bace8e687ff8324e4cabbdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:55 +0000
Subject: [PATCH 037/106] fix: CompareInt64 compares 64-bit integers

---
 lib/go/src/thrift/tcompare.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompare.go b/lib/go/src/thrift/tcompare.go
index c9827f0..3880a24 100644
--- a/lib/go/src/thrift/tcompare.go
+++ b/lib/go/src/thrift/tcompare.go
@@ -49,7 +49,7 @@ func CompareInt32(i, j int32) int {
 	return 0
 }
 
-func CompareInt64(i, j int32) int {
+func CompareInt64(i, j int64) int {
 	if i > j {
 		return 1
 	}
-- 
2.43.0


From 04af877942ebf5283e817ce9c9496e3ed712a5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:18 +0000
Subject: [PATCH 038/106] fix: a field container keeps its sorted copy of the
 fields, not the caller's slice

---
 lib/go/src/thrift/tfield.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tfield.go b/lib/go/src/thrift/tfield.go
index 72aaf50..1a62272 100644
--- a/lib/go/src/thrift/tfield.go
+++ b/lib/go/src/thrift/tfield.go
@@ -152,7 +152,7 @@ func NewTFieldContainer(fields []TField) TFieldContainer {
 	}
 	sort.Sort(tFieldArray(sortedFields))
 	return &tFieldContainer{
-		fields:         fields,
+		fields:         sortedFields,
 		nameToFieldMap: nameToFieldMap,
 		idToFieldMap:   idToFieldMap,
 	}
-- 
2.43.0


From 4206951dfda64336146dfa609c6dab70f573a13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:18 +0000
Subject: [PATCH 039/106] fix: field containers compare field by field

---
 lib/go/src/thrift/tfield.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tfield.go b/lib/go/src/thrift/tfield.go
index 1a62272..3fbed4a 100644
--- a/lib/go/src/thrift/tfield.go
+++ b/lib/go/src/thrift/tfield.go
@@ -191,7 +191,10 @@ func (p *tFieldContainer) Len() int {
 }
 
 func (p *tFieldContainer) At(i int) TField {
-	return p.FieldFromFieldId(i)
+	if i < 0 || i >= len(p.fields) {
+		return ANONYMOUS_FIELD
+	}
+	return p.fields[i]
 }
 
 func (p *tFieldContainer) Contains(data interface{}) bool {
@@ -253,8 +256,8 @@ func (p *tFieldContainer) CompareTo(other interface{}) (int, bool) {
 		if cmp := CompareInt(p.Len(), data.Len()); cmp != 0 {
 			return cmp, true
 		}
-		for _, field := range p.fields {
-			if cmp, ok3 := field.CompareTo(data.At(field.Id())); !ok3 || cmp != 0 {
+		for i, field := range p.fields {
+			if cmp, ok3 := field.CompareTo(data.At(i)); !ok3 || cmp != 0 {
 				return cmp, ok3
 			}
 		}
-- 
2.43.0


From 1d6276a65e0e50083d80423ee0d0692b31444888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:18 +0000
Subject: [PATCH 040/106] fix: maps compare by their associations, whatever
 order the runtime iterates them in

---
 lib/go/src/thrift/ttype.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 8396ac0..d628282 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -431,10 +431,12 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 		if size := mi.Len(); size != mj.Len() {
 			return CompareInt(size, mj.Len()), true
 		}
-		if c, cok := ki.CompareValueArrays(mi.Keys(), mj.Keys()); c != 0 || !cok {
+		keysi, valuesi := ki.sortedElems(mi)
+		keysj, valuesj := ki.sortedElems(mj)
+		if c, cok := ki.CompareValueArrays(keysi, keysj); c != 0 || !cok {
 			return c, cok
 		}
-		return vi.CompareValueArrays(mi.Values(), mj.Values())
+		return vi.CompareValueArrays(valuesi, valuesj)
 	case LIST:
 		li, iok := ci.(TList)
 		lj, jok := cj.(TList)
@@ -481,6 +483,19 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 	return 0, false
 }
 
+// sortedElems returns m's keys, which have type p, in ascending order and their values.
+func (p TType) sortedElems(m TMap) (keys, values []interface{}) {
+	for elem := range m.Iter() {
+		k := len(keys)
+		keys, values = append(keys, elem.Key()), append(values, elem.Value())
+		for ; k > 0 && p.Less(keys[k], keys[k-1]); k-- {
+			keys[k], keys[k-1] = keys[k-1], keys[k]
+			values[k], values[k-1] = values[k-1], values[k]
+		}
+	}
+	return keys, values
+}
+
 func (p TType) CompareValueArrays(li, lj []interface{}) (int, bool) {
 	size := len(li)
 	if cmp := CompareInt(size, len(lj)); cmp != 0 {
-- 
2.43.0


From 8fd8135101fb7047650188b3018769451a4aff19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:36 +0000
Subject: [PATCH 041/106] fix: a set keeps an added element that is below all
 others

---
 lib/go/src/thrift/tset.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index 3c393de..21e4d24 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -90,6 +90,7 @@ func (p *tSet) Add(other interface{}) {
 					return
 				}
 			}
+			p.l.PushBack(data)
 		}
 	}
 }
-- 
2.43.0


From 13c5202b59e8c23f1068ea72adf40d1b80fbefc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:36 +0000
Subject: [PATCH 042/106] fix: the length of an empty set is not its capacity
 hint

---
 lib/go/src/thrift/tset.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index 21e4d24..5a2f6e2 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -67,10 +67,7 @@ func (p *tSet) Back() *list.Element {
 }
 
 func (p *tSet) Len() int {
-	if p.l.Len() != 0 {
-		return p.l.Len()
-	}
-	return p.size
+	return p.l.Len()
 }
 
 func (p *tSet) Contains(data interface{}) bool {
-- 
2.43.0


From 286cfedb8c2bd4a972458e401c4026563e7fdaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:36 +0000
Subject: [PATCH 043/106] fix: a set without an element type takes that of its
 first element, and no type holds nothing but nil

---
 lib/go/src/thrift/tset.go  | 3 +++
 lib/go/src/thrift/ttype.go | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index 5a2f6e2..2a6ffb3 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -75,6 +75,9 @@ func (p *tSet) Contains(data interface{}) bool {
 }
 
 func (p *tSet) Add(other interface{}) {
+	if p.elemType.IsEmptyType() {
+		p.elemType = TypeFromValue(other)
+	}
 	if data, ok := p.elemType.CoerceData(other); ok {
 		if p.l.Front() == nil {
 			p.l.PushFront(data)
diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index d628282..e8aeb3d 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -599,9 +599,9 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 	}
 	switch p {
 	case STOP:
-		return nil, true
+		return nil, false
 	case VOID:
-		return nil, true
+		return nil, false
 	case BOOL:
 		switch b := data.(type) {
 		default:
-- 
2.43.0


From 37a0efe4c6585ba7981db08e882f777b76a17f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:36 +0000
Subject: [PATCH 044/106] fix: sets and lists find NaN, and binaries beside nil

---
 lib/go/src/thrift/tlist.go | 4 ++--
 lib/go/src/thrift/tset.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index 6fb4184..3dce589 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -153,7 +153,7 @@ func (p *tList) indexOf(data interface{}) int {
 	size := len(p.l)
 	if p.elemType == BINARY {
 		for i := 0; i < size; i++ {
-			if bytes.Compare(data.([]byte), p.l[i].([]byte)) == 0 {
+			if b, ok := p.l[i].([]byte); ok && bytes.Compare(data.([]byte), b) == 0 {
 				return i
 			}
 		}
@@ -161,7 +161,7 @@ func (p *tList) indexOf(data interface{}) int {
 	}
 	if p.elemType.IsBaseType() || p.elemType.IsEnum() {
 		for i := 0; i < size; i++ {
-			if data == p.l[i] {
+			if cmp, ok := p.elemType.Compare(data, p.l[i]); ok && cmp == 0 {
 				return i
 			}
 		}
diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index 2a6ffb3..5e792c4 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -131,7 +131,7 @@ func (p *tSet) find(data interface{}) *list.Element {
 	}
 	if p.elemType == BINARY {
 		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-			if bytes.Compare(data.([]byte), elem.Value.([]byte)) == 0 {
+			if b, ok := elem.Value.([]byte); ok && bytes.Compare(data.([]byte), b) == 0 {
 				return elem
 			}
 		}
@@ -139,7 +139,7 @@ func (p *tSet) find(data interface{}) *list.Element {
 	}
 	if p.elemType.IsBaseType() || p.elemType.IsEnum() {
 		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-			if data == elem.Value {
+			if cmp, ok := p.elemType.Compare(data, elem.Value); ok && cmp == 0 {
 				return elem
 			}
 		}
-- 
2.43.0


From 94fed0a3b12172d1f79754e518586a3bc4bead5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:36 +0000
Subject: [PATCH 045/106] fix: setting the element after a list's last one
 appends it

---
 lib/go/src/thrift/tlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index 3dce589..7956c4b 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -74,7 +74,7 @@ func (p *tList) Set(i int, data interface{}) {
 		p.elemType = TypeFromValue(data)
 	}
 	if data, ok := p.elemType.CoerceData(data); ok {
-		if len(p.l) >= i {
+		if len(p.l) > i {
 			p.l[i] = data
 		} else {
 			p.l = append(p.l, data)
-- 
2.43.0


From 17fde948aa1b7c1d96298d70c1f2f2761a445be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:36 +0000
Subject: [PATCH 046/106] fix: values inserted into a list are coerced to its
 element type

---
 lib/go/src/thrift/tlist.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index 7956c4b..233d186 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -105,6 +105,13 @@ func (p *tList) Swap(i, j int) {
 }
 
 func (p *tList) Insert(i int, data interface{}) {
+	if p.elemType.IsEmptyType() {
+		p.elemType = TypeFromValue(data)
+	}
+	data, ok := p.elemType.CoerceData(data)
+	if !ok {
+		return
+	}
 	newl := make([]interface{}, 1)
 	newl[0] = data
 	p.l = append(p.l[:i], append(newl, p.l[i:]...)...)
-- 
2.43.0


From d02811f006a968b30d8d414ec6abd57929ec2f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:36 +0000
Subject: [PATCH 047/106] fix: TList.Less compares elements

---
 lib/go/src/thrift/tlist.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index 233d186..19256ad 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -126,8 +126,8 @@ func (p *tList) Contains(data interface{}) bool {
 }
 
 func (p *tList) Less(i, j int) bool {
-	_, less := p.elemType.Compare(p.l[i], p.l[j])
-	return less
+	cmp, ok := p.elemType.Compare(p.l[i], p.l[j])
+	return ok && cmp < 0
 }
 
 func (p *tList) Iter() <-chan interface{} {
-- 
2.43.0


From fa36d39f69426d81a1fdd0fecc2fa1e878b896f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:36 +0000
Subject: [PATCH 048/106] fix: a map does not report a missing BOOL key as
 present

---
 lib/go/src/thrift/tmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index f2307e7..5b1f779 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -156,7 +156,7 @@ func (p *tMap) Get(key interface{}) (interface{}, bool) {
 		if v, ok := m[useKey.(bool)]; ok {
 			return v, true
 		}
-		return nil, true
+		return nil, false
 	case BYTE:
 		m := p.i08
 		if v, ok := m[useKey.(byte)]; ok {
-- 
2.43.0


From 3dae3420956bb4825d337df603e01bd67d84c689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:36 +0000
Subject: [PATCH 049/106] fix: the length of an empty map is not its capacity
 hint

---
 lib/go/src/thrift/tmap.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index 5b1f779..1f040f8 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -119,10 +119,8 @@ func (p *tMap) Len() int {
 		return len(p.f64)
 	case STRING, UTF8, UTF16:
 		return len(p.s)
-	default:
-		return p.size
 	}
-	return p.size
+	return 0
 }
 
 func (p *tMap) Get(key interface{}) (interface{}, bool) {
-- 
2.43.0


From 6ccf9ea6c8692f864242370322d11455a0ed5dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:36 +0000
Subject: [PATCH 050/106] fix: a map stores values coerced to its value type

---
 lib/go/src/thrift/tmap.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index 1f040f8..f7fae5f 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -353,43 +353,43 @@ func (p *tMap) Set(key, value interface{}) {
 			p.b = make(map[bool]interface{})
 		}
 		b := coercedKey.(bool)
-		p.b[b] = value
+		p.b[b] = coercedValue
 	case BYTE:
 		if p.i08 == nil {
 			p.i08 = make(map[byte]interface{})
 		}
 		b := coercedKey.(byte)
-		p.i08[b] = value
+		p.i08[b] = coercedValue
 	case DOUBLE:
 		if p.f64 == nil {
 			p.f64 = make(map[float64]interface{})
 		}
 		b := coercedKey.(float64)
-		p.f64[b] = value
+		p.f64[b] = coercedValue
 	case I16:
 		if p.i16 == nil {
 			p.i16 = make(map[int16]interface{})
 		}
 		b := coercedKey.(int16)
-		p.i16[b] = value
+		p.i16[b] = coercedValue
 	case I32:
 		if p.i32 == nil {
 			p.i32 = make(map[int32]interface{})
 		}
 		b := coercedKey.(int32)
-		p.i32[b] = value
+		p.i32[b] = coercedValue
 	case I64:
 		if p.i64 == nil {
 			p.i64 = make(map[int64]interface{})
 		}
 		b := coercedKey.(int64)
-		p.i64[b] = value
+		p.i64[b] = coercedValue
 	case STRING, UTF8, UTF16:
 		if p.s == nil {
 			p.s = make(map[string]interface{})
 		}
 		b := coercedKey.(string)
-		p.s[b] = value
+		p.s[b] = coercedValue
 	case BINARY, STRUCT, MAP, SET, LIST:
 		panic("Should never be here because type is " + p.KeyType().String())
 	default:
-- 
2.43.0


From 0014d618dc937fcbc55ee9f157ab1eb591aeaf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:36 +0000
Subject: [PATCH 051/106] fix: maps whose keys are maps can be iterated

---
 lib/go/src/thrift/tmap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index f7fae5f..7572e52 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -602,7 +602,7 @@ func (p *tMap) iterate(c chan<- TMapElem) {
 			c <- NewTMapElem(k, v)
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	case BINARY, STRUCT, MAP, LIST, SET:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem)
 		}
@@ -659,7 +659,7 @@ func (p *tMap) iterateKeys(c chan<- interface{}) {
 			c <- k
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	case BINARY, STRUCT, MAP, LIST, SET:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem).Key()
 		}
@@ -715,7 +715,7 @@ func (p *tMap) iterateValues(c chan<- interface{}) {
 			c <- v
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	case BINARY, STRUCT, MAP, LIST, SET:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem).Value()
 		}
-- 
2.43.0


From 8d6f97c204b0c7403c5220ec1d1b53d1c0a55aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:36 +0000
Subject: [PATCH 052/106] fix: a map that has no nil key does not claim to
 contain one

---
 lib/go/src/thrift/tmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index 7572e52..c0bd7d4 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -402,7 +402,7 @@ func (p *tMap) Contains(key interface{}) bool {
 	if !ok {
 		return false
 	}
-	if coercedKey == nil {
+	if key == nil || coercedKey == nil {
 		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
 			k := elem.Value.(TMapElem).Key()
 			if k == nil {
-- 
2.43.0


From 761eb336218f27ffd4469aae7b82b941989ec284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:50 +0000
Subject: [PATCH 053/106] fix: numbers given as text are parsed, and refused
 when they are none

---
 lib/go/src/thrift/ttype.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index e8aeb3d..3e9a0d7 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -708,7 +708,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.Atoi(b)
-			if err != nil {
+			if err == nil && i1 >= -128 && i1 <= 255 {
 				return byte(int(i1)), true
 			}
 		}
@@ -773,7 +773,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			d1, err := strconv.ParseFloat(b, 64)
-			if err != nil {
+			if err == nil {
 				return d1, true
 			}
 		}
@@ -832,7 +832,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.Atoi(b)
-			if err != nil {
+			if err == nil && int(int16(i1)) == i1 {
 				return int16(i1), true
 			}
 		}
@@ -891,7 +891,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.Atoi(b)
-			if err != nil {
+			if err == nil && int(int32(i1)) == i1 {
 				return int32(i1), true
 			}
 		}
@@ -950,7 +950,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.ParseInt(b, 10, 64)
-			if err != nil {
+			if err == nil {
 				return i1, true
 			}
 		}
-- 
2.43.0


From 4a1305d557948a9714d74bf6b8adf7bbdffeaea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:50 +0000
Subject: [PATCH 054/106] fix: a Numeric is coerced to a number, not to whether
 it is zero

---
 lib/go/src/thrift/ttype.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 3e9a0d7..396ab00 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -609,7 +609,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		case bool:
 			return b, true
 		case Numeric:
-			return bool(b.Int() != 0), true
+			return b.Float64() != 0, true
 		case int:
 			return b != 0, true
 		case byte:
@@ -721,7 +721,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return b, true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Float64() != 0.0), true
+			return b.Float64(), true
 		}
 		if b, ok := data.(byte); ok {
 			return float64(b), true
@@ -786,7 +786,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return int16(b), true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Int16() != 0), true
+			return b.Int16(), true
 		}
 		if b, ok := data.(byte); ok {
 			return int16(b), true
@@ -845,7 +845,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return int32(b), true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Int32() != 0), true
+			return b.Int32(), true
 		}
 		if b, ok := data.(byte); ok {
 			return int32(b), true
@@ -907,7 +907,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return int64(b), true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Int64() != 0), true
+			return b.Int64(), true
 		}
 		if b, ok := data.(byte); ok {
 			return int64(b), true
-- 
2.43.0


From f8c11f379000a546d3991768e18ecd133a72a9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:50 +0000
Subject: [PATCH 055/106] fix: integers coerced to text are rendered in
 decimal, not taken for a character

---
 lib/go/src/thrift/ttype.go | 48 +++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 396ab00..4a559df 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -961,7 +961,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(Enumer); ok {
 			if i1, ok := data.(int); ok {
-				return string(i1), true
+				return strconv.Itoa(i1), true
 			}
 			return b.String(), true
 		}
@@ -972,10 +972,10 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return b, true
 		}
 		if b, ok := data.(int); ok {
-			return string(b), true
+			return strconv.Itoa(b), true
 		}
 		if b, ok := data.(byte); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(bool); ok {
 			if b {
@@ -984,31 +984,31 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return "false", true
 		}
 		if b, ok := data.(int8); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(int16); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(int32); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(int64); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(uint); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint8); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint16); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint32); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint64); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(float32); ok {
 			return strconv.FormatFloat(float64(b), 'g', -1, 32), true
@@ -1023,7 +1023,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(Enumer); ok {
 			if i1, ok := data.(int); ok {
-				return []byte(string(i1)), true
+				return []byte(strconv.Itoa(i1)), true
 			}
 			return []byte(b.String()), true
 		}
@@ -1034,10 +1034,10 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return []byte(b), true
 		}
 		if b, ok := data.(int); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.Itoa(b)), true
 		}
 		if b, ok := data.(byte); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(bool); ok {
 			if b {
@@ -1046,31 +1046,31 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return []byte("false"), true
 		}
 		if b, ok := data.(int8); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(int16); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(int32); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(int64); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(uint); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint8); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint16); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint32); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint64); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(float32); ok {
 			return []byte(strconv.FormatFloat(float64(b), 'g', -1, 32)), true
-- 
2.43.0


From 6263601ba5ff1eb7752ee64dcc551519591ed12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:50 +0000
Subject: [PATCH 056/106] fix: refused coercions to BINARY and STRUCT say so,
 with a value of that type

---
 lib/go/src/thrift/ttype.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 4a559df..6d710cc 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -1078,12 +1078,12 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		if b, ok := data.(float64); ok {
 			return []byte(strconv.FormatFloat(b, 'g', -1, 64)), true
 		}
-		return "", false
+		return nil, false
 	case STRUCT:
 		if b, ok := data.(TStruct); ok {
 			return b, true
 		}
-		return NewTStructEmpty(""), true
+		return NewTStructEmpty(""), false
 	case MAP:
 		if b, ok := data.(TMap); ok {
 			return b, true
-- 
2.43.0


From a04ab576c821241f1375b4e65851a714120f93bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:51 +0000
Subject: [PATCH 057/106] fix: enumeration values are coerced to their number

---
 lib/go/src/thrift/ttype.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 6d710cc..2b05482 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -636,6 +636,8 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return b != 0, true
 		case []byte:
 			return len(b) > 1 || (len(b) == 1 && b[0] != 0), true
+		case Enumer:
+			return b.Value() != 0, true
 		case Stringer:
 			v := b.String()
 			if v == "false" || v == "0" || len(v) == 0 {
@@ -703,6 +705,9 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			}
 			return byte(0), true
 		}
+		if b, ok := data.(Enumer); ok {
+			return byte(b.Value()), true
+		}
 		if b, ok := data.(Stringer); ok {
 			data = b.String()
 		}
@@ -768,6 +773,9 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			}
 			return float64(0), true
 		}
+		if b, ok := data.(Enumer); ok {
+			return float64(b.Value()), true
+		}
 		if b, ok := data.(Stringer); ok {
 			data = b.String()
 		}
@@ -827,6 +835,9 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		if b, ok := data.(float64); ok {
 			return int16(int(b)), true
 		}
+		if b, ok := data.(Enumer); ok {
+			return int16(b.Value()), true
+		}
 		if b, ok := data.(Stringer); ok {
 			data = b.String()
 		}
@@ -886,6 +897,9 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		if b, ok := data.(float64); ok {
 			return int32(int(b)), true
 		}
+		if b, ok := data.(Enumer); ok {
+			return int32(b.Value()), true
+		}
 		if b, ok := data.(Stringer); ok {
 			data = b.String()
 		}
@@ -945,6 +959,9 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		if b, ok := data.(float64); ok {
 			return int64(b), true
 		}
+		if b, ok := data.(Enumer); ok {
+			return int64(b.Value()), true
+		}
 		if b, ok := data.(Stringer); ok {
 			data = b.String()
 		}
-- 
2.43.0


From 0c474dc0ac55c7e7dfedf1548264b7db4d7d4673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:05 +0000
Subject: [PATCH 058/106] fix: the text of an integer Numeric is decimal, not a
 character

---
 lib/go/src/thrift/tnumeric.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tnumeric.go b/lib/go/src/thrift/tnumeric.go
index aa8daa9..7f7246f 100644
--- a/lib/go/src/thrift/tnumeric.go
+++ b/lib/go/src/thrift/tnumeric.go
@@ -69,14 +69,14 @@ func NewNumericFromDouble(dValue float64) Numeric {
 
 func NewNumericFromI64(iValue int64) Numeric {
 	dValue := float64(iValue)
-	sValue := string(iValue)
+	sValue := strconv.FormatInt(int64(iValue), 10)
 	isNil := false
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNil}
 }
 
 func NewNumericFromI32(iValue int32) Numeric {
 	dValue := float64(iValue)
-	sValue := string(iValue)
+	sValue := strconv.FormatInt(int64(iValue), 10)
 	isNil := false
 	return &numeric{iValue: int64(iValue), dValue: dValue, sValue: sValue, isNil: isNil}
 }
-- 
2.43.0


From cb5a58ceba925de5b9bc669b63a9d91b238e29c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:05 +0000
Subject: [PATCH 059/106] fix: the text of a Numeric made from a double has all
 its digits

---
 lib/go/src/thrift/tnumeric.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tnumeric.go b/lib/go/src/thrift/tnumeric.go
index 7f7246f..2b96073 100644
--- a/lib/go/src/thrift/tnumeric.go
+++ b/lib/go/src/thrift/tnumeric.go
@@ -62,7 +62,7 @@ func NewNumericFromDouble(dValue float64) Numeric {
 		return NAN
 	}
 	iValue := int64(dValue)
-	sValue := strconv.FormatFloat(dValue, 'g', 10, 64)
+	sValue := strconv.FormatFloat(dValue, 'g', -1, 64)
 	isNil := false
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNil}
 }
-- 
2.43.0


From 216285a86d62ed286c5e92c50a2bc2810525d7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:06 +0000
Subject: [PATCH 060/106] fix: a Numeric made from the text of a double has
 that double's integer part

---
 lib/go/src/thrift/tnumeric.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tnumeric.go b/lib/go/src/thrift/tnumeric.go
index 2b96073..a42c1c6 100644
--- a/lib/go/src/thrift/tnumeric.go
+++ b/lib/go/src/thrift/tnumeric.go
@@ -91,8 +91,11 @@ func NewNumericFromString(sValue string) Numeric {
 	if sValue == NAN.String() {
 		return NAN
 	}
-	iValue, _ := strconv.ParseInt(sValue, 10, 64)
+	iValue, err := strconv.ParseInt(sValue, 10, 64)
 	dValue, _ := strconv.ParseFloat(sValue, 64)
+	if err != nil {
+		iValue = int64(dValue)
+	}
 	isNil := len(sValue) == 0
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNil}
 }
@@ -110,8 +113,11 @@ func NewNumericFromJSONString(sValue string, isNull bool) Numeric {
 	if sValue == JSON_NAN {
 		return NAN
 	}
-	iValue, _ := strconv.ParseInt(sValue, 10, 64)
+	iValue, err := strconv.ParseInt(sValue, 10, 64)
 	dValue, _ := strconv.ParseFloat(sValue, 64)
+	if err != nil {
+		iValue = int64(dValue)
+	}
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNull}
 }
 
-- 
2.43.0


From e9f347e4e3362d6dd84c7e23001446f21a39708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:02 +0000
Subject: [PATCH 061/106] fix: generated structs compare by their fields'
 values

---
 lib/go/src/thrift/ttype.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 2b05482..21096be 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -22,6 +22,7 @@ package thrift
 import (
 	"bytes"
 	"container/list"
+	"reflect"
 	"strconv"
 )
 
@@ -407,8 +408,7 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 			return cmp, ok
 		}
 		for field := range si.TStructFields().Iter() {
-			a := si.AttributeFromFieldId(field.Id())
-			b := sj.AttributeFromFieldId(field.Id())
+			a, b := attributesByFieldId(si, sj, field.Id())
 			if cmp, ok := field.TypeId().Compare(a, b); !ok || cmp != 0 {
 				return cmp, ok
 			}
@@ -496,6 +496,28 @@ func (p TType) sortedElems(m TMap) (keys, values []interface{}) {
 	return keys, values
 }
 
+// attributesByFieldId returns the values of a field in two structs. Generated structs
+// define AttributeByFieldId; what they inherit from tStruct knows no values.
+func attributesByFieldId(si, sj TStruct, id int) (interface{}, interface{}) {
+	gi, iok := si.(iAttributes)
+	gj, jok := sj.(iAttributes)
+	if !iok || !jok {
+		return si.AttributeFromFieldId(id), sj.AttributeFromFieldId(id)
+	}
+	a, b := gi.AttributeByFieldId(id), gj.AttributeByFieldId(id)
+	if v := reflect.ValueOf(a); v.Kind() == reflect.Ptr && v.IsNil() {
+		a = nil
+	}
+	if v := reflect.ValueOf(b); v.Kind() == reflect.Ptr && v.IsNil() {
+		b = nil
+	}
+	return a, b
+}
+
+type iAttributes interface {
+	AttributeByFieldId(id int) interface{}
+}
+
 func (p TType) CompareValueArrays(li, lj []interface{}) (int, bool) {
 	size := len(li)
 	if cmp := CompareInt(size, len(lj)); cmp != 0 {
-- 
2.43.0


From 6ba649512db0948e9d74b7cb97e30817d4846380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:05 +0000
Subject: [PATCH 062/106] fix: TApplicationException.Write reports that its
 struct could not be begun

---
 lib/go/src/thrift/tapplication_exception.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tapplication_exception.go b/lib/go/src/thrift/tapplication_exception.go
index 21d38cd..42e00e4 100644
--- a/lib/go/src/thrift/tapplication_exception.go
+++ b/lib/go/src/thrift/tapplication_exception.go
@@ -139,6 +139,9 @@ func (p *tApplicationException) Read(iprot TProtocol) (error TApplicationExcepti
 
 func (p *tApplicationException) Write(oprot TProtocol) (err error) {
 	err = oprot.WriteStructBegin("TApplicationException")
+	if err != nil {
+		return
+	}
 	if len(p.Error()) > 0 {
 		err = oprot.WriteFieldBegin("message", STRING, 1)
 		if err != nil {
-- 
2.43.0


From 1cc4aae99ca3dcc9859a4f626e373871aa12cd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:07 +0000
Subject: [PATCH 063/106] fix: numbers in messages are decimal, not characters

---
 lib/go/src/thrift/tbinary_protocol.go    | 3 ++-
 lib/go/src/thrift/tcompact_protocol.go   | 3 ++-
 lib/go/src/thrift/tfield.go              | 3 ++-
 lib/go/src/thrift/tframed_transport.go   | 3 ++-
 lib/go/src/thrift/tmessage.go            | 6 +++++-
 lib/go/src/thrift/tprotocol_exception.go | 5 +++--
 6 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/lib/go/src/thrift/tbinary_protocol.go b/lib/go/src/thrift/tbinary_protocol.go
index ed26f6d..d362766 100644
--- a/lib/go/src/thrift/tbinary_protocol.go
+++ b/lib/go/src/thrift/tbinary_protocol.go
@@ -23,6 +23,7 @@ import (
 	"encoding/binary"
 	"io"
 	"math"
+	"strconv"
 	"strings"
 )
 
@@ -486,7 +487,7 @@ func (p *TBinaryProtocol) checkReadLength(length int) TProtocolException {
 	if p._CheckReadLength {
 		p._ReadLength = p._ReadLength - length
 		if p._ReadLength < 0 {
-			return NewTProtocolException(UNKNOWN_PROTOCOL_EXCEPTION, "Message length exceeded: "+string(length))
+			return NewTProtocolException(UNKNOWN_PROTOCOL_EXCEPTION, "Message length exceeded: "+strconv.Itoa(int(length)))
 		}
 	}
 	return nil
diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 5f2a94b..0bde659 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -23,6 +23,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"math"
+	"strconv"
 	"strings"
 )
 
@@ -862,7 +863,7 @@ func (p *TCompactProtocol) getTType(t TCompactType) (TType, error) {
 	case COMPACT_STRUCT:
 		return STRUCT, nil
 	}
-	return STOP, NewTException("don't know what type: " + string(t&0x0f))
+	return STOP, NewTException("don't know what type: " + strconv.Itoa(int(t&0x0f)))
 }
 
 /**
diff --git a/lib/go/src/thrift/tfield.go b/lib/go/src/thrift/tfield.go
index 3fbed4a..42ab492 100644
--- a/lib/go/src/thrift/tfield.go
+++ b/lib/go/src/thrift/tfield.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"sort"
+	"strconv"
 )
 
 /**
@@ -75,7 +76,7 @@ func (p *tField) String() string {
 	if p == nil {
 		return "<nil>"
 	}
-	return "<TField name:'" + p.name + "' type:" + string(p.typeId) + " field-id:" + string(p.id) + ">"
+	return "<TField name:'" + p.name + "' type:" + strconv.Itoa(int(p.typeId)) + " field-id:" + strconv.Itoa(p.id) + ">"
 }
 
 func (p *tField) CompareTo(other interface{}) (int, bool) {
diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index 2a8a477..d66edb8 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -22,6 +22,7 @@ package thrift
 import (
 	"bytes"
 	"encoding/binary"
+	"strconv"
 )
 
 type TFramedTransport struct {
@@ -120,7 +121,7 @@ func (p *TFramedTransport) readFrame() (int, error) {
 	size := int(binary.BigEndian.Uint32(buf))
 	if size < 0 {
 		// TODO(pomack) log error
-		return 0, NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "Read a negative frame size ("+string(size)+")")
+		return 0, NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "Read a negative frame size ("+strconv.Itoa(size)+")")
 	}
 	if size == 0 {
 		return 0, nil
diff --git a/lib/go/src/thrift/tmessage.go b/lib/go/src/thrift/tmessage.go
index caca516..02c3337 100644
--- a/lib/go/src/thrift/tmessage.go
+++ b/lib/go/src/thrift/tmessage.go
@@ -19,6 +19,10 @@
 
 package thrift
 
+import (
+	"strconv"
+)
+
 /**
  * Helper class that encapsulates struct metadata.
  *
@@ -56,7 +60,7 @@ func (p *tMessage) SeqId() int {
 }
 
 func (p *tMessage) String() string {
-	return "<TMessage name:'" + p.name + "' type: " + string(p.typeId) + " seqid:" + string(p.seqid) + ">"
+	return "<TMessage name:'" + p.name + "' type: " + strconv.Itoa(int(p.typeId)) + " seqid:" + strconv.Itoa(p.seqid) + ">"
 }
 
 func (p *tMessage) Equals(other TMessage) bool {
diff --git a/lib/go/src/thrift/tprotocol_exception.go b/lib/go/src/thrift/tprotocol_exception.go
index d023fb7..6c46385 100644
--- a/lib/go/src/thrift/tprotocol_exception.go
+++ b/lib/go/src/thrift/tprotocol_exception.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"encoding/base64"
+	"strconv"
 )
 
 /**
@@ -79,7 +80,7 @@ func NewTProtocolExceptionReadField(fieldId int, fieldName string, structName st
 	if t == UNKNOWN_PROTOCOL_EXCEPTION {
 		t = INVALID_DATA
 	}
-	return NewTProtocolException(t, "Unable to read field "+string(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
+	return NewTProtocolException(t, "Unable to read field "+strconv.Itoa(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
 }
 
 func NewTProtocolExceptionWriteField(fieldId int, fieldName string, structName string, e TProtocolException) TProtocolException {
@@ -87,7 +88,7 @@ func NewTProtocolExceptionWriteField(fieldId int, fieldName string, structName s
 	if t == UNKNOWN_PROTOCOL_EXCEPTION {
 		t = INVALID_DATA
 	}
-	return NewTProtocolException(t, "Unable to write field "+string(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
+	return NewTProtocolException(t, "Unable to write field "+strconv.Itoa(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
 }
 
 func NewTProtocolExceptionReadStruct(structName string, e TProtocolException) TProtocolException {
-- 
2.43.0


From e020acd32c066822b791b1bafb173225c7e4fd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:34 +0000
Subject: [PATCH 064/106] fix: the kind of a transport exception does not
 become a protocol exception's, nor the reverse

---
 lib/go/src/thrift/tprotocol_exception.go  | 5 ++++-
 lib/go/src/thrift/ttransport_exception.go | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tprotocol_exception.go b/lib/go/src/thrift/tprotocol_exception.go
index 6c46385..30159cf 100644
--- a/lib/go/src/thrift/tprotocol_exception.go
+++ b/lib/go/src/thrift/tprotocol_exception.go
@@ -111,6 +111,9 @@ func NewTProtocolExceptionFromOsError(e error) TProtocolException {
 	if e == nil {
 		return nil
 	}
+	if te, ok := e.(*tTransportException); ok { // (has the methods of a TProtocolException too)
+		return NewTProtocolExceptionFromTransportException(te)
+	}
 	if t, ok := e.(TProtocolException); ok {
 		return t
 	}
@@ -127,7 +130,7 @@ func NewTProtocolExceptionFromTransportException(e TTransportException) TProtoco
 	if e == nil {
 		return nil
 	}
-	if t, ok := e.(TProtocolException); ok {
+	if t, ok := e.(*tProtocolException); ok {
 		return t
 	}
 	return NewTProtocolExceptionDefaultString(e.Error())
diff --git a/lib/go/src/thrift/ttransport_exception.go b/lib/go/src/thrift/ttransport_exception.go
index 9450c99..a1c1927 100644
--- a/lib/go/src/thrift/ttransport_exception.go
+++ b/lib/go/src/thrift/ttransport_exception.go
@@ -73,6 +73,9 @@ func NewTTransportExceptionFromOsError(e error) TTransportException {
 	if e == nil {
 		return nil
 	}
+	if pe, ok := e.(*tProtocolException); ok { // (has the methods of a TTransportException too)
+		return NewTTransportExceptionDefaultString(pe.Error())
+	}
 	t, ok := e.(TTransportException)
 	if ok {
 		return t
-- 
2.43.0


From d8b59e05ca7f34f95f4410903433e2e5892860ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:32 +0000
Subject: [PATCH 065/106] fix: a stopped server ends a connection on the first
 error too

---
 lib/go/src/thrift/tnonblocking_server.go | 6 ++----
 lib/go/src/thrift/tsimple_server.go      | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_server.go b/lib/go/src/thrift/tnonblocking_server.go
index 399cfe4..e90f5d2 100644
--- a/lib/go/src/thrift/tnonblocking_server.go
+++ b/lib/go/src/thrift/tnonblocking_server.go
@@ -163,10 +163,8 @@ func (p *TNonblockingServer) processRequest(client TTransport) {
 	for {
 		ok, e := processor.Process(inputProtocol, outputProtocol)
 		if e != nil {
-			if !p.stopped {
-				// TODO(pomack) log error
-				break
-			}
+			// TODO(pomack) log error
+			break
 		}
 		if !ok {
 			break
diff --git a/lib/go/src/thrift/tsimple_server.go b/lib/go/src/thrift/tsimple_server.go
index 70a9916..e56a881 100644
--- a/lib/go/src/thrift/tsimple_server.go
+++ b/lib/go/src/thrift/tsimple_server.go
@@ -149,10 +149,8 @@ func (p *TSimpleServer) processRequest(client TTransport) {
 	for {
 		ok, e := processor.Process(inputProtocol, outputProtocol)
 		if e != nil {
-			if !p.stopped {
-				// TODO(pomack) log error
-				break
-			}
+			// TODO(pomack) log error
+			break
 		}
 		if !ok {
 			break
-- 
2.43.0


From f44dca1bac2bd230234a70846c62414400a5d63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:35 +0000
Subject: [PATCH 066/106] fix: a server can serve a TNonblockingServerSocket
 that has its listener already

---
 lib/go/src/thrift/tnonblocking_server_socket.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tnonblocking_server_socket.go b/lib/go/src/thrift/tnonblocking_server_socket.go
index e38535d..1550ce1 100644
--- a/lib/go/src/thrift/tnonblocking_server_socket.go
+++ b/lib/go/src/thrift/tnonblocking_server_socket.go
@@ -71,6 +71,9 @@ func NewTNonblockingServerSocketAddrTimeout(addr net.Addr, nsecTimeout int64) (*
 }
 
 func (p *TNonblockingServerSocket) Listen() error {
+	if p.IsOpen() {
+		return nil
+	}
 	return p.Open()
 }
 
-- 
2.43.0


From e901d65438cc043f822415b4e21cdb301b2530ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:38 +0000
Subject: [PATCH 067/106] fix: a stopped TServerSocket does not listen again to
 accept one more connection

---
 lib/go/src/thrift/tserver_socket.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/go/src/thrift/tserver_socket.go b/lib/go/src/thrift/tserver_socket.go
index b750284..7bb343f 100644
--- a/lib/go/src/thrift/tserver_socket.go
+++ b/lib/go/src/thrift/tserver_socket.go
@@ -42,6 +42,11 @@ type TServerSocket struct {
 	 * Client timeout in nanoseconds
 	 */
 	nsecClientTimeout int64
+
+	/**
+	 * Whether Interrupt closed the socket: Accept does not listen again then
+	 */
+	interrupted bool
 }
 
 type TServerSocketTransportFactory struct {
@@ -84,6 +89,7 @@ func NewTServerSocketAddrTimeout(addr net.Addr, nsecClientTimeout int64) (*TServ
 }
 
 func (p *TServerSocket) Listen() (err error) {
+	p.interrupted = false
 	if p.listener == nil {
 		if p.listener, err = net.Listen("tcp", p.addr.String()); err != nil {
 			return err
@@ -94,6 +100,9 @@ func (p *TServerSocket) Listen() (err error) {
 
 func (p *TServerSocket) Accept() (TTransport, error) {
 	if p.listener == nil {
+		if p.interrupted {
+			return nil, NewTTransportException(NOT_OPEN, "Server socket interrupted")
+		}
 		if err := p.Listen(); err != nil {
 			return nil, NewTTransportExceptionFromOsError(err)
 		}
@@ -125,6 +134,7 @@ func (p *TServerSocket) Open() error {
 			return err
 		}
 		p.listener = l
+		p.interrupted = false
 		return nil
 	}
 	return NewTTransportException(ALREADY_OPEN, "Server socket already open")
@@ -185,6 +195,7 @@ func (p *TServerSocket) Close() (err error) {
 }
 
 func (p *TServerSocket) Interrupt() error {
+	p.interrupted = true
 	// TODO(pomack) fix Interrupt as it is probably not right
 	return NewTTransportExceptionFromOsError(p.Close())
 }
-- 
2.43.0


From 7934ad5486471aaa65005ccf2c8d7d785ffef6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:59 +0000
Subject: [PATCH 068/106] fix: a THttpClient that is closed or only gets
 refuses writes and flushes

---
 lib/go/src/thrift/thttp_client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index ddbc74e..c8d0a27 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -127,11 +127,17 @@ func (p *THttpClient) ReadAll(buf []byte) (int, error) {
 }
 
 func (p *THttpClient) Write(buf []byte) (int, error) {
+	if p.requestBuffer == nil {
+		return 0, NewTTransportException(NOT_OPEN, "Request buffer is closed, or the client cannot post.")
+	}
 	n, err := p.requestBuffer.Write(buf)
 	return n, err
 }
 
 func (p *THttpClient) Flush() error {
+	if p.requestBuffer == nil {
+		return NewTTransportException(NOT_OPEN, "Request buffer is closed, or the client cannot post.")
+	}
 	response, err := http.Post(p.url.String(), "application/x-thrift", p.requestBuffer)
 	if err != nil {
 		return NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From d433afd19839fcc9b3fcec8caaf766b0d346c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:02 +0000
Subject: [PATCH 069/106] fix: closing a THttpClient that has a response drops
 its request too

---
 lib/go/src/thrift/thttp_client.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index c8d0a27..feaea41 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -102,16 +102,20 @@ func (p *THttpClient) Peek() bool {
 }
 
 func (p *THttpClient) Close() error {
-	if p.response != nil && p.response.Body != nil {
-		err := p.response.Body.Close()
-		p.response = nil
-		return err
-	}
+	err := p.closeResponse()
 	if p.requestBuffer != nil {
 		p.requestBuffer.Reset()
 		p.requestBuffer = nil
 	}
-	return nil
+	return err
+}
+
+func (p *THttpClient) closeResponse() (err error) {
+	if p.response != nil && p.response.Body != nil {
+		err = p.response.Body.Close()
+		p.response = nil
+	}
+	return err
 }
 
 func (p *THttpClient) Read(buf []byte) (int, error) {
-- 
2.43.0


From f9004b2a5fc8edf78de9ae02b759b2ebd6a84804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:05 +0000
Subject: [PATCH 070/106] fix: THttpClient drops the response to the previous
 request when it posts another

---
 lib/go/src/thrift/thttp_client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index feaea41..97af034 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -142,6 +142,7 @@ func (p *THttpClient) Flush() error {
 	if p.requestBuffer == nil {
 		return NewTTransportException(NOT_OPEN, "Request buffer is closed, or the client cannot post.")
 	}
+	p.closeResponse()
 	response, err := http.Post(p.url.String(), "application/x-thrift", p.requestBuffer)
 	if err != nil {
 		return NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From 0020c4175c07164352a98ecc1c09401aea559014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:08 +0000
Subject: [PATCH 071/106] fix: THttpClient does not send what a failed request
 left with the next one

---
 lib/go/src/thrift/thttp_client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index 97af034..97efe48 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -143,7 +143,10 @@ func (p *THttpClient) Flush() error {
 		return NewTTransportException(NOT_OPEN, "Request buffer is closed, or the client cannot post.")
 	}
 	p.closeResponse()
-	response, err := http.Post(p.url.String(), "application/x-thrift", p.requestBuffer)
+	// (a request that fails may leave some of its body unread)
+	body := p.requestBuffer
+	p.requestBuffer = bytes.NewBuffer(make([]byte, 0, 1024))
+	response, err := http.Post(p.url.String(), "application/x-thrift", body)
 	if err != nil {
 		return NewTTransportExceptionFromOsError(err)
 	}
-- 
2.43.0


From f78319cd6800efba51e46a43f44c5de90478719e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:11 +0000
Subject: [PATCH 072/106] fix: THttpClient refuses responses other than OK to
 its GET, and closes what it refuses

---
 lib/go/src/thrift/thttp_client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index 97efe48..d73b752 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -76,6 +76,10 @@ func NewTHttpClient(urlstr string) (TTransport, error) {
 	if err != nil {
 		return nil, err
 	}
+	if response.StatusCode != http.StatusOK {
+		response.Body.Close()
+		return nil, NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "HTTP Response code: "+strconv.Itoa(response.StatusCode))
+	}
 	return &THttpClient{response: response, url: parsedURL}, nil
 }
 
@@ -152,6 +156,7 @@ func (p *THttpClient) Flush() error {
 	}
 	if response.StatusCode != http.StatusOK {
 		// TODO(pomack) log bad response
+		response.Body.Close()
 		return NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "HTTP Response code: "+strconv.Itoa(response.StatusCode))
 	}
 	p.response = response
-- 
2.43.0


From a1edf06623c9e0253d5c53f305072773113e474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:09 +0000
Subject: [PATCH 073/106] fix: lists tell generated structs apart by their
 fields' values

---
 lib/go/src/thrift/tlist.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index 19256ad..bdfd0b9 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -174,6 +174,14 @@ func (p *tList) indexOf(data interface{}) int {
 		}
 		return -1
 	}
+	if p.elemType == STRUCT { // (generated structs inherit an Equals that knows no values)
+		for i := 0; i < size; i++ {
+			if cmp, ok := p.elemType.Compare(data, p.l[i]); ok && cmp == 0 {
+				return i
+			}
+		}
+		return -1
+	}
 	if cmp, ok := data.(EqualsOtherInterface); ok {
 		for i := 0; i < size; i++ {
 			if cmp.Equals(p.l[i]) {
-- 
2.43.0


From c220b9219242ae5f0b9b1cfd02a3484761f84e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:09 +0000
Subject: [PATCH 074/106] fix: sets tell generated structs apart by their
 fields' values

---
 lib/go/src/thrift/tset.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index 5e792c4..9d2759f 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -145,6 +145,14 @@ func (p *tSet) find(data interface{}) *list.Element {
 		}
 		return nil
 	}
+	if p.elemType == STRUCT { // (generated structs inherit an Equals that knows no values)
+		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
+			if cmp, ok := p.elemType.Compare(data, elem.Value); ok && cmp == 0 {
+				return elem
+			}
+		}
+		return nil
+	}
 	if cmp, ok := data.(EqualsOtherInterface); ok {
 		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
 			if cmp.Equals(elem.Value) {
-- 
2.43.0


From 86109ad98fa18806e964b058183eaad0dab4a05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:09 +0000
Subject: [PATCH 075/106] fix: maps tell generated structs apart by their
 fields' values

---
 lib/go/src/thrift/tmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index c0bd7d4..08d5aac 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -235,7 +235,7 @@ func (p *tMap) Get(key interface{}) (interface{}, bool) {
 			}
 			structkey, ok := k.(TStruct)
 			if ok {
-				if structkey.Equals(useKey.(TStruct)) {
+				if cmp, ok := p.KeyType().Compare(structkey, useKey); ok && cmp == 0 {
 					return e.Value(), true
 				}
 				continue
@@ -498,7 +498,7 @@ func (p *tMap) Contains(key interface{}) bool {
 			}
 			structkey, ok := k.(TStruct)
 			if ok {
-				if structkey.Equals(coercedKey.(TStruct)) {
+				if cmp, ok := p.KeyType().Compare(structkey, coercedKey); ok && cmp == 0 {
 					return true
 				}
 				continue
-- 
2.43.0


From faab799cf3a382142c8d2fffe58d268fbfa8f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:57 +0000
Subject: [PATCH 076/106] fix: services that extend another get their imports
 where Go allows them

---
 compiler/cpp/src/generate/t_go_generator.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index eafbb71..5cf4e77 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -203,6 +203,7 @@ public:
     std::string go_autogen_comment();
     std::string go_package();
     std::string go_imports();
+    std::string go_unused();
     std::string render_includes();
     std::string render_fastbinary_includes();
     std::string declare_argument(t_field* tfield);
@@ -476,6 +477,7 @@ void t_go_generator::init_generator()
              go_package() <<
              go_imports() <<
              render_includes() <<
+             go_unused() <<
              render_fastbinary_includes() << endl << endl;
 }
 
@@ -537,8 +539,16 @@ string t_go_generator::go_imports()
                "\t\"fmt\"\n"
                "\t\"math\"\n"
                "\t\"thrift\"\n"
-               ")\n\n"
-               "// This is a temporary safety measure to ensure that the `math'\n"
+               ")\n\n");
+}
+
+/**
+ * Prints what keeps the standard imports in use
+ */
+string t_go_generator::go_unused()
+{
+    return
+        string("// This is a temporary safety measure to ensure that the `math'\n"
                "// import does not trip up any generated output that may not\n"
                "// happen to use the math import due to not having emited enums.\n"
                "//\n"
@@ -1408,7 +1418,7 @@ void t_go_generator::generate_service(t_service* tservice)
                go_package() <<
                go_imports();
 
-    if (tservice->get_extends() != NULL) {
+    if (tservice->get_extends() != NULL && tservice->get_extends()->get_program() != program_) {
         f_service_ <<
                    "import \"" << get_real_go_module(tservice->get_extends()->get_program()) << "\"" << endl;
     }
@@ -1417,6 +1427,7 @@ void t_go_generator::generate_service(t_service* tservice)
                //             "import (" << endl <<
                // indent() << "        \"os\"" << endl <<
                // indent() << ")" << endl << endl <<
+               go_unused() <<
                render_fastbinary_includes();
     f_service_ << endl;
     generate_service_interface(tservice);
@@ -3186,7 +3197,7 @@ string t_go_generator::type_name(t_type* ttype)
 {
     t_program* program = ttype->get_program();
 
-    if (ttype->is_service()) {
+    if (ttype->is_service() && program != program_) {
         return get_real_go_module(program) + "." + ttype->get_name();
     }
 
-- 
2.43.0


From 67ca4ab04ae2f31a77bcfea6a72ee4a4ed1211e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:02 +0000
Subject: [PATCH 077/106] fix: default values of containers and structs are set
 in the field they are for

---
 compiler/cpp/src/generate/t_go_generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 5cf4e77..f01cf11 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -963,7 +963,7 @@ void t_go_generator::generate_go_struct_definition(ofstream& out,
         const bool type_is_enum = type->is_enum();
 
         if (has_default_value) {
-            out << indent() << full_field_name << " = " << render_field_default_value(*m_iter, base_field_name) << endl;
+            out << indent() << full_field_name << " = " << render_field_default_value(*m_iter, full_field_name) << endl;
         } else if (type_is_enum) {
             out << indent() << full_field_name << " = math.MinInt32 - 1" << endl;
         }
-- 
2.43.0


From 6a531858ebc69855e86f63a2a4c22258535e1598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:37 +0000
Subject: [PATCH 078/106] fix: the command-line client that is generated
 compiles, whatever types the arguments have

---
 compiler/cpp/src/generate/t_go_generator.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index f01cf11..a48e82f 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1824,7 +1824,6 @@ void t_go_generator::generate_service_remote(t_service* tservice)
              indent() << "import (" << endl <<
              indent() << "        \"flag\"" << endl <<
              indent() << "        \"fmt\"" << endl <<
-             indent() << "        \"math\"" << endl <<
              indent() << "        \"net\"" << endl <<
              indent() << "        \"net/url\"" << endl <<
              indent() << "        \"os\"" << endl <<
@@ -1833,6 +1832,9 @@ void t_go_generator::generate_service_remote(t_service* tservice)
              indent() << "        \"" << service_module << "\"" << endl <<
              indent() << ")" << endl <<
              indent() << endl <<
+             indent() << "// Not every service has functions with numbers to parse." << endl <<
+             indent() << "var _ = strconv.Atoi" << endl <<
+             indent() << endl <<
              indent() << "func Usage() {" << endl <<
              indent() << "  fmt.Fprint(os.Stderr, \"Usage of \", os.Args[0], \" [-h host:port] [-u url] [-f[ramed]] function [arg1 [arg2...]]:\\n\")" << endl <<
              indent() << "  flag.PrintDefaults()" << endl <<
@@ -1979,8 +1981,14 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                     break;
 
                 case t_base_type::TYPE_STRING:
-                    f_remote <<
-                             indent() << "argvalue" << i << " := flag.Arg(" << flagArg << ")" << endl;
+                    if (((t_base_type*)the_type2)->is_binary()) {
+                        f_remote <<
+                                 indent() << "argvalue" << i << " := []byte(flag.Arg(" << flagArg << "))" << endl;
+                    } else {
+                        f_remote <<
+                                 indent() << "argvalue" << i << " := flag.Arg(" << flagArg << ")" << endl;
+                    }
+
                     break;
 
                 case t_base_type::TYPE_BOOL:
@@ -2005,7 +2013,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                              indent() << "  Usage()" << endl <<
                              indent() << "  return" << endl <<
                              indent() << "}" << endl <<
-                             indent() << "argvalue" << i << " := byte(tmp" << i << ")" << endl;
+                             indent() << "argvalue" << i << " := int16(tmp" << i << ")" << endl;
                     break;
 
                 case t_base_type::TYPE_I32:
-- 
2.43.0


From 38b9601cff1a88ff879c18e8be8800abb1ba637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:37 +0000
Subject: [PATCH 079/106] fix: the command-line client that is generated reads
 container arguments by their ids and names

---
 compiler/cpp/src/generate/t_go_generator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index a48e82f..f690e9c 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2081,7 +2081,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                 string factory(tmp("factory"));
                 string jsProt(tmp("jsProt"));
                 string err2(tmp("err"));
-                std::string argName(publicize(args[i]->get_name()));
+                std::string argName(publicize(variable_name_to_go_name(args[i]->get_name())));
                 f_remote <<
                          indent() << arg << " := flag.Arg(" << flagArg << ")" << endl <<
                          indent() << mbTrans << " := thrift.NewTMemoryBufferLen(len(" << arg << "))" << endl <<
@@ -2094,7 +2094,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                          indent() << factory << " := thrift.NewTSimpleJSONProtocolFactory()" << endl <<
                          indent() << jsProt << " := " << factory << ".GetProtocol(" << mbTrans << ")" << endl <<
                          indent() << "containerStruct" << i << " := " << package_name_ << ".New" << pubName << "Args()" << endl <<
-                         indent() << err2 << " := containerStruct" << i << ".ReadField" << (i + 1) << "(" << jsProt << ")" << endl <<
+                         indent() << err2 << " := containerStruct" << i << ".ReadField" << args[i]->get_key() << "(" << jsProt << ")" << endl <<
                          indent() << "if " << err2 << " != nil {" << endl <<
                          indent() << "  Usage()" << endl <<
                          indent() << "  return" << endl <<
-- 
2.43.0


From b683cb558b6f9378e978d34054f62d46655f6e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:14 +0000
Subject: [PATCH 080/106] fix: what is generated for programs without structs
 and services without functions compiles

---
 compiler/cpp/src/generate/t_go_generator.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index f690e9c..13ee439 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -556,7 +556,10 @@ string t_go_generator::go_unused()
                "func init() {\n"
                "\tvar temporaryAndUnused int32 = math.MinInt32\n"
                "\ttemporaryAndUnused++\n"
-               "}\n\n");
+               "}\n\n"
+               "// Programs without structs use neither of these.\n"
+               "var _ = fmt.Sprintf\n"
+               "var _ thrift.TType\n\n");
 }
 
 /**
@@ -1941,6 +1944,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
              indent() << "  os.Exit(1)" << endl <<
              indent() << "}" << endl <<
              indent() << endl <<
+             indent() << "_ = client" << endl <<
              indent() << "switch cmd {" << endl;
 
     for (f_iter = functions.begin(); f_iter != functions.end(); ++f_iter) {
-- 
2.43.0


From 0cf3e7fe026cd93acd02b0afa56c72f2fd18cdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:22 +0000
Subject: [PATCH 081/106] fix: constants of container types are exported

---
 compiler/cpp/src/generate/t_go_generator.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 13ee439..bdabd5a 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -667,7 +667,13 @@ void t_go_generator::generate_enum(t_enum* tenum)
 void t_go_generator::generate_const(t_const* tconst)
 {
     t_type* type = tconst->get_type();
-    string name = publicize(type->get_name()) + "_" + publicize(tconst->get_name());
+    string name = publicize(tconst->get_name());
+
+    // (containers have no name)
+    if (!type->get_name().empty()) {
+        name = publicize(type->get_name()) + "_" + name;
+    }
+
     t_const_value* value = tconst->get_value();
 
     if (type->is_base_type() || type->is_enum()) {
-- 
2.43.0


From 4c3eb0062d230118dd6d59a7e5f5619ac40695a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:26 +0000
Subject: [PATCH 082/106] fix: generated structs skip fields of another type
 than declared

---
 compiler/cpp/src/generate/t_go_generator.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index bdabd5a..858a0db 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1214,19 +1214,17 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
         indent_up();
         thriftFieldTypeId = type_to_enum((*f_iter)->get_type());
 
+        // (most wire formats do not tell binary from string)
         if (thriftFieldTypeId == "thrift.BINARY") {
-            thriftFieldTypeId = "thrift.STRING";
+            thriftFieldTypeId += " || fieldTypeId == thrift.STRING";
         }
 
         out <<
             indent() << "if fieldTypeId == " << thriftFieldTypeId << " {" << endl <<
             indent() << "  err = p.ReadField" << field_id << "(iprot)" << endl <<
             indent() << "  if err != nil { return thrift.NewTProtocolExceptionReadField(int(fieldId), fieldName, p.ThriftName(), err); }" << endl <<
-            indent() << "} else if fieldTypeId == thrift.VOID {" << endl <<
-            indent() << "  err = iprot.Skip(fieldTypeId)" << endl <<
-            indent() << "  if err != nil { return thrift.NewTProtocolExceptionReadField(int(fieldId), fieldName, p.ThriftName(), err); }" << endl <<
             indent() << "} else {" << endl <<
-            indent() << "  err = p.ReadField" << field_id << "(iprot)" << endl <<
+            indent() << "  err = iprot.Skip(fieldTypeId)" << endl <<
             indent() << "  if err != nil { return thrift.NewTProtocolExceptionReadField(int(fieldId), fieldName, p.ThriftName(), err); }" << endl <<
             indent() << "}" << endl;
         indent_down();
-- 
2.43.0


From 2387922c68fbaa2e0721ebf4a12c6917bd3f8181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:02 +0000
Subject: [PATCH 083/106] fix: containers of enums, typedefs and binary values
 can be written as they were read

---
 compiler/cpp/src/generate/t_go_generator.cc | 48 ++++++++++++---------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 858a0db..3a79ef5 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -214,6 +214,7 @@ public:
     std::string argument_list(t_struct* tstruct);
     std::string type_to_enum(t_type* ttype);
     std::string type_to_go_type(t_type* ttype);
+    std::string type_to_go_element_type(t_type* ttype);
     std::string type_to_spec_args(t_type* ttype);
 
     static std::string get_real_go_module(const t_program* program) {
@@ -2570,11 +2571,8 @@ void t_go_generator::generate_deserialize_field(ofstream &out,
             "\", " << structName << ", " << err2 << "); }" << endl;
 
         if (!prefix.size() || prefix.find(".") == string::npos) {
-            if (type->is_enum() || orig_type->is_typedef()) {
-                indent(out) << name << " := " << publicize(orig_type->get_name()) << "(" << v << ")" << endl;
-            } else {
-                indent(out) << name << " := " << v << endl;
-            }
+            // (containers hold the values of base types)
+            indent(out) << name << " := " << v << endl;
         } else {
             if (type->is_enum() || orig_type->is_typedef()) {
                 indent(out) << name << " = " << publicize(orig_type->get_name()) << "(" << v << ")" << endl;
@@ -2622,13 +2620,7 @@ void t_go_generator::generate_deserialize_container(ofstream &out,
         string err)
 {
     string size = tmp("_size");
-    string ktype = tmp("_ktype");
-    string vtype = tmp("_vtype");
-    string etype = tmp("_etype");
     t_field fsize(g_type_i32, size);
-    t_field fktype(g_type_byte, ktype);
-    t_field fvtype(g_type_byte, vtype);
-    t_field fetype(g_type_byte, etype);
     string eq(" = ");
 
     if (declare) {
@@ -2638,34 +2630,34 @@ void t_go_generator::generate_deserialize_container(ofstream &out,
     // Declare variables, read header
     if (ttype->is_map()) {
         out <<
-            indent() << ktype << ", " << vtype << ", " << size << ", " << err << " := iprot.ReadMapBegin()" << endl <<
+            indent() << "_, _, " << size << ", " << err << " := iprot.ReadMapBegin()" << endl <<
             indent() << "if " << err << " != nil {" << endl <<
             indent() << "  return thrift.NewTProtocolExceptionReadField(" <<
             -1 << ", \"" <<
             escape_string(prefix) << "\", \"\", " <<
             err << ")" << endl <<
             indent() << "}" << endl <<
-            indent() << prefix << eq << "thrift.NewTMap(" << ktype << ", " << vtype << ", " << size << ")" << endl;
+            indent() << prefix << eq << "thrift.NewTMap(" << type_to_enum(((t_map*)ttype)->get_key_type()) << ", " << type_to_enum(((t_map*)ttype)->get_val_type()) << ", " << size << ")" << endl;
     } else if (ttype->is_set()) {
         out <<
-            indent() << etype << ", " << size << ", " << err << " := iprot.ReadSetBegin()" << endl <<
+            indent() << "_, " << size << ", " << err << " := iprot.ReadSetBegin()" << endl <<
             indent() << "if " << err << " != nil {" << endl <<
             indent() << "  return thrift.NewTProtocolExceptionReadField(" <<
             -1 << ", \"" <<
             escape_string(prefix) << "\", \"\", " <<
             err << ")" << endl <<
             indent() << "}" << endl <<
-            indent() << prefix << eq << "thrift.NewTSet(" << etype << ", " << size << ")" << endl;
+            indent() << prefix << eq << "thrift.NewTSet(" << type_to_enum(((t_set*)ttype)->get_elem_type()) << ", " << size << ")" << endl;
     } else if (ttype->is_list()) {
         out <<
-            indent() << etype << ", " << size << ", " << err << " := iprot.ReadListBegin()" << endl <<
+            indent() << "_, " << size << ", " << err << " := iprot.ReadListBegin()" << endl <<
             indent() << "if " << err << " != nil {" << endl <<
             indent() << "  return thrift.NewTProtocolExceptionReadField(" <<
             -1 << ", \"" <<
             escape_string(prefix) << "\", \"\", " <<
             err << ")" << endl <<
             indent() << "}" << endl <<
-            indent() << prefix << eq << "thrift.NewTList(" << etype << ", " << size << ")" << endl;
+            indent() << prefix << eq << "thrift.NewTList(" << type_to_enum(((t_list*)ttype)->get_elem_type()) << ", " << size << ")" << endl;
     } else {
         throw "INVALID TYPE IN generate_deserialize_container '" + ttype->get_name() + "' for prefix '" + prefix + "'";
     }
@@ -2920,7 +2912,7 @@ void t_go_generator::generate_serialize_container(ofstream &out,
         t_map* tmap = (t_map*)ttype;
         out <<
             indent() << "for " << miter << " := range " << prefix << ".Iter() {" << endl <<
-            indent() << "  " << kiter << ", " << viter << " := " << miter << ".Key().(" << type_to_go_type(tmap->get_key_type()) << "), " << miter << ".Value().(" << type_to_go_type(tmap->get_val_type()) << ")" << endl;
+            indent() << "  " << kiter << ", " << viter << " := " << miter << ".Key().(" << type_to_go_element_type(tmap->get_key_type()) << "), " << miter << ".Value().(" << type_to_go_element_type(tmap->get_val_type()) << ")" << endl;
         indent_up();
         generate_serialize_map_element(out, tmap, kiter, viter);
         indent_down();
@@ -2931,7 +2923,7 @@ void t_go_generator::generate_serialize_container(ofstream &out,
         string iter2 = tmp("Iter");
         out <<
             indent() << "for " << iter << " := " << prefix << ".Front(); " << iter << " != nil; " << iter << " = " << iter << ".Next() {" << endl <<
-            indent() << "  " << iter2 << " := " << iter << ".Value.(" << type_to_go_type(tset->get_elem_type()) << ")" << endl;
+            indent() << "  " << iter2 << " := " << iter << ".Value.(" << type_to_go_element_type(tset->get_elem_type()) << ")" << endl;
         indent_up();
         generate_serialize_set_element(out, tset, iter2);
         indent_down();
@@ -2942,7 +2934,7 @@ void t_go_generator::generate_serialize_container(ofstream &out,
         string iter2 = tmp("Iter");
         out <<
             indent() << "for " << iter << " := range " << prefix << ".Iter() {" << endl <<
-            indent() << "  " << iter2 << " := " << iter << ".(" << type_to_go_type(tlist->get_elem_type()) << ")" << endl;
+            indent() << "  " << iter2 << " := " << iter << ".(" << type_to_go_element_type(tlist->get_elem_type()) << ")" << endl;
         indent_up();
         generate_serialize_list_element(out, tlist, iter2);
         indent_down();
@@ -3344,6 +3336,22 @@ string t_go_generator::type_to_go_type(t_type* type)
 }
 
 
+/**
+ * The Go type of the elements of a container of this type: containers hold
+ * the values of base types, also for enums and typedefs
+ */
+string t_go_generator::type_to_go_element_type(t_type* type)
+{
+    t_type* true_type = get_true_type(type);
+
+    if (true_type->is_enum()) {
+        return "int32";
+    }
+
+    return type_to_go_type(true_type->is_base_type() ? true_type : type);
+}
+
+
 /**
  * Converts the parse type to a go tyoe
  */
-- 
2.43.0


From 6c73070e487bcd77a456edcb24c73d6514142345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:01 +0000
Subject: [PATCH 084/106] fix: fields declared without an id: what is generated
 compiles and reads them by their ids

---
 compiler/cpp/src/generate/t_go_generator.cc | 50 +++++++++++++--------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 3a79ef5..b1952c1 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -215,6 +215,7 @@ public:
     std::string type_to_enum(t_type* ttype);
     std::string type_to_go_type(t_type* ttype);
     std::string type_to_go_element_type(t_type* ttype);
+    std::string field_id_to_go_name(int32_t id);
     std::string type_to_spec_args(t_type* ttype);
 
     static std::string get_real_go_module(const t_program* program) {
@@ -911,8 +912,8 @@ void t_go_generator::generate_go_struct_definition(ofstream& out,
     // don't have thrift_spec.
     indent_up();
 
-    if (sorted_members.empty() || (sorted_members[0]->get_key() >= 0)) {
-        int sorted_keys_pos = 0;
+    {
+        int sorted_keys_pos = sorted_members.empty() ? 0 : std::min(0, sorted_members[0]->get_key());
 
         for (m_iter = sorted_members.begin(); m_iter != sorted_members.end(); ++m_iter) {
             for (; sorted_keys_pos != (*m_iter)->get_key(); sorted_keys_pos++) {
@@ -929,13 +930,6 @@ void t_go_generator::generate_go_struct_definition(ofstream& out,
                         << endl;
             sorted_keys_pos ++;
         }
-    } else {
-        for (m_iter = members.begin(); m_iter != members.end(); ++m_iter) {
-            // This fills in default values, as opposed to nulls
-            out <<
-                indent() << publicize((*m_iter)->get_name()) << " " <<
-                type_to_enum((*m_iter)->get_type()) << endl;
-        }
     }
 
     indent_down();
@@ -1181,7 +1175,7 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
     // Read beginning field marker
     out <<
         indent() << "fieldName, fieldTypeId, fieldId, err := iprot.ReadFieldBegin()" << endl <<
-        indent() << "if fieldId < 0 {" << endl <<
+        indent() << "if fieldId < 0 && fieldName != \"\" {" << endl <<
         indent() << "  fieldId = int16(p.FieldIdFromFieldName(fieldName))" << endl <<
         indent() << "} else if fieldName == \"\" {" << endl <<
         indent() << "  fieldName = p.FieldNameFromFieldId(int(fieldId))" << endl <<
@@ -1222,7 +1216,7 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
 
         out <<
             indent() << "if fieldTypeId == " << thriftFieldTypeId << " {" << endl <<
-            indent() << "  err = p.ReadField" << field_id << "(iprot)" << endl <<
+            indent() << "  err = p.ReadField" << field_id_to_go_name(field_id) << "(iprot)" << endl <<
             indent() << "  if err != nil { return thrift.NewTProtocolExceptionReadField(int(fieldId), fieldName, p.ThriftName(), err); }" << endl <<
             indent() << "} else {" << endl <<
             indent() << "  err = iprot.Skip(fieldTypeId)" << endl <<
@@ -1263,7 +1257,7 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
         string field_name(publicize((*f_iter)->get_name()));
         int32_t field_id = (*f_iter)->get_key();
         out <<
-            indent() << "func (p *" << tstruct_name << ") ReadField" << field_id << "(iprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
+            indent() << "func (p *" << tstruct_name << ") ReadField" << field_id_to_go_name(field_id) << "(iprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
         indent_up();
         generate_deserialize_field(out, *f_iter, false, "p.");
         indent_down();
@@ -1271,7 +1265,7 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
             indent() << "  return err" << endl <<
             indent() << "}" << endl << endl <<
             indent() << "func (p *" << tstruct_name << ") ReadField" << field_name << "(iprot thrift.TProtocol) (thrift.TProtocolException) {" << endl <<
-            indent() << "  return p.ReadField" << field_id << "(iprot)" << endl <<
+            indent() << "  return p.ReadField" << field_id_to_go_name(field_id) << "(iprot)" << endl <<
             indent() << "}" << endl << endl;
     }
 }
@@ -1310,13 +1304,13 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             if (can_be_nil((*fr_iter)->get_type()) && fieldId != 0) {
                 out <<
                     indent() << "case p." << publicize(variable_name_to_go_name(field_name)) << " != nil:" << endl <<
-                    indent() << "  if err = p.WriteField" << fieldId << "(oprot); err != nil {" << endl <<
+                    indent() << "  if err = p.WriteField" << field_id_to_go_name(fieldId) << "(oprot); err != nil {" << endl <<
                     indent() << "    return err" << endl <<
                     indent() << "  }" << endl;
             } else {
                 out <<
                     indent() << "default:" << endl <<
-                    indent() << "  if err = p.WriteField" << fieldId << "(oprot); err != nil {" << endl <<
+                    indent() << "  if err = p.WriteField" << field_id_to_go_name(fieldId) << "(oprot); err != nil {" << endl <<
                     indent() << "    return err" << endl <<
                     indent() << "  }" << endl;
             }
@@ -1330,7 +1324,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             escape_field_name = escape_string(field_name);
             fieldId = (*f_iter)->get_key();
             out <<
-                indent() << "err = p.WriteField" << fieldId << "(oprot)" << endl <<
+                indent() << "err = p.WriteField" << field_id_to_go_name(fieldId) << "(oprot)" << endl <<
                 indent() << "if err != nil { return err }" << endl;
         }
     }
@@ -1355,7 +1349,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
         field_required = (*f_iter)->get_req();
         field_can_be_nil = can_be_nil((*f_iter)->get_type());
         out <<
-            indent() << "func (p *" << tstruct_name << ") WriteField" << fieldId << "(oprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
+            indent() << "func (p *" << tstruct_name << ") WriteField" << field_id_to_go_name(fieldId) << "(oprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
         indent_up();
 
         // Write field header
@@ -1407,7 +1401,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             indent() << "  return err" << endl <<
             indent() << "}" << endl << endl <<
             indent() << "func (p *" << tstruct_name << ") WriteField" << publicize(field_name) << "(oprot thrift.TProtocol) (thrift.TProtocolException) {" << endl <<
-            indent() << "  return p.WriteField" << fieldId << "(oprot)" << endl <<
+            indent() << "  return p.WriteField" << field_id_to_go_name(fieldId) << "(oprot)" << endl <<
             indent() << "}" << endl << endl;
     }
 }
@@ -2103,7 +2097,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                          indent() << factory << " := thrift.NewTSimpleJSONProtocolFactory()" << endl <<
                          indent() << jsProt << " := " << factory << ".GetProtocol(" << mbTrans << ")" << endl <<
                          indent() << "containerStruct" << i << " := " << package_name_ << ".New" << pubName << "Args()" << endl <<
-                         indent() << err2 << " := containerStruct" << i << ".ReadField" << args[i]->get_key() << "(" << jsProt << ")" << endl <<
+                         indent() << err2 << " := containerStruct" << i << ".ReadField" << field_id_to_go_name(args[i]->get_key()) << "(" << jsProt << ")" << endl <<
                          indent() << "if " << err2 << " != nil {" << endl <<
                          indent() << "  Usage()" << endl <<
                          indent() << "  return" << endl <<
@@ -3352,6 +3346,24 @@ string t_go_generator::type_to_go_element_type(t_type* type)
 }
 
 
+/**
+ * The part of a Go name that stands for a field id: the ids of fields declared
+ * without one are negative
+ */
+string t_go_generator::field_id_to_go_name(int32_t id)
+{
+    std::ostringstream name;
+
+    if (id < 0) {
+        name << "Minus" << -id;
+    } else {
+        name << id;
+    }
+
+    return name.str();
+}
+
+
 /**
  * Converts the parse type to a go tyoe
  */
-- 
2.43.0


From 896809ea50abe01f97b0c9d27b6e677f9480b6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:21 +0000
Subject: [PATCH 085/106] fix: what is generated for typedefs of structs
 compiles

---
 compiler/cpp/src/generate/t_go_generator.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index b1952c1..f298518 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -3323,6 +3323,13 @@ string t_go_generator::type_to_go_type(t_type* type)
         //string elemType = type_to_go_type(t->get_elem_type());
         //return string("[]") + elemType;
     } else if (type->is_typedef()) {
+        t_type* true_type = get_true_type(type);
+
+        // (a type defined as a pointer has no methods)
+        if (true_type->is_struct() || true_type->is_xception()) {
+            return type_to_go_type(true_type);
+        }
+
         return publicize(((t_typedef*)type)->get_symbolic());
     }
 
-- 
2.43.0


From 1de546e5b8b762883d957e1d39f1c9beaece749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:41 +0000
Subject: [PATCH 086/106] fix: arguments and declared exceptions can have the
 names that a generated client uses itself

---
 compiler/cpp/src/generate/t_go_generator.cc | 28 +++++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index f298518..38e6a20 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -245,6 +245,7 @@ private:
     static std::string publicize(const std::string& value);
     static std::string privatize(const std::string& value);
     static std::string variable_name_to_go_name(const std::string& value);
+    static std::string argument_name_to_go_name(const std::string& value);
     static bool can_be_nil(t_type* value);
 
 };
@@ -415,6 +416,23 @@ std::string t_go_generator::variable_name_to_go_name(const std::string& value)
     return value2 + "_a1";
 }
 
+/**
+ * The name of an argument or declared exception, which must not be one that
+ * the body of a client's methods uses
+ */
+std::string t_go_generator::argument_name_to_go_name(const std::string& value)
+{
+    static const char* used[] = {"p", "err", "thrift", "iprot", "oprot", "value", "mTypeId", "seqId"};
+
+    for (size_t i = 0; i < sizeof(used) / sizeof(used[0]); i++) {
+        if (value == used[i]) {
+            return value + "_a1";
+        }
+    }
+
+    return variable_name_to_go_name(value);
+}
+
 
 /**
  * Prepares for file generation by opening up the necessary file output
@@ -1666,7 +1684,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                 f_service_ << ", ";
             }
 
-            f_service_ << variable_name_to_go_name((*fld_iter)->get_name());
+            f_service_ << argument_name_to_go_name((*fld_iter)->get_name());
         }
 
         f_service_ << ")" << endl <<
@@ -1700,7 +1718,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
         for (fld_iter = fields.begin(); fld_iter != fields.end(); ++fld_iter) {
             f_service_ <<
-                       indent() << args << "." << publicize(variable_name_to_go_name((*fld_iter)->get_name())) << " = " << variable_name_to_go_name((*fld_iter)->get_name()) << endl;
+                       indent() << args << "." << publicize(variable_name_to_go_name((*fld_iter)->get_name())) << " = " << argument_name_to_go_name((*fld_iter)->get_name()) << endl;
         }
 
         // Write to the stream
@@ -1782,8 +1800,8 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
             for (x_iter = xceptions.begin(); x_iter != xceptions.end(); ++x_iter) {
                 f_service_ <<
-                           indent() << "if " << result << "." << publicize((*x_iter)->get_name()) << " != nil {" << endl <<
-                           indent() << "  " << (*x_iter)->get_name() << " = " << result << "." << publicize((*x_iter)->get_name()) << endl <<
+                           indent() << "if " << result << "." << publicize(variable_name_to_go_name((*x_iter)->get_name())) << " != nil {" << endl <<
+                           indent() << "  " << argument_name_to_go_name((*x_iter)->get_name()) << " = " << result << "." << publicize(variable_name_to_go_name((*x_iter)->get_name())) << endl <<
                            indent() << "}" << endl;
             }
 
@@ -3189,7 +3207,7 @@ string t_go_generator::argument_list(t_struct* tstruct)
             result += ", ";
         }
 
-        result += variable_name_to_go_name((*f_iter)->get_name()) + " " + type_to_go_type((*f_iter)->get_type());
+        result += argument_name_to_go_name((*f_iter)->get_name()) + " " + type_to_go_type((*f_iter)->get_type());
     }
 
     return result;
-- 
2.43.0


From b491e3af8a89d668827f4a3cbb0e967e7a4726d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:45 +0000
Subject: [PATCH 087/106] fix: the command-line client that is generated
 compiles for arguments of typedefs of structs

---
 compiler/cpp/src/generate/t_go_generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 38e6a20..3326dab 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2077,7 +2077,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                 string factory(tmp("factory"));
                 string jsProt(tmp("jsProt"));
                 string err2(tmp("err"));
-                std::string tstruct_name(publicize(the_type->get_name()));
+                std::string tstruct_name(publicize(the_type2->get_name()));
                 f_remote <<
                          indent() << arg << " := flag.Arg(" << flagArg << ")" << endl <<
                          indent() << mbTrans << " := thrift.NewTMemoryBufferLen(len(" << arg << "))" << endl <<
-- 
2.43.0


From 0dedd076fd9523304538b634f17b45bb27f9aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:16 +0000
Subject: [PATCH 088/106] fix: doubles in programs keep their values

---
 compiler/cpp/src/generate/t_go_generator.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 3326dab..1cb636a 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -34,6 +34,7 @@
 #include <sys/stat.h>
 #include <sys/types.h>
 #include <sstream>
+#include <iomanip>
 #include <algorithm>
 #include "t_generator.h"
 #include "platform.h"
@@ -744,7 +745,8 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
             if (value->get_type() == t_const_value::CV_INTEGER) {
                 out << value->get_integer();
             } else {
-                out << value->get_double();
+                // as many digits as tell doubles apart
+                out << setprecision(17) << value->get_double();
             }
 
             break;
@@ -1094,7 +1096,6 @@ void t_go_generator::generate_isset_helpers(ofstream& out,
             indent_up();
             string s_check_value;
             int64_t i_check_value;
-            double d_check_value;
 
             if (type->is_base_type()) {
                 t_base_type::t_base tbase = ((t_base_type*)type)->get_base();
@@ -1129,9 +1130,9 @@ void t_go_generator::generate_isset_helpers(ofstream& out,
                     break;
 
                 case t_base_type::TYPE_DOUBLE:
-                    d_check_value = (field_default_value == NULL) ? 0.0 : field_default_value->get_double();
+                    s_check_value = (field_default_value == NULL) ? "0" : render_const_value(type, field_default_value, tstruct_name);
                     out <<
-                        indent() << "return p." << field_name << " != " << d_check_value << endl;
+                        indent() << "return p." << field_name << " != " << s_check_value << endl;
                     break;
 
                 default:
-- 
2.43.0


From a56d28a5699a39ad70b70dbb6adad58f7bb578cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:34 +0000
Subject: [PATCH 089/106] fix: negative bytes in programs

---
 compiler/cpp/src/generate/t_go_generator.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 1cb636a..2cf13f3 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -735,6 +735,10 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
             break;
 
         case t_base_type::TYPE_BYTE:
+            // bytes are unsigned in Go
+            out << (value->get_integer() & 0xff);
+            break;
+
         case t_base_type::TYPE_I16:
         case t_base_type::TYPE_I32:
         case t_base_type::TYPE_I64:
@@ -1095,7 +1099,6 @@ void t_go_generator::generate_isset_helpers(ofstream& out,
                 indent() << "func (p *" << tstruct_name << ") IsSet" << field_name << "() bool {" << endl;
             indent_up();
             string s_check_value;
-            int64_t i_check_value;
 
             if (type->is_base_type()) {
                 t_base_type::t_base tbase = ((t_base_type*)type)->get_base();
@@ -1124,11 +1127,6 @@ void t_go_generator::generate_isset_helpers(ofstream& out,
                 case t_base_type::TYPE_I16:
                 case t_base_type::TYPE_I32:
                 case t_base_type::TYPE_I64:
-                    i_check_value = (field_default_value == NULL) ? 0 : field_default_value->get_integer();
-                    out <<
-                        indent() << "return p." << field_name << " != " << i_check_value << endl;
-                    break;
-
                 case t_base_type::TYPE_DOUBLE:
                     s_check_value = (field_default_value == NULL) ? "0" : render_const_value(type, field_default_value, tstruct_name);
                     out <<
-- 
2.43.0


From 6d6ca1b6581a7b91a1f14a65f0d1953887d292d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:10 +0000
Subject: [PATCH 090/106] fix: functions of the same name in two services of a
 program

---
 compiler/cpp/src/generate/t_go_generator.cc | 63 ++++++++++++++++-----
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 2cf13f3..7309b61 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -93,11 +93,11 @@ public:
      */
 
     void generate_go_struct(t_struct* tstruct, bool is_exception);
-    void generate_go_struct_definition(std::ofstream& out, t_struct* tstruct, bool is_xception = false, bool is_result = false);
+    void generate_go_struct_definition(std::ofstream& out, t_struct* tstruct, bool is_xception = false, bool is_result = false, const string& go_name = "");
     void generate_isset_helpers(std::ofstream& out, t_struct* tstruct, const string& tstruct_name, bool is_result = false);
     void generate_go_struct_reader(std::ofstream& out, t_struct* tstruct, const string& tstruct_name, bool is_result = false);
     void generate_go_struct_writer(std::ofstream& out, t_struct* tstruct, const string& tstruct_name, bool is_result = false);
-    void generate_go_function_helpers(t_function* tfunction);
+    void generate_go_function_helpers(t_service* tservice, t_function* tfunction);
 
     /**
      * Service-level generation functions
@@ -213,6 +213,7 @@ public:
     std::string function_signature(t_function* tfunction, std::string prefix = "");
     std::string function_signature_if(t_function* tfunction, std::string prefix = "", bool addOsError = false);
     std::string argument_list(t_struct* tstruct);
+    std::string function_struct_name(t_service* tservice, t_function* tfunction, const string& suffix);
     std::string type_to_enum(t_type* ttype);
     std::string type_to_go_type(t_type* ttype);
     std::string type_to_go_element_type(t_type* ttype);
@@ -901,13 +902,14 @@ void t_go_generator::generate_go_struct(t_struct* tstruct,
 void t_go_generator::generate_go_struct_definition(ofstream& out,
         t_struct* tstruct,
         bool is_exception,
-        bool is_result)
+        bool is_result,
+        const string& go_name)
 {
     const vector<t_field*>& members = tstruct->get_members();
     const vector<t_field*>& sorted_members = tstruct->get_sorted_members();
     vector<t_field*>::const_iterator m_iter;
     generate_go_docstring(out, tstruct);
-    std::string tstruct_name(publicize(tstruct->get_name()));
+    std::string tstruct_name(go_name.empty() ? publicize(tstruct->get_name()) : go_name);
     out <<
         indent() << "type " << tstruct_name << " struct {" << endl <<
         indent() << "  thrift.TStruct" << endl;
@@ -1474,8 +1476,8 @@ void t_go_generator::generate_service_helpers(t_service* tservice)
 
     for (f_iter = functions.begin(); f_iter != functions.end(); ++f_iter) {
         t_struct* ts = (*f_iter)->get_arglist();
-        generate_go_struct_definition(f_service_, ts, false);
-        generate_go_function_helpers(*f_iter);
+        generate_go_struct_definition(f_service_, ts, false, false, function_struct_name(tservice, *f_iter, "args"));
+        generate_go_function_helpers(tservice, *f_iter);
     }
 }
 
@@ -1484,7 +1486,7 @@ void t_go_generator::generate_service_helpers(t_service* tservice)
  *
  * @param tfunction The function
  */
-void t_go_generator::generate_go_function_helpers(t_function* tfunction)
+void t_go_generator::generate_go_function_helpers(t_service* tservice, t_function* tfunction)
 {
     if (true || !tfunction->is_oneway()) {
         t_struct result(program_, tfunction->get_name() + "_result");
@@ -1502,7 +1504,7 @@ void t_go_generator::generate_go_function_helpers(t_function* tfunction)
             result.append(*f_iter);
         }
 
-        generate_go_struct_definition(f_service_, &result, false, true);
+        generate_go_struct_definition(f_service_, &result, false, true, function_struct_name(tservice, tfunction, "result"));
     }
 }
 
@@ -1702,7 +1704,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                    indent() << "}" << endl << endl <<
                    indent() << "func (p *" << serviceName << "Client) Send" << function_signature(*f_iter) << "(err error) {" << endl;
         indent_up();
-        std::string argsname = privatize((*f_iter)->get_name()) + "Args";
+        std::string argsname = function_struct_name(tservice, *f_iter, "args");
         // Serialize the request header
         string args(tmp("args"));
         f_service_ <<
@@ -1713,7 +1715,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                    indent() << "}" << endl <<
                    indent() << "p.SeqId++" << endl <<
                    indent() << "oprot.WriteMessageBegin(\"" << (*f_iter)->get_name() << "\", thrift.CALL, p.SeqId)" << endl <<
-                   indent() << args << " := New" << publicize(argsname) << "()" << endl;
+                   indent() << args << " := New" << argsname << "()" << endl;
 
         for (fld_iter = fields.begin(); fld_iter != fields.end(); ++fld_iter) {
             f_service_ <<
@@ -1731,7 +1733,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                    indent() << "}" << endl << endl;
 
         if (true) { //!(*f_iter)->is_oneway() || true) {}
-            std::string resultname = privatize((*f_iter)->get_name()) + "Result";
+            std::string resultname = function_struct_name(tservice, *f_iter, "result");
             // Open function
             f_service_ << endl <<
                        indent() << "func (p *" << serviceName << "Client) Recv" << publicize((*f_iter)->get_name()) <<
@@ -1783,7 +1785,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                        indent() << "  err = thrift.NewTApplicationException(thrift.BAD_SEQUENCE_ID, \"ping failed: out of sequence response\")" << endl <<
                        indent() << "  return" << endl <<
                        indent() << "}" << endl <<
-                       indent() << result << " := New" << publicize(resultname) << "()" << endl <<
+                       indent() << result << " := New" << resultname << "()" << endl <<
                        indent() << "err = " << result << ".Read(iprot)" << endl <<
                        indent() << "iprot.ReadMessageEnd()" << endl;
 
@@ -2113,7 +2115,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                          indent() << "}" << endl <<
                          indent() << factory << " := thrift.NewTSimpleJSONProtocolFactory()" << endl <<
                          indent() << jsProt << " := " << factory << ".GetProtocol(" << mbTrans << ")" << endl <<
-                         indent() << "containerStruct" << i << " := " << package_name_ << ".New" << pubName << "Args()" << endl <<
+                         indent() << "containerStruct" << i << " := " << package_name_ << ".New" << function_struct_name(tservice, *f_iter, "args") << "()" << endl <<
                          indent() << err2 << " := containerStruct" << i << ".ReadField" << field_id_to_go_name(args[i]->get_key()) << "(" << jsProt << ")" << endl <<
                          indent() << "if " << err2 << " != nil {" << endl <<
                          indent() << "  Usage()" << endl <<
@@ -2346,8 +2348,8 @@ void t_go_generator::generate_process_function(t_service* tservice,
 {
     // Open function
     string processorName = privatize(tservice->get_name()) + "Processor" + publicize(tfunction->get_name());
-    string argsname = publicize(tfunction->get_name()) + "Args";
-    string resultname = publicize(tfunction->get_name()) + "Result";
+    string argsname = function_struct_name(tservice, tfunction, "args");
+    string resultname = function_struct_name(tservice, tfunction, "result");
     //t_struct* xs = tfunction->get_xceptions();
     //const std::vector<t_field*>& xceptions = xs->get_members();
     vector<t_field*>::const_iterator x_iter;
@@ -3189,6 +3191,37 @@ string t_go_generator::function_signature_if(t_function* tfunction,
 }
 
 
+/**
+ * The Go name of the struct for a function's arguments or results: that of
+ * the function, unless another service of the program has one of this name.
+ *
+ * @param suffix "args" or "result"
+ */
+string t_go_generator::function_struct_name(t_service* tservice,
+        t_function* tfunction,
+        const string& suffix)
+{
+    string name(publicize(tfunction->get_name() + "_" + suffix));
+    const vector<t_service*>& services = program_->get_services();
+
+    for (size_t i = 0; i < services.size(); ++i) {
+        if (services[i] == tservice) {
+            continue;
+        }
+
+        const vector<t_function*>& functions = services[i]->get_functions();
+
+        for (size_t j = 0; j < functions.size(); ++j) {
+            if (publicize(functions[j]->get_name() + "_" + suffix) == name) {
+                return publicize(tservice->get_name()) + name;
+            }
+        }
+    }
+
+    return name;
+}
+
+
 /**
  * Renders a field list
  */
-- 
2.43.0


From 6d3f7d613bb137ae644b7ff580f858e99404c3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:28 +0000
Subject: [PATCH 091/106] fix: generated clients write to the protocol they are
 given

---
 compiler/cpp/src/generate/t_go_generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 7309b61..d594eae 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1709,7 +1709,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
         string args(tmp("args"));
         f_service_ <<
                    indent() << "oprot := p.OutputProtocol" << endl <<
-                   indent() << "if oprot != nil {" << endl <<
+                   indent() << "if oprot == nil {" << endl <<
                    indent() << "  oprot = p.ProtocolFactory.GetProtocol(p.Transport)" << endl <<
                    indent() << "  p.OutputProtocol = oprot" << endl <<
                    indent() << "}" << endl <<
-- 
2.43.0


From 5fadf0f7108909e1c0e924eb0c2c440c788cc849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:52 +0000
Subject: [PATCH 092/106] fix: oneway calls are sent as such and get no reply

---
 compiler/cpp/src/generate/t_go_generator.cc | 42 ++++++++++++++++-----
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index d594eae..069d6b1 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1714,7 +1714,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                    indent() << "  p.OutputProtocol = oprot" << endl <<
                    indent() << "}" << endl <<
                    indent() << "p.SeqId++" << endl <<
-                   indent() << "oprot.WriteMessageBegin(\"" << (*f_iter)->get_name() << "\", thrift.CALL, p.SeqId)" << endl <<
+                   indent() << "oprot.WriteMessageBegin(\"" << (*f_iter)->get_name() << "\", thrift." << ((*f_iter)->is_oneway() ? "ONEWAY" : "CALL") << ", p.SeqId)" << endl <<
                    indent() << args << " := New" << argsname << "()" << endl;
 
         for (fld_iter = fields.begin(); fld_iter != fields.end(); ++fld_iter) {
@@ -2362,16 +2362,29 @@ void t_go_generator::generate_process_function(t_service* tservice,
     f_service_ <<
                indent() << "args := New" << argsname << "()" << endl <<
                indent() << "if err = args.Read(iprot); err != nil {" << endl <<
-               indent() << "  iprot.ReadMessageEnd()" << endl <<
-               indent() << "  x := thrift.NewTApplicationException(thrift.PROTOCOL_ERROR, err.Error())" << endl <<
-               indent() << "  oprot.WriteMessageBegin(\"" << escape_string(tfunction->get_name()) << "\", thrift.EXCEPTION, seqId)" << endl <<
-               indent() << "  x.Write(oprot)" << endl <<
-               indent() << "  oprot.WriteMessageEnd()" << endl <<
-               indent() << "  oprot.Transport().Flush()" << endl <<
+               indent() << "  iprot.ReadMessageEnd()" << endl;
+
+    // (nobody waits for a reply to a oneway call)
+    if (!tfunction->is_oneway()) {
+        f_service_ <<
+                   indent() << "  x := thrift.NewTApplicationException(thrift.PROTOCOL_ERROR, err.Error())" << endl <<
+                   indent() << "  oprot.WriteMessageBegin(\"" << escape_string(tfunction->get_name()) << "\", thrift.EXCEPTION, seqId)" << endl <<
+                   indent() << "  x.Write(oprot)" << endl <<
+                   indent() << "  oprot.WriteMessageEnd()" << endl <<
+                   indent() << "  oprot.Transport().Flush()" << endl;
+    }
+
+    f_service_ <<
                indent() << "  return" << endl <<
                indent() << "}" << endl <<
-               indent() << "iprot.ReadMessageEnd()" << endl <<
-               indent() << "result := New" << resultname << "()" << endl <<
+               indent() << "iprot.ReadMessageEnd()" << endl;
+
+    if (!tfunction->is_oneway()) {
+        f_service_ <<
+                   indent() << "result := New" << resultname << "()" << endl;
+    }
+
+    f_service_ <<
                indent() << "if ";
 
     if (!tfunction->is_oneway()) {
@@ -2406,6 +2419,17 @@ void t_go_generator::generate_process_function(t_service* tservice,
         f_service_ << "args." << publicize(variable_name_to_go_name((*f_iter)->get_name()));
     }
 
+    if (tfunction->is_oneway()) {
+        f_service_ << "); err != nil {" << endl <<
+                   indent() << "  return" << endl <<
+                   indent() << "}" << endl <<
+                   indent() << "return true, nil" << endl;
+        indent_down();
+        f_service_ <<
+                   indent() << "}" << endl << endl;
+        return;
+    }
+
     f_service_ << "); err != nil {" << endl <<
                indent() << "  x := thrift.NewTApplicationException(thrift.INTERNAL_ERROR, \"Internal error processing " << escape_string(tfunction->get_name()) << ": \" + err.Error())" << endl <<
                indent() << "  oprot.WriteMessageBegin(\"" << escape_string(tfunction->get_name()) << "\", thrift.EXCEPTION, seqId)" << endl <<
-- 
2.43.0


From f4ea78b53681cc52306ace472162548e8d190360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:28 +0000
Subject: [PATCH 093/106] fix: generated clients report what fails while a call
 is sent or its reply ends

---
 compiler/cpp/src/generate/t_go_generator.cc | 24 +++++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 069d6b1..68412e3 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1714,7 +1714,9 @@ void t_go_generator::generate_service_client(t_service* tservice)
                    indent() << "  p.OutputProtocol = oprot" << endl <<
                    indent() << "}" << endl <<
                    indent() << "p.SeqId++" << endl <<
-                   indent() << "oprot.WriteMessageBegin(\"" << (*f_iter)->get_name() << "\", thrift." << ((*f_iter)->is_oneway() ? "ONEWAY" : "CALL") << ", p.SeqId)" << endl <<
+                   indent() << "if err = oprot.WriteMessageBegin(\"" << (*f_iter)->get_name() << "\", thrift." << ((*f_iter)->is_oneway() ? "ONEWAY" : "CALL") << ", p.SeqId); err != nil {" << endl <<
+                   indent() << "  return" << endl <<
+                   indent() << "}" << endl <<
                    indent() << args << " := New" << argsname << "()" << endl;
 
         for (fld_iter = fields.begin(); fld_iter != fields.end(); ++fld_iter) {
@@ -1724,9 +1726,13 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
         // Write to the stream
         f_service_ <<
-                   indent() << "err = " << args << ".Write(oprot)" << endl <<
-                   indent() << "oprot.WriteMessageEnd()" << endl <<
-                   indent() << "oprot.Transport().Flush()" << endl <<
+                   indent() << "if err = " << args << ".Write(oprot); err != nil {" << endl <<
+                   indent() << "  return" << endl <<
+                   indent() << "}" << endl <<
+                   indent() << "if err = oprot.WriteMessageEnd(); err != nil {" << endl <<
+                   indent() << "  return" << endl <<
+                   indent() << "}" << endl <<
+                   indent() << "err = oprot.Transport().Flush()" << endl <<
                    indent() << "return" << endl;
         indent_down();
         f_service_ <<
@@ -1782,12 +1788,16 @@ void t_go_generator::generate_service_client(t_service* tservice)
                        indent() << "  return" << endl <<
                        indent() << "}" << endl <<
                        indent() << "if p.SeqId != seqId {" << endl <<
-                       indent() << "  err = thrift.NewTApplicationException(thrift.BAD_SEQUENCE_ID, \"ping failed: out of sequence response\")" << endl <<
+                       indent() << "  err = thrift.NewTApplicationException(thrift.BAD_SEQUENCE_ID, \"" << escape_string((*f_iter)->get_name()) << " failed: out of sequence response\")" << endl <<
                        indent() << "  return" << endl <<
                        indent() << "}" << endl <<
                        indent() << result << " := New" << resultname << "()" << endl <<
-                       indent() << "err = " << result << ".Read(iprot)" << endl <<
-                       indent() << "iprot.ReadMessageEnd()" << endl;
+                       indent() << "if err = " << result << ".Read(iprot); err != nil {" << endl <<
+                       indent() << "  return" << endl <<
+                       indent() << "}" << endl <<
+                       indent() << "if err = iprot.ReadMessageEnd(); err != nil {" << endl <<
+                       indent() << "  return" << endl <<
+                       indent() << "}" << endl;
 
             // Careful, only return _result if not a void function
             if (!(*f_iter)->get_returntype()->is_void()) {
-- 
2.43.0


From 4e12ed93b8634e5af30a984c2a0e0942296f0f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:33 +0000
Subject: [PATCH 094/106] fix: unset fields of typedefs of enums are not
 written

---
 compiler/cpp/src/generate/t_go_generator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 68412e3..500e47c 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1378,7 +1378,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             indent_up();
         }
 
-        if (field_required == t_field::T_OPTIONAL || (*f_iter)->get_type()->is_enum()) {
+        if (field_required == t_field::T_OPTIONAL || get_true_type((*f_iter)->get_type())->is_enum()) {
             out <<
                 indent() << "if p.IsSet" << publicize(variable_name_to_go_name(field_name)) << "() {" << endl;
             indent_up();
@@ -1403,7 +1403,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             escape_field_name << "\", " <<
             "p.ThriftName(), err); }" << endl;
 
-        if (field_required == t_field::T_OPTIONAL || (*f_iter)->get_type()->is_enum()) {
+        if (field_required == t_field::T_OPTIONAL || get_true_type((*f_iter)->get_type())->is_enum()) {
             indent_down();
             out <<
                 indent() << "}" << endl;
-- 
2.43.0


From df24b73eca3b2a985e16685b20ee8baf54953ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:37 +0000
Subject: [PATCH 095/106] fix: constants of structs with fields of typedefs,
 and with names that are Go keywords

---
 compiler/cpp/src/generate/t_go_generator.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 500e47c..dbb5ca4 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -784,15 +784,18 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
                 throw "type error: " + type->get_name() + " has no field " + v_iter->first->get_string();
             }
 
+            field_type = get_true_type(field_type);
+            const string field_name(publicize(variable_name_to_go_name(v_iter->first->get_string())));
+
             if (field_type->is_base_type() || field_type->is_enum()) {
                 out <<
-                    indent() << name << "." << publicize(v_iter->first->get_string()) << " = " << render_const_value(field_type, v_iter->second, name) << endl;
+                    indent() << name << "." << field_name << " = " << render_const_value(field_type, v_iter->second, name) << endl;
             } else {
                 string k(tmp("k"));
                 string v(tmp("v"));
                 out <<
                     indent() << v << " := " << render_const_value(field_type, v_iter->second, v) << endl <<
-                    indent() << name << "." << publicize(v_iter->first->get_string()) << " = " << v << endl;
+                    indent() << name << "." << field_name << " = " << v << endl;
             }
         }
 
-- 
2.43.0


From bf6cb61b416d59f16a3705d304672c2bf5fd2940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:37 +0000
Subject: [PATCH 096/106] fix: fields can have the names of the methods of
 generated structs

---
 compiler/cpp/src/generate/t_go_generator.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index dbb5ca4..746b2fc 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -303,6 +303,17 @@ std::string t_go_generator::variable_name_to_go_name(const std::string& value)
         return value;
     }
 
+    // (the methods of generated structs, and what is embedded in them)
+    static const char* methods[] = {"Read", "Write", "String", "CompareTo", "Equals", "ThriftName",
+                                    "TStructName", "TStructFields", "AttributeByFieldId", "TStruct"
+                                   };
+
+    for (size_t i = 0; i < sizeof(methods) / sizeof(methods[0]); i++) {
+        if (publicize(value) == methods[i]) {
+            return value + "_a1";
+        }
+    }
+
     std::string value2(value);
     std::transform(value2.begin(), value2.end(), value2.begin(), ::tolower);
 
-- 
2.43.0


From 54f0621eb1b8b016dc061faa112a3656af2da761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:26 +0000
Subject: [PATCH 097/106] fix: generated structs with the same fields are equal

---
 compiler/cpp/src/generate/t_go_generator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 746b2fc..8c741ad 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1052,6 +1052,11 @@ void t_go_generator::generate_go_struct_definition(ofstream& out,
         indent() << "  }" << endl <<
         indent() << "  return thrift.TType(thrift.STRUCT).Compare(p, data)" << endl <<
         indent() << "}" << endl << endl;
+    out <<
+        indent() << "func (p *" << tstruct_name << ") Equals(other interface{}) bool {" << endl <<
+        indent() << "  c, cok := p.CompareTo(other)" << endl <<
+        indent() << "  return cok && c == 0" << endl <<
+        indent() << "}" << endl << endl;
     // Equality and inequality methods that compare by value
     out <<
         indent() << "func (p *" << tstruct_name << ") AttributeByFieldId(id int) interface{} {" << endl <<
-- 
2.43.0


From 22133574a04c4e55057e7d45bb3c7c1d5ba923d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:34 +0000
Subject: [PATCH 098/106] fix: generated structs give their fields' values to
 the accessors of TStruct

---
 compiler/cpp/src/generate/t_go_generator.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 8c741ad..1843c47 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -305,7 +305,8 @@ std::string t_go_generator::variable_name_to_go_name(const std::string& value)
 
     // (the methods of generated structs, and what is embedded in them)
     static const char* methods[] = {"Read", "Write", "String", "CompareTo", "Equals", "ThriftName",
-                                    "TStructName", "TStructFields", "AttributeByFieldId", "TStruct"
+                                    "TStructName", "TStructFields", "AttributeByFieldId", "TStruct",
+                                    "AttributeFromFieldId", "AttributeFromFieldName"
                                    };
 
     for (size_t i = 0; i < sizeof(methods) / sizeof(methods[0]); i++) {
@@ -1078,6 +1079,13 @@ void t_go_generator::generate_go_struct_definition(ofstream& out,
         indent() << "  }" << endl <<
         indent() << "  return nil" << endl <<
         indent() << "}" << endl << endl;
+    out <<
+        indent() << "func (p *" << tstruct_name << ") AttributeFromFieldId(id int) interface{} {" << endl <<
+        indent() << "  return p.AttributeByFieldId(id)" << endl <<
+        indent() << "}" << endl << endl <<
+        indent() << "func (p *" << tstruct_name << ") AttributeFromFieldName(name string) interface{} {" << endl <<
+        indent() << "  return p.AttributeByFieldId(p.FieldIdFromFieldName(name))" << endl <<
+        indent() << "}" << endl << endl;
     out <<
         indent() << "func (p *" << tstruct_name << ") TStructFields() thrift.TFieldContainer {" << endl <<
         indent() << "  return thrift.NewTFieldContainer([]thrift.TField{" << endl;
-- 
2.43.0


From 5d7ad1ea3f57b57642df4157f0c9a86d2d72287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:04 +0000
Subject: [PATCH 099/106] fix: generated structs with fields of typedefs can be
 compared

---
 compiler/cpp/src/generate/t_go_generator.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 1843c47..12ff22c 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1070,6 +1070,15 @@ void t_go_generator::generate_go_struct_definition(ofstream& out,
         const string escaped_field_name = escape_string(base_field_name);
         const string go_safe_name = variable_name_to_go_name(escaped_field_name);
         const string field_name = publicize(go_safe_name);
+        t_type* true_type = get_true_type((*m_iter)->get_type());
+
+        // (the library knows the types that typedefs stand for)
+        if ((*m_iter)->get_type()->is_typedef() && (true_type->is_base_type() || true_type->is_enum())) {
+            out <<
+                indent() << "case " << (*m_iter)->get_key() << ": return " << type_to_go_type(true_type) << "(p." << field_name << ")" << endl;
+            continue;
+        }
+
         out <<
             indent() << "case " << (*m_iter)->get_key() << ": return p." << field_name << endl;
     }
-- 
2.43.0


From da87ee5cf22def06b69724623b355d72c1ab72af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:37 +0000
Subject: [PATCH 100/106] fix: generated constants of type binary compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 12ff22c..c1b1cee 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -710,7 +710,10 @@ void t_go_generator::generate_const(t_const* tconst)
 
     t_const_value* value = tconst->get_value();
 
-    if (type->is_base_type() || type->is_enum()) {
+    // (Go has no constants of slices)
+    const bool is_slice = type->is_base_type() && ((t_base_type*)type)->is_binary();
+
+    if ((type->is_base_type() || type->is_enum()) && !is_slice) {
         indent(f_types_) << "const " << name << " = " << render_const_value(type, value, name) << endl;
     } else {
         f_types_ <<
-- 
2.43.0


From ddef77d898c707f1f11f52c68da21a180872f7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:02 +0000
Subject: [PATCH 101/106] fix: a socket that is opened again does not send what
 was left unflushed on the last connection

---
 lib/go/src/thrift/tsocket.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/go/src/thrift/tsocket.go b/lib/go/src/thrift/tsocket.go
index 257aff0..3458e60 100644
--- a/lib/go/src/thrift/tsocket.go
+++ b/lib/go/src/thrift/tsocket.go
@@ -163,6 +163,8 @@ func (p *TSocket) Open() error {
 			return NewTTransportException(NOT_OPEN, err.Error())
 		}
 	}
+	// What was written to the last connection and not flushed is lost.
+	p.writeBuffer.Reset()
 	return nil
 }
 
-- 
2.43.0


From a6168f066d31b0d6c887f65e250e5f3045ab477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:52 +0000
Subject: [PATCH 102/106] fix: a framed transport that is opened again does not
 send or deliver what was left of the last connection

---
 lib/go/src/thrift/tframed_transport.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index d66edb8..2cf7a42 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -62,6 +62,9 @@ func (p *TFramedTransport) Peek() bool {
 }
 
 func (p *TFramedTransport) Close() error {
+	// What was not flushed or read is not for the next connection.
+	p.writeBuffer.Reset()
+	p.readBuffer.Reset()
 	return p.transport.Close()
 }
 
-- 
2.43.0


From 769b984faf180a2f463d1d3c7c510cfb8ff529c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:44 +0000
Subject: [PATCH 103/106] fix: a type is compared with 16-bit numbers as with
 those of other widths

---
 lib/go/src/thrift/ttype.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 21096be..893d447 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -231,12 +231,16 @@ func (p TType) Coerce(other interface{}) TType {
 		return TType(byte(b))
 	case int8:
 		return TType(byte(b))
+	case int16:
+		return TType(byte(b))
 	case int32:
 		return TType(byte(b))
 	case int64:
 		return TType(byte(b))
 	case uint:
 		return TType(byte(b))
+	case uint16:
+		return TType(byte(b))
 	case uint32:
 		return TType(byte(b))
 	case uint64:
-- 
2.43.0


From e68ab3d2160c0a5b69a16c3373cdcaeca9d1db79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:56 +0000
Subject: [PATCH 104/106] fix: programs that include others are generated with
 their packages and names

---
 compiler/cpp/src/generate/t_go_generator.cc | 136 +++++++++++---------
 1 file changed, 73 insertions(+), 63 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index c1b1cee..e005fc7 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -209,7 +209,8 @@ public:
     std::string render_fastbinary_includes();
     std::string declare_argument(t_field* tfield);
     std::string render_field_default_value(t_field* tfield, const string& name);
-    std::string type_name(t_type* ttype);
+    std::string type_name(t_type* ttype, const string& prefix = "");
+    std::string remote_type_name(t_type* ttype, const string& prefix = "");
     std::string function_signature(t_function* tfunction, std::string prefix = "");
     std::string function_signature_if(t_function* tfunction, std::string prefix = "", bool addOsError = false);
     std::string argument_list(t_struct* tstruct);
@@ -230,6 +231,24 @@ public:
         return real_module;
     }
 
+    // The path by which a program's package is imported
+    static std::string get_go_import(const t_program* program) {
+        std::string module = get_real_go_module(program);
+        std::string::size_type pos;
+
+        while ((pos = module.find(".")) != std::string::npos) {
+            module.replace(pos, 1, 1, '/');
+        }
+
+        return module;
+    }
+
+    // The name of a program's package
+    static std::string get_go_package(const t_program* program) {
+        std::string module = get_real_go_module(program);
+        return module.substr(module.rfind(".") + 1);
+    }
+
 private:
 
     /**
@@ -512,11 +531,14 @@ void t_go_generator::init_generator()
              go_imports() <<
              render_includes() <<
              go_unused() <<
+             "// Programs that include this one may not use it otherwise.\n"
+             "const GoUnusedProtection__ = 0\n\n" <<
              render_fastbinary_includes() << endl << endl;
 }
 
 /**
- * Renders all the imports necessary for including another Thrift program
+ * Renders all the imports necessary for including another Thrift program, and
+ * what keeps them in use
  */
 string t_go_generator::render_includes()
 {
@@ -524,7 +546,11 @@ string t_go_generator::render_includes()
     string result = "";
 
     for (size_t i = 0; i < includes.size(); ++i) {
-        result += "import \"" + get_real_go_module(includes[i]) + "\"\n";
+        result += "import \"" + get_go_import(includes[i]) + "\"\n";
+    }
+
+    for (size_t i = 0; i < includes.size(); ++i) {
+        result += "\nvar _ = " + get_go_package(includes[i]) + ".GoUnusedProtection__\n";
     }
 
     if (includes.size() > 0) {
@@ -778,7 +804,7 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
         indent(out) << value->get_integer();
     } else if (type->is_struct() || type->is_xception()) {
         out <<
-            "New" << publicize(type->get_name()) << "()" << endl <<
+            type_name(type, "New") << "()" << endl <<
             indent() << "{" << endl;
         indent_up();
         const vector<t_field*>& fields = ((t_struct*)type)->get_members();
@@ -1476,14 +1502,8 @@ void t_go_generator::generate_service(t_service* tservice)
     f_service_ <<
                go_autogen_comment() <<
                go_package() <<
-               go_imports();
-
-    if (tservice->get_extends() != NULL && tservice->get_extends()->get_program() != program_) {
-        f_service_ <<
-                   "import \"" << get_real_go_module(tservice->get_extends()->get_program()) << "\"" << endl;
-    }
-
-    f_service_ <<
+               go_imports() <<
+               render_includes() <<
                //             "import (" << endl <<
                // indent() << "        \"os\"" << endl <<
                // indent() << ")" << endl << endl <<
@@ -1554,20 +1574,12 @@ void t_go_generator::generate_go_function_helpers(t_service* tservice, t_functio
  */
 void t_go_generator::generate_service_interface(t_service* tservice)
 {
-    string extends = "";
     string extends_if = "";
     string serviceName(publicize(tservice->get_name()));
     string interfaceName = "I" + serviceName;
 
     if (tservice->get_extends() != NULL) {
-        extends = type_name(tservice->get_extends());
-        size_t index = extends.rfind(".");
-
-        if (index != string::npos) {
-            extends_if = "\n" + indent() + "  " + extends.substr(0, index + 1) + "I" + publicize(extends.substr(index + 1)) + "\n";
-        } else {
-            extends_if = "\n" + indent() + "I" + publicize(extends) + "\n";
-        }
+        extends_if = "\n" + indent() + "  " + type_name(tservice->get_extends(), "I") + "\n";
     }
 
     f_service_ <<
@@ -1602,19 +1614,14 @@ void t_go_generator::generate_service_client(t_service* tservice)
     string extends = "";
     string extends_client = "";
     string extends_client_new = "";
+    string extends_client_field = ""; // (embedded)
     string serviceName(publicize(tservice->get_name()));
 
     if (tservice->get_extends() != NULL) {
         extends = type_name(tservice->get_extends());
-        size_t index = extends.rfind(".");
-
-        if (index != string::npos) {
-            extends_client = extends.substr(0, index + 1) + publicize(extends.substr(index + 1)) + "Client";
-            extends_client_new = extends.substr(0, index + 1) + "New" + publicize(extends.substr(index + 1)) + "Client";
-        } else {
-            extends_client = publicize(extends) + "Client";
-            extends_client_new = "New" + extends_client;
-        }
+        extends_client = extends + "Client";
+        extends_client_new = type_name(tservice->get_extends(), "New") + "Client";
+        extends_client_field = publicize(tservice->get_extends()->get_name()) + "Client";
     }
 
     generate_go_docstring(f_service_, tservice);
@@ -1647,7 +1654,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
     if (!extends.empty()) {
         f_service_ <<
-                   "{" << extends_client << ": " << extends_client_new << "Factory(t, f)}";
+                   "{" << extends_client_field << ": " << extends_client_new << "Factory(t, f)}";
     } else {
         indent_up();
         f_service_ << "{Transport: t," << endl <<
@@ -1673,7 +1680,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
     if (!extends.empty()) {
         f_service_ <<
-                   "{" << extends_client << ": " << extends_client_new << "Protocol(t, iprot, oprot)}" << endl;
+                   "{" << extends_client_field << ": " << extends_client_new << "Protocol(t, iprot, oprot)}" << endl;
     } else {
         indent_up();
         f_service_ << "{Transport: t," << endl <<
@@ -1881,13 +1888,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
     string f_remote_name = package_dir_ + "/" + service_name_ + "/" + service_name_ + "-remote.go";
     ofstream f_remote;
     f_remote.open(f_remote_name.c_str());
-    string service_module = get_real_go_module(program_);
-    string::size_type loc;
-
-    while ((loc = service_module.find(".")) != string::npos) {
-        service_module.replace(loc, 1, 1, '/');
-    }
-
+    string service_module = get_go_import(program_);
     f_remote <<
              go_autogen_comment() <<
              indent() << "package main" << endl << endl <<
@@ -1902,6 +1903,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
              indent() << "        \"" << service_module << "\"" << endl <<
              indent() << ")" << endl <<
              indent() << endl <<
+             render_includes() <<
              indent() << "// Not every service has functions with numbers to parse." << endl <<
              indent() << "var _ = strconv.Atoi" << endl <<
              indent() << endl <<
@@ -2042,7 +2044,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                          indent() << "  Usage()" << endl <<
                          indent() << " return" << endl <<
                          indent() << "}" << endl <<
-                         indent() << "argvalue" << i << " := " << package_name_ << "." << publicize(the_type->get_name()) << "(tmp" << i << ")" << endl;
+                         indent() << "argvalue" << i << " := " << remote_type_name(the_type) << "(tmp" << i << ")" << endl;
             } else if (the_type2->is_base_type()) {
                 t_base_type::t_base e = ((t_base_type*)the_type2)->get_base();
                 string err(tmp("err"));
@@ -2127,7 +2129,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                 string factory(tmp("factory"));
                 string jsProt(tmp("jsProt"));
                 string err2(tmp("err"));
-                std::string tstruct_name(publicize(the_type2->get_name()));
+                std::string new_struct(remote_type_name(the_type2, "New"));
                 f_remote <<
                          indent() << arg << " := flag.Arg(" << flagArg << ")" << endl <<
                          indent() << mbTrans << " := thrift.NewTMemoryBufferLen(len(" << arg << "))" << endl <<
@@ -2139,7 +2141,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                          indent() << "}" << endl <<
                          indent()  << factory << " := thrift.NewTSimpleJSONProtocolFactory()" << endl <<
                          indent() << jsProt << " := " << factory << ".GetProtocol(" << mbTrans << ")" << endl <<
-                         indent() << "argvalue" << i << " := " << package_name_ << ".New" << tstruct_name << "()" << endl <<
+                         indent() << "argvalue" << i << " := " << new_struct << "()" << endl <<
                          indent() << err2 << " := argvalue" << i << ".Read(" << jsProt << ")" << endl <<
                          indent() << "if " << err2 << " != nil {" << endl <<
                          indent() << "  Usage()" << endl <<
@@ -2184,7 +2186,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
 
             if (the_type->is_typedef()) {
                 f_remote <<
-                         indent() << "value" << i << " := " << package_name_ << "." << publicize(the_type->get_name()) << "(argvalue" << i << ")" << endl;
+                         indent() << "value" << i << " := " << remote_type_name(the_type) << "(argvalue" << i << ")" << endl;
             } else {
                 f_remote <<
                          indent() << "value" << i << " := argvalue" << i << endl;
@@ -2282,15 +2284,8 @@ void t_go_generator::generate_service_server(t_service* tservice)
 
     if (tservice->get_extends() != NULL) {
         extends = type_name(tservice->get_extends());
-        size_t index = extends.rfind(".");
-
-        if (index != string::npos) {
-            extends_processor = extends.substr(0, index + 1) + publicize(extends.substr(index + 1)) + "Processor";
-            extends_processor_new = extends.substr(0, index + 1) + "New" + publicize(extends.substr(index + 1)) + "Processor";
-        } else {
-            extends_processor = publicize(extends) + "Processor";
-            extends_processor_new = "New" + extends_processor;
-        }
+        extends_processor = extends + "Processor";
+        extends_processor_new = type_name(tservice->get_extends(), "New") + "Processor";
     }
 
     string pServiceName(privatize(serviceName));
@@ -2661,7 +2656,7 @@ void t_go_generator::generate_deserialize_field(ofstream &out,
             indent(out) << name << " := " << v << endl;
         } else {
             if (type->is_enum() || orig_type->is_typedef()) {
-                indent(out) << name << " = " << publicize(orig_type->get_name()) << "(" << v << ")" << endl;
+                indent(out) << name << " = " << type_name(orig_type) << "(" << v << ")" << endl;
             } else {
                 indent(out) << name << " = " << v << endl;
             }
@@ -2688,7 +2683,7 @@ void t_go_generator::generate_deserialize_struct(ofstream &out,
     }
 
     out <<
-        indent() << prefix << eq << "New" << publicize(type_name(tstruct)) << "()" << endl <<
+        indent() << prefix << eq << type_name(tstruct, "New") << "()" << endl <<
         indent() << err2 << " := " << prefix << ".Read(iprot)" << endl <<
         indent() << "if " << err2 << " != nil { return thrift.NewTProtocolExceptionReadStruct(\"" <<
         escape_string(prefix + tstruct->get_name()) << "\", " <<
@@ -3318,19 +3313,34 @@ string t_go_generator::argument_list(t_struct* tstruct)
     return result;
 }
 
-string t_go_generator::type_name(t_type* ttype)
+/**
+ * The Go name of a type or service, or a name made of a prefix and that,
+ * qualified by the package of its program unless it is this one
+ */
+string t_go_generator::type_name(t_type* ttype, const string& prefix)
 {
     t_program* program = ttype->get_program();
+    string name = prefix + publicize(ttype->get_name());
 
-    if (ttype->is_service() && program != program_) {
-        return get_real_go_module(program) + "." + ttype->get_name();
+    if (program != NULL && program != program_) {
+        return get_go_package(program) + "." + name;
     }
 
-    if (program != NULL && program != program_) {
-        return get_real_go_module(program) + ".ttypes." + ttype->get_name();
+    return name;
+}
+
+/**
+ * The same in the command line tool, which is no part of the package
+ */
+string t_go_generator::remote_type_name(t_type* ttype, const string& prefix)
+{
+    string name = type_name(ttype, prefix);
+
+    if (name.find(".") == string::npos) {
+        return package_name_ + "." + name;
     }
 
-    return ttype->get_name();
+    return name;
 }
 
 /**
@@ -3426,9 +3436,9 @@ string t_go_generator::type_to_go_type(t_type* type)
             return "float64";
         }
     } else if (type->is_enum()) {
-        return publicize(type->get_name());
+        return type_name(type);
     } else if (type->is_struct() || type->is_xception()) {
-        return string("*") + publicize(type->get_name());
+        return string("*") + type_name(type);
     } else if (type->is_map()) {
         return "thrift.TMap";
         //t_map* t = (t_map*)type;
@@ -3453,7 +3463,7 @@ string t_go_generator::type_to_go_type(t_type* type)
             return type_to_go_type(true_type);
         }
 
-        return publicize(((t_typedef*)type)->get_symbolic());
+        return type_name(type);
     }
 
     throw "INVALID TYPE IN type_to_go_type: " + type->get_name();
-- 
2.43.0


From e962f609c4c583dbb58208284646cbaaf74f74e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:31 +0000
Subject: [PATCH 105/106] fix: generated command-line clients call over HTTP,
 at the URL they are given

---
 compiler/cpp/src/generate/t_go_generator.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index e005fc7..7131aa8 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1951,27 +1951,29 @@ void t_go_generator::generate_service_remote(t_service* tservice)
              indent() << "}" << endl <<
              indent() << endl <<
              indent() << "if len(urlString) > 0 {" << endl <<
-             indent() << "  parsedUrl, err := url.Parse(urlString)" << endl <<
+             indent() << "  u, err := url.Parse(urlString)" << endl <<
              indent() << "  if err != nil {" << endl <<
              indent() << "    fmt.Fprint(os.Stderr, \"Error parsing URL: \", err.Error(), \"\\n\")" << endl <<
              indent() << "    flag.Usage()" << endl <<
              indent() << "  }" << endl <<
+             indent() << "  parsedUrl = *u" << endl <<
              indent() << "  host = parsedUrl.Host" << endl <<
              //indent() << "  if len(parsedUrl.Port) == 0 { parsedUrl.Port = \"80\"; }" << endl <<
              //indent() << "  port = int(parsedUrl.Port)" << endl <<
-             indent() << "  useHttp = len(parsedUrl.Scheme) <= 0 || parsedUrl.Scheme == \"http\"" << endl <<
+             indent() << "  useHttp = len(parsedUrl.Scheme) <= 0 || parsedUrl.Scheme == \"http\" || parsedUrl.Scheme == \"https\"" << endl <<
              indent() << "} else if useHttp {" << endl <<
-             indent() << "  _, err := url.Parse(fmt.Sprint(\"http://\", host, \":\", port))" << endl <<
+             indent() << "  u, err := url.Parse(fmt.Sprint(\"http://\", host, \":\", port))" << endl <<
              indent() << "  if err != nil {" << endl <<
              indent() << "    fmt.Fprint(os.Stderr, \"Error parsing URL: \", err.Error(), \"\\n\")" << endl <<
              indent() << "    flag.Usage()" << endl <<
              indent() << "  }" << endl <<
+             indent() << "  parsedUrl = *u" << endl <<
              indent() << "}" << endl <<
              indent() << endl <<
              indent() << "cmd := flag.Arg(0)" << endl <<
              indent() << "var err error" << endl <<
              indent() << "if useHttp {" << endl <<
-             indent() << "  trans, err = thrift.NewTHttpClient(parsedUrl.String())" << endl <<
+             indent() << "  trans, err = thrift.NewTHttpPostClient(parsedUrl.String())" << endl <<
              indent() << "} else {" << endl <<
              indent() << "  addr, err := net.ResolveTCPAddr(\"tcp\", fmt.Sprint(host, \":\", port))" << endl <<
              indent() << "  if err != nil {" << endl <<
-- 
2.43.0


From 3323874fe0938b5784a1fff39169d1bc3dccfdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:31 +0000
Subject: [PATCH 106/106] fix: generated command-line clients refuse arguments
 that are no values of their types

---
 compiler/cpp/src/generate/t_go_generator.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 7131aa8..664de7b 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2041,7 +2041,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
 
             if (the_type2->is_enum()) {
                 f_remote <<
-                         indent() << "tmp" << i << ", err := (strconv.Atoi(flag.Arg(" << flagArg << ")))" << endl <<
+                         indent() << "tmp" << i << ", err := (strconv.ParseInt(flag.Arg(" << flagArg << "), 10, 32))" << endl <<
                          indent() << "if err != nil {" << endl <<
                          indent() << "  Usage()" << endl <<
                          indent() << " return" << endl <<
@@ -2068,13 +2068,17 @@ void t_go_generator::generate_service_remote(t_service* tservice)
 
                 case t_base_type::TYPE_BOOL:
                     f_remote <<
-                             indent() << "argvalue" << i << " := flag.Arg(" << flagArg << ") == \"true\"" << endl;
+                             indent() << "argvalue" << i << ", " << err << " := (strconv.ParseBool(flag.Arg(" << flagArg << ")))" << endl <<
+                             indent() << "if " << err << " != nil {" << endl <<
+                             indent() << "  Usage()" << endl <<
+                             indent() << "  return" << endl <<
+                             indent() << "}" << endl;
                     break;
 
                 case t_base_type::TYPE_BYTE:
                     f_remote <<
-                             indent() << "tmp" << i << ", " << err << " := (strconv.Atoi(flag.Arg(" << flagArg << ")))" << endl <<
-                             indent() << "if " << err << " != nil {" << endl <<
+                             indent() << "tmp" << i << ", " << err << " := (strconv.ParseInt(flag.Arg(" << flagArg << "), 10, 16))" << endl <<
+                             indent() << "if " << err << " != nil || tmp" << i << " < -128 || tmp" << i << " > 255 {" << endl <<
                              indent() << "  Usage()" << endl <<
                              indent() << "  return" << endl <<
                              indent() << "}" << endl <<
@@ -2083,7 +2087,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
 
                 case t_base_type::TYPE_I16:
                     f_remote <<
-                             indent() << "tmp" << i << ", " << err << " := (strconv.Atoi(flag.Arg(" << flagArg << ")))" << endl <<
+                             indent() << "tmp" << i << ", " << err << " := (strconv.ParseInt(flag.Arg(" << flagArg << "), 10, 16))" << endl <<
                              indent() << "if " << err << " != nil {" << endl <<
                              indent() << "  Usage()" << endl <<
                              indent() << "  return" << endl <<
@@ -2093,7 +2097,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
 
                 case t_base_type::TYPE_I32:
                     f_remote <<
-                             indent() << "tmp" << i << ", " << err << " := (strconv.Atoi(flag.Arg(" << flagArg << ")))" << endl <<
+                             indent() << "tmp" << i << ", " << err << " := (strconv.ParseInt(flag.Arg(" << flagArg << "), 10, 32))" << endl <<
                              indent() << "if " << err << " != nil {" << endl <<
                              indent() << "  Usage()" << endl <<
                              indent() << "  return" << endl <<
-- 
2.43.0

