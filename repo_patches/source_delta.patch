From 8a7dd82f9f408473cd879028c3074ce0dd00d404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 01/31] fix: do not panic on a frame with a single byte between
 the delimiters

---
 protocol/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index 7743151..81a8efe 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -77,7 +77,7 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 
 	// 获取校验和
 	sum := data[len(data)-1]
-	if data[len(data)-2] != EscapeByte {
+	if len(data) < 2 || data[len(data)-2] != EscapeByte {
 		data = data[:len(data)-1]
 	} else {
 		if (data[len(data)-1]) == EscapeByteSufix1 {
-- 
2.43.0


From 51f547980b6db79a8b77146c1788e84fe6be4cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 02/31] fix: reject frames whose checksum byte is an unfinished
 escape

---
 protocol/message.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/message.go b/protocol/message.go
index 81a8efe..faf176f 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -78,6 +78,9 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 	// 获取校验和
 	sum := data[len(data)-1]
 	if len(data) < 2 || data[len(data)-2] != EscapeByte {
+		if sum == EscapeByte {
+			return errors.ErrInvalidMessage
+		}
 		data = data[:len(data)-1]
 	} else {
 		if (data[len(data)-1]) == EscapeByteSufix1 {
-- 
2.43.0


From d0a6a7dd38884692c7b6c3651496c3c5d2aa7cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 03/31] fix: keep leading zeros of BCD times (years 2000-2009,
 hour 00)

---
 protocol/helpers.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/protocol/helpers.go b/protocol/helpers.go
index 2c463f1..c0aa35e 100644
--- a/protocol/helpers.go
+++ b/protocol/helpers.go
@@ -90,7 +90,8 @@ func stringToBCD(s string, size ...int) []byte {
 
 // BCD转字符串
 func bcdToString(data []byte, ignorePadding ...bool) string {
-	for {
+	keepPadding := len(ignorePadding) > 0 && ignorePadding[0]
+	for !keepPadding {
 		if len(data) == 0 {
 			return ""
 		}
@@ -106,7 +107,7 @@ func bcdToString(data []byte, ignorePadding ...bool) string {
 		buf = append(buf, data[i]&0x0f+'0')
 	}
 
-	if len(ignorePadding) == 0 || !ignorePadding[0] {
+	if !keepPadding {
 		for idx := range buf {
 			if buf[idx] != '0' {
 				return string(buf[idx:])
@@ -129,7 +130,7 @@ func fromBCDTime(bcd []byte) (time.Time, error) {
 		return time.Time{}, errors.ErrInvalidBCDTime
 	}
 	t, err := time.ParseInLocation(
-		"20060102150405", "20"+bcdToString(bcd), time.Local)
+		"20060102150405", "20"+bcdToString(bcd, true), time.Local)
 	if err != nil {
 		return time.Time{}, err
 	}
-- 
2.43.0


From 0ceb2604d1ad7da5ab577c9d54b588b5af18983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 04/31] fix: decode headers with terminal number 0

---
 protocol/header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/header.go b/protocol/header.go
index 692d3f4..1b0ba56 100644
--- a/protocol/header.go
+++ b/protocol/header.go
@@ -71,7 +71,7 @@ func (header *Header) Decode(data []byte) error {
 	if err != nil {
 		return errors.ErrInvalidHeader
 	}
-	iccID, err := strconv.ParseUint(bcdToString(temp), 10, 64)
+	iccID, err := strconv.ParseUint(bcdToString(temp, true), 10, 64)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a4790f3c34001a905b01b3da4b29c1673ed7427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 05/31] fix: refuse bodies of 65536 bytes and more instead of
 wrapping their length

---
 protocol/message.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/message.go b/protocol/message.go
index faf176f..53a303b 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -45,6 +45,9 @@ func (message *Message) Encode(key ...*rsa.PublicKey) ([]byte, error) {
 
 	// 编码消息头
 	message.Header.MsgID = message.Body.MsgID()
+	if len(body) > 0xffff {
+		return nil, errors.ErrBodyTooLong
+	}
 	err = message.Header.Property.SetBodySize(uint16(len(body)))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9e27976c8abfbdd30c11fff4f0761d69182f8c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 06/31] fix: compare the whole body length with the length
 field

---
 protocol/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index 53a303b..cdfc8c4 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -146,7 +146,7 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 	}
 
 	// 解码消息体
-	if uint16(len(buffer)) != header.Property.GetBodySize() {
+	if len(buffer) != int(header.Property.GetBodySize()) {
 		log.WithFields(log.Fields{
 			"id":     fmt.Sprintf("0x%x", header.MsgID),
 			"expect": header.Property.GetBodySize(),
-- 
2.43.0


From 0ce5f484654f240babad38d00030e2203ec4f743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 07/31] fix: reject CAN receive times with non-decimal digits

---
 protocol/t808_0x0705.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/t808_0x0705.go b/protocol/t808_0x0705.go
index 0bea529..fc799a3 100644
--- a/protocol/t808_0x0705.go
+++ b/protocol/t808_0x0705.go
@@ -75,6 +75,9 @@ func (entity *T808_0x0705) Decode(data []byte) (int, error) {
 	if len(s) != 10 {
 		return 0, errors.New("invalid BTC time")
 	}
+	if _, err = strconv.ParseUint(s, 10, 64); err != nil {
+		return 0, err
+	}
 	hour, _ := strconv.Atoi(s[0:2])
 	minute, _ := strconv.Atoi(s[2:4])
 	second, _ := strconv.Atoi(s[4:6])
-- 
2.43.0


From f82ec4fd7f884cc27282bb95ea77e34ca1d8a6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:48 +0000
Subject: [PATCH 08/31] fix: decode empty parameter lists (0x0104, 0x8103)

---
 protocol/t808_0x0104.go | 2 +-
 protocol/t808_0x8103.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/t808_0x0104.go b/protocol/t808_0x0104.go
index edad69e..bcc3aa8 100644
--- a/protocol/t808_0x0104.go
+++ b/protocol/t808_0x0104.go
@@ -36,7 +36,7 @@ func (entity *T808_0x0104) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x0104) Decode(data []byte) (int, error) {
-	if len(data) <= 3 {
+	if len(data) < 3 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8103.go b/protocol/t808_0x8103.go
index 308671c..a7802b9 100644
--- a/protocol/t808_0x8103.go
+++ b/protocol/t808_0x8103.go
@@ -31,7 +31,7 @@ func (entity *T808_0x8103) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8103) Decode(data []byte) (int, error) {
-	if len(data) <= 3 {
+	if len(data) < 1 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
-- 
2.43.0


From b569baf041f5a5c0612ad1204c6ad41fce0620f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:48 +0000
Subject: [PATCH 09/31] fix: encode messages without a body instead of
 panicking

---
 protocol/message.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index cdfc8c4..97ab00f 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -44,7 +44,9 @@ func (message *Message) Encode(key ...*rsa.PublicKey) ([]byte, error) {
 	checkSum, count = message.computeChecksum(body, checkSum, count)
 
 	// 编码消息头
-	message.Header.MsgID = message.Body.MsgID()
+	if message.Body != nil {
+		message.Header.MsgID = message.Body.MsgID()
+	}
 	if len(body) > 0xffff {
 		return nil, errors.ErrBodyTooLong
 	}
-- 
2.43.0


From e616d4add7b3afd4caf1f8d8e06daa6c75dd1cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:48 +0000
Subject: [PATCH 10/31] fix: report an error for a packet flag without packet
 information

---
 protocol/header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/header.go b/protocol/header.go
index 1b0ba56..11f0a68 100644
--- a/protocol/header.go
+++ b/protocol/header.go
@@ -41,6 +41,9 @@ func (header *Header) Encode() ([]byte, error) {
 
 	// 写入分包信息
 	if header.Property.IsEnablePacket() {
+		if header.Packet == nil {
+			return nil, errors.ErrInvalidHeader
+		}
 		writer.WriteUint16(header.Packet.Sum)
 		writer.WriteUint16(header.Packet.Seq)
 	}
-- 
2.43.0


From 35a439791852ac2ac50b8e73c603afd625652c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:48 +0000
Subject: [PATCH 11/31] fix: let decoded location extras be encoded again

---
 protocol/extra/0x01.go | 1 +
 protocol/extra/0x02.go | 1 +
 protocol/extra/0x03.go | 1 +
 protocol/extra/0x04.go | 1 +
 protocol/extra/0x11.go | 2 ++
 protocol/extra/0x12.go | 1 +
 protocol/extra/0x13.go | 1 +
 protocol/extra/0x25.go | 1 +
 protocol/extra/0x2a.go | 1 +
 protocol/extra/0x2b.go | 1 +
 protocol/extra/0x30.go | 1 +
 protocol/extra/0x31.go | 1 +
 12 files changed, 13 insertions(+)

diff --git a/protocol/extra/0x01.go b/protocol/extra/0x01.go
index fd4922b..f4921fc 100644
--- a/protocol/extra/0x01.go
+++ b/protocol/extra/0x01.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x01) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte(nil), data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x02.go b/protocol/extra/0x02.go
index 479c464..9702b2c 100644
--- a/protocol/extra/0x02.go
+++ b/protocol/extra/0x02.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x02) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x03.go b/protocol/extra/0x03.go
index d1d862e..8cc30f4 100644
--- a/protocol/extra/0x03.go
+++ b/protocol/extra/0x03.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x03) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x04.go b/protocol/extra/0x04.go
index 219fe5b..c3123be 100644
--- a/protocol/extra/0x04.go
+++ b/protocol/extra/0x04.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x04) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x11.go b/protocol/extra/0x11.go
index 9b8cb9d..6361e0d 100644
--- a/protocol/extra/0x11.go
+++ b/protocol/extra/0x11.go
@@ -52,6 +52,7 @@ func (extra *Extra_0x11) Decode(data []byte) (int, error) {
 	extra.value.AreaID = nil
 	extra.value.Type = data[0]
 	if extra.value.Type == 0 {
+		extra.serialized = append([]byte(nil), data[:1]...)
 		return 1, nil
 	}
 
@@ -60,5 +61,6 @@ func (extra *Extra_0x11) Decode(data []byte) (int, error) {
 	}
 	areaID := binary.BigEndian.Uint32(data[1:])
 	extra.value.AreaID = &areaID
+	extra.serialized = append([]byte(nil), data[:5]...)
 	return 5, nil
 }
diff --git a/protocol/extra/0x12.go b/protocol/extra/0x12.go
index fd823d7..23a8b95 100644
--- a/protocol/extra/0x12.go
+++ b/protocol/extra/0x12.go
@@ -56,5 +56,6 @@ func (extra *Extra_0x12) Decode(data []byte) (int, error) {
 	extra.value.Type = data[0]
 	extra.value.AreaID = binary.BigEndian.Uint32(data[1:5])
 	extra.value.Direction = data[5]
+	extra.serialized = append([]byte(nil), data[:6]...)
 	return 6, nil
 }
diff --git a/protocol/extra/0x13.go b/protocol/extra/0x13.go
index 507ddd8..39d8a8c 100644
--- a/protocol/extra/0x13.go
+++ b/protocol/extra/0x13.go
@@ -57,5 +57,6 @@ func (extra *Extra_0x13) Decode(data []byte) (int, error) {
 	extra.value.RoadID = binary.BigEndian.Uint32(data[:4])
 	extra.value.Duration = binary.BigEndian.Uint16(data[4:6])
 	extra.value.Result = data[6]
+	extra.serialized = append([]byte(nil), data[:7]...)
 	return 7, nil
 }
diff --git a/protocol/extra/0x25.go b/protocol/extra/0x25.go
index ff53a52..2b85477 100644
--- a/protocol/extra/0x25.go
+++ b/protocol/extra/0x25.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x25) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte(nil), data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x2a.go b/protocol/extra/0x2a.go
index c7fd0c1..345010f 100644
--- a/protocol/extra/0x2a.go
+++ b/protocol/extra/0x2a.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x2A) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x2b.go b/protocol/extra/0x2b.go
index 1b49621..6c56444 100644
--- a/protocol/extra/0x2b.go
+++ b/protocol/extra/0x2b.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x2B) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte(nil), data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x30.go b/protocol/extra/0x30.go
index cfdd4f5..56122e9 100644
--- a/protocol/extra/0x30.go
+++ b/protocol/extra/0x30.go
@@ -35,5 +35,6 @@ func (extra *Extra_0x30) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = data[0]
+	extra.serialized = append([]byte(nil), data[:1]...)
 	return 1, nil
 }
diff --git a/protocol/extra/0x31.go b/protocol/extra/0x31.go
index d43f67c..2bc0187 100644
--- a/protocol/extra/0x31.go
+++ b/protocol/extra/0x31.go
@@ -35,5 +35,6 @@ func (extra *Extra_0x31) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = data[0]
+	extra.serialized = append([]byte(nil), data[:1]...)
 	return 1, nil
 }
-- 
2.43.0


From 57fee1dc734901cdbb7fe39daf93d2a8e66041c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:48 +0000
Subject: [PATCH 12/31] fix: refuse damaged compressed reports instead of
 delivering part of them

---
 protocol/t808_0x0901.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/protocol/t808_0x0901.go b/protocol/t808_0x0901.go
index 81dd7e6..c2bd893 100644
--- a/protocol/t808_0x0901.go
+++ b/protocol/t808_0x0901.go
@@ -3,7 +3,6 @@ package protocol
 import (
 	"bytes"
 	"compress/gzip"
-	"fmt"
 	"io"
 )
 
@@ -29,7 +28,6 @@ func (entity *T808_0x0901) Encode() ([]byte, error) {
 	writer.WriteUint32(uint32(buffer.Len()))
 
 	// 写入压缩消息
-	fmt.Println(len(entity.Uncompressed))
 	writer.Write(buffer.Bytes())
 	return writer.Bytes(), nil
 }
@@ -63,7 +61,7 @@ func (entity *T808_0x0901) Decode(data []byte) (int, error) {
 	for {
 		n, err := gzipReader.Read(temp[:])
 		if err != nil && err != io.EOF {
-			break
+			return 0, err
 		}
 
 		if n > 0 {
-- 
2.43.0


From ed991ec78ab35e7ad2b53f7fc879aad41b69a6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:29 +0000
Subject: [PATCH 13/31] fix: report an error for RSA keys too small for OAEP
 instead of panicking

---
 protocol/helpers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/protocol/helpers.go b/protocol/helpers.go
index c0aa35e..847cc21 100644
--- a/protocol/helpers.go
+++ b/protocol/helpers.go
@@ -12,8 +12,12 @@ import (
 
 // 使用RSA-OAEP加密
 func EncryptOAEP(hash hash.Hash, pub *rsa.PublicKey, msg []byte, label []byte) ([]byte, error) {
+	limit := pub.Size() - 2*hash.Size() - 2
+	if limit <= 0 {
+		return nil, rsa.ErrMessageTooLong
+	}
 	buffer := bytes.NewBuffer(nil)
-	chunks := bytesSplit(msg, pub.Size()-2*hash.Size()-2)
+	chunks := bytesSplit(msg, limit)
 	for _, chunk := range chunks {
 		ciphertext, err := rsa.EncryptOAEP(hash, rand.Reader, pub, chunk, label)
 		if err != nil {
-- 
2.43.0


From 758107318f274ad601b62c8257c28253b95fa778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:58 +0000
Subject: [PATCH 14/31] fix: register a request before its answer can arrive

---
 session.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/session.go b/session.go
index 0cf29a1..6a84d51 100644
--- a/session.go
+++ b/session.go
@@ -96,6 +96,10 @@ func (session *Session) Reply(msg *protocol.Message, result protocol.Result) (ui
 
 // 发起请求
 func (session *Session) Request(entity protocol.Entity, cb func(answer *protocol.Message)) (uint16, error) {
+	// 发送与登记需在同一临界区内完成，避免应答先于登记到达
+	session.mux.Lock()
+	defer session.mux.Unlock()
+
 	serialNo, err := session.Send(entity)
 	if err != nil {
 		return 0, err
@@ -190,11 +194,8 @@ func (session *Session) message(message *protocol.Message) {
 	}
 }
 
-// 添加请求上下文
+// 添加请求上下文（调用者需持有锁）
 func (session *Session) addRequestContext(ctx requestContext) {
-	session.mux.Lock()
-	defer session.mux.Unlock()
-
 	for idx, item := range session.requests {
 		if item.msgID == ctx.msgID {
 			session.requests[idx] = ctx
-- 
2.43.0


From 94a80ba94f5c4ca368f2ef73dba9277b04ddc46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:58 +0000
Subject: [PATCH 15/31] fix: address replies to the terminal of the message
 just received

---
 session.go         | 7 +++++--
 session_handler.go | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/session.go b/session.go
index 6a84d51..e728c15 100644
--- a/session.go
+++ b/session.go
@@ -138,8 +138,8 @@ func (session *Session) nextID() uint16 {
 	return uint16(id)
 }
 
-// 消息接收事件
-func (session *Session) message(message *protocol.Message) {
+// 更新终端号码
+func (session *Session) updateIccID(message *protocol.Message) {
 	if message.Header.IccID > 0 {
 		old := atomic.LoadUint64(&session.iccID)
 		if old != 0 && old != message.Header.IccID {
@@ -151,7 +151,10 @@ func (session *Session) message(message *protocol.Message) {
 		}
 		atomic.StoreUint64(&session.iccID, message.Header.IccID)
 	}
+}
 
+// 消息接收事件
+func (session *Session) message(message *protocol.Message) {
 	var msgSerialNo uint16
 	switch message.Header.MsgID {
 	case protocol.MsgT808_0x0001:
diff --git a/session_handler.go b/session_handler.go
index 9161c84..f6a94ca 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -41,6 +41,7 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 
 		// 分发消息
 		message := msg.(protocol.Message)
+		session.updateIccID(&message)
 		if message.Body == nil || reflect.ValueOf(message.Body).IsNil() {
 			session.Reply(&message, protocol.T808_0x8001ResultUnsupported)
 			continue
-- 
2.43.0


From f83085126ec8f79375c61b1cf5e2907c2c60bf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:55 +0000
Subject: [PATCH 16/31] fix: update a countdown in one step so that concurrent
 updates leave no stale entry

---
 timer.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/timer.go b/timer.go
index b815b81..258d2ee 100644
--- a/timer.go
+++ b/timer.go
@@ -85,14 +85,14 @@ func NewCountdownTimer(seconds int64, callback func(string)) *CountdownTimer {
 
 // 更新时间
 func (timer *CountdownTimer) Update(key string) {
+	timer.mutex.Lock()
+	defer timer.mutex.Unlock()
+
 	e := element{
 		Key:    key,
 		Expire: time.Now().Unix() + atomic.LoadInt64(&timer.seconds),
 	}
-	timer.Remove(key)
-
-	timer.mutex.Lock()
-	defer timer.mutex.Unlock()
+	timer.remove(key)
 	heap.Push(timer.q, &e)
 	timer.mapper[key] = &e
 }
@@ -101,7 +101,11 @@ func (timer *CountdownTimer) Update(key string) {
 func (timer *CountdownTimer) Remove(key string) {
 	timer.mutex.Lock()
 	defer timer.mutex.Unlock()
+	timer.remove(key)
+}
 
+// 删除计时（调用者需持有锁）
+func (timer *CountdownTimer) remove(key string) {
 	element, ok := timer.mapper[key]
 	if !ok {
 		return
-- 
2.43.0


From 82982a996a37a60ac7ea13b44a15354a90c098ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:17 +0000
Subject: [PATCH 17/31] fix: remove a session that was closed before its close
 callback was registered

---
 session_handler.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/session_handler.go b/session_handler.go
index f6a94ca..04345b8 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"reflect"
 	"strconv"
+	"sync"
 )
 
 // Session处理
@@ -27,9 +28,15 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 	handler.server.sessions[sess.ID()] = session
 	handler.server.mutex.Unlock()
 	handler.server.timer.Update(strconv.FormatUint(session.ID(), 10))
-	sess.AddCloseCallback(nil, nil, func() {
-		handler.server.handleClose(session)
-	})
+	var closeOnce sync.Once
+	onClose := func() {
+		closeOnce.Do(func() { handler.server.handleClose(session) })
+	}
+	sess.AddCloseCallback(nil, nil, onClose)
+	if sess.IsClosed() {
+		// 注册回调前会话已关闭，回调可能不会触发
+		onClose()
+	}
 
 	for {
 		// 接收消息
-- 
2.43.0


From b5a1957fbd765d04982dfe0547225772a85a34fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:40 +0000
Subject: [PATCH 18/31] fix: create the directory of uploads with search
 permission

---
 multipart.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 654713a..b73e936 100644
--- a/multipart.go
+++ b/multipart.go
@@ -96,7 +96,7 @@ func (m MultipartFile) rootDir() string {
 // 写入分包文件
 func (m MultipartFile) Write(seq uint16, data []byte) error {
 	dir := m.rootDir()
-	if err := os.MkdirAll(dir, 0644); err != nil {
+	if err := os.MkdirAll(dir, 0755); err != nil {
 		return err
 	}
 	sep := filepath.Separator
-- 
2.43.0


From 81b84d567bf46794c30abfce8535e61a2c1af3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:40 +0000
Subject: [PATCH 19/31] fix: do not panic when the directory of an upload
 cannot be read

---
 multipart.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/multipart.go b/multipart.go
index b73e936..157aa85 100644
--- a/multipart.go
+++ b/multipart.go
@@ -40,11 +40,11 @@ func (m MultipartFile) IsFull() bool {
 		set[uint16(i)] = struct{}{}
 	}
 
-	m.walkParts(func(path string, seq uint16) error {
+	err := m.walkParts(func(path string, seq uint16) error {
 		delete(set, seq)
 		return nil
 	})
-	return len(set) == 0
+	return err == nil && len(set) == 0
 }
 
 // 合并文件
@@ -109,6 +109,9 @@ func (m MultipartFile) walkParts(walkFn func(path string, seq uint16) error) err
 	dir := m.rootDir()
 	id := strconv.Itoa(int(m.MsgID))
 	return filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if info.IsDir() {
 			return nil
 		}
-- 
2.43.0


From 904da5185ce0ba1fa4d83baef03ff62aa46a30ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:40 +0000
Subject: [PATCH 20/31] fix: do not count a part that could not be stored
 completely

---
 multipart.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 157aa85..912a6c1 100644
--- a/multipart.go
+++ b/multipart.go
@@ -101,7 +101,17 @@ func (m MultipartFile) Write(seq uint16, data []byte) error {
 	}
 	sep := filepath.Separator
 	name := fmt.Sprintf("%s%c%d-%d-%d.part", dir, sep, m.MsgID, m.Tag, seq)
-	return ioutil.WriteFile(name, data, 0644)
+
+	// 先写入临时文件，写入失败的分包不计入
+	temp := name + ".tmp"
+	err := ioutil.WriteFile(temp, data, 0644)
+	if err == nil {
+		err = os.Rename(temp, name)
+	}
+	if err != nil {
+		os.Remove(temp)
+	}
+	return err
 }
 
 // 遍历分包文件
-- 
2.43.0


From 4b8608bb7347576160c0d705e8719967982ee888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:40 +0000
Subject: [PATCH 21/31] fix: discard the previous merge result when merging
 again

---
 multipart.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 912a6c1..21043c7 100644
--- a/multipart.go
+++ b/multipart.go
@@ -71,7 +71,7 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 
 	sep := filepath.Separator
 	full := fmt.Sprintf("%s%c%d-%d.full", m.rootDir(), sep, m.MsgID, m.Tag)
-	w, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE, 0644)
+	w, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 04395d4f5bbacfad8ded459137037e5f780ef255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:40 +0000
Subject: [PATCH 22/31] fix: leave parts outside 1..total out of an upload

---
 multipart.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multipart.go b/multipart.go
index 21043c7..d64e25a 100644
--- a/multipart.go
+++ b/multipart.go
@@ -141,6 +141,9 @@ func (m MultipartFile) walkParts(walkFn func(path string, seq uint16) error) err
 		}
 
 		seq, _ := strconv.Atoi(slice[2])
+		if seq < 1 || seq > int(m.Sum) {
+			return nil
+		}
 		return walkFn(path, uint16(seq))
 	})
 }
-- 
2.43.0


From 57f6a1cd5b93f5606e04dc379bf401b0f30dc45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:37 +0000
Subject: [PATCH 23/31] fix: deliver an upload when its last part arrives in
 any order, and start afresh afterwards

---
 multipart.go       | 26 ++++++++++++++++++++++++--
 session_handler.go |  9 ++++++++-
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/multipart.go b/multipart.go
index d64e25a..ef1cb53 100644
--- a/multipart.go
+++ b/multipart.go
@@ -5,6 +5,7 @@ import (
 	"gitee.com/coco/go808/protocol"
 	"io"
 	"io/ioutil"
+	"math"
 	"os"
 	"path/filepath"
 	"sort"
@@ -69,8 +70,7 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 		return nil, err
 	}
 
-	sep := filepath.Separator
-	full := fmt.Sprintf("%s%c%d-%d.full", m.rootDir(), sep, m.MsgID, m.Tag)
+	full := m.fullPath()
 	w, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return nil, err
@@ -86,6 +86,28 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 	return os.OpenFile(full, os.O_RDONLY, 0644)
 }
 
+// 删除分包及合并后的文件
+func (m MultipartFile) remove() error {
+	// 遍历全部分包，包括总包数不同的历史分包
+	m.Sum = math.MaxUint16
+	paths := []string{m.fullPath()}
+	err := m.walkParts(func(path string, seq uint16) error {
+		paths = append(paths, path)
+		return nil
+	})
+	for _, path := range paths {
+		if e := os.Remove(path); e != nil && err == nil {
+			err = e
+		}
+	}
+	return err
+}
+
+// 获取合并文件路径
+func (m MultipartFile) fullPath() string {
+	return fmt.Sprintf("%s%c%d-%d.full", m.rootDir(), filepath.Separator, m.MsgID, m.Tag)
+}
+
 // 获取根目录
 func (m MultipartFile) rootDir() string {
 	sep := filepath.Separator
diff --git a/session_handler.go b/session_handler.go
index 04345b8..134fc15 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -99,7 +99,7 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 		}
 
 		session.Reply(&message, protocol.T808_0x8001ResultSuccess)
-		if message.Header.Packet.Seq != message.Header.Packet.Sum || !multipartFile.IsFull() {
+		if !multipartFile.IsFull() {
 			continue
 		}
 
@@ -118,5 +118,12 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 		session.message(&message)
 		handler.server.dispatchMessage(session, &message)
 		reader.Close()
+		if err = multipartFile.remove(); err != nil {
+			log.WithFields(log.Fields{
+				"iccid":  message.Header.IccID,
+				"msgid":  fmt.Sprintf("0x%x", message.Header.MsgID),
+				"reason": err,
+			}).Warn("[JT/T 808] failed to remove packet file parts")
+		}
 	}
 }
-- 
2.43.0


From b3cd4ada2d202a22292f20226223d097bd1b0622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:46 +0000
Subject: [PATCH 24/31] fix: refresh the keepalive time when a part of a split
 message arrives

---
 server.go          | 7 +++++++
 session_handler.go | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/server.go b/server.go
index c2d58eb..457aaf0 100644
--- a/server.go
+++ b/server.go
@@ -150,6 +150,13 @@ func (server *Server) handleClose(session *Session) {
 	}).Debug("[JT/T 808] session closed")
 }
 
+// 刷新保活时间
+func (server *Server) refreshTimeout(session *Session, msgID protocol.MsgID) {
+	if _, ok := server.messageHandlers.Load(msgID); ok {
+		server.timer.Update(strconv.FormatUint(session.ID(), 10))
+	}
+}
+
 // 处理读超时
 func (server *Server) handleReadTimeout(key string) {
 	sessionID, err := strconv.ParseUint(key, 10, 64)
diff --git a/session_handler.go b/session_handler.go
index 134fc15..343ea2f 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -68,6 +68,8 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 			continue
 		}
 
+		// 分包不一定会分派，收到即刷新保活时间
+		handler.server.refreshTimeout(session, message.Header.MsgID)
 		multipartFile := MultipartFile{
 			IccID: message.Header.IccID,
 			MsgID: message.Header.MsgID,
-- 
2.43.0


From 02114562786f7e23f5ea3f7bad05bebc8db352e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:41 +0000
Subject: [PATCH 25/31] fix: read expiry dates of driver identities in years
 before 1000, as written for a date left out

---
 protocol/t808_0x0702.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/t808_0x0702.go b/protocol/t808_0x0702.go
index 2c0de10..4587abe 100644
--- a/protocol/t808_0x0702.go
+++ b/protocol/t808_0x0702.go
@@ -141,7 +141,7 @@ func (entity *T808_0x0702) Decode(data []byte) (int, error) {
 		return 0, err
 	}
 	entity.ExpiryDate, err = time.ParseInLocation(
-		"20060102150405", bcdToString(bcd)+"000000", time.Local)
+		"20060102150405", bcdToString(bcd, true)+"000000", time.Local)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 142fac4de20a1a146815ea1f03ca6aded4aebc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:55 +0000
Subject: [PATCH 26/31] fix: leave no body of an earlier frame in a message
 that is decoded into again

---
 protocol/message.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocol/message.go b/protocol/message.go
index 97ab00f..ac5ae23 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -148,6 +148,7 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 	}
 
 	// 解码消息体
+	message.Body = nil
 	if len(buffer) != int(header.Property.GetBodySize()) {
 		log.WithFields(log.Fields{
 			"id":     fmt.Sprintf("0x%x", header.MsgID),
-- 
2.43.0


From 11e868a08ec84e9f7c0af0dc16b2d3f049083c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:35 +0000
Subject: [PATCH 27/31] fix: an application's own type for an answer id no
 longer panics the server

---
 session.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/session.go b/session.go
index e728c15..653bf45 100644
--- a/session.go
+++ b/session.go
@@ -159,28 +159,44 @@ func (session *Session) message(message *protocol.Message) {
 	switch message.Header.MsgID {
 	case protocol.MsgT808_0x0001:
 		// 终端通用应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0001).ReplyMsgSerialNo
+		if body, ok := message.Body.(*protocol.T808_0x0001); ok {
+			msgSerialNo = body.ReplyMsgSerialNo
+		}
 	case protocol.MsgT808_0x0104:
 		// 查询终端参数应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0104).ReplyMsgSerialNo
+		if body, ok := message.Body.(*protocol.T808_0x0104); ok {
+			msgSerialNo = body.ReplyMsgSerialNo
+		}
 	case protocol.MsgT808_0x0201:
 		// 位置信息查询应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0201).ReplyMsgSerialNo
+		if body, ok := message.Body.(*protocol.T808_0x0201); ok {
+			msgSerialNo = body.ReplyMsgSerialNo
+		}
 	case protocol.MsgT808_0x0302:
 		// 提问应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0302).ReplyMsgSerialNo
+		if body, ok := message.Body.(*protocol.T808_0x0302); ok {
+			msgSerialNo = body.ReplyMsgSerialNo
+		}
 	case protocol.MsgT808_0x0500:
 		// 车辆控制应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0500).ReplyMsgSerialNo
+		if body, ok := message.Body.(*protocol.T808_0x0500); ok {
+			msgSerialNo = body.ReplyMsgSerialNo
+		}
 	case protocol.MsgT808_0x0700:
 		// 行驶记录数据上传
-		msgSerialNo = message.Body.(*protocol.T808_0x0700).ReplyMsgSerialNo
+		if body, ok := message.Body.(*protocol.T808_0x0700); ok {
+			msgSerialNo = body.ReplyMsgSerialNo
+		}
 	case protocol.MsgT808_0x0802:
 		// 存储多媒体数据检索应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0802).ReplyMsgSerialNo
+		if body, ok := message.Body.(*protocol.T808_0x0802); ok {
+			msgSerialNo = body.ReplyMsgSerialNo
+		}
 	case protocol.MsgT808_0x0805:
 		// 摄像头立即拍摄命令应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0805).ReplyMsgSerialNo
+		if body, ok := message.Body.(*protocol.T808_0x0805); ok {
+			msgSerialNo = body.ReplyMsgSerialNo
+		}
 	}
 	if msgSerialNo == 0 {
 		return
-- 
2.43.0


From 547fe0aa8604c369112bd56ae78f10600d0bd0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:35 +0000
Subject: [PATCH 28/31] fix: body types that are not pointers no longer panic
 the server

---
 session_handler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/session_handler.go b/session_handler.go
index 343ea2f..7fa25bc 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -49,7 +49,8 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 		// 分发消息
 		message := msg.(protocol.Message)
 		session.updateIccID(&message)
-		if message.Body == nil || reflect.ValueOf(message.Body).IsNil() {
+		body := reflect.ValueOf(message.Body)
+		if message.Body == nil || (body.Kind() == reflect.Ptr && body.IsNil()) {
 			session.Reply(&message, protocol.T808_0x8001ResultUnsupported)
 			continue
 		}
-- 
2.43.0


From ca4d7153ec35d1d0e442b5212e92c4c79379d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:25 +0000
Subject: [PATCH 29/31] fix: parts of one upload that arrive over several
 connections at once no longer disturb each other

---
 multipart.go       | 35 +++++++++++++++++++++++++++++++++++
 session_handler.go |  5 +++++
 2 files changed, 40 insertions(+)

diff --git a/multipart.go b/multipart.go
index ef1cb53..dc5dbe8 100644
--- a/multipart.go
+++ b/multipart.go
@@ -11,6 +11,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"sync"
 )
 
 // 分包文件
@@ -34,6 +35,40 @@ type MultipartFile struct {
 	Sum   uint16
 }
 
+// 分包文件锁，同一文件的分包可能从多个连接到达
+type multipartLock struct {
+	mutex sync.Mutex
+	users int
+}
+
+var (
+	multipartMutex sync.Mutex
+	multipartLocks = make(map[MultipartFile]*multipartLock)
+)
+
+// 锁定文件，返回解锁函数
+func (m MultipartFile) lock() func() {
+	m.Sum = 0
+	multipartMutex.Lock()
+	l, ok := multipartLocks[m]
+	if !ok {
+		l = new(multipartLock)
+		multipartLocks[m] = l
+	}
+	l.users++
+	multipartMutex.Unlock()
+
+	l.mutex.Lock()
+	return func() {
+		l.mutex.Unlock()
+		multipartMutex.Lock()
+		defer multipartMutex.Unlock()
+		if l.users--; l.users == 0 {
+			delete(multipartLocks, m)
+		}
+	}
+}
+
 // 是否完整
 func (m MultipartFile) IsFull() bool {
 	set := make(map[uint16]struct{})
diff --git a/session_handler.go b/session_handler.go
index 7fa25bc..fcade26 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -89,8 +89,10 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 			continue
 		}
 
+		unlock := multipartFile.lock()
 		err = multipartFile.Write(message.Header.Packet.Seq, buf)
 		if err != nil {
+			unlock()
 			log.WithFields(log.Fields{
 				"iccid":  message.Header.IccID,
 				"msgid":  fmt.Sprintf("0x%x", message.Header.MsgID),
@@ -103,11 +105,13 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 
 		session.Reply(&message, protocol.T808_0x8001ResultSuccess)
 		if !multipartFile.IsFull() {
+			unlock()
 			continue
 		}
 
 		reader, err := multipartFile.Merge()
 		if err != nil {
+			unlock()
 			log.WithFields(log.Fields{
 				"iccid":  message.Header.IccID,
 				"msgid":  fmt.Sprintf("0x%x", message.Header.MsgID),
@@ -128,5 +132,6 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 				"reason": err,
 			}).Warn("[JT/T 808] failed to remove packet file parts")
 		}
+		unlock()
 	}
 }
-- 
2.43.0


From 37cdd467fcb350a67b0926c164bf96a1b1c6f239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 30/31] fix: Run and Stop called by different goroutines no
 longer crash or lose the server

---
 server.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/server.go b/server.go
index 457aaf0..113eb0f 100644
--- a/server.go
+++ b/server.go
@@ -60,29 +60,37 @@ func NewServer(options Options) (*Server, error) {
 
 // 运行服务
 func (server *Server) Run(network string, port int) error {
+	server.mutex.Lock()
 	if server.server != nil {
+		server.mutex.Unlock()
 		return errors.New("server already running")
 	}
 
 	address := fmt.Sprintf("0.0.0.0:%d", port)
 	listen, err := net.Listen(network, address)
 	if err != nil {
+		server.mutex.Unlock()
 		return err
 	}
 
 	p := Protocol{
 		privateKey: server.privateKey,
 	}
-	server.server = link.NewServer(listen, &p, 24, server.handler)
+	running := link.NewServer(listen, &p, 24, server.handler)
+	server.server = running
+	server.mutex.Unlock()
 	log.Infof("[JT/T 808] protocol server started on %s", address)
-	return server.server.Serve()
+	return running.Serve()
 }
 
 // 停止服务
 func (server *Server) Stop() {
-	if server.server != nil {
-		server.server.Stop()
-		server.server = nil
+	server.mutex.Lock()
+	running := server.server
+	server.server = nil
+	server.mutex.Unlock()
+	if running != nil {
+		running.Stop()
 	}
 }
 
-- 
2.43.0


From d42151315723ae7c98ce05cd90b328015513d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 31/31] fix: an answer no longer goes to an old unanswered
 request whose serial number has been reused

---
 session.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/session.go b/session.go
index 653bf45..da5e4fc 100644
--- a/session.go
+++ b/session.go
@@ -215,6 +215,15 @@ func (session *Session) message(message *protocol.Message) {
 
 // 添加请求上下文（调用者需持有锁）
 func (session *Session) addRequestContext(ctx requestContext) {
+	// 流水号循环使用后，此前未应答的同号请求作废
+	for idx, item := range session.requests {
+		if item.serialNo == ctx.serialNo && item.msgID != ctx.msgID {
+			session.requests[idx] = session.requests[len(session.requests)-1]
+			session.requests = session.requests[:len(session.requests)-1]
+			break
+		}
+	}
+
 	for idx, item := range session.requests {
 		if item.msgID == ctx.msgID {
 			session.requests[idx] = ctx
-- 
2.43.0

