From c7d5567a66f097b5a59df39bfa837e0ea16a3326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:38 +0000
Subject: [PATCH 01/24] fix: do not call a nil Trace function when a reply
 arrives

---
 protocol/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 9f67f3c..1750f8b 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -160,9 +160,10 @@ func (c *Client) IO() {
 		if int(t-1) >= len(c.RPC) {
 			panic(fmt.Sprintf("tag %d >= len(c.RPC) %d", t, len(c.RPC)))
 		}
-		c.Trace("RPC %v ", c.RPC[t-1])
 		rrr := c.RPC[t-1]
-		c.Trace("rrr %v ", rrr)
+		if c.Trace != nil {
+			c.Trace("RPC %v ", rrr)
+		}
 		rrr.Reply <- r.b
 		c.Tags <- t
 	}
-- 
2.43.0


From 5a9a4b776a59652963be7cab0c6db7acd42567bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:33 +0000
Subject: [PATCH 02/24] fix: read a message header that arrives in pieces

---
 protocol/client.go | 2 +-
 protocol/server.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 1750f8b..a666011 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -93,7 +93,7 @@ func (c *Client) readNetPackets() {
 			c.Trace("Before read")
 		}
 
-		if n, err := c.FromNet.Read(l); err != nil || n < 7 {
+		if _, err := io.ReadFull(c.FromNet, l); err != nil {
 			log.Printf("readNetPackets: short read: %v", err)
 			c.Dead = true
 			return
diff --git a/protocol/server.go b/protocol/server.go
index 3da8bd5..3d8cd78 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -212,7 +212,7 @@ func (c *conn) serve() {
 
 	for !c.dead {
 		l := make([]byte, 7)
-		if n, err := c.rwc.Read(l); err != nil || n < 7 {
+		if _, err := io.ReadFull(c.rwc, l); err != nil {
 			c.logf("readNetPackets: short read: %v", err)
 			c.dead = true
 			return
-- 
2.43.0


From d162873a17569990a3a14fccb823a67eaadf2aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:33 +0000
Subject: [PATCH 03/24] fix: drop a connection whose message is cut short or
 has an impossible size

---
 protocol/client.go | 8 ++++++--
 protocol/server.go | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index a666011..c7cca2d 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -102,9 +102,13 @@ func (c *Client) readNetPackets() {
 			c.Trace("Server reads %v", l)
 		}
 		s := int64(l[0]) + int64(l[1])<<8 + int64(l[2])<<16 + int64(l[3])<<24
+		if s < 7 {
+			log.Printf("readNetPackets: impossible message size %d", s)
+			c.Dead = true
+			return
+		}
 		b := bytes.NewBuffer(l)
-		r := io.LimitReader(c.FromNet, s-7)
-		if _, err := io.Copy(b, r); err != nil {
+		if _, err := io.CopyN(b, c.FromNet, s-7); err != nil {
 			log.Printf("readNetPackets: short read: %v", err)
 			c.Dead = true
 			return
diff --git a/protocol/server.go b/protocol/server.go
index 3d8cd78..dc94fc4 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -218,10 +218,14 @@ func (c *conn) serve() {
 			return
 		}
 		sz := int64(l[0]) + int64(l[1])<<8 + int64(l[2])<<16 + int64(l[3])<<24
+		if sz < 7 {
+			c.logf("readNetPackets: impossible message size %d", sz)
+			c.dead = true
+			return
+		}
 		t := MType(l[4])
 		b := bytes.NewBuffer(l[5:])
-		r := io.LimitReader(c.rwc, sz-7)
-		if _, err := io.Copy(b, r); err != nil {
+		if _, err := io.CopyN(b, c.rwc, sz-7); err != nil {
 			c.logf("readNetPackets: short read: %v", err)
 			c.dead = true
 			return
-- 
2.43.0


From ae9058b47d810e2713c119e6453c5bae56e8412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:58 +0000
Subject: [PATCH 04/24] fix: check every length when decoding a message

---
 protocol/gen.go    |  19 +++--
 protocol/genout.go | 191 ++++++++++++++++++++++++---------------------
 2 files changed, 117 insertions(+), 93 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index 17e6cf2..8561918 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -41,6 +41,7 @@ package protocol
 import (
 "bytes"
 "fmt"
+"io"
 _ "log"
 )
 `
@@ -143,7 +144,7 @@ return
 	ufunc = template.Must(template.New("mr").Parse(`func Unmarshal{{.UFunc}}Pkt (b *bytes.Buffer) ({{.URet}} t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -217,7 +218,7 @@ func emitEncodeInt(v interface{}, n string, l int, e *emitter) {
 func emitDecodeInt(v interface{}, n string, l int, e *emitter) {
 	t := reflect.ValueOf(v).Type().Name()
 	debug("emit reflect.ValueOf(v) %s %v, %v", t, n, l)
-	e.UCode.WriteString(fmt.Sprintf("\tif _, err = b.Read(u[:%v]); err != nil {\n\t\terr = fmt.Errorf(\"pkt too short for uint%v: need %v, have %%d\", b.Len())\n\treturn\n\t}\n", l, l*8, l))
+	e.UCode.WriteString(fmt.Sprintf("\tif _, err = io.ReadFull(b, u[:%v]); err != nil {\n\t\terr = fmt.Errorf(\"pkt too short for uint%v: need %v, have %%d\", b.Len())\n\treturn\n\t}\n", l, l*8, l))
 	e.UCode.WriteString(fmt.Sprintf("\t%v = %s(u[0])\n", n, t))
 	for i := 1; i < l; i++ {
 		e.UCode.WriteString(fmt.Sprintf("\t%v |= %s(u[%d])<<%v\n", n, t, i, i*8))
@@ -244,6 +245,14 @@ func emitDecodeString(n string, e *emitter) {
 	e.UCode.WriteString("\t_ = b.Next(int(l))\n")
 }
 
+// emitDecodeBytes decodes the l bytes of a []byte. The buffer may well have
+// room beyond its contents, so the length has to be checked.
+func emitDecodeBytes(n string, e *emitter) {
+	e.UCode.WriteString("\tif uint64(b.Len()) < l {\n\t\terr = fmt.Errorf(\"pkt too short for data: need %d, have %d\", l, b.Len())\n\treturn\n\t}\n")
+	e.UCode.WriteString(fmt.Sprintf("\t%v = b.Bytes()[:l]\n", n))
+	e.UCode.WriteString("\t_ = b.Next(int(l))\n")
+}
+
 func genEncodeStruct(v interface{}, n string, e *emitter) error {
 	debug("genEncodeStruct(%T, %v, %v)", v, n, e)
 	t := reflect.ValueOf(v)
@@ -339,13 +348,11 @@ func genDecodeSlice(v interface{}, n string, e *emitter) error {
 	case "[]byte", "[]uint8":
 		var u uint64
 		emitDecodeInt(u, "l", 4, e)
-		e.UCode.WriteString(fmt.Sprintf("\t%v = b.Bytes()[:l]\n", n))
-		e.UCode.WriteString("\t_ = b.Next(int(l))\n")
+		emitDecodeBytes(n, e)
 	case "[]protocol.DataCnt16":
 		var u uint64
 		emitDecodeInt(u, "l", 2, e)
-		e.UCode.WriteString(fmt.Sprintf("\t%v = b.Bytes()[:l]\n", n))
-		e.UCode.WriteString("\t_ = b.Next(int(l))\n")
+		emitDecodeBytes(n, e)
 	default:
 		log.Printf("genDecodeSlice: Can't handle slice of %v", t)
 	}
diff --git a/protocol/genout.go b/protocol/genout.go
index 05107d6..92185aa 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -3,6 +3,7 @@ package protocol
 import (
 "bytes"
 "fmt"
+"io"
 _ "log"
 )
 func MarshalRerrorPkt (b *bytes.Buffer, t Tag, Error string) {
@@ -24,13 +25,13 @@ return
 func UnmarshalRerrorPkt (b *bytes.Buffer) (Error string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -71,13 +72,13 @@ return
 func UnmarshalRversionPkt (b *bytes.Buffer) (RMsize MaxSize, RVersion string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -85,7 +86,7 @@ t = Tag(l)
 	RMsize |= MaxSize(u[1])<<8
 	RMsize |= MaxSize(u[2])<<16
 	RMsize |= MaxSize(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -126,13 +127,13 @@ return
 func UnmarshalTversionPkt (b *bytes.Buffer) (TMsize MaxSize, TVersion string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -140,7 +141,7 @@ t = Tag(l)
 	TMsize |= MaxSize(u[1])<<8
 	TMsize |= MaxSize(u[2])<<16
 	TMsize |= MaxSize(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -220,18 +221,18 @@ return
 func UnmarshalRattachPkt (b *bytes.Buffer) (QID QID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	QID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -239,7 +240,7 @@ t = Tag(l)
 	QID.Version |= uint32(u[1])<<8
 	QID.Version |= uint32(u[2])<<16
 	QID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -287,13 +288,13 @@ return
 func UnmarshalTattachPkt (b *bytes.Buffer) (SFID FID, AFID FID, Uname string, Aname string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -301,7 +302,7 @@ t = Tag(l)
 	SFID |= FID(u[1])<<8
 	SFID |= FID(u[2])<<16
 	SFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -309,7 +310,7 @@ t = Tag(l)
 	AFID |= FID(u[1])<<8
 	AFID |= FID(u[2])<<16
 	AFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -321,7 +322,7 @@ t = Tag(l)
 	}
 	Uname = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -388,7 +389,7 @@ return
 func UnmarshalRflushPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -419,13 +420,13 @@ return
 func UnmarshalTflushPkt (b *bytes.Buffer) (OTag Tag,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -504,13 +505,13 @@ return
 func UnmarshalRwalkPkt (b *bytes.Buffer) (QIDs []QID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -518,12 +519,12 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	QIDs = make([]QID, l)
 for i := range QIDs {
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	QIDs[i].Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -531,7 +532,7 @@ for i := range QIDs {
 	QIDs[i].Version |= uint32(u[1])<<8
 	QIDs[i].Version |= uint32(u[2])<<16
 	QIDs[i].Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -582,13 +583,13 @@ return
 func UnmarshalTwalkPkt (b *bytes.Buffer) (SFID FID, NewFID FID, Paths []string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -596,7 +597,7 @@ t = Tag(l)
 	SFID |= FID(u[1])<<8
 	SFID |= FID(u[2])<<16
 	SFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -604,7 +605,7 @@ t = Tag(l)
 	NewFID |= FID(u[1])<<8
 	NewFID |= FID(u[2])<<16
 	NewFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -612,7 +613,7 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	Paths = make([]string, l)
 for i := range Paths {
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -697,18 +698,18 @@ return
 func UnmarshalRopenPkt (b *bytes.Buffer) (OQID QID, IOUnit MaxSize,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	OQID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -716,7 +717,7 @@ t = Tag(l)
 	OQID.Version |= uint32(u[1])<<8
 	OQID.Version |= uint32(u[2])<<16
 	OQID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -728,7 +729,7 @@ t = Tag(l)
 	OQID.Path |= uint64(u[5])<<40
 	OQID.Path |= uint64(u[6])<<48
 	OQID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -764,13 +765,13 @@ return
 func UnmarshalTopenPkt (b *bytes.Buffer) (OFID FID, Omode Mode,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -778,7 +779,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
@@ -855,18 +856,18 @@ return
 func UnmarshalRcreatePkt (b *bytes.Buffer) (OQID QID, IOUnit MaxSize,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	OQID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -874,7 +875,7 @@ t = Tag(l)
 	OQID.Version |= uint32(u[1])<<8
 	OQID.Version |= uint32(u[2])<<16
 	OQID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -886,7 +887,7 @@ t = Tag(l)
 	OQID.Path |= uint64(u[5])<<40
 	OQID.Path |= uint64(u[6])<<48
 	OQID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -929,13 +930,13 @@ return
 func UnmarshalTcreatePkt (b *bytes.Buffer) (OFID FID, Name string, CreatePerm Perm, Omode Mode,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -943,7 +944,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -955,7 +956,7 @@ t = Tag(l)
 	}
 	Name = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -963,7 +964,7 @@ t = Tag(l)
 	CreatePerm |= Perm(u[1])<<8
 	CreatePerm |= Perm(u[2])<<16
 	CreatePerm |= Perm(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
@@ -1026,18 +1027,22 @@ return
 func UnmarshalRstatPkt (b *bytes.Buffer) (B []byte,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	B = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1067,13 +1072,13 @@ return
 func UnmarshalTstatPkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1136,7 +1141,7 @@ return
 func UnmarshalRwstatPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1172,13 +1177,13 @@ return
 func UnmarshalTwstatPkt (b *bytes.Buffer) (OFID FID, B []byte,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1186,12 +1191,16 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	B = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1249,7 +1258,7 @@ return
 func UnmarshalRclunkPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1282,13 +1291,13 @@ return
 func UnmarshalTclunkPkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1351,7 +1360,7 @@ return
 func UnmarshalRremovePkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1384,13 +1393,13 @@ return
 func UnmarshalTremovePkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1458,13 +1467,13 @@ return
 func UnmarshalRreadPkt (b *bytes.Buffer) (Data []uint8,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1472,6 +1481,10 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	l |= uint64(u[2])<<16
 	l |= uint64(u[3])<<24
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	Data = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1513,13 +1526,13 @@ return
 func UnmarshalTreadPkt (b *bytes.Buffer) (OFID FID, Off Offset, Len Count,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1527,7 +1540,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1539,7 +1552,7 @@ t = Tag(l)
 	Off |= Offset(u[5])<<40
 	Off |= Offset(u[6])<<48
 	Off |= Offset(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1606,13 +1619,13 @@ return
 func UnmarshalRwritePkt (b *bytes.Buffer) (RLen Count,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1660,13 +1673,13 @@ return
 func UnmarshalTwritePkt (b *bytes.Buffer) (OFID FID, Off Offset, Data []uint8,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1674,7 +1687,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1686,7 +1699,7 @@ t = Tag(l)
 	Off |= Offset(u[5])<<40
 	Off |= Offset(u[6])<<48
 	Off |= Offset(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1694,6 +1707,10 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	l |= uint64(u[2])<<16
 	l |= uint64(u[3])<<24
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	Data = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1807,13 +1824,13 @@ func Unmarshaldir (b *bytes.Buffer) (D Dir,  err error) {
 var u [8]uint8
 var l uint64
 _ = b.Next(2) // eat the length too
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
 	D.Type = uint16(u[0])
 	D.Type |= uint16(u[1])<<8
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1821,12 +1838,12 @@ _ = b.Next(2) // eat the length too
 	D.Dev |= uint32(u[1])<<8
 	D.Dev |= uint32(u[2])<<16
 	D.Dev |= uint32(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	D.QID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1834,7 +1851,7 @@ _ = b.Next(2) // eat the length too
 	D.QID.Version |= uint32(u[1])<<8
 	D.QID.Version |= uint32(u[2])<<16
 	D.QID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1846,7 +1863,7 @@ _ = b.Next(2) // eat the length too
 	D.QID.Path |= uint64(u[5])<<40
 	D.QID.Path |= uint64(u[6])<<48
 	D.QID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1854,7 +1871,7 @@ _ = b.Next(2) // eat the length too
 	D.Mode |= uint32(u[1])<<8
 	D.Mode |= uint32(u[2])<<16
 	D.Mode |= uint32(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1862,7 +1879,7 @@ _ = b.Next(2) // eat the length too
 	D.Atime |= uint32(u[1])<<8
 	D.Atime |= uint32(u[2])<<16
 	D.Atime |= uint32(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1870,7 +1887,7 @@ _ = b.Next(2) // eat the length too
 	D.Mtime |= uint32(u[1])<<8
 	D.Mtime |= uint32(u[2])<<16
 	D.Mtime |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1882,7 +1899,7 @@ _ = b.Next(2) // eat the length too
 	D.Length |= uint64(u[5])<<40
 	D.Length |= uint64(u[6])<<48
 	D.Length |= uint64(u[7])<<56
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1894,7 +1911,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.Name = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1906,7 +1923,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.User = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1918,7 +1935,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.Group = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
-- 
2.43.0


From 0daca93f318873f7315ae7196e6fe60965938908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:59 +0000
Subject: [PATCH 05/24] fix: answer a request that does not decode with an
 error instead of executing it

---
 protocol/gen.go    |  6 ++--
 protocol/genout.go | 72 ++++++++++++++++++++++++++++++----------------
 2 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index 8561918..4c78811 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -159,8 +159,10 @@ return
 `))
 	sfunc = template.Must(template.New("s").Parse(`func (s *Server) Srv{{.R.UFunc}}(b*bytes.Buffer) (err error) {
 	{{.T.MList}}{{.T.MLsep}} t, err := Unmarshal{{.T.MFunc}}Pkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if {{.R.MList}}{{.R.MLsep}} err := s.NS.{{.R.MFunc}}({{.T.MList}}); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
diff --git a/protocol/genout.go b/protocol/genout.go
index 92185aa..bd0ab3d 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -161,8 +161,10 @@ return
 }
 func (s *Server) SrvRversion(b*bytes.Buffer) (err error) {
 	TMsize, TVersion,  t, err := UnmarshalTversionPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if RMsize, RVersion,  err := s.NS.Rversion(TMsize, TVersion); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -342,8 +344,10 @@ return
 }
 func (s *Server) SrvRattach(b*bytes.Buffer) (err error) {
 	SFID, AFID, Uname, Aname,  t, err := UnmarshalTattachPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if QID,  err := s.NS.Rattach(SFID, AFID, Uname, Aname); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -440,8 +444,10 @@ return
 }
 func (s *Server) SrvRflush(b*bytes.Buffer) (err error) {
 	OTag,  t, err := UnmarshalTflushPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rflush(OTag); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -634,8 +640,10 @@ return
 }
 func (s *Server) SrvRwalk(b*bytes.Buffer) (err error) {
 	SFID, NewFID, Paths,  t, err := UnmarshalTwalkPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if QIDs,  err := s.NS.Rwalk(SFID, NewFID, Paths); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -792,8 +800,10 @@ return
 }
 func (s *Server) SrvRopen(b*bytes.Buffer) (err error) {
 	OFID, Omode,  t, err := UnmarshalTopenPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if OQID, IOUnit,  err := s.NS.Ropen(OFID, Omode); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -977,8 +987,10 @@ return
 }
 func (s *Server) SrvRcreate(b*bytes.Buffer) (err error) {
 	OFID, Name, CreatePerm, Omode,  t, err := UnmarshalTcreatePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if OQID, IOUnit,  err := s.NS.Rcreate(OFID, Name, CreatePerm, Omode); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1094,8 +1106,10 @@ return
 }
 func (s *Server) SrvRstat(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTstatPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if B,  err := s.NS.Rstat(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1211,8 +1225,10 @@ return
 }
 func (s *Server) SrvRwstat(b*bytes.Buffer) (err error) {
 	OFID, B,  t, err := UnmarshalTwstatPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rwstat(OFID, B); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1313,8 +1329,10 @@ return
 }
 func (s *Server) SrvRclunk(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTclunkPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rclunk(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1415,8 +1433,10 @@ return
 }
 func (s *Server) SrvRremove(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTremovePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rremove(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1568,8 +1588,10 @@ return
 }
 func (s *Server) SrvRread(b*bytes.Buffer) (err error) {
 	OFID, Off, Len,  t, err := UnmarshalTreadPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if Data,  err := s.NS.Rread(OFID, Off, Len); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1721,8 +1743,10 @@ return
 }
 func (s *Server) SrvRwrite(b*bytes.Buffer) (err error) {
 	OFID, Off, Data,  t, err := UnmarshalTwritePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if RLen,  err := s.NS.Rwrite(OFID, Off, Data); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
-- 
2.43.0


From 8bbaaa72a331a7dfe570cc9b818b9cd271ea0975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:51 +0000
Subject: [PATCH 06/24] fix: fail calls on a dead client, and survive replies
 with unexpected tags

When the server closed the connection IO dereferenced nil, a failed write
ended the program, a reply with an unused tag panicked, and calls in
flight or made later never returned.
---
 protocol/client.go | 87 ++++++++++++++++++++++++++++++++++++++++------
 protocol/gen.go    |  7 ++--
 protocol/genout.go | 84 +++++++++++++++++++++++++-------------------
 3 files changed, 128 insertions(+), 50 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index c7cca2d..e5e656c 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -8,10 +8,12 @@ package protocol
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"log"
 	"runtime"
+	"sync"
 	"sync/atomic"
 )
 
@@ -33,8 +35,17 @@ type Client struct {
 	Msize      uint32
 	Dead       bool
 	Trace      Tracer
+
+	// done is closed when the client dies.
+	done chan struct{}
+	die  sync.Once
+
+	// mu guards RPC.
+	mu sync.Mutex
 }
 
+var errDead = errors.New("connection to server is dead")
+
 func NewClient(opts ...ClientOpt) (*Client, error) {
 	var c = &Client{}
 
@@ -51,6 +62,7 @@ func NewClient(opts ...ClientOpt) (*Client, error) {
 	}
 	c.FromClient = make(chan *RPCCall, NumTags)
 	c.FromServer = make(chan *RPCReply)
+	c.done = make(chan struct{})
 	go c.IO()
 	go c.readNetPackets()
 	return c, nil
@@ -80,6 +92,7 @@ func (c *Client) readNetPackets() {
 			c.Trace("c.FromNet is nil, marking dead")
 		}
 		c.Dead = true
+		close(c.FromServer)
 		return
 	}
 	defer c.FromNet.Close()
@@ -124,11 +137,53 @@ func (c *Client) readNetPackets() {
 
 }
 
+// kill marks the client dead, which fails all calls in flight and all
+// further ones.
+func (c *Client) kill() {
+	c.die.Do(func() {
+		c.Dead = true
+		close(c.done)
+	})
+}
+
+// rpc sends a request and waits for the reply to it.
+func (c *Client) rpc(b []byte) ([]byte, error) {
+	// There is room for the reply, so IO never waits for a caller.
+	r := make(chan []byte, 1)
+	select {
+	case c.FromClient <- &RPCCall{b: b, Reply: r}:
+	case <-c.done:
+		return nil, errDead
+	}
+	select {
+	case bb := <-r:
+		return bb, nil
+	case <-c.done:
+	}
+	// The reply may have come in before the end.
+	select {
+	case bb := <-r:
+		return bb, nil
+	default:
+	}
+	return nil, errDead
+}
+
 func (c *Client) IO() {
 	go func() {
 		for {
-			r := <-c.FromClient
-			t := <-c.Tags
+			var r *RPCCall
+			var t Tag
+			select {
+			case r = <-c.FromClient:
+			case <-c.done:
+				return
+			}
+			select {
+			case t = <-c.Tags:
+			case <-c.done:
+				return
+			}
 			if c.Trace != nil {
 				c.Trace(fmt.Sprintf("Tag for request is %v", t))
 			}
@@ -137,20 +192,24 @@ func (c *Client) IO() {
 			if c.Trace != nil {
 				c.Trace(fmt.Sprintf("Tag for request is %v", t))
 			}
+			c.mu.Lock()
 			c.RPC[int(t)-1] = r
+			c.mu.Unlock()
 			if c.Trace != nil {
 				c.Trace("Write %v to ToNet", r.b)
 			}
 			if _, err := c.ToNet.Write(r.b); err != nil {
-				c.Dead = true
-				log.Fatalf("Write to server: %v", err)
+				log.Printf("Write to server: %v", err)
+				c.kill()
+				if c.FromNet != nil {
+					c.FromNet.Close()
+				}
 				return
 			}
 		}
 	}()
 
-	for {
-		r := <-c.FromServer
+	for r := range c.FromServer {
 		if c.Trace != nil {
 			c.Trace("Read %v FromServer", r.b)
 		}
@@ -158,19 +217,25 @@ func (c *Client) IO() {
 		if c.Trace != nil {
 			c.Trace(fmt.Sprintf("Tag for reply is %v", t))
 		}
-		if t < 1 {
-			panic(fmt.Sprintf("tag %d < 1", t))
-		}
-		if int(t-1) >= len(c.RPC) {
-			panic(fmt.Sprintf("tag %d >= len(c.RPC) %d", t, len(c.RPC)))
+		if t < 1 || int(t-1) >= len(c.RPC) {
+			log.Printf("Reply with reserved tag %d: ignored", t)
+			continue
 		}
+		c.mu.Lock()
 		rrr := c.RPC[t-1]
+		c.RPC[t-1] = nil
+		c.mu.Unlock()
 		if c.Trace != nil {
 			c.Trace("RPC %v ", rrr)
 		}
+		if rrr == nil {
+			log.Printf("Reply with tag %d, which is not in use: ignored", t)
+			continue
+		}
 		rrr.Reply <- r.b
 		c.Tags <- t
 	}
+	c.kill()
 }
 
 func (c *Client) String() string {
diff --git a/protocol/gen.go b/protocol/gen.go
index 4c78811..a010990 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -176,11 +176,12 @@ func (c *Client)Call{{.T.MFunc}} ({{.T.MParms}}) ({{.R.URet}} err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", {{.T.MFunc}})}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 Marshal{{.T.MFunc}}Pkt(&b, t, {{.T.MList}})
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return {{.R.UList}} err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
diff --git a/protocol/genout.go b/protocol/genout.go
index bd0ab3d..7b91c8b 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -177,11 +177,12 @@ func (c *Client)CallTversion (TMsize MaxSize, TVersion string) (RMsize MaxSize,
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tversion)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTversionPkt(&b, t, TMsize, TVersion)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return RMsize, RVersion,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -360,11 +361,12 @@ func (c *Client)CallTattach (SFID FID, AFID FID, Uname string, Aname string) (QI
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tattach)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTattachPkt(&b, t, SFID, AFID, Uname, Aname)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return QID,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -460,11 +462,12 @@ func (c *Client)CallTflush (OTag Tag) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tflush)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTflushPkt(&b, t, OTag)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -656,11 +659,12 @@ func (c *Client)CallTwalk (SFID FID, NewFID FID, Paths []string) (QIDs []QID,  e
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twalk)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwalkPkt(&b, t, SFID, NewFID, Paths)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return QIDs,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -816,11 +820,12 @@ func (c *Client)CallTopen (OFID FID, Omode Mode) (OQID QID, IOUnit MaxSize,  err
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Topen)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTopenPkt(&b, t, OFID, Omode)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return OQID, IOUnit,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1003,11 +1008,12 @@ func (c *Client)CallTcreate (OFID FID, Name string, CreatePerm Perm, Omode Mode)
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tcreate)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTcreatePkt(&b, t, OFID, Name, CreatePerm, Omode)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return OQID, IOUnit,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1122,11 +1128,12 @@ func (c *Client)CallTstat (OFID FID) (B []byte,  err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tstat)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTstatPkt(&b, t, OFID)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return B,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1241,11 +1248,12 @@ func (c *Client)CallTwstat (OFID FID, B []byte) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twstat)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwstatPkt(&b, t, OFID, B)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1345,11 +1353,12 @@ func (c *Client)CallTclunk (OFID FID) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tclunk)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTclunkPkt(&b, t, OFID)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1449,11 +1458,12 @@ func (c *Client)CallTremove (OFID FID) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tremove)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTremovePkt(&b, t, OFID)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1604,11 +1614,12 @@ func (c *Client)CallTread (OFID FID, Off Offset, Len Count) (Data []uint8,  err
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tread)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTreadPkt(&b, t, OFID, Off, Len)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return Data,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1759,11 +1770,12 @@ func (c *Client)CallTwrite (OFID FID, Off Offset, Data []uint8) (RLen Count,  er
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twrite)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwritePkt(&b, t, OFID, Off, Data)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return RLen,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
-- 
2.43.0


From 976d6239e21c802750e8029d04e716c7a1951aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 07/24] fix: a reply of the wrong type is an error

---
 protocol/gen.go    |  2 ++
 protocol/genout.go | 24 ++++++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/protocol/gen.go b/protocol/gen.go
index a010990..5be88d6 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -188,6 +188,8 @@ if MType(bb[4]) == Rerror {
 		return {{.R.UList}} err
 	}
 	return {{.R.UList}} fmt.Errorf("%v", s)
+} else if MType(bb[4]) != {{.R.MFunc}} {
+	return {{.R.UList}} fmt.Errorf("unexpected reply type %d to {{.T.MFunc}}", bb[4])
 } else {
 	{{.R.MList}}{{.R.MLsep}} _, err = Unmarshal{{.R.UFunc}}Pkt(bytes.NewBuffer(bb[5:]))
 }
diff --git a/protocol/genout.go b/protocol/genout.go
index 7b91c8b..1149e6a 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -189,6 +189,8 @@ if MType(bb[4]) == Rerror {
 		return RMsize, RVersion,  err
 	}
 	return RMsize, RVersion,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rversion {
+	return RMsize, RVersion,  fmt.Errorf("unexpected reply type %d to Tversion", bb[4])
 } else {
 	RMsize, RVersion,  _, err = UnmarshalRversionPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -373,6 +375,8 @@ if MType(bb[4]) == Rerror {
 		return QID,  err
 	}
 	return QID,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rattach {
+	return QID,  fmt.Errorf("unexpected reply type %d to Tattach", bb[4])
 } else {
 	QID,  _, err = UnmarshalRattachPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -474,6 +478,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rflush {
+	return  fmt.Errorf("unexpected reply type %d to Tflush", bb[4])
 } else {
 	 _, err = UnmarshalRflushPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -671,6 +677,8 @@ if MType(bb[4]) == Rerror {
 		return QIDs,  err
 	}
 	return QIDs,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rwalk {
+	return QIDs,  fmt.Errorf("unexpected reply type %d to Twalk", bb[4])
 } else {
 	QIDs,  _, err = UnmarshalRwalkPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -832,6 +840,8 @@ if MType(bb[4]) == Rerror {
 		return OQID, IOUnit,  err
 	}
 	return OQID, IOUnit,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Ropen {
+	return OQID, IOUnit,  fmt.Errorf("unexpected reply type %d to Topen", bb[4])
 } else {
 	OQID, IOUnit,  _, err = UnmarshalRopenPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1020,6 +1030,8 @@ if MType(bb[4]) == Rerror {
 		return OQID, IOUnit,  err
 	}
 	return OQID, IOUnit,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rcreate {
+	return OQID, IOUnit,  fmt.Errorf("unexpected reply type %d to Tcreate", bb[4])
 } else {
 	OQID, IOUnit,  _, err = UnmarshalRcreatePkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1140,6 +1152,8 @@ if MType(bb[4]) == Rerror {
 		return B,  err
 	}
 	return B,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rstat {
+	return B,  fmt.Errorf("unexpected reply type %d to Tstat", bb[4])
 } else {
 	B,  _, err = UnmarshalRstatPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1260,6 +1274,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rwstat {
+	return  fmt.Errorf("unexpected reply type %d to Twstat", bb[4])
 } else {
 	 _, err = UnmarshalRwstatPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1365,6 +1381,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rclunk {
+	return  fmt.Errorf("unexpected reply type %d to Tclunk", bb[4])
 } else {
 	 _, err = UnmarshalRclunkPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1470,6 +1488,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rremove {
+	return  fmt.Errorf("unexpected reply type %d to Tremove", bb[4])
 } else {
 	 _, err = UnmarshalRremovePkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1626,6 +1646,8 @@ if MType(bb[4]) == Rerror {
 		return Data,  err
 	}
 	return Data,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rread {
+	return Data,  fmt.Errorf("unexpected reply type %d to Tread", bb[4])
 } else {
 	Data,  _, err = UnmarshalRreadPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1782,6 +1804,8 @@ if MType(bb[4]) == Rerror {
 		return RLen,  err
 	}
 	return RLen,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rwrite {
+	return RLen,  fmt.Errorf("unexpected reply type %d to Twrite", bb[4])
 } else {
 	RLen,  _, err = UnmarshalRwritePkt(bytes.NewBuffer(bb[5:]))
 }
-- 
2.43.0


From 46a5c29301eee16e062917f2d9ce63b70324220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:05 +0000
Subject: [PATCH 08/24] fix: refuse to open a fid that is open already

The second open replaced the first one's file, which was never closed.
---
 filesystem/filesystem.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 2523097..522a0c5 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -168,12 +168,15 @@ func (e *FileServer) Ropen(fid protocol.FID, mode protocol.Mode) (protocol.QID,
 	if !ok {
 		return protocol.QID{}, 0, fmt.Errorf("does not exist")
 	}
+	if f.file != nil {
+		return protocol.QID{}, 0, fmt.Errorf("FID already open")
+	}
 
-	var err error
-	f.file, err = os.OpenFile(f.fullName, modeToUnixFlags(mode), 0)
+	of, err := os.OpenFile(f.fullName, modeToUnixFlags(mode), 0)
 	if err != nil {
 		return protocol.QID{}, 0, err
 	}
+	f.file = of
 
 	return f.QID, e.IOunit, nil
 }
-- 
2.43.0


From 8013560c1c8fb0762f9d16ab9b0e38e12aa3491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:33 +0000
Subject: [PATCH 09/24] fix: report a failed mkdir instead of adopting what is
 there

Rcreate ignored Mkdir's error, so creating a directory where the name exists
succeeded and bound the fid to the existing file.
---
 filesystem/filesystem.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 522a0c5..732028c 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -191,7 +191,9 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	n := path.Join(f.fullName, name)
 	if perm&protocol.Perm(protocol.DMDIR) != 0 {
 		p := os.FileMode(int(perm) & 0777)
-		err := os.Mkdir(n, p)
+		if err := os.Mkdir(n, p); err != nil {
+			return protocol.QID{}, 0, err
+		}
 		_, q, err := stat(n)
 		if err != nil {
 			return protocol.QID{}, 0, err
-- 
2.43.0


From 7866c4963c74051fb78a9df4763ef478912adbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:33 +0000
Subject: [PATCH 10/24] fix: close the created file when it cannot be examined

Rcreate answered with an error and left the file open for ever.
---
 filesystem/filesystem.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 732028c..c4b709e 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -211,6 +211,7 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	}
 	_, q, err := stat(n)
 	if err != nil {
+		of.Close()
 		return protocol.QID{}, 0, err
 	}
 	f.fullName = n
-- 
2.43.0


From 3c8d38a663507f57bbda86c3c514213d414ebe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:33 +0000
Subject: [PATCH 11/24] fix: keep reads within the negotiated message size

A read's count was used as it came: one of 2^31 or more crashed the server,
and a large one made a reply bigger than the client had agreed to take.
---
 filesystem/filesystem.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index c4b709e..b7ef8f9 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -36,6 +36,9 @@ type FileServer struct {
 	Versioned bool
 	IOunit    protocol.MaxSize
 
+	// msize is the message size agreed on in Rversion.
+	msize protocol.MaxSize
+
 	// mu guards below
 	mu    sync.Mutex
 	files map[protocol.FID]*file
@@ -64,7 +67,14 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 	if version != "9P2000" {
 		return 0, "", fmt.Errorf("%v not supported; only 9P2000", version)
 	}
+	if msize <= protocol.IOHDRSZ {
+		return 0, "", fmt.Errorf("message size %d is too small", msize)
+	}
+	if msize > protocol.MSIZE {
+		msize = protocol.MSIZE
+	}
 	e.Versioned = true
+	e.msize = msize
 	return msize, version, nil
 }
 
@@ -375,6 +385,11 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 	if f.file == nil {
 		return nil, fmt.Errorf("FID not open")
 	}
+	// The count is unsigned in the message. The reply has to fit what was
+	// agreed on in Rversion.
+	if max := protocol.Count(e.msize - protocol.IOHDRSZ); c < 0 || c > max {
+		c = max
+	}
 	if f.QID.Type&protocol.QTDIR != 0 {
 		if o == 0 {
 			f.oflow = nil
@@ -458,6 +473,7 @@ func NewUFS(opts ...protocol.ListenerOpt) (*protocol.Listener, error) {
 		f.files = make(map[protocol.FID]*file)
 		f.rootPath = *root // for now.
 		f.IOunit = 8192
+		f.msize = protocol.MSIZE
 		// any opts for the ufs layer can be added here too ...
 		var d protocol.NineServer = f
 		if *debug != 0 {
-- 
2.43.0


From b71e24eb924041056a9c33bca295890730958676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:59 +0000
Subject: [PATCH 12/24] fix: do not share an open file between fids

Cloning an open fid copied its file, so that clunking either closed the other
one's, and walking an open fid onto itself dropped the file unclosed.
---
 filesystem/filesystem.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index b7ef8f9..69edcf2 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -125,8 +125,7 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 		if ok {
 			return nil, fmt.Errorf("FID in use: clone walk, fid %d newfid %d", fid, newfid)
 		}
-		nf := *f
-		e.files[newfid] = &nf
+		e.files[newfid] = &file{fullName: f.fullName, QID: f.QID}
 		return []protocol.QID{}, nil
 	}
 	p := f.fullName
@@ -166,6 +165,8 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 		if _, ok := e.files[newfid]; ok {
 			return nil, fmt.Errorf("FID in use: walk to %v, fid %v, newfid %v", paths, fid, newfid)
 		}
+	} else if f.file != nil {
+		return nil, fmt.Errorf("FID already open")
 	}
 	e.files[newfid] = &file{fullName: p, QID: q[i]}
 	return q, nil
-- 
2.43.0


From 7aec499afa44cf5f81d04edb28946c9b42cd41e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:59 +0000
Subject: [PATCH 13/24] fix: refuse to attach a fid that is in use

The attach replaced what the fid stood for and dropped its open file.
---
 filesystem/filesystem.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 69edcf2..95b5c42 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -102,6 +102,11 @@ func (e *FileServer) Rattach(fid protocol.FID, afid protocol.FID, uname string,
 	}
 	r := &file{fullName: aname}
 	r.QID = fileInfoToQID(st)
+	e.mu.Lock()
+	defer e.mu.Unlock()
+	if _, ok := e.files[fid]; ok {
+		return protocol.QID{}, fmt.Errorf("FID in use: attach, fid %d", fid)
+	}
 	e.files[fid] = r
 	e.root = r
 	return r.QID, nil
-- 
2.43.0


From 17d54b5bcd73fcb87171b9a8a86e7d2c7f42d185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:59 +0000
Subject: [PATCH 14/24] fix: report the identity an opened file has now

Ropen answered with the QID found by the walk, whose version is out of date
once the file has been written or is truncated by the open itself.
---
 filesystem/filesystem.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 95b5c42..7c8bc86 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -192,7 +192,13 @@ func (e *FileServer) Ropen(fid protocol.FID, mode protocol.Mode) (protocol.QID,
 	if err != nil {
 		return protocol.QID{}, 0, err
 	}
+	st, err := of.Stat()
+	if err != nil {
+		of.Close()
+		return protocol.QID{}, 0, err
+	}
 	f.file = of
+	f.QID = fileInfoToQID(st)
 
 	return f.QID, e.IOunit, nil
 }
-- 
2.43.0


From 2a562b19c96b0544ae81c607d090087d3216a82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:59 +0000
Subject: [PATCH 15/24] fix: check an attribute change before making any of it

Rwstat changed the permissions of a file and only then refused the request
because of an owner, a group or a new name that is a directory.
---
 filesystem/filesystem.go | 46 ++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 7c8bc86..5e2a710 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -273,37 +273,18 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 	if err != nil {
 		return err
 	}
-	if dir.Mode != 0xFFFFFFFF {
-		changed = true
-		mode := dir.Mode & 0777
-		if err := os.Chmod(f.fullName, os.FileMode(mode)); err != nil {
-			return err
-		}
-	}
 
 	// Try to find local uid, gid by name.
 	if dir.User != "" || dir.Group != "" {
 		return fmt.Errorf("Permission denied")
-		changed = true
 	}
 
-	/*
-		if uid != ninep.NOUID || gid != ninep.NOUID {
-			changed = true
-			e := os.Chown(fid.path, int(uid), int(gid))
-			if e != nil {
-				req.RespondError(toError(e))
-				return
-			}
-		}
-	*/
-
+	var newname string
 	if dir.Name != "" {
-		changed = true
 		// If we path.Join dir.Name to / before adding it to
 		// the fid path, that ensures nobody gets to walk out of the
 		// root of this server.
-		newname := path.Join(path.Dir(f.fullName), path.Join("/", dir.Name))
+		newname = path.Join(path.Dir(f.fullName), path.Join("/", dir.Name))
 
 		// absolute renaming. Ufs can do this, so let's support it.
 		// We'll allow an absolute path in the Name and, if it is,
@@ -320,6 +301,29 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		if err == nil && st.IsDir() {
 			return fmt.Errorf("is a directory")
 		}
+	}
+
+	if dir.Mode != 0xFFFFFFFF {
+		changed = true
+		mode := dir.Mode & 0777
+		if err := os.Chmod(f.fullName, os.FileMode(mode)); err != nil {
+			return err
+		}
+	}
+
+	/*
+		if uid != ninep.NOUID || gid != ninep.NOUID {
+			changed = true
+			e := os.Chown(fid.path, int(uid), int(gid))
+			if e != nil {
+				req.RespondError(toError(e))
+				return
+			}
+		}
+	*/
+
+	if dir.Name != "" {
+		changed = true
 		if err := os.Rename(f.fullName, newname); err != nil {
 			return err
 		}
-- 
2.43.0


From f766423086a11449c64f072b166dcd99e05bc671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:06 +0000
Subject: [PATCH 16/24] fix: report a failed sync

A null wstat was answered with success even when the data could not be made
durable.
---
 filesystem/filesystem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 5e2a710..5e6955d 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -360,7 +360,7 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 	}
 
 	if !changed && f.file != nil {
-		f.file.Sync()
+		return f.file.Sync()
 	}
 	return nil
 }
-- 
2.43.0


From 7d75c7ac4d9bd65d01c411bfbdf56adf436300f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:06 +0000
Subject: [PATCH 17/24] fix: leave alone the file time that is not to be
 changed

Setting only the modification time also set the access time to the "do not
change" value, 2^32-1.
---
 filesystem/filesystem.go | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 5e6955d..ab6b1c6 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -337,22 +337,15 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		}
 	}
 
-	// If either mtime or atime need to be changed, then
-	// we must change both.
 	if dir.Mtime != ^uint32(0) || dir.Atime != ^uint32(0) {
 		changed = true
-		mt, at := time.Unix(int64(dir.Mtime), 0), time.Unix(int64(dir.Atime), 0)
-		if cmt, cat := (dir.Mtime == ^uint32(0)), (dir.Atime == ^uint32(0)); cmt || cat {
-			st, err := os.Stat(f.fullName)
-			if err != nil {
-				return err
-			}
-			switch cmt {
-			case true:
-				mt = st.ModTime()
-			default:
-				//at = atime(st.Sys().(*syscall.Stat_t))
-			}
+		// Chtimes leaves alone the one that is the zero Time.
+		var mt, at time.Time
+		if dir.Mtime != ^uint32(0) {
+			mt = time.Unix(int64(dir.Mtime), 0)
+		}
+		if dir.Atime != ^uint32(0) {
+			at = time.Unix(int64(dir.Atime), 0)
 		}
 		if err := os.Chtimes(f.fullName, at, mt); err != nil {
 			return err
-- 
2.43.0


From 923927ae8f18f13d32e13a6dd021dfdc691dae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:06 +0000
Subject: [PATCH 18/24] fix: keep every name a client gives inside the exported
 tree

A walk with "..", a create with ".." or slashes in the name, and an absolute
rename with ".." reached files outside the root.
---
 filesystem/filesystem.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index ab6b1c6..28777f1 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -13,6 +13,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"strings"
 	"sync"
 	"time"
 
@@ -89,6 +90,16 @@ func (e *FileServer) getFile(fid protocol.FID) (*file, error) {
 	return f, nil
 }
 
+// inRoot joins names to dir, which is in the exported tree. The result is in
+// the tree, too: .. stops at the root.
+func (e *FileServer) inRoot(dir, names string) string {
+	rel, err := filepath.Rel(e.rootPath, dir)
+	if err != nil {
+		rel = dir
+	}
+	return path.Join(e.rootPath, path.Join("/", rel, names))
+}
+
 func (e *FileServer) Rattach(fid protocol.FID, afid protocol.FID, uname string, aname string) (protocol.QID, error) {
 	if afid != protocol.NOFID {
 		return protocol.QID{}, fmt.Errorf("We don't do auth attach")
@@ -138,7 +149,7 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 
 	var i int
 	for i = range paths {
-		p = path.Join(p, paths[i])
+		p = e.inRoot(p, paths[i])
 		st, err := os.Lstat(p)
 		if err != nil {
 			// From the RFC: If the first element cannot be walked for any
@@ -210,6 +221,9 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	if f.file != nil {
 		return protocol.QID{}, 0, fmt.Errorf("FID already open")
 	}
+	if name == "" || name == "." || name == ".." || strings.Contains(name, "/") {
+		return protocol.QID{}, 0, fmt.Errorf("bad file name %q", name)
+	}
 	n := path.Join(f.fullName, name)
 	if perm&protocol.Perm(protocol.DMDIR) != 0 {
 		p := os.FileMode(int(perm) & 0777)
@@ -284,14 +298,14 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		// If we path.Join dir.Name to / before adding it to
 		// the fid path, that ensures nobody gets to walk out of the
 		// root of this server.
-		newname = path.Join(path.Dir(f.fullName), path.Join("/", dir.Name))
+		newname = e.inRoot(path.Dir(f.fullName), path.Join("/", dir.Name))
 
 		// absolute renaming. Ufs can do this, so let's support it.
 		// We'll allow an absolute path in the Name and, if it is,
 		// we will make it relative to root. This is a gigantic performance
 		// improvement in systems that allow it.
 		if filepath.IsAbs(dir.Name) {
-			newname = path.Join(e.rootPath, dir.Name)
+			newname = e.inRoot(e.rootPath, path.Join("/", dir.Name))
 		}
 
 		// If to exists, and to is a directory, we can't do the
-- 
2.43.0


From 0e86ae8064fe9182fd6d29485e5f335e24614f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:06 +0000
Subject: [PATCH 19/24] fix: list every directory entry, also when one does not
 fit or vanishes

An entry bigger than the read's count was dropped, with a reply that looks
like the end of the directory, and a file removed between reading its name
and examining it crashed the server.
---
 filesystem/filesystem.go | 47 ++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 28777f1..2127a27 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -421,46 +421,37 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 			}
 		}
 
-		// We make the assumption that they can always fit at least one
-		// directory entry into a read. If that assumption does not hold
-		// so many things are broken that we can't fix them here.
-		// But we'll drop out of the loop below having returned nothing
-		// anyway.
-		b := bytes.NewBuffer(f.oflow)
-		f.oflow = nil
-		pos := 0
-
-		for {
-			if b.Len() > int(c) {
-				f.oflow = b.Bytes()[pos:]
-				return b.Bytes()[:pos], nil
-			}
-			pos += b.Len()
+		for f.oflow == nil {
 			st, err := f.file.Readdir(1)
 			if err == io.EOF {
-				return b.Bytes(), nil
+				return nil, nil
 			}
 			if err != nil {
 				return nil, err
 			}
+			// Readdir leaves out a file that has vanished meanwhile.
+			if len(st) == 0 {
+				continue
+			}
 
 			d9p, err := dirTo9p2000Dir(st[0])
 			if err != nil {
 				return nil, err
 			}
-			protocol.Marshaldir(b, *d9p)
-			// Seen on linux clients: sometimes the math is wrong and
-			// they end up asking for the last element with not enough data.
-			// Linux bug or bug with this server? Not sure yet.
-			if b.Len() > int(c) {
-				log.Printf("Warning: Server bug? %v, need %d bytes;count is %d: skipping", d9p, b.Len(), c)
-				return nil, nil
-			}
-			// We're not quite doing the array right.
-			// What does work is returning one thing so, for now, do that.
-			return b.Bytes(), nil
+			var b bytes.Buffer
+			protocol.Marshaldir(&b, *d9p)
+			f.oflow = b.Bytes()
 		}
-		return b.Bytes(), nil
+		// An entry that does not fit waits for a read with more room. An
+		// empty reply would mean the end of the directory.
+		if len(f.oflow) > int(c) {
+			return nil, fmt.Errorf("directory entry needs %d bytes; count is %d", len(f.oflow), c)
+		}
+		// We're not quite doing the array right.
+		// What does work is returning one thing so, for now, do that.
+		b := f.oflow
+		f.oflow = nil
+		return b, nil
 	}
 
 	// N.B. even if they ask for 0 bytes on some file systems it is important to pass
-- 
2.43.0


From 47a192afb34363d8fedbf790e230c21a9de1e75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:16 +0000
Subject: [PATCH 20/24] fix: close a connection's files when it ends

When a connection ended with fids still in use, the files they had open
stayed open for the life of the server.
---
 filesystem/filesystem.go | 15 +++++++++++++++
 pkg/debugfs/debug.go     |  9 +++++++++
 protocol/server.go       |  5 +++++
 3 files changed, 29 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 2127a27..b7f60fc 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -390,6 +390,21 @@ func (e *FileServer) clunk(fid protocol.FID) (*file, error) {
 	return f, nil
 }
 
+// Close closes all files that are open. It is called when the connection ends.
+func (e *FileServer) Close() error {
+	e.mu.Lock()
+	defer e.mu.Unlock()
+	for fid, f := range e.files {
+		delete(e.files, fid)
+		if f.file != nil {
+			if err := f.file.Close(); err != nil {
+				log.Printf("Close of %v failed: %v", f.fullName, err)
+			}
+		}
+	}
+	return nil
+}
+
 // Rremove removes the file. The question of whether the file continues to be accessible
 // is system dependent.
 func (e *FileServer) Rremove(fid protocol.FID) error {
diff --git a/pkg/debugfs/debug.go b/pkg/debugfs/debug.go
index e157c9a..8acdffa 100644
--- a/pkg/debugfs/debug.go
+++ b/pkg/debugfs/debug.go
@@ -6,6 +6,7 @@ package debugfs
 
 import (
 	"bytes"
+	"io"
 	"log"
 
 	"github.com/Harvey-OS/ninep/protocol"
@@ -150,3 +151,11 @@ func (dfs *DebugFileServer) Rwrite(fid protocol.FID, o protocol.Offset, b []byte
 	}
 	return c, err
 }
+
+// Close closes the file server if it can be closed.
+func (dfs *DebugFileServer) Close() error {
+	if c, ok := dfs.FileServer.(io.Closer); ok {
+		return c.Close()
+	}
+	return nil
+}
diff --git a/protocol/server.go b/protocol/server.go
index dc94fc4..2fb604c 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -208,6 +208,11 @@ func (c *conn) serve() {
 
 	defer c.rwc.Close()
 
+	// The file server is this connection's own. What it holds ends with it.
+	if ns, ok := c.server.NS.(io.Closer); ok {
+		defer ns.Close()
+	}
+
 	c.logf("Starting readNetPackets")
 
 	for !c.dead {
-- 
2.43.0


From d4f79c2b5e05eabed8eefbfb418739337ae5bf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:00 +0000
Subject: [PATCH 21/24] fix: fail a rename whose target cannot be examined

The error was ignored, so that a rename onto a directory was attempted,
after the other attributes had been changed.
---
 filesystem/filesystem.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index b7f60fc..f94efdb 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -315,6 +315,9 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		if err == nil && st.IsDir() {
 			return fmt.Errorf("is a directory")
 		}
+		if err != nil && !os.IsNotExist(err) {
+			return err
+		}
 	}
 
 	if dir.Mode != 0xFFFFFFFF {
-- 
2.43.0


From f7303bd19595fc3de7daf96c6560ecb3726d4841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 22/24] fix: cut the text of an error to what a reply can carry

The length of a string is 16 bits. An error that quotes a long name from the
request, such as an unknown version or a name that is too long, made an Rerror
whose string did not match its length.
---
 protocol/gen.go    |  4 ++--
 protocol/genout.go | 48 +++++++++++++++++++++++-----------------------
 protocol/server.go | 11 +++++++++++
 3 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index 5be88d6..5f71e98 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -160,11 +160,11 @@ return
 	sfunc = template.Must(template.New("s").Parse(`func (s *Server) Srv{{.R.UFunc}}(b*bytes.Buffer) (err error) {
 	{{.T.MList}}{{.T.MLsep}} t, err := Unmarshal{{.T.MFunc}}Pkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if {{.R.MList}}{{.R.MLsep}} err := s.NS.{{.R.MFunc}}({{.T.MList}}); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	Marshal{{.R.MFunc}}Pkt(b, t, {{.R.MList}})
 }
diff --git a/protocol/genout.go b/protocol/genout.go
index 1149e6a..26b04f5 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -162,11 +162,11 @@ return
 func (s *Server) SrvRversion(b*bytes.Buffer) (err error) {
 	TMsize, TVersion,  t, err := UnmarshalTversionPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if RMsize, RVersion,  err := s.NS.Rversion(TMsize, TVersion); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRversionPkt(b, t, RMsize, RVersion)
 }
@@ -348,11 +348,11 @@ return
 func (s *Server) SrvRattach(b*bytes.Buffer) (err error) {
 	SFID, AFID, Uname, Aname,  t, err := UnmarshalTattachPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if QID,  err := s.NS.Rattach(SFID, AFID, Uname, Aname); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRattachPkt(b, t, QID)
 }
@@ -451,11 +451,11 @@ return
 func (s *Server) SrvRflush(b*bytes.Buffer) (err error) {
 	OTag,  t, err := UnmarshalTflushPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if  err := s.NS.Rflush(OTag); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRflushPkt(b, t, )
 }
@@ -650,11 +650,11 @@ return
 func (s *Server) SrvRwalk(b*bytes.Buffer) (err error) {
 	SFID, NewFID, Paths,  t, err := UnmarshalTwalkPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if QIDs,  err := s.NS.Rwalk(SFID, NewFID, Paths); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRwalkPkt(b, t, QIDs)
 }
@@ -813,11 +813,11 @@ return
 func (s *Server) SrvRopen(b*bytes.Buffer) (err error) {
 	OFID, Omode,  t, err := UnmarshalTopenPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if OQID, IOUnit,  err := s.NS.Ropen(OFID, Omode); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRopenPkt(b, t, OQID, IOUnit)
 }
@@ -1003,11 +1003,11 @@ return
 func (s *Server) SrvRcreate(b*bytes.Buffer) (err error) {
 	OFID, Name, CreatePerm, Omode,  t, err := UnmarshalTcreatePkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if OQID, IOUnit,  err := s.NS.Rcreate(OFID, Name, CreatePerm, Omode); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRcreatePkt(b, t, OQID, IOUnit)
 }
@@ -1125,11 +1125,11 @@ return
 func (s *Server) SrvRstat(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTstatPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if B,  err := s.NS.Rstat(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRstatPkt(b, t, B)
 }
@@ -1247,11 +1247,11 @@ return
 func (s *Server) SrvRwstat(b*bytes.Buffer) (err error) {
 	OFID, B,  t, err := UnmarshalTwstatPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if  err := s.NS.Rwstat(OFID, B); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRwstatPkt(b, t, )
 }
@@ -1354,11 +1354,11 @@ return
 func (s *Server) SrvRclunk(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTclunkPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if  err := s.NS.Rclunk(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRclunkPkt(b, t, )
 }
@@ -1461,11 +1461,11 @@ return
 func (s *Server) SrvRremove(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTremovePkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if  err := s.NS.Rremove(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRremovePkt(b, t, )
 }
@@ -1619,11 +1619,11 @@ return
 func (s *Server) SrvRread(b*bytes.Buffer) (err error) {
 	OFID, Off, Len,  t, err := UnmarshalTreadPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if Data,  err := s.NS.Rread(OFID, Off, Len); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRreadPkt(b, t, Data)
 }
@@ -1777,11 +1777,11 @@ return
 func (s *Server) SrvRwrite(b*bytes.Buffer) (err error) {
 	OFID, Off, Data,  t, err := UnmarshalTwritePkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if RLen,  err := s.NS.Rwrite(OFID, Off, Data); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRwritePkt(b, t, RLen)
 }
diff --git a/protocol/server.go b/protocol/server.go
index 2fb604c..bd9fecb 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -10,6 +10,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"net"
 	"sync"
 	"time"
@@ -252,6 +253,16 @@ func (c *conn) serve() {
 	}
 }
 
+// errorText is the text of an error as an Rerror can carry it: the length of
+// a string is 16 bits. Errors quote file names, and those can be that long.
+func errorText(err error) string {
+	s := fmt.Sprintf("%v", err)
+	if len(s) > math.MaxUint16 {
+		s = s[:math.MaxUint16]
+	}
+	return s
+}
+
 // Dispatch dispatches request to different functions.
 // It's also the the first place we try to establish server semantics.
 // We could do this with interface assertions and such a la rsc/fuse
-- 
2.43.0


From d0b07350286b46a2bd1a2517ff737944eb537cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:16 +0000
Subject: [PATCH 23/24] fix: refuse calls and results that do not fit a message

The lengths of strings and lists are 16 bits. A longer one was written with its
length cut off, so that the request was malformed, or, in a walk of several
names, could even be taken for a walk along other names.
---
 protocol/client.go | 17 ++++++++++++++++-
 protocol/gen.go    | 36 +++++++++++++++++++++++++++++++-----
 protocol/genout.go | 21 +++++++++++++++++++++
 3 files changed, 68 insertions(+), 6 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index e5e656c..8a066fd 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"runtime"
 	"sync"
 	"sync/atomic"
@@ -44,7 +45,21 @@ type Client struct {
 	mu sync.Mutex
 }
 
-var errDead = errors.New("connection to server is dead")
+var (
+	errDead    = errors.New("connection to server is dead")
+	errTooLong = errors.New("string or list too long for a message")
+)
+
+// tooLong reports whether n or the length of one of the strings does not fit
+// the 16 bits that lengths have in messages.
+func tooLong(n int, s ...string) bool {
+	for i := range s {
+		if len(s[i]) > math.MaxUint16 {
+			return true
+		}
+	}
+	return n > math.MaxUint16
+}
 
 func NewClient(opts ...ClientOpt) (*Client, error) {
 	var c = &Client{}
diff --git a/protocol/gen.go b/protocol/gen.go
index 5f71e98..42721e4 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -62,6 +62,9 @@ type emitter struct {
 	UCode    *bytes.Buffer
 	URet     *bytes.Buffer
 	inBWrite bool
+
+	// TooLong is the condition on which a parameter does not fit its message.
+	TooLong string
 }
 
 type call struct {
@@ -165,7 +168,9 @@ return
 	}
 	if {{.R.MList}}{{.R.MLsep}} err := s.NS.{{.R.MFunc}}({{.T.MList}}); err != nil {
 	MarshalRerrorPkt(b, t, errorText(err))
-} else {
+} else {{if .R.TooLong}}if {{.R.TooLong}} {
+	MarshalRerrorPkt(b, t, errorText(errTooLong))
+} else {{end}}{
 	Marshal{{.R.MFunc}}Pkt(b, t, {{.R.MList}})
 }
 	return nil
@@ -175,7 +180,10 @@ return
 func (c *Client)Call{{.T.MFunc}} ({{.T.MParms}}) ({{.R.URet}} err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", {{.T.MFunc}})}
-t := Tag(0)
+{{if .T.TooLong}}if {{.T.TooLong}} {
+	return {{.R.UList}} errTooLong
+}
+{{end}}t := Tag(0)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 Marshal{{.T.MFunc}}Pkt(&b, t, {{.T.MList}})
 bb, err := c.rpc(b.Bytes())
@@ -204,8 +212,8 @@ func nodebug(string, ...interface{}) {
 func newCall(p *pack) *call {
 	c := &call{}
 	// We set inBWrite to true because the prologue marshal code sets up some default writes to b
-	c.T = &emitter{"T" + p.n, p.tn, &bytes.Buffer{}, &bytes.Buffer{}, "", &bytes.Buffer{}, p.tn, &bytes.Buffer{}, &bytes.Buffer{}, &bytes.Buffer{}, true}
-	c.R = &emitter{"R" + p.n, p.rn, &bytes.Buffer{}, &bytes.Buffer{}, "", &bytes.Buffer{}, p.rn, &bytes.Buffer{}, &bytes.Buffer{}, &bytes.Buffer{}, true}
+	c.T = &emitter{"T" + p.n, p.tn, &bytes.Buffer{}, &bytes.Buffer{}, "", &bytes.Buffer{}, p.tn, &bytes.Buffer{}, &bytes.Buffer{}, &bytes.Buffer{}, true, ""}
+	c.R = &emitter{"R" + p.n, p.rn, &bytes.Buffer{}, &bytes.Buffer{}, "", &bytes.Buffer{}, p.rn, &bytes.Buffer{}, &bytes.Buffer{}, &bytes.Buffer{}, true, ""}
 	return c
 }
 
@@ -447,10 +455,28 @@ func genParms(v interface{}, n string, e *emitter) error {
 		e.MList.WriteString(e.MLsep + fn)
 		e.MParms.WriteString(e.MLsep + fn + " " + tn(f))
 		e.MLsep = ", "
+		if c := tooLong(f, fn); c != "" {
+			if e.TooLong != "" {
+				e.TooLong += " || "
+			}
+			e.TooLong += c
+		}
 	}
 	return nil
 }
 
+// tooLong returns the condition on which the parameter n does not fit a message
+// because a length in it is more than 16 bits, or "" if that can not be.
+func tooLong(f reflect.Value, n string) string {
+	switch f.Type().String() {
+	case "string", "[]protocol.QID", "[]protocol.DataCnt16":
+		return fmt.Sprintf("tooLong(len(%v))", n)
+	case "[]string":
+		return fmt.Sprintf("tooLong(len(%v), %v...)", n, n)
+	}
+	return ""
+}
+
 // genRets writes the rets for declarations (name and type)
 // a list of names
 func genRets(v interface{}, n string, e *emitter) error {
@@ -543,7 +569,7 @@ func main() {
 	b.WriteString(serverError)
 
 	// yeah, it's a hack.
-	dir := &emitter{"dir", "dir", &bytes.Buffer{}, &bytes.Buffer{}, "", &bytes.Buffer{}, "dir", &bytes.Buffer{}, &bytes.Buffer{}, &bytes.Buffer{}, false}
+	dir := &emitter{"dir", "dir", &bytes.Buffer{}, &bytes.Buffer{}, "", &bytes.Buffer{}, "dir", &bytes.Buffer{}, &bytes.Buffer{}, &bytes.Buffer{}, false, ""}
 	if err := genEncodeStruct(protocol.DirPkt{}, "", dir); err != nil {
 		log.Fatalf("%v", err)
 	}
diff --git a/protocol/genout.go b/protocol/genout.go
index 26b04f5..e3a4d99 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -167,6 +167,8 @@ func (s *Server) SrvRversion(b*bytes.Buffer) (err error) {
 	}
 	if RMsize, RVersion,  err := s.NS.Rversion(TMsize, TVersion); err != nil {
 	MarshalRerrorPkt(b, t, errorText(err))
+} else if tooLong(len(RVersion)) {
+	MarshalRerrorPkt(b, t, errorText(errTooLong))
 } else {
 	MarshalRversionPkt(b, t, RMsize, RVersion)
 }
@@ -176,6 +178,9 @@ func (s *Server) SrvRversion(b*bytes.Buffer) (err error) {
 func (c *Client)CallTversion (TMsize MaxSize, TVersion string) (RMsize MaxSize, RVersion string,  err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tversion)}
+if tooLong(len(TVersion)) {
+	return RMsize, RVersion,  errTooLong
+}
 t := Tag(0)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTversionPkt(&b, t, TMsize, TVersion)
@@ -362,6 +367,9 @@ func (s *Server) SrvRattach(b*bytes.Buffer) (err error) {
 func (c *Client)CallTattach (SFID FID, AFID FID, Uname string, Aname string) (QID QID,  err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tattach)}
+if tooLong(len(Uname)) || tooLong(len(Aname)) {
+	return QID,  errTooLong
+}
 t := Tag(0)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTattachPkt(&b, t, SFID, AFID, Uname, Aname)
@@ -655,6 +663,8 @@ func (s *Server) SrvRwalk(b*bytes.Buffer) (err error) {
 	}
 	if QIDs,  err := s.NS.Rwalk(SFID, NewFID, Paths); err != nil {
 	MarshalRerrorPkt(b, t, errorText(err))
+} else if tooLong(len(QIDs)) {
+	MarshalRerrorPkt(b, t, errorText(errTooLong))
 } else {
 	MarshalRwalkPkt(b, t, QIDs)
 }
@@ -664,6 +674,9 @@ func (s *Server) SrvRwalk(b*bytes.Buffer) (err error) {
 func (c *Client)CallTwalk (SFID FID, NewFID FID, Paths []string) (QIDs []QID,  err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twalk)}
+if tooLong(len(Paths), Paths...) {
+	return QIDs,  errTooLong
+}
 t := Tag(0)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwalkPkt(&b, t, SFID, NewFID, Paths)
@@ -1017,6 +1030,9 @@ func (s *Server) SrvRcreate(b*bytes.Buffer) (err error) {
 func (c *Client)CallTcreate (OFID FID, Name string, CreatePerm Perm, Omode Mode) (OQID QID, IOUnit MaxSize,  err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tcreate)}
+if tooLong(len(Name)) {
+	return OQID, IOUnit,  errTooLong
+}
 t := Tag(0)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTcreatePkt(&b, t, OFID, Name, CreatePerm, Omode)
@@ -1130,6 +1146,8 @@ func (s *Server) SrvRstat(b*bytes.Buffer) (err error) {
 	}
 	if B,  err := s.NS.Rstat(OFID); err != nil {
 	MarshalRerrorPkt(b, t, errorText(err))
+} else if tooLong(len(B)) {
+	MarshalRerrorPkt(b, t, errorText(errTooLong))
 } else {
 	MarshalRstatPkt(b, t, B)
 }
@@ -1261,6 +1279,9 @@ func (s *Server) SrvRwstat(b*bytes.Buffer) (err error) {
 func (c *Client)CallTwstat (OFID FID, B []byte) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twstat)}
+if tooLong(len(B)) {
+	return  errTooLong
+}
 t := Tag(0)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwstatPkt(&b, t, OFID, B)
-- 
2.43.0


From 648e4ac85ce7121e937392f794d8c221a1fde2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:40 +0000
Subject: [PATCH 24/24] fix: tell apart files of different file systems by
 their QIDs

Inode numbers are unique within one file system only. When another one is
mounted in the exported tree, files of both had the same QID path.
---
 filesystem/ninep_unix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filesystem/ninep_unix.go b/filesystem/ninep_unix.go
index 3b69c50..619a52d 100644
--- a/filesystem/ninep_unix.go
+++ b/filesystem/ninep_unix.go
@@ -22,7 +22,9 @@ func fileInfoToQID(d os.FileInfo) protocol.QID {
 	// on systems with inodes, use it.
 	if sysif != nil {
 		stat := sysif.(*syscall.Stat_t)
-		qid.Path = uint64(stat.Ino)
+		// Inode numbers are those of one file system. The tree may
+		// have others mounted in it.
+		qid.Path = uint64(stat.Ino) ^ uint64(stat.Dev)<<32
 	} else {
 		qid.Path = uint64(d.ModTime().UnixNano())
 	}
-- 
2.43.0

