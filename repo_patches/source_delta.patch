From 6106628ac7a629ece11e891bc51818102271d388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 01/41] fix: reject variable byte integers longer than four
 bytes

---
 mqtt/packets/primitives/varint.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqtt/packets/primitives/varint.go b/mqtt/packets/primitives/varint.go
index 6a00e6d..0df47a9 100644
--- a/mqtt/packets/primitives/varint.go
+++ b/mqtt/packets/primitives/varint.go
@@ -106,6 +106,11 @@ func (v *VariableByteInt) ReadFrom(r io.Reader) (n int64, err error) {
 			break
 		}
 
+		// SPEC: The maximum number of bytes in the Variable Byte Integer field is four. [1.5.5]
+		if n == 4 {
+			return 0, errors.New("malformed variable byte integer")
+		}
+
 		mul += 7
 	}
 
-- 
2.43.0


From 4c14dfeb5e616a80f560b2b9b8d092f99afa89d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 02/41] fix: refuse to write a variable byte integer above
 268435455

---
 mqtt/packets/primitives/varint.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqtt/packets/primitives/varint.go b/mqtt/packets/primitives/varint.go
index 0df47a9..0587c49 100644
--- a/mqtt/packets/primitives/varint.go
+++ b/mqtt/packets/primitives/varint.go
@@ -53,6 +53,11 @@ func (v *VariableByteInt) Length(property bool) (result VariableByteInt) {
 }
 
 func (v *VariableByteInt) WriteTo(w io.Writer) (int64, error) {
+	// Values above the maximum have no encoding
+	if *v > 268_435_455 {
+		return 0, errors.New("variable byte integer overflow")
+	}
+
 	result := make([]byte, 0, 4)
 	tmp := uint32(*v)
 
-- 
2.43.0


From ef4fbc66c6cc69b4b154d403a856915645903b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 03/41] fix: refuse to write a string longer than 65535 bytes

---
 mqtt/packets/primitives/string.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index fde2b7b..37ed38d 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -26,12 +26,18 @@ package primitives
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
 )
 
 type PrimitiveString string
 
 func (p *PrimitiveString) WriteTo(w io.Writer) (n int64, err error) {
+	// The length must be representable by the 16-bit prefix
+	if len(*p) > 65_535 {
+		return 0, errors.New("string is too long")
+	}
+
 	// Write the length of the string
 	if err = binary.Write(w, binary.BigEndian, uint16(len(*p))); err != nil {
 		return 0, err
-- 
2.43.0


From bf053092a5ee604a2dd368ea397feab453903f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 04/41] fix: count the identifier byte of a string property

---
 mqtt/packets/primitives/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index 37ed38d..7051b33 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -58,11 +58,11 @@ func (p *PrimitiveString) WriteToAsProperty(identifier byte, w io.Writer) (n int
 	if _, err = w.Write([]byte{identifier}); err != nil {
 		return 0, err
 	}
-	n++
 
 	if n, err = p.WriteTo(w); err != nil {
 		return 0, err
 	}
+	n++
 
 	return
 }
-- 
2.43.0


From efbe7d803074670b734dffc90a8438cdf9fb0240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 05/41] fix: read primitives and payloads in full when the
 transport splits them

---
 mqtt/packets/primitives/io.go     | 2 +-
 mqtt/packets/primitives/string.go | 2 +-
 mqtt/packets/primitives/varint.go | 2 +-
 mqtt/packets/publish.go           | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mqtt/packets/primitives/io.go b/mqtt/packets/primitives/io.go
index d9b762d..0d7537d 100644
--- a/mqtt/packets/primitives/io.go
+++ b/mqtt/packets/primitives/io.go
@@ -44,6 +44,6 @@ func WriteByte(b byte, w io.Writer) error {
 
 //go:inline
 func ReadByte(r io.Reader) (b byte, err error) {
-	_, err = r.Read(unsafe.Slice(&b, 1))
+	_, err = io.ReadFull(r, unsafe.Slice(&b, 1))
 	return
 }
diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index 7051b33..3c6c298 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -80,7 +80,7 @@ func (p *PrimitiveString) ReadFrom(r io.Reader) (n int64, err error) {
 
 	// Read the string
 	var count int
-	if count, err = r.Read(buf); err != nil {
+	if count, err = io.ReadFull(r, buf); err != nil {
 		return 0, err
 	} else {
 		n += int64(count)
diff --git a/mqtt/packets/primitives/varint.go b/mqtt/packets/primitives/varint.go
index 0587c49..0beb305 100644
--- a/mqtt/packets/primitives/varint.go
+++ b/mqtt/packets/primitives/varint.go
@@ -97,7 +97,7 @@ func (v *VariableByteInt) ReadFrom(r io.Reader) (n int64, err error) {
 
 	for {
 		var b [1]byte
-		if _, err = r.Read(b[:]); err != nil {
+		if _, err = io.ReadFull(r, b[:]); err != nil {
 			return 0, err
 		}
 		n++
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 6b7c45a..06ba5b5 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -187,7 +187,7 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	payloadLen := int64(p.Header.Remaining) - n + offset
 	if payloadLen > 0 {
 		p.Payload = make([]byte, payloadLen)
-		if count, err := r.Read(p.Payload); err != nil {
+		if count, err := io.ReadFull(r, p.Payload); err != nil {
 			return 0, err
 		} else {
 			n += int64(count)
-- 
2.43.0


From 36f783ed351d76810de59f64aecc166a7fbfff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 06/41] fix: account for multi-byte property lengths in CONNECT

---
 mqtt/packets/connect.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index c83d947..73447b5 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -73,7 +73,7 @@ type Connect struct {
 
 func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	var flags primitives.PrimitiveByte
-	variableHeaderLen := primitives.VariableByteInt(11)
+	variableHeaderLen := primitives.VariableByteInt(10)
 	propertiesLen := primitives.VariableByteInt(0)
 	willPropertiesLen := primitives.VariableByteInt(0)
 	payloadLen := c.ClientId.Length(false)
@@ -112,7 +112,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += c.AuthenticationData.Length(true)
 	}
 
-	variableHeaderLen += propertiesLen
+	variableHeaderLen += propertiesLen.Length(false) + propertiesLen
 
 	// Set flags bits
 	if c.CleanSession {
-- 
2.43.0


From f28bccc3e15173d0799c918c182577a3134200ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 07/41] fix: use the MQTT 5 identifiers of three CONNECT
 properties

---
 mqtt/packets/connect.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index 73447b5..86b2399 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -238,7 +238,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	if c.TopicAliasMaximum > 0 {
-		if count, err = c.TopicAliasMaximum.WriteToAsProperty(0x12, w); err != nil {
+		if count, err = c.TopicAliasMaximum.WriteToAsProperty(0x22, w); err != nil {
 			return 0, err
 		}
 		n += count
@@ -252,7 +252,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	if c.RequestProblemInformation > 0 {
-		if count, err = c.RequestProblemInformation.WriteToAsProperty(0x19, w); err != nil {
+		if count, err = c.RequestProblemInformation.WriteToAsProperty(0x17, w); err != nil {
 			return 0, err
 		}
 		n += count
@@ -320,7 +320,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 
 		// Will message expiry interval
 		if c.WillMessageExpiryInterval > 0 {
-			if count, err = c.WillMessageExpiryInterval.WriteToAsProperty(0x12, w); err != nil {
+			if count, err = c.WillMessageExpiryInterval.WriteToAsProperty(0x02, w); err != nil {
 				return 0, err
 			}
 			n += count
-- 
2.43.0


From ed2c282f4f0f6bf6adf7fa21892f5a3f3f3c2099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 08/41] fix: announce the exact will property length in CONNECT

---
 mqtt/packets/connect.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index 86b2399..d6fb74e 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -145,9 +145,12 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		flags |= primitives.PrimitiveByte(c.WillQos) << 3
 
 		// The will and will topic are actually a part of the payload
-		payloadLen += 1 + c.Will.Length(false) // Includes byte for payload property indicator
+		payloadLen += c.Will.Length(false)
 		payloadLen += c.WillTopic.Length(false)
 
+		// Will payload format indicator is always written
+		willPropertiesLen += 2
+
 		if c.WillDelayInterval > 0 {
 			willPropertiesLen += c.WillDelayInterval.Length(true)
 		}
@@ -171,6 +174,8 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		for k, v := range c.WillUserProperties {
 			willPropertiesLen += 1 + k.Length(false) + v.Length(false)
 		}
+
+		payloadLen += willPropertiesLen.Length(false)
 	}
 
 	payloadLen += willPropertiesLen
-- 
2.43.0


From 851a7d30b7189a8ee688de5cf1d8de27e5248a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 09/41] fix: encode every DISCONNECT property and announce
 exact lengths

---
 mqtt/packets/disconnect.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index 5d8f426..3546a8e 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -109,7 +109,7 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
-	variableHeaderLen := primitives.VariableByteInt(2) // Account for reason code and properties length var
+	variableHeaderLen := primitives.VariableByteInt(1) // Account for reason code
 	propertiesLen := primitives.VariableByteInt(0)
 
 	// Calculate properties length
@@ -117,6 +117,10 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += d.SessionExpiryInterval.Length(true)
 	}
 
+	if len(d.ReasonString) > 0 {
+		propertiesLen += d.ReasonString.Length(true)
+	}
+
 	for k, v := range d.UserProperties {
 		propertiesLen += 1 + k.Length(false) + v.Length(false)
 	}
@@ -125,7 +129,7 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += d.ServerReference.Length(true)
 	}
 
-	variableHeaderLen += propertiesLen
+	variableHeaderLen += propertiesLen.Length(false) + propertiesLen
 
 	// Write fixed header
 	d.Header.SetType(DISCONNECT)
@@ -181,6 +185,14 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		}
 		n += count
 	}
+
+	// Server reference
+	if len(d.ServerReference) > 0 {
+		if count, err = d.ServerReference.WriteToAsProperty(0x1C, w); err != nil {
+			return 0, err
+		}
+		n += count
+	}
 	/* Properties end */
 
 	return
-- 
2.43.0


From 10ffe1f9da3e71686a75a5d3547cfd21e728d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 10/41] fix: write the reason code and property length of AUTH

---
 mqtt/packets/auth.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index fc925da..2f0c891 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -115,12 +115,6 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 	propertiesLen := primitives.VariableByteInt(0)
 
 	// Calculate remaining length
-	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
-	//       Properties. In this case the AUTH has a Remaining Length of 0.
-	if a.AuthenticateReasonCode != 0 {
-		variableHeaderLen++
-	}
-
 	if len(a.AuthenticationMethod) > 0 {
 		l := primitives.VariableByteInt(len(a.AuthenticationMethod))
 		propertiesLen += 3 + l
@@ -140,7 +134,11 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += 1 + k.Length(false) + v.Length(false)
 	}
 
-	variableHeaderLen += propertiesLen
+	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
+	//       Properties. In this case the AUTH has a Remaining Length of 0.
+	if a.AuthenticateReasonCode != 0 || propertiesLen != 0 {
+		variableHeaderLen += a.AuthenticateReasonCode.Length(false) + propertiesLen.Length(false) + propertiesLen
+	}
 
 	a.Header.SetType(AUTH)
 	a.Header.Remaining = variableHeaderLen
@@ -150,13 +148,30 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, err
 	}
 
+	if variableHeaderLen == 0 {
+		return
+	}
+
+	// Write reason code
+	if count, err = a.AuthenticateReasonCode.WriteTo(w); err != nil {
+		return 0, err
+	}
+	n += count
+
 	/* Properties begin */
+	if count, err = propertiesLen.WriteTo(w); err != nil {
+		return 0, err
+	}
+	n += count
+
 	if len(a.AuthenticationMethod) > 0 {
 		if count, err = a.AuthenticationMethod.WriteToAsProperty(0x15, w); err != nil {
 			return 0, err
 		}
 		n += count
+	}
 
+	if len(a.AuthenticationData) > 0 {
 		if count, err = a.AuthenticationData.WriteToAsProperty(0x16, w); err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 3c418b8ea31687f285f092c827c66c3a663e00ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 11/41] fix: accept DISCONNECT and AUTH without a body

---
 mqtt/packets/auth.go       | 6 ++++++
 mqtt/packets/disconnect.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index 2f0c891..ac705da 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -43,6 +43,12 @@ type Auth struct {
 func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
+	//       Properties. In this case the AUTH has a Remaining Length of 0.
+	if a.Header.Remaining == 0 {
+		return
+	}
+
 	// Read the reason code
 	if _, err = a.AuthenticateReasonCode.ReadFrom(r); err != nil {
 		return
diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index 3546a8e..9889579 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -43,6 +43,12 @@ type Disconnect struct {
 func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Normal disconnecton) and
+	//       there are no Properties. In this case the DISCONNECT has a Remaining Length of 0.
+	if d.Header.Remaining == 0 {
+		return
+	}
+
 	/* Variable header begin */
 	if count, err = d.ReasonCode.ReadFrom(r); err != nil {
 		return 0, err
-- 
2.43.0


From 4a2ac07acd94da0f997a34ff8d8472677e4319e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 12/41] fix: account for the fixed header when PUBLISH reads it
 itself

---
 mqtt/packets/publish.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 06ba5b5..6a583c3 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -95,7 +95,7 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 			return
 		}
 		n += count
-		offset = 2
+		offset = count
 	}
 
 	// Parse flags
@@ -123,7 +123,7 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(p.Header.Remaining) {
+	if n-offset >= int64(p.Header.Remaining) {
 		return
 	}
 
-- 
2.43.0


From 80fba251de15221d6f4feb8747d9785216a5fc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 13/41] fix: write publish payload bytes at the cursor

---
 mqtt/packets/publish.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 6a583c3..5a9d561 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -63,7 +63,7 @@ func (p *Publish) Write(buf []byte) (n int, err error) {
 	}
 
 	// Copy into payload
-	n = copy(p.Payload[:p.offset], buf)
+	n = copy(p.Payload[p.offset:], buf)
 	p.offset += n
 
 	return
-- 
2.43.0


From 73b3a9c7520d2d40566b06df4e35a3decc39f426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 14/41] fix: setting no-local must not panic on a short filter

---
 mqtt/packets/topic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/packets/topic.go b/mqtt/packets/topic.go
index c1da7b3..0f2839a 100644
--- a/mqtt/packets/topic.go
+++ b/mqtt/packets/topic.go
@@ -59,7 +59,7 @@ func (t *Topic) SetNoLocal(on bool) *Topic {
 
 	// Leave bit unset if this is a shared subscription
 	// SPEC: It is a Protocol Error to set the No Local bit to 1 on a Shared Subscription [MQTT-3.8.3-4]
-	if on && t.filter[:6] != "$share" {
+	if on && !(len(t.filter) >= 6 && t.filter[:6] == "$share") {
 		t.options |= primitives.PrimitiveByte(1 << 2)
 	}
 	return t
-- 
2.43.0


From 3f640b54a1aa1a8c7149417c9694004a4f0302bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 15/41] fix: clear no-local when the new filter is a shared
 subscription

---
 mqtt/packets/topic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/packets/topic.go b/mqtt/packets/topic.go
index 0f2839a..83fa902 100644
--- a/mqtt/packets/topic.go
+++ b/mqtt/packets/topic.go
@@ -44,7 +44,7 @@ func (t *Topic) Filter() string {
 }
 
 func (t *Topic) SetFilter(filter string) *Topic {
-	if len(t.filter) >= 6 && t.filter[:6] == "$share" {
+	if len(filter) >= 6 && filter[:6] == "$share" {
 		// Unset no local option
 		// SPEC: It is a Protocol Error to set the No Local bit to 1 on a Shared Subscription [MQTT-3.8.3-4]
 		t.SetNoLocal(false)
-- 
2.43.0


From 15441755dbc38bfbf6905702d05ec5df0e86997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 16/41] fix: reject properties that do not belong to the
 control packet

---
 mqtt/packets/auth.go       | 2 ++
 mqtt/packets/connack.go    | 2 ++
 mqtt/packets/disconnect.go | 2 ++
 mqtt/packets/puback.go     | 2 ++
 mqtt/packets/publish.go    | 2 ++
 mqtt/packets/suback.go     | 2 ++
 mqtt/packets/unsuback.go   | 2 ++
 7 files changed, 14 insertions(+)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index ac705da..745d577 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -108,6 +108,8 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			a.UserProperties[k] = v
+		default: // Not a property of this control packet
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 451df38..871d5ca 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -185,6 +185,8 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = c.AuthenticationData.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default: // Not a property of this control packet
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index 9889579..2fe776f 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -104,6 +104,8 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = d.ServerReference.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default: // Not a property of this control packet
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
diff --git a/mqtt/packets/puback.go b/mqtt/packets/puback.go
index 0ba20de..cfc21b8 100644
--- a/mqtt/packets/puback.go
+++ b/mqtt/packets/puback.go
@@ -133,6 +133,8 @@ func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			p.UserProperties[k] = v
+		default: // Not a property of this control packet
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 5a9d561..e36245d 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -177,6 +177,8 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = p.ContentType.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default: // Not a property of this control packet
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
diff --git a/mqtt/packets/suback.go b/mqtt/packets/suback.go
index 8067620..05b1766 100644
--- a/mqtt/packets/suback.go
+++ b/mqtt/packets/suback.go
@@ -96,6 +96,8 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			s.UserProperties[k] = v
+		default: // Not a property of this control packet
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
diff --git a/mqtt/packets/unsuback.go b/mqtt/packets/unsuback.go
index 4542153..df4f278 100644
--- a/mqtt/packets/unsuback.go
+++ b/mqtt/packets/unsuback.go
@@ -96,6 +96,8 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			u.UserProperties[k] = v
+		default: // Not a property of this control packet
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
-- 
2.43.0


From 2e46e5a27102324ae8159a1036947f509d2a35bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 17/41] fix: report the bytes consumed by a CONNACK

---
 mqtt/packets/connack.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 871d5ca..4be86f4 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -192,7 +192,6 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
-	n += int64(c.Header.Remaining)
 	/* Properties end */
 	return
 }
-- 
2.43.0


From cf72a38b9eb50b2b04bede8763529aebfbeab32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 18/41] fix: reject bodies whose property length disagrees with
 their content

---
 mqtt/packets/auth.go       | 10 ++++++++--
 mqtt/packets/connack.go    | 10 ++++++++--
 mqtt/packets/disconnect.go | 10 ++++++++++
 mqtt/packets/puback.go     | 10 ++++++++++
 mqtt/packets/publish.go    | 10 ++++++++--
 mqtt/packets/suback.go     | 10 ++++++++--
 mqtt/packets/unsuback.go   | 10 ++++++++--
 7 files changed, 60 insertions(+), 10 deletions(-)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index 745d577..0f49805 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -66,8 +66,9 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(a.Header.Remaining) {
-		return
+	// The properties must end where the control packet ends
+	if n+int64(propertiesLen) != int64(a.Header.Remaining) {
+		return 0, ErrControlPacketIsMalformed
 	}
 
 	remaining := int64(propertiesLen)
@@ -115,6 +116,11 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
+	// The properties must fill their section exactly
+	if remaining != 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
 
diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 4be86f4..84a4e47 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -90,8 +90,9 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(c.Header.Remaining) {
-		return
+	// The properties must end where the control packet ends
+	if n+int64(propertiesLen) != int64(c.Header.Remaining) {
+		return 0, ErrControlPacketIsMalformed
 	}
 
 	remaining := int64(propertiesLen)
@@ -192,6 +193,11 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
+	// The properties must fill their section exactly
+	if remaining != 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	/* Properties end */
 	return
 }
diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index 2fe776f..bf30add 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -66,6 +66,11 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
+	// The properties must end where the control packet ends
+	if n+int64(propertiesLen) != int64(d.Header.Remaining) {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
@@ -110,6 +115,11 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 		n += count
 		remaining -= count
 	}
+
+	// The properties must fill their section exactly
+	if remaining != 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
 	/* Properties end */
 	/* Variable header end */
 
diff --git a/mqtt/packets/puback.go b/mqtt/packets/puback.go
index cfc21b8..db9a52f 100644
--- a/mqtt/packets/puback.go
+++ b/mqtt/packets/puback.go
@@ -103,6 +103,11 @@ func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
+	// The properties must end where the control packet ends
+	if n+int64(propertiesLen) != int64(p.Header.Remaining) {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
@@ -140,6 +145,11 @@ func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
+	// The properties must fill their section exactly
+	if remaining != 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
 
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index e36245d..f11ba35 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -123,8 +123,9 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n-offset >= int64(p.Header.Remaining) {
-		return
+	// The properties must end before the control packet ends
+	if n-offset+int64(propertiesLen) > int64(p.Header.Remaining) {
+		return 0, ErrControlPacketIsMalformed
 	}
 
 	remaining := int64(propertiesLen)
@@ -183,6 +184,11 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 		n += count
 		remaining -= count
 	}
+
+	// The properties must fill their section exactly
+	if remaining != 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
 	/* Properties end */
 
 	// Read the payload
diff --git a/mqtt/packets/suback.go b/mqtt/packets/suback.go
index 05b1766..cd821ce 100644
--- a/mqtt/packets/suback.go
+++ b/mqtt/packets/suback.go
@@ -62,8 +62,9 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(s.Header.Remaining) {
-		return
+	// The properties must end before the control packet ends
+	if n+int64(propertiesLen) >= int64(s.Header.Remaining) {
+		return 0, ErrControlPacketIsMalformed
 	}
 
 	remaining := int64(propertiesLen)
@@ -103,6 +104,11 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
+	// The properties must fill their section exactly
+	if remaining != 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Fail if this is the end of the control packet
 	if n >= int64(s.Header.Remaining) {
 		return 0, ErrControlPacketIsMalformed
diff --git a/mqtt/packets/unsuback.go b/mqtt/packets/unsuback.go
index df4f278..b12e37c 100644
--- a/mqtt/packets/unsuback.go
+++ b/mqtt/packets/unsuback.go
@@ -62,8 +62,9 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(u.Header.Remaining) {
-		return
+	// The properties must end before the control packet ends
+	if n+int64(propertiesLen) >= int64(u.Header.Remaining) {
+		return 0, ErrControlPacketIsMalformed
 	}
 
 	remaining := int64(propertiesLen)
@@ -103,6 +104,11 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
+	// The properties must fill their section exactly
+	if remaining != 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Fail if this is the end of the control packet
 	if n >= int64(u.Header.Remaining) {
 		return 0, ErrControlPacketIsMalformed
-- 
2.43.0


From 9f56403b7105bb6c49fc120a8feff8406f26c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 19/41] fix: reject bodies too short for their mandatory fields

---
 mqtt/packets/connack.go  | 2 +-
 mqtt/packets/puback.go   | 4 ++++
 mqtt/packets/suback.go   | 2 +-
 mqtt/packets/unsuback.go | 2 +-
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 84a4e47..3395c9c 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -69,7 +69,7 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 	c.SessionPresent = (c.Flags & 0x01) != 0
 
 	if n >= int64(c.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 
 	if count, err = c.ReasonCode.ReadFrom(r); err != nil {
diff --git a/mqtt/packets/puback.go b/mqtt/packets/puback.go
index db9a52f..1c9cc50 100644
--- a/mqtt/packets/puback.go
+++ b/mqtt/packets/puback.go
@@ -84,6 +84,10 @@ func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 		return 0, err
 	}
 
+	if n > int64(p.Header.Remaining) {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	if n >= int64(p.Header.Remaining) {
 		return
 	}
diff --git a/mqtt/packets/suback.go b/mqtt/packets/suback.go
index cd821ce..34f383b 100644
--- a/mqtt/packets/suback.go
+++ b/mqtt/packets/suback.go
@@ -51,7 +51,7 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 
 	if n >= int64(s.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 	/* Variable header end */
 
diff --git a/mqtt/packets/unsuback.go b/mqtt/packets/unsuback.go
index b12e37c..79373c2 100644
--- a/mqtt/packets/unsuback.go
+++ b/mqtt/packets/unsuback.go
@@ -51,7 +51,7 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 
 	if n >= int64(u.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 	/* Variable header end */
 
-- 
2.43.0


From 0e402d9ab35912ce4aecf968c83e08617acc657c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 20/41] fix: match topic filters level by level as MQTT 5
 defines

---
 mqtt/client.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 03339fe..5149477 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1124,6 +1124,13 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	// TODO: Support matching for shared topics
 	var filterPos int
 	var topicPos int
+
+	// SPEC: The Server MUST NOT match Topic Filters starting with a wildcard character (# or +) with Topic Names
+	//       beginning with a $ character [MQTT-4.7.2-1].
+	if len(topic) > 0 && topic[0] == '$' && len(filter) > 0 && (filter[0] == '#' || filter[0] == '+') {
+		return false
+	}
+
 	for filterPos < len(filter) {
 		if filter[filterPos] == '#' {
 			// Encountered multi-level wildcard.
@@ -1155,17 +1162,13 @@ func (c *Client) matchTopic(topic, filter string) bool {
 				topicPos++
 			}
 
-			if topicPos == len(topic) {
-				// No levels left. Return true.
-				return true
-			}
-
 			// Advance the filter pos and continue at the beginning of the loop
 			filterPos++
 			continue
-		} else if filterPos >= len(topic) {
-			// The length of the filter exceeded the length of the topic. No way these can match.
-			return false
+		} else if topicPos >= len(topic) {
+			// The topic has ended. The only way these can match is through the parent level of a final multi-level
+			// wildcard.
+			return filter[filterPos:] == "/#"
 		} else if filter[filterPos] != topic[topicPos] {
 			return false
 		}
@@ -1175,7 +1178,7 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	}
 
 	// Check if there is more characters in the topic that went unprocessed
-	if len(filter) != len(topic) && topicPos < len(topic) {
+	if topicPos < len(topic) {
 		// Topic couldn't have matched the filter
 		return false
 	}
-- 
2.43.0


From 469bc52fb3113ca7d11c532b691a62b89b957d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 21/41] fix: disconnect must work on connected clients, not on
 disconnected ones

---
 mqtt/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 5149477..f30d060 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -338,7 +338,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if c.isConnected {
+	if !c.isConnected {
 		return ErrClientNotConnected
 	}
 
@@ -395,7 +395,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 }
 
 func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.PrimitiveByte) (err error) {
-	if c.isConnected {
+	if !c.isConnected {
 		return ErrClientNotConnected
 	}
 
-- 
2.43.0


From 1c9871f86b71aef0cf57fb66f69389bfc76d9545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 22/41] fix: exceeding the receive maximum must not lock the
 conn mutex twice nor keep processing

---
 mqtt/client.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index f30d060..d515873 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -394,6 +394,8 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	return nil
 }
 
+// disconnectWithReason sends the DISCONNECT packet with the specified reason to the server and closes the network
+// connection. The caller must hold both the conn mutex and the client mutex.
 func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.PrimitiveByte) (err error) {
 	if !c.isConnected {
 		return ErrClientNotConnected
@@ -405,10 +407,6 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -437,7 +435,6 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	if err = c.conn.Close(); err != nil {
 		return
 	}
-	unlockConn.Do(c.connMutex.Unlock)
 
 	c.isConnected = false
 
@@ -891,6 +888,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 				c.mutex.Unlock()
 				return err
 			}
+			c.mutex.Unlock()
+			return ReasonCode(0x93)
 		} else {
 			// Decrement the receive quota counter
 			c.receiveQuota--
-- 
2.43.0


From 08a47c4358609b8c550ab4f47c1bb597fbde0277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 23/41] fix: QoS 0 publishes must not use up the receive quota

---
 mqtt/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index d515873..86cf0b1 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -890,7 +890,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			}
 			c.mutex.Unlock()
 			return ReasonCode(0x93)
-		} else {
+		} else if publish.QoS > 0 {
 			// Decrement the receive quota counter
 			c.receiveQuota--
 		}
-- 
2.43.0


From 60a6de9bf4caae10e0f62b57d22f12e6ac9b0089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 24/41] fix: release the client mutex on every error return

---
 mqtt/client.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mqtt/client.go b/mqtt/client.go
index 86cf0b1..0af0017 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -546,6 +546,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	c.mutex.Lock()
 
 	if !c.isConnected {
+		c.mutex.Unlock()
 		return ErrClientNotConnected
 	}
 
@@ -557,6 +558,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
+		c.mutex.Unlock()
 		return err
 	}
 
@@ -580,6 +582,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 	// Send the UNSUBSCRIBE control packet
 	if err = c.send(unsubscribe); err != nil {
+		c.mutex.Unlock()
 		return err
 	}
 
@@ -953,6 +956,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Drop any persisted publish with the same packet identifier
 		if c.storage != nil {
 			if err = c.storage.Drop(puback.PacketIdentifier.Value()); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 		}
@@ -978,11 +982,13 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if c.storage != nil {
 			// Discard original publish from persistent storage
 			if err = c.storage.Drop(pubrec.PacketIdentifier.Value()); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 
 			// Store the incoming PUBREC to persistent storage
 			if err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 		}
@@ -995,6 +1001,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		if err = c.send(pubrel); err != nil {
+			c.mutex.Unlock()
 			return err
 		}
 
@@ -1013,6 +1020,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
 			if err = c.storage.Drop(pubrel.PacketIdentifier.Value()); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 		}
@@ -1059,6 +1067,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
 			if err = c.storage.Drop(pubcomp.PacketIdentifier.Value()); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 		}
-- 
2.43.0


From 3395b0d1de1a45aa99b067a82a9463f52b786466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 25/41] fix: an absent receive maximum means 65535

---
 mqtt/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 0af0017..9491307 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -280,11 +280,15 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	}
 
 	// Store receive maximum reported by the connect packet and CONNACK received from the server
+	// SPEC: If the Receive Maximum value is absent, then its value defaults to 65,535.
 	c.serverReceiveMaximum = connack.ReceiveMaximum.Value()
+	if c.serverReceiveMaximum == 0 {
+		c.serverReceiveMaximum = 65_535
+	}
 
 	if packet.ReceiveMaximum == 0 {
-		// Default to that of the server
-		c.clientReceiveMaximum = c.serverReceiveMaximum
+		// Default to the value the server assumes when the property is absent
+		c.clientReceiveMaximum = 65_535
 	} else {
 		// Use the value from the connect control packet
 		c.clientReceiveMaximum = packet.ReceiveMaximum.Value()
-- 
2.43.0


From f2b5597559831df5be6c9a0c904711dabaebb4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 26/41] fix: a keep alive of zero turns the keep alive
 mechanism off

---
 mqtt/client.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 9491307..a2e2088 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -274,7 +274,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		// SPEC: If the Server returns a Server Keep Alive on the CONNACK packet, the Client MUST use that value instead
 		//       of the value it sent as the Keep Alive. [MQTT-3.1.2-21]
 		c.keepAliveInterval = time.Second * time.Duration(connack.ServerKeepAlive)
-	} else if packet.KeepAlive > 0 {
+	} else {
 		// Use the keep alive interval defined in the CONNECT packet
 		c.keepAliveInterval = time.Second * time.Duration(packet.KeepAlive)
 	}
@@ -784,7 +784,8 @@ func (c *Client) KeepAlive() (err error) {
 
 	var deadline time.Time
 	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
+	if deadline, ok = ctx.Deadline(); !ok || c.keepAliveInterval == 0 {
+		// There is no deadline if there is no keep alive interval
 		deadline = time.Time{}
 	}
 
@@ -827,7 +828,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	// Check if current time is after the ping response deadline
 	// SPEC: If a Client does not receive a PINGRESP packet within a reasonable amount of time after it has sent a
 	//       PINGREQ, it SHOULD close the Network Connection to the Server.
-	if time.Now().After(c.pingRespDeadline) {
+	if c.keepAliveInterval > 0 && time.Now().After(c.pingRespDeadline) {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
 		c.isConnected = false
-- 
2.43.0


From 9c69d870a5b4f99b312d068c15472b35ebbb2f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 27/41] fix: a DISCONNECT from the server ends the connected
 state

---
 mqtt/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqtt/client.go b/mqtt/client.go
index a2e2088..1e3a430 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1110,6 +1110,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			return
 		}
 		// Close the connection
+		c.isConnected = false
 		if err = c.conn.Close(); err != nil {
 			return
 		}
-- 
2.43.0


From 31bd0c9475d9e14320fe137b1ea96e559a40f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 28/41] fix: PUBREC reason code 0x80 gives back send quota and
 unblocks a publish

---
 mqtt/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 1e3a430..5263d55 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -978,9 +978,15 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Increment the send quota counter if it contains a failure reason code
 		// SPEC: Each time a PUBREC packet is received with a Return Code of 0x80 or greater.
 		c.mutex.Lock()
-		if pubrec.ReasonCode > 0x80 {
+		if pubrec.ReasonCode >= 0x80 {
 			if c.sendQuota < c.serverReceiveMaximum {
 				c.sendQuota++
+
+				// Potentially allow a blocked call to Publish to continue.
+				select {
+				case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
+				default: // No call to Publish is pending
+				}
 			}
 		}
 
-- 
2.43.0


From f16f00aa26528cdb27185f0a01595eb5b445c259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 29/41] fix: a failed PUBREC ends the handshake without a
 PUBREL

---
 mqtt/client.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 5263d55..3cf68f1 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -998,22 +998,26 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			}
 
 			// Store the incoming PUBREC to persistent storage
-			if err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec); err != nil {
-				c.mutex.Unlock()
-				return err
+			if pubrec.ReasonCode < 0x80 {
+				if err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec); err != nil {
+					c.mutex.Unlock()
+					return err
+				}
 			}
 		}
 
-		// Send PUBREL control packet
-		pubrel := &packets.Pubrel{
-			Puback: packets.Puback{
-				PacketIdentifier: pubrec.PacketIdentifier,
-			},
-		}
+		// Send PUBREL control packet unless the PUBREC contains a failure reason code, which ends the handshake
+		if pubrec.ReasonCode < 0x80 {
+			pubrel := &packets.Pubrel{
+				Puback: packets.Puback{
+					PacketIdentifier: pubrec.PacketIdentifier,
+				},
+			}
 
-		if err = c.send(pubrel); err != nil {
-			c.mutex.Unlock()
-			return err
+			if err = c.send(pubrel); err != nil {
+				c.mutex.Unlock()
+				return err
+			}
 		}
 
 		c.mutex.Unlock()
-- 
2.43.0


From 5084682b821cd6dc085e226461e3bacb72eb8aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 30/41] fix: only a QoS 2 publish leaves a PUBREC in the
 storage

---
 mqtt/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 3cf68f1..3d6de99 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -927,7 +927,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Create a Pubrec control packet and store it. This might be used later during the message delivery retry flow.
 		// It will be removed when a PUBREL control packet comes in.
 		c.mutex.RLock()
-		if publish.QoS > 0 && c.storage != nil {
+		if publish.QoS == packets.QoS2 && c.storage != nil {
 			pubrec := &packets.Pubrec{
 				Puback: packets.Puback{
 					PacketIdentifier: publish.PacketIdentifier,
-- 
2.43.0


From 01f2d49f7fcc6503bcb76a1e97018bdf55f82ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 31/41] fix: packet identifiers must be non-zero and not in use
 by a pending request

---
 mqtt/client.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 3d6de99..f387ff4 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -448,6 +448,18 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	return
 }
 
+// newPacketIdentifier returns a random packet identifier that is not zero and that no pending request uses. The caller
+// must hold the client mutex.
+func (c *Client) newPacketIdentifier() primitives.PrimitiveUint16 {
+	identifier := primitives.PrimitiveUint16(c.rngFn())
+	for {
+		if _, pending := c.responseChan[int(identifier)]; identifier != 0 && !pending {
+			return identifier
+		}
+		identifier++
+	}
+}
+
 // Subscribe sends the SUBSCRIBE control packet to the server with the specified topic filters and options.
 func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	// Do nothing if topics list is empty
@@ -481,7 +493,7 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 
 	c.mutex.Lock()
 	subscribe := &packets.Subscribe{
-		PacketIdentifier: primitives.PrimitiveUint16(c.rngFn()),
+		PacketIdentifier: c.newPacketIdentifier(),
 		Topics:           _topics,
 
 		// TODO: Use context to set these optional parameters
@@ -573,7 +585,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		_topics = append(_topics, t)
 	}
 	unsubscribe := &packets.Unsubscribe{
-		PacketIdentifier: primitives.PrimitiveUint16(c.rngFn()),
+		PacketIdentifier: c.newPacketIdentifier(),
 		Topics:           _topics,
 
 		// TODO: Use context to set these optional parameters
@@ -639,7 +651,7 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 		// Assign a packet identifier if none is set
 		c.mutex.Lock()
 		if pub.PacketIdentifier == 0 {
-			pub.PacketIdentifier = primitives.PrimitiveUint16(c.rngFn())
+			pub.PacketIdentifier = c.newPacketIdentifier()
 		}
 
 		if c.storage != nil {
-- 
2.43.0


From 4fe6387182f0d0860c4cc59f503d539056f4a0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 32/41] fix: a deadline that expires inside a header must not
 lose bytes silently

---
 mqtt/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index f387ff4..1603144 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -870,7 +870,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 	// Attempt to receive a control packet header
 	header := packets.FixedHeader{}
-	if _, err = header.ReadFrom(c.conn); errors.Is(err, os.ErrDeadlineExceeded) {
+	if _, err = header.Header.ReadFrom(c.conn); errors.Is(err, os.ErrDeadlineExceeded) {
 		// No incoming data
 		return nil
 	} else if err != nil {
@@ -888,6 +888,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.conn.SetDeadline(time.Time{})
 	}
 
+	// Receive the remainder of the header. The deadline must not expire silently in the middle of a control packet.
+	if _, err = header.Remaining.ReadFrom(c.conn); err != nil {
+		return
+	}
+
 	// Read control packet
 	switch header.GetType() {
 	case packets.PUBLISH:
-- 
2.43.0


From 4198fed2f6e4e5d671d617bce30c8f62dddfc353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 33/41] fix: reject a PINGRESP with a body

---
 mqtt/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqtt/client.go b/mqtt/client.go
index 1603144..f4cc040 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1149,6 +1149,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 		c.signal(packets.AUTH, auth, nil)
 	case packets.PINGRESP:
+		// A PINGRESP has no body
+		if header.Remaining != 0 {
+			return packets.ErrControlPacketIsMalformed
+		}
+
 		// Extend the ping response deadline
 		c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
 	default:
-- 
2.43.0


From 0f36f3fcb2fce6104112ef8bb4b238183b42d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 34/41] fix: check and use the send quota while holding the
 conn mutex

---
 mqtt/client.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index f4cc040..41eaa38 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -671,19 +671,23 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	//       It MAY continue to send PUBLISH packets with QoS 0, or it MAY choose to suspend sending these as well. The
 	//       Client and Server MUST continue to process and respond to all other MQTT Control Packets even if the quota
 	//       is zero [MQTT-4.9.0-3].
-	if c.sendQuota == 0 && pub.QoS > 0 {
+	for c.sendQuota == 0 && pub.QoS > 0 {
 		// Delay sending this publish until one of the unacknowledged publishes is acknowledged
 		c.connMutex.Unlock()
 		c.pendingSendSemaphore <- struct{}{}
 		c.connMutex.Lock()
+
+		// The connection may have ended in the meantime
+		if !c.isConnected {
+			return ErrClientNotConnected
+		}
 	}
+
 	// Write the publish
 	if err = c.send(pub); err != nil {
 		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
-
 	if pub.QoS > 0 {
 		c.mutex.Lock()
 		// Decrement the send quota counter
@@ -691,6 +695,8 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 		c.mutex.Unlock()
 	}
 
+	unlockConn.Do(c.connMutex.Unlock)
+
 	return
 }
 
-- 
2.43.0


From 98752bcac23bdfd2f8b1a6f2655ccfc580e44011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 35/41] fix: tolerate SUBACKs with unexpected reason codes or
 type and bind every granted topic

---
 mqtt/client.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 41eaa38..3699ac3 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -517,13 +517,26 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	// Wait for the acknowledgement
 	select {
 	case resp := <-respChan:
-		suback := resp.(*packets.Suback)
+		suback, ok := resp.(*packets.Suback)
+		if !ok {
+			err = ErrUnexpectedPacketTypeReceived
+			break
+		}
+
+		// SPEC: The SUBACK packet sent by the Server to the Client MUST contain a Reason Code for each Topic
+		//       Filter/Subscription Option pair [MQTT-3.8.4-6].
+		if len(suback.ReasonCodes) != len(topics) {
+			err = packets.ErrControlPacketIsMalformed
+			break
+		}
 
 		// Check all reason codes
 		for i, code := range suback.ReasonCodes {
 			if code >= 0x80 {
 				// TODO: Return all failure reason codes to caller somehow
-				return ReasonCode(code)
+				if err == nil {
+					err = ReasonCode(code)
+				}
 			} else {
 				// TODO: Consider session retention details here
 
-- 
2.43.0


From ef3e947551ae9e26a1afa8d306e47c660710bae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 36/41] fix: a repeated acknowledgement must neither block Poll
 nor hit a closed channel

---
 mqtt/client.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 3699ac3..74441b8 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -553,12 +553,12 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 		}
 	}
 
-	// Close the chan
-	close(respChan)
-
 	c.mutex.Lock()
 	// Remove the channel from the map
 	delete(c.responseChan, int(subscribe.PacketIdentifier))
+
+	// Close the chan
+	close(respChan)
 	c.mutex.Unlock()
 
 	return
@@ -1133,9 +1133,14 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Respond to the call to client.Subscribe
+		c.mutex.RLock()
 		if respChan, ok := c.responseChan[int(suback.PacketIdentifier)]; ok {
-			respChan <- suback
+			select {
+			case respChan <- suback:
+			default: // Already acknowledged
+			}
 		}
+		c.mutex.RUnlock()
 
 		c.signal(packets.SUBACK, suback, nil)
 	case packets.UNSUBACK:
@@ -1145,9 +1150,14 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Respond to the call to client.Unsubscribe
+		c.mutex.RLock()
 		if respChan, ok := c.responseChan[int(unsuback.PacketIdentifier)]; ok {
-			respChan <- unsuback
+			select {
+			case respChan <- unsuback:
+			default: // Already acknowledged
+			}
 		}
+		c.mutex.RUnlock()
 
 		c.signal(packets.UNSUBACK, unsuback, nil)
 	case packets.DISCONNECT:
-- 
2.43.0


From 4fb27cac2ca3536a4928caa4d25dffaa47fea497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 37/41] fix: forget requests that were not sent and check the
 type of the UNSUBSCRIBE reply

---
 mqtt/client.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 74441b8..ac1f43a 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -507,6 +507,7 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 
 	// Send the SUBSCRIBE control packet
 	if err = c.send(subscribe); err != nil {
+		delete(c.responseChan, int(subscribe.PacketIdentifier))
 		c.mutex.Unlock()
 		return err
 	}
@@ -611,6 +612,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 	// Send the UNSUBSCRIBE control packet
 	if err = c.send(unsubscribe); err != nil {
+		delete(c.responseChan, int(unsubscribe.PacketIdentifier))
 		c.mutex.Unlock()
 		return err
 	}
@@ -619,7 +621,12 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 	// Wait for the acknowledgement
 	select {
-	case <-respChan:
+	case resp := <-respChan:
+		if _, ok := resp.(*packets.Unsuback); !ok {
+			err = ErrUnexpectedPacketTypeReceived
+			break
+		}
+
 		c.mutex.Lock()
 		// Close any event channels bound to the topics
 		for _, topic := range topics {
-- 
2.43.0


From 9d668f4d1feaa1ea9d122a141c8fda788f768838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 38/41] fix: never bind, signal or close an event channel that
 is already closed

---
 mqtt/client.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index ac1f43a..cefaa37 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -58,6 +58,9 @@ type Client struct {
 	eventChans map[int]EventChannel
 	topicChans map[string]EventChannel
 
+	// openChans holds the identifiers of the event channels that have not been closed yet
+	openChans map[int]bool
+
 	responseChan map[int]chan any
 
 	evChanIdCounter int
@@ -86,6 +89,7 @@ func NewClient(conn net.Conn) *Client {
 		conn:            conn,
 		eventChans:      make(map[int]EventChannel),
 		topicChans:      make(map[string]EventChannel),
+		openChans:       make(map[int]bool),
 		responseChan:    make(map[int]chan any),
 		evChanIdCounter: 1,
 		rngFn:           rand.Uint32,
@@ -135,6 +139,7 @@ func (c *Client) CreateEventChannel(n int) EventChannel {
 
 	// Track this chan so fanout signalling can occur later
 	c.eventChans[c.evChanIdCounter] = result
+	c.openChans[c.evChanIdCounter] = true
 	c.evChanIdCounter++
 
 	return result
@@ -142,13 +147,23 @@ func (c *Client) CreateEventChannel(n int) EventChannel {
 
 // CloseEventChannel closes the event channel. No further events will be signalled on the channel.
 func (c *Client) CloseEventChannel(channel EventChannel) {
-	c.eventMutex.Lock()
-	defer c.eventMutex.Unlock()
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 
 	c.closeEventChannelInternal(channel)
 }
 
+// closeEventChannelInternal closes the event channel unless it has been closed already. The caller must hold the client
+// mutex.
 func (c *Client) closeEventChannelInternal(channel EventChannel) {
+	c.eventMutex.Lock()
+	defer c.eventMutex.Unlock()
+
+	if !c.openChans[channel.id] {
+		return
+	}
+	delete(c.openChans, channel.id)
+
 	// Close the channel so that no further signals can occur on it
 	close(channel.channel)
 
@@ -544,10 +559,14 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 				if chanid := topics[i].channel.id; chanid != 0 {
 					// Map the event channel to the topic
 					c.mutex.Lock()
-					c.topicChans[topics[i].Topic.Filter()] = c.eventChans[chanid]
+					c.eventMutex.Lock()
+					if c.openChans[chanid] {
+						c.topicChans[topics[i].Topic.Filter()] = topics[i].channel
+					}
 
 					// Remove this channel from the general event channel map
 					delete(c.eventChans, chanid)
+					c.eventMutex.Unlock()
 					c.mutex.Unlock()
 				}
 			}
@@ -959,6 +978,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Route the PUBLISH to the correct event channels as configured by the Subscribe API
+		c.mutex.RLock()
 		for filter, channel := range c.topicChans {
 			// Does the topic match any known filter?
 			if c.matchTopic(publish.Topic.String(), filter) {
@@ -969,7 +989,6 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Create a Pubrec control packet and store it. This might be used later during the message delivery retry flow.
 		// It will be removed when a PUBREL control packet comes in.
-		c.mutex.RLock()
 		if publish.QoS == packets.QoS2 && c.storage != nil {
 			pubrec := &packets.Pubrec{
 				Puback: packets.Puback{
-- 
2.43.0


From 59f6325b217f9958cc69f76e959739faf23b667d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 39/41] fix: acquire the conn mutex before the client mutex
 everywhere

---
 mqtt/client.go | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index cefaa37..a09d63a 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -224,18 +224,17 @@ func (c *Client) signal(packetType packets.PacketType, data any, channel chan<-
 // Connect sends the CONNECT packet to the server and waits for the server to send the acknowledgement (CONNACK) packet
 // back to the client. If the acknowledgement contains a failure reason, then a ReasonCode error is returned.
 func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err error) {
-	c.mutex.Lock()
-	defer c.mutex.Unlock()
-
 	var deadline time.Time
 	var ok bool
 	if deadline, ok = ctx.Deadline(); !ok {
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
 	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
+	defer c.connMutex.Unlock()
+
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
@@ -268,8 +267,6 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
-
 	// Did the server send an error response?
 	// SPEC: If a Server sends a CONNACK packet containing a Reason code of 128 or greater it MUST then close the
 	//       Network Connection [MQTT-3.2.2-7].
@@ -354,6 +351,9 @@ func (c *Client) Disconnect(ctx context.Context, publishWill bool) (err error) {
 // time. Setting a zero value for the sessionExpiryInterval parameter will cause the server to default to the value
 // specified in the CONNECT control packet.
 func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bool, sessionExpiryInterval int) (err error) {
+	c.connMutex.Lock()
+	defer c.connMutex.Unlock()
+
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
@@ -367,10 +367,6 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -403,7 +399,6 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	if err = c.conn.Close(); err != nil {
 		return
 	}
-	unlockConn.Do(c.connMutex.Unlock)
 
 	c.isConnected = false
 
@@ -592,6 +587,10 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		return ErrInvalidArgument
 	}
 
+	var unlockConn sync.Once
+	c.connMutex.Lock()
+	defer unlockConn.Do(c.connMutex.Unlock)
+
 	c.mutex.Lock()
 
 	if !c.isConnected {
@@ -636,6 +635,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		return err
 	}
 
+	unlockConn.Do(c.connMutex.Unlock)
 	c.mutex.Unlock()
 
 	// Wait for the acknowledgement
@@ -825,6 +825,9 @@ func (c *Client) KeepAliveInterval() time.Duration {
 //
 //	PINGREQ packet. [MQTT-3.1.2-20]
 func (c *Client) KeepAlive() (err error) {
+	c.connMutex.Lock()
+	defer c.connMutex.Unlock()
+
 	c.mutex.RLock()
 	defer c.mutex.RUnlock()
 
@@ -846,10 +849,6 @@ func (c *Client) KeepAlive() (err error) {
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -863,8 +862,6 @@ func (c *Client) KeepAlive() (err error) {
 		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
-
 	// NOTE: Poll handles receiving the response and disconnecting if no response has been sent within twice the keep
 	// alive interval.
 	return
-- 
2.43.0


From b4dda0bb61dd2594e480e599ab6ceeecba550f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 40/41] fix: access the client state only while holding a lock
 that guards it

---
 mqtt/client.go | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index a09d63a..80f12b1 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -100,8 +100,8 @@ func NewClient(conn net.Conn) *Client {
 // QoS 1 and QoS 2. No persistence will take place if no storage implementation is set which cause message delivery
 // retry to be effectively disabled. No storage implementation is set by default.
 func (c *Client) SetStorage(storage storage.Storage) {
-	c.eventMutex.Lock()
-	defer c.eventMutex.Unlock()
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 
 	c.storage = storage
 }
@@ -109,6 +109,9 @@ func (c *Client) SetStorage(storage storage.Storage) {
 // SetRngFn set the random number generator function that will be used to generate random packet identifiers. The
 // default is rand.Uint32.
 func (c *Client) SetRngFn(fn func() uint32) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	c.rngFn = fn
 }
 
@@ -333,6 +336,9 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 // IsConnected returns true if the client is currently in the connected state. Otherwise, it returns false if the client
 // is not currently connected to a MQTT server.
 func (c *Client) IsConnected() bool {
+	c.mutex.RLock()
+	defer c.mutex.RUnlock()
+
 	return c.isConnected
 }
 
@@ -477,10 +483,6 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 		return ErrInvalidArgument
 	}
 
-	if !c.isConnected {
-		return ErrClientNotConnected
-	}
-
 	var deadline time.Time
 	var ok bool
 	if deadline, ok = ctx.Deadline(); !ok {
@@ -491,6 +493,10 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	c.connMutex.Lock()
 	defer unlockConn.Do(c.connMutex.Unlock)
 
+	if !c.isConnected {
+		return ErrClientNotConnected
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -666,10 +672,6 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 // Publish sends PUBLISH control packet to the server.
 func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error) {
-	if !c.isConnected {
-		return ErrClientNotConnected
-	}
-
 	var deadline time.Time
 	var ok bool
 	if deadline, ok = ctx.Deadline(); !ok {
@@ -680,6 +682,10 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	c.connMutex.Lock()
 	defer unlockConn.Do(c.connMutex.Unlock)
 
+	if !c.isConnected {
+		return ErrClientNotConnected
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -712,8 +718,9 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	//       is zero [MQTT-4.9.0-3].
 	for c.sendQuota == 0 && pub.QoS > 0 {
 		// Delay sending this publish until one of the unacknowledged publishes is acknowledged
+		pendingSendSemaphore := c.pendingSendSemaphore
 		c.connMutex.Unlock()
-		c.pendingSendSemaphore <- struct{}{}
+		pendingSendSemaphore <- struct{}{}
 		c.connMutex.Lock()
 
 		// The connection may have ended in the meantime
@@ -815,6 +822,9 @@ func (c *Client) sendPubrec(ctx context.Context, publish *packets.Publish) (err
 // KeepAliveInterval returns the interval at which frequent PINGREQ packets must be sent. The server may specify a
 // different value in the CONNACK packet than what was originally specified by the CONNECT packet.
 func (c *Client) KeepAliveInterval() time.Duration {
+	c.mutex.RLock()
+	defer c.mutex.RUnlock()
+
 	return c.keepAliveInterval
 }
 
@@ -872,20 +882,22 @@ func (c *Client) KeepAlive() (err error) {
 // call to the Publish method should take place on the same goroutine that a call to Poll takes place on as this could
 // potentially cause a deadlock.
 func (c *Client) Poll(ctx context.Context) (err error) {
+	c.connMutex.Lock()
+	defer c.connMutex.Unlock()
+
 	if !c.isConnected {
 		return ErrClientNotConnected
 	}
 
-	c.connMutex.Lock()
-	defer c.connMutex.Unlock()
-
 	// Check if current time is after the ping response deadline
 	// SPEC: If a Client does not receive a PINGRESP packet within a reasonable amount of time after it has sent a
 	//       PINGREQ, it SHOULD close the Network Connection to the Server.
 	if c.keepAliveInterval > 0 && time.Now().After(c.pingRespDeadline) {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
+		c.mutex.Lock()
 		c.isConnected = false
+		c.mutex.Unlock()
 		if err := c.conn.Close(); err != nil {
 			return err
 		}
@@ -1112,9 +1124,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Increment receive quota counter
+		c.mutex.Lock()
 		if c.receiveQuota < c.clientReceiveMaximum {
 			c.receiveQuota++
 		}
+		c.mutex.Unlock()
 
 		c.signal(packets.PUBREL, pubrel, nil)
 	case packets.PUBCOMP:
@@ -1189,7 +1203,9 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			return
 		}
 		// Close the connection
+		c.mutex.Lock()
 		c.isConnected = false
+		c.mutex.Unlock()
 		if err = c.conn.Close(); err != nil {
 			return
 		}
@@ -1207,7 +1223,9 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Extend the ping response deadline
+		c.mutex.Lock()
 		c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
+		c.mutex.Unlock()
 	default:
 		return ErrUnexpectedPacketTypeReceived
 	}
-- 
2.43.0


From 592ec5db1a1f6e5a2d6fe6181d3254b9ba42b081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 41/41] fix: a client that sent DISCONNECT is not connected
 even if closing fails

---
 mqtt/client.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 80f12b1..d824e3c 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -402,12 +402,11 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
 	//       MUST close the Network Connection [MQTT-3.14.4-2].
+	c.isConnected = false
 	if err = c.conn.Close(); err != nil {
 		return
 	}
 
-	c.isConnected = false
-
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
 
@@ -452,12 +451,11 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
 	//       MUST close the Network Connection [MQTT-3.14.4-2].
+	c.isConnected = false
 	if err = c.conn.Close(); err != nil {
 		return
 	}
 
-	c.isConnected = false
-
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
 
-- 
2.43.0

