From 90fb8c3c19c05afddb10a3691ebbaa7fd7dbed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 01/43] fix: decode and encode the payload format indicator of
 PUBLISH

---
 mqtt/packets/publish.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 6b7c45a..689a07d 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -44,6 +44,7 @@ type Publish struct {
 	offset  int
 
 	/* Properties */
+	PayloadFormat          primitives.PrimitiveByte
 	MessageExpiryInterval  primitives.PrimitiveUint32
 	TopicAlias             primitives.PrimitiveUint16
 	ResponseTopic          primitives.PrimitiveString
@@ -138,6 +139,10 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining--
 
 		switch identifier {
+		case 0x01: // Payload format indicator
+			if count, err = p.PayloadFormat.ReadFrom(r); err != nil {
+				return 0, err
+			}
 		case 0x02: // Message expiry interval
 			if count, err = p.MessageExpiryInterval.ReadFrom(r); err != nil {
 				return 0, err
@@ -219,6 +224,10 @@ func (p *Publish) WriteTo(w io.Writer) (n int64, err error) {
 		variableHeaderLen += p.PacketIdentifier.Length(false)
 	}
 
+	if p.PayloadFormat > 0 {
+		propertiesLen += p.PayloadFormat.Length(true)
+	}
+
 	if p.MessageExpiryInterval > 0 {
 		propertiesLen += p.MessageExpiryInterval.Length(true)
 	}
@@ -289,6 +298,13 @@ func (p *Publish) WriteTo(w io.Writer) (n int64, err error) {
 	}
 	n += count
 
+	if p.PayloadFormat > 0 {
+		if count, err = p.PayloadFormat.WriteToAsProperty(0x01, w); err != nil {
+			return 0, err
+		}
+		n += count
+	}
+
 	if p.MessageExpiryInterval > 0 {
 		if count, err = p.MessageExpiryInterval.WriteToAsProperty(0x02, w); err != nil {
 			return 0, err
-- 
2.43.0


From 070d3681fc363361e6225c644c993714180a37a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 02/43] fix: read strings, bytes, integers and payloads
 completely when the transport returns short reads

---
 mqtt/packets/primitives/io.go     | 2 +-
 mqtt/packets/primitives/string.go | 2 +-
 mqtt/packets/primitives/varint.go | 2 +-
 mqtt/packets/publish.go           | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mqtt/packets/primitives/io.go b/mqtt/packets/primitives/io.go
index d9b762d..0d7537d 100644
--- a/mqtt/packets/primitives/io.go
+++ b/mqtt/packets/primitives/io.go
@@ -44,6 +44,6 @@ func WriteByte(b byte, w io.Writer) error {
 
 //go:inline
 func ReadByte(r io.Reader) (b byte, err error) {
-	_, err = r.Read(unsafe.Slice(&b, 1))
+	_, err = io.ReadFull(r, unsafe.Slice(&b, 1))
 	return
 }
diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index fde2b7b..eda9712 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -74,7 +74,7 @@ func (p *PrimitiveString) ReadFrom(r io.Reader) (n int64, err error) {
 
 	// Read the string
 	var count int
-	if count, err = r.Read(buf); err != nil {
+	if count, err = io.ReadFull(r, buf); err != nil {
 		return 0, err
 	} else {
 		n += int64(count)
diff --git a/mqtt/packets/primitives/varint.go b/mqtt/packets/primitives/varint.go
index 6a00e6d..e104672 100644
--- a/mqtt/packets/primitives/varint.go
+++ b/mqtt/packets/primitives/varint.go
@@ -92,7 +92,7 @@ func (v *VariableByteInt) ReadFrom(r io.Reader) (n int64, err error) {
 
 	for {
 		var b [1]byte
-		if _, err = r.Read(b[:]); err != nil {
+		if _, err = io.ReadFull(r, b[:]); err != nil {
 			return 0, err
 		}
 		n++
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 689a07d..6be5099 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -192,7 +192,7 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	payloadLen := int64(p.Header.Remaining) - n + offset
 	if payloadLen > 0 {
 		p.Payload = make([]byte, payloadLen)
-		if count, err := r.Read(p.Payload); err != nil {
+		if count, err := io.ReadFull(r, p.Payload); err != nil {
 			return 0, err
 		} else {
 			n += int64(count)
-- 
2.43.0


From b5c304c876ef22e3b8423db0b217a668ac786192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 03/43] fix: refuse variable byte integers that do not fit in
 four bytes

---
 mqtt/packets/primitives/varint.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mqtt/packets/primitives/varint.go b/mqtt/packets/primitives/varint.go
index e104672..fbdfba2 100644
--- a/mqtt/packets/primitives/varint.go
+++ b/mqtt/packets/primitives/varint.go
@@ -56,6 +56,11 @@ func (v *VariableByteInt) WriteTo(w io.Writer) (int64, error) {
 	result := make([]byte, 0, 4)
 	tmp := uint32(*v)
 
+	// SPEC: The maximum number of bytes in the Variable Byte Integer field is four.
+	if tmp > 268_435_455 {
+		return 0, errors.New("variable byte integer out of range")
+	}
+
 	for {
 		b := byte(tmp % 128)
 		tmp /= 128
@@ -98,15 +103,14 @@ func (v *VariableByteInt) ReadFrom(r io.Reader) (n int64, err error) {
 		n++
 
 		val |= uint32(b[0]&127) << mul
-		if val > 268_435_455 {
-			return 0, errors.New("malformed variable byte integer")
-		}
-
 		if b[0]&128 == 0 {
 			break
 		}
 
-		mul += 7
+		// SPEC: The maximum number of bytes in the Variable Byte Integer field is four.
+		if mul += 7; mul > 21 {
+			return 0, errors.New("malformed variable byte integer")
+		}
 	}
 
 	*v = VariableByteInt(val)
-- 
2.43.0


From c57083dbbc7d1f8cc4750532d8fc4604df601fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 04/43] fix: refuse strings that do not fit their 16-bit length
 field

---
 mqtt/packets/primitives/string.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index eda9712..45605f1 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -26,12 +26,19 @@ package primitives
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
+	"math"
 )
 
 type PrimitiveString string
 
 func (p *PrimitiveString) WriteTo(w io.Writer) (n int64, err error) {
+	// SPEC: the length of a UTF-8 Encoded String or Binary Data is limited to 65,535 bytes
+	if len(*p) > math.MaxUint16 {
+		return 0, errors.New("string is too long")
+	}
+
 	// Write the length of the string
 	if err = binary.Write(w, binary.BigEndian, uint16(len(*p))); err != nil {
 		return 0, err
-- 
2.43.0


From f5e6a11d4e2319460a56b02af0418b8112e476ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 05/43] fix: count the identifier byte of string properties

---
 mqtt/packets/primitives/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index 45605f1..9a97251 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -59,11 +59,11 @@ func (p *PrimitiveString) WriteToAsProperty(identifier byte, w io.Writer) (n int
 	if _, err = w.Write([]byte{identifier}); err != nil {
 		return 0, err
 	}
-	n++
 
 	if n, err = p.WriteTo(w); err != nil {
 		return 0, err
 	}
+	n++
 
 	return
 }
-- 
2.43.0


From f7ba7fa57a758d9928eed49f77064474d781dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 06/43] fix: compute the lengths of CONNECT and of its will
 properties from what is written

---
 mqtt/packets/connect.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index c83d947..8f743a3 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -73,7 +73,7 @@ type Connect struct {
 
 func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	var flags primitives.PrimitiveByte
-	variableHeaderLen := primitives.VariableByteInt(11)
+	variableHeaderLen := primitives.VariableByteInt(10)
 	propertiesLen := primitives.VariableByteInt(0)
 	willPropertiesLen := primitives.VariableByteInt(0)
 	payloadLen := c.ClientId.Length(false)
@@ -112,7 +112,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += c.AuthenticationData.Length(true)
 	}
 
-	variableHeaderLen += propertiesLen
+	variableHeaderLen += propertiesLen.Length(false) + propertiesLen
 
 	// Set flags bits
 	if c.CleanSession {
@@ -145,9 +145,12 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		flags |= primitives.PrimitiveByte(c.WillQos) << 3
 
 		// The will and will topic are actually a part of the payload
-		payloadLen += 1 + c.Will.Length(false) // Includes byte for payload property indicator
+		payloadLen += c.Will.Length(false)
 		payloadLen += c.WillTopic.Length(false)
 
+		// Will payload format indicator
+		willPropertiesLen += 2
+
 		if c.WillDelayInterval > 0 {
 			willPropertiesLen += c.WillDelayInterval.Length(true)
 		}
@@ -171,9 +174,9 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		for k, v := range c.WillUserProperties {
 			willPropertiesLen += 1 + k.Length(false) + v.Length(false)
 		}
-	}
 
-	payloadLen += willPropertiesLen
+		payloadLen += willPropertiesLen.Length(false) + willPropertiesLen
+	}
 
 	/* Fixed header begin */
 	fh := FixedHeader{
-- 
2.43.0


From b693a97f26f24428ee276344b68098fea6219cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 07/43] fix: use the right property identifiers in CONNECT

---
 mqtt/packets/connect.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index 8f743a3..1c72534 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -241,7 +241,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	if c.TopicAliasMaximum > 0 {
-		if count, err = c.TopicAliasMaximum.WriteToAsProperty(0x12, w); err != nil {
+		if count, err = c.TopicAliasMaximum.WriteToAsProperty(0x22, w); err != nil {
 			return 0, err
 		}
 		n += count
@@ -255,7 +255,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	if c.RequestProblemInformation > 0 {
-		if count, err = c.RequestProblemInformation.WriteToAsProperty(0x19, w); err != nil {
+		if count, err = c.RequestProblemInformation.WriteToAsProperty(0x17, w); err != nil {
 			return 0, err
 		}
 		n += count
@@ -323,7 +323,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 
 		// Will message expiry interval
 		if c.WillMessageExpiryInterval > 0 {
-			if count, err = c.WillMessageExpiryInterval.WriteToAsProperty(0x12, w); err != nil {
+			if count, err = c.WillMessageExpiryInterval.WriteToAsProperty(0x02, w); err != nil {
 				return 0, err
 			}
 			n += count
-- 
2.43.0


From 4f105017ef6396466690b89a55f681359e41fa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 08/43] fix: encode every DISCONNECT property and count it

---
 mqtt/packets/disconnect.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index 5d8f426..a2f7233 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -109,7 +109,7 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
-	variableHeaderLen := primitives.VariableByteInt(2) // Account for reason code and properties length var
+	variableHeaderLen := primitives.VariableByteInt(1) // Account for reason code
 	propertiesLen := primitives.VariableByteInt(0)
 
 	// Calculate properties length
@@ -121,11 +121,15 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += 1 + k.Length(false) + v.Length(false)
 	}
 
+	if len(d.ReasonString) > 0 {
+		propertiesLen += d.ReasonString.Length(true)
+	}
+
 	if len(d.ServerReference) > 0 {
 		propertiesLen += d.ServerReference.Length(true)
 	}
 
-	variableHeaderLen += propertiesLen
+	variableHeaderLen += propertiesLen.Length(false) + propertiesLen
 
 	// Write fixed header
 	d.Header.SetType(DISCONNECT)
@@ -181,6 +185,14 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		}
 		n += count
 	}
+
+	// Server reference
+	if len(d.ServerReference) > 0 {
+		if count, err = d.ServerReference.WriteToAsProperty(0x1C, w); err != nil {
+			return 0, err
+		}
+		n += count
+	}
 	/* Properties end */
 
 	return
-- 
2.43.0


From 1323bdd3689b76778c28706fb47f2371864127c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 09/43] fix: encode the reason code and property length of AUTH

---
 mqtt/packets/auth.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index fc925da..55dd64f 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -117,17 +117,11 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 	// Calculate remaining length
 	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
 	//       Properties. In this case the AUTH has a Remaining Length of 0.
-	if a.AuthenticateReasonCode != 0 {
-		variableHeaderLen++
-	}
-
 	if len(a.AuthenticationMethod) > 0 {
 		l := primitives.VariableByteInt(len(a.AuthenticationMethod))
 		propertiesLen += 3 + l
-	}
 
-	if len(a.AuthenticationData) > 0 {
-		l := primitives.VariableByteInt(len(a.AuthenticationData))
+		l = primitives.VariableByteInt(len(a.AuthenticationData))
 		propertiesLen += 3 + l
 	}
 
@@ -140,7 +134,9 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += 1 + k.Length(false) + v.Length(false)
 	}
 
-	variableHeaderLen += propertiesLen
+	if a.AuthenticateReasonCode != 0 || propertiesLen != 0 {
+		variableHeaderLen += a.AuthenticateReasonCode.Length(false) + propertiesLen.Length(false) + propertiesLen
+	}
 
 	a.Header.SetType(AUTH)
 	a.Header.Remaining = variableHeaderLen
@@ -150,6 +146,18 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, err
 	}
 
+	if a.AuthenticateReasonCode != 0 || propertiesLen != 0 {
+		if count, err = a.AuthenticateReasonCode.WriteTo(w); err != nil {
+			return 0, err
+		}
+		n += count
+
+		if count, err = propertiesLen.WriteTo(w); err != nil {
+			return 0, err
+		}
+		n += count
+	}
+
 	/* Properties begin */
 	if len(a.AuthenticationMethod) > 0 {
 		if count, err = a.AuthenticationMethod.WriteToAsProperty(0x15, w); err != nil {
-- 
2.43.0


From a5b07d35c6e68362fcabfdddc58e665bffb64084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 10/43] fix: recognise shared subscriptions in the no-local
 option of short and changed filters

---
 mqtt/packets/topic.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mqtt/packets/topic.go b/mqtt/packets/topic.go
index c1da7b3..c730d58 100644
--- a/mqtt/packets/topic.go
+++ b/mqtt/packets/topic.go
@@ -24,7 +24,11 @@
 
 package packets
 
-import "github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
+import (
+	"strings"
+
+	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
+)
 
 type Topic struct {
 	filter  primitives.PrimitiveString
@@ -44,22 +48,27 @@ func (t *Topic) Filter() string {
 }
 
 func (t *Topic) SetFilter(filter string) *Topic {
-	if len(t.filter) >= 6 && t.filter[:6] == "$share" {
+	t.filter = primitives.PrimitiveString(filter)
+	if t.isShared() {
 		// Unset no local option
 		// SPEC: It is a Protocol Error to set the No Local bit to 1 on a Shared Subscription [MQTT-3.8.3-4]
 		t.SetNoLocal(false)
 	}
-	t.filter = primitives.PrimitiveString(filter)
 	return t
 }
 
+// isShared returns true if the filter denotes a shared subscription ($share/{ShareName}/{filter}).
+func (t *Topic) isShared() bool {
+	return strings.HasPrefix(string(t.filter), "$share/")
+}
+
 func (t *Topic) SetNoLocal(on bool) *Topic {
 	// Set bit 2
 	t.options &= ^primitives.PrimitiveByte(1 << 2)
 
 	// Leave bit unset if this is a shared subscription
 	// SPEC: It is a Protocol Error to set the No Local bit to 1 on a Shared Subscription [MQTT-3.8.3-4]
-	if on && t.filter[:6] != "$share" {
+	if on && !t.isShared() {
 		t.options |= primitives.PrimitiveByte(1 << 2)
 	}
 	return t
-- 
2.43.0


From 413ee7cafe846d8af0aeafd99ac58bdc23e0a02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 11/43] fix: write a PUBLISH payload from the current offset

---
 mqtt/packets/publish.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 6be5099..63ff45f 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -64,7 +64,7 @@ func (p *Publish) Write(buf []byte) (n int, err error) {
 	}
 
 	// Copy into payload
-	n = copy(p.Payload[:p.offset], buf)
+	n = copy(p.Payload[p.offset:], buf)
 	p.offset += n
 
 	return
-- 
2.43.0


From dfb75d364d62c70426cbc04479f9a80688e954aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 12/43] fix: describe reason code 0x99 as payload format
 invalid

---
 mqtt/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/errors.go b/mqtt/errors.go
index b2e4b09..3a19402 100644
--- a/mqtt/errors.go
+++ b/mqtt/errors.go
@@ -89,7 +89,7 @@ func (r ReasonCode) Error() string {
 	case 0x98:
 		return "administrative action"
 	case 0x99:
-		return "retain not supported"
+		return "payload format invalid"
 	case 0x9A:
 		return "retain not supported"
 	case 0x9B:
-- 
2.43.0


From 232a89bc5a005c9cefbbb48429d1c0e708f9190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 13/43] fix: account for the real header size when PUBLISH
 reads its own fixed header

---
 mqtt/packets/publish.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 63ff45f..5249aa9 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -96,7 +96,7 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 			return
 		}
 		n += count
-		offset = 2
+		offset = count
 	}
 
 	// Parse flags
@@ -124,10 +124,6 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(p.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
-- 
2.43.0


From 7608e22c0279410018a32f27cb8575a8ec174803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 14/43] fix: report the number of CONNACK bytes read

---
 mqtt/packets/connack.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 451df38..45f0716 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -190,7 +190,6 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
-	n += int64(c.Header.Remaining)
 	/* Properties end */
 	return
 }
-- 
2.43.0


From b9efd269c05713ec62aa58f81826057d3141c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 15/43] fix: decode DISCONNECT and AUTH packets without a body

---
 mqtt/packets/auth.go       | 6 ++++++
 mqtt/packets/disconnect.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index 55dd64f..f0c3a28 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -43,6 +43,12 @@ type Auth struct {
 func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
+	//       Properties. In this case the AUTH has a Remaining Length of 0.
+	if a.Header.Remaining == 0 {
+		return
+	}
+
 	// Read the reason code
 	if _, err = a.AuthenticateReasonCode.ReadFrom(r); err != nil {
 		return
diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index a2f7233..b96f5a0 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -43,6 +43,12 @@ type Disconnect struct {
 func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Normal disconnection) and
+	//       there are no Properties. In this case the DISCONNECT has a Remaining Length of 0.
+	if d.Header.Remaining == 0 {
+		return
+	}
+
 	/* Variable header begin */
 	if count, err = d.ReasonCode.ReadFrom(r); err != nil {
 		return 0, err
-- 
2.43.0


From bc6bd2d300c7cec7d87702301f79580b2672ebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 16/43] fix: reject malformed control packets instead of
 reading past their end

---
 mqtt/packets/auth.go       | 19 +++++++++++++++----
 mqtt/packets/connack.go    | 24 ++++++++++++++++--------
 mqtt/packets/disconnect.go | 15 +++++++++++++++
 mqtt/packets/packet.go     | 15 +++++++++++++++
 mqtt/packets/puback.go     | 15 +++++++++++++++
 mqtt/packets/publish.go    | 13 +++++++++++++
 mqtt/packets/suback.go     | 14 ++++++++++++--
 mqtt/packets/unsuback.go   | 14 ++++++++++++--
 8 files changed, 113 insertions(+), 16 deletions(-)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index f0c3a28..82ec600 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -49,6 +49,9 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 		return
 	}
 
+	body := &bodyReader{r: r, remaining: int64(a.Header.Remaining)}
+	r = body
+
 	// Read the reason code
 	if _, err = a.AuthenticateReasonCode.ReadFrom(r); err != nil {
 		return
@@ -66,10 +69,6 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(a.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
@@ -108,9 +107,21 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			a.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
+
+		// The property must not extend past the end of the properties
+		if remaining < 0 {
+			return 0, ErrControlPacketIsMalformed
+		}
+	}
+
+	// There must be nothing left after the properties
+	if body.remaining > 0 {
+		return 0, ErrControlPacketIsMalformed
 	}
 
 	return
diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 45f0716..14336bc 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -59,6 +59,9 @@ type Connack struct {
 func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	body := &bodyReader{r: r, remaining: int64(c.Header.Remaining)}
+	r = body
+
 	/* Variable header begin */
 	// Connect acknowledgement flags
 	if count, err = c.Flags.ReadFrom(r); err != nil {
@@ -68,10 +71,6 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 
 	c.SessionPresent = (c.Flags & 0x01) != 0
 
-	if n >= int64(c.Header.Remaining) {
-		return
-	}
-
 	if count, err = c.ReasonCode.ReadFrom(r); err != nil {
 		return 0, err
 	}
@@ -90,10 +89,6 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(c.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 
 	for remaining > 0 {
@@ -185,11 +180,24 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = c.AuthenticationData.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
+
+		// The property must not extend past the end of the properties
+		if remaining < 0 {
+			return 0, ErrControlPacketIsMalformed
+		}
 	}
 
 	/* Properties end */
+
+	// There must be nothing left after the properties
+	if body.remaining > 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index b96f5a0..5aa2434 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -49,6 +49,9 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 		return
 	}
 
+	body := &bodyReader{r: r, remaining: int64(d.Header.Remaining)}
+	r = body
+
 	/* Variable header begin */
 	if count, err = d.ReasonCode.ReadFrom(r); err != nil {
 		return 0, err
@@ -104,13 +107,25 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = d.ServerReference.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
+
+		// The property must not extend past the end of the properties
+		if remaining < 0 {
+			return 0, ErrControlPacketIsMalformed
+		}
 	}
 	/* Properties end */
 	/* Variable header end */
 
+	// There must be nothing left after the properties
+	if body.remaining > 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
 
diff --git a/mqtt/packets/packet.go b/mqtt/packets/packet.go
index a660299..70688fc 100644
--- a/mqtt/packets/packet.go
+++ b/mqtt/packets/packet.go
@@ -146,3 +146,18 @@ func (f *FixedHeader) ReadFrom(r io.Reader) (n int64, err error) {
 
 	return
 }
+
+// bodyReader reads the body of a control packet and never reads beyond the end of that control packet.
+type bodyReader struct {
+	r         io.Reader
+	remaining int64
+}
+
+func (b *bodyReader) Read(buf []byte) (n int, err error) {
+	if int64(len(buf)) > b.remaining {
+		return 0, ErrControlPacketIsMalformed
+	}
+	n, err = b.r.Read(buf)
+	b.remaining -= int64(n)
+	return
+}
diff --git a/mqtt/packets/puback.go b/mqtt/packets/puback.go
index 0ba20de..6cc88fd 100644
--- a/mqtt/packets/puback.go
+++ b/mqtt/packets/puback.go
@@ -80,6 +80,9 @@ func (p *Pubcomp) WriteTo(w io.Writer) (n int64, err error) {
 func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	body := &bodyReader{r: r, remaining: int64(p.Header.Remaining)}
+	r = body
+
 	if n, err = p.PacketIdentifier.ReadFrom(r); err != nil {
 		return 0, err
 	}
@@ -133,9 +136,21 @@ func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			p.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
+
+		// The property must not extend past the end of the properties
+		if remaining < 0 {
+			return 0, ErrControlPacketIsMalformed
+		}
+	}
+
+	// There must be nothing left after the properties
+	if body.remaining > 0 {
+		return 0, ErrControlPacketIsMalformed
 	}
 
 	return
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 5249aa9..a980661 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -99,9 +99,15 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 		offset = count
 	}
 
+	body := &bodyReader{r: r, remaining: int64(p.Header.Remaining)}
+	r = body
+
 	// Parse flags
 	p.Retain = (p.Header.GetFlags() & 0x01) != 0
 	p.QoS = QoS(p.Header.GetFlags()>>1) & 0x03
+	if p.QoS > QoS2 {
+		return 0, ErrControlPacketIsMalformed
+	}
 	p.Duplicate = ((p.Header.GetFlags() >> 3) & 0x01) != 0
 
 	// Read variable header
@@ -178,9 +184,16 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = p.ContentType.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
+
+		// The property must not extend past the end of the properties
+		if remaining < 0 {
+			return 0, ErrControlPacketIsMalformed
+		}
 	}
 	/* Properties end */
 
diff --git a/mqtt/packets/suback.go b/mqtt/packets/suback.go
index 8067620..4bc4ff8 100644
--- a/mqtt/packets/suback.go
+++ b/mqtt/packets/suback.go
@@ -45,13 +45,16 @@ type Suback struct {
 func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	body := &bodyReader{r: r, remaining: int64(s.Header.Remaining)}
+	r = body
+
 	/* Variable header begin */
 	if n, err = s.PacketIdentifier.ReadFrom(r); err != nil {
 		return 0, err
 	}
 
 	if n >= int64(s.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 	/* Variable header end */
 
@@ -63,7 +66,7 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 	n += count
 
 	if n >= int64(s.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 
 	remaining := int64(propertiesLen)
@@ -96,9 +99,16 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			s.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
+
+		// The property must not extend past the end of the properties
+		if remaining < 0 {
+			return 0, ErrControlPacketIsMalformed
+		}
 	}
 
 	// Fail if this is the end of the control packet
diff --git a/mqtt/packets/unsuback.go b/mqtt/packets/unsuback.go
index 4542153..ca268cb 100644
--- a/mqtt/packets/unsuback.go
+++ b/mqtt/packets/unsuback.go
@@ -45,13 +45,16 @@ type Unsuback struct {
 func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	body := &bodyReader{r: r, remaining: int64(u.Header.Remaining)}
+	r = body
+
 	/* Variable header begin */
 	if n, err = u.PacketIdentifier.ReadFrom(r); err != nil {
 		return 0, err
 	}
 
 	if n >= int64(u.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 	/* Variable header end */
 
@@ -63,7 +66,7 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 	n += count
 
 	if n >= int64(u.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 
 	remaining := int64(propertiesLen)
@@ -96,9 +99,16 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			u.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
+
+		// The property must not extend past the end of the properties
+		if remaining < 0 {
+			return 0, ErrControlPacketIsMalformed
+		}
 	}
 
 	// Fail if this is the end of the control packet
-- 
2.43.0


From 45d706d7df0f4ae9478f17e4c28baf7ca2a85a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 17/43] fix: match topics level by level in matchTopic and
 never index past the topic

---
 mqtt/client.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 03339fe..276f0cf 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1124,6 +1124,13 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	// TODO: Support matching for shared topics
 	var filterPos int
 	var topicPos int
+
+	// SPEC: The Server MUST NOT match Topic Filters starting with a wildcard character (# or +) with Topic Names
+	//       beginning with a $ character [MQTT-4.7.2-1].
+	if len(topic) > 0 && topic[0] == '$' && len(filter) > 0 && (filter[0] == '#' || filter[0] == '+') {
+		return false
+	}
+
 	for filterPos < len(filter) {
 		if filter[filterPos] == '#' {
 			// Encountered multi-level wildcard.
@@ -1155,17 +1162,13 @@ func (c *Client) matchTopic(topic, filter string) bool {
 				topicPos++
 			}
 
-			if topicPos == len(topic) {
-				// No levels left. Return true.
-				return true
-			}
-
 			// Advance the filter pos and continue at the beginning of the loop
 			filterPos++
 			continue
-		} else if filterPos >= len(topic) {
-			// The length of the filter exceeded the length of the topic. No way these can match.
-			return false
+		} else if topicPos >= len(topic) {
+			// No levels left in the topic. These can only match if the filter goes on with a multi-level wildcard.
+			// SPEC: The multi-level wildcard represents the parent and any number of child levels.
+			return filter[filterPos:] == "/#"
 		} else if filter[filterPos] != topic[topicPos] {
 			return false
 		}
@@ -1175,7 +1178,7 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	}
 
 	// Check if there is more characters in the topic that went unprocessed
-	if len(filter) != len(topic) && topicPos < len(topic) {
+	if topicPos < len(topic) {
 		// Topic couldn't have matched the filter
 		return false
 	}
-- 
2.43.0


From beaa3571d3a32c4614068e81b3ab8e3bc4234d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 18/43] fix: allow Disconnect on a connected client only

---
 mqtt/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 276f0cf..740bc23 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -338,7 +338,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if c.isConnected {
+	if !c.isConnected {
 		return ErrClientNotConnected
 	}
 
-- 
2.43.0


From 9c43eca181876bbab43aa3557db883e7d0dd2361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 19/43] fix: access the connected state atomically

---
 mqtt/client.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 740bc23..10ac5aa 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -33,6 +33,7 @@ import (
 	"net"
 	"os"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/waj334/tinygo-mqtt/mqtt/packets"
@@ -47,7 +48,7 @@ type Client struct {
 
 	storage storage.Storage
 
-	isConnected           bool
+	isConnected           atomic.Bool
 	keepAliveInterval     time.Duration
 	pingRespDeadline      time.Time
 	sessionExpiryInterval uint32
@@ -306,7 +307,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.sessionExpiryInterval = uint32(packet.SessionExpiryInterval)
 
 	// Successful connection!
-	c.isConnected = true
+	c.isConnected.Store(true)
 
 	// Signal CONNACK event
 	c.signal(packets.CONNACK, connack, nil)
@@ -317,7 +318,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 // IsConnected returns true if the client is currently in the connected state. Otherwise, it returns false if the client
 // is not currently connected to a MQTT server.
 func (c *Client) IsConnected() bool {
-	return c.isConnected
+	return c.isConnected.Load()
 }
 
 // Disconnect sends the DISCONNECT packet to the server. The network connection will be closed upon sending the
@@ -338,7 +339,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if !c.isConnected {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
@@ -386,7 +387,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	}
 	unlockConn.Do(c.connMutex.Unlock)
 
-	c.isConnected = false
+	c.isConnected.Store(false)
 
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
@@ -395,7 +396,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 }
 
 func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.PrimitiveByte) (err error) {
-	if c.isConnected {
+	if c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
@@ -439,7 +440,7 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	}
 	unlockConn.Do(c.connMutex.Unlock)
 
-	c.isConnected = false
+	c.isConnected.Store(false)
 
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
@@ -454,7 +455,7 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 		return ErrInvalidArgument
 	}
 
-	if !c.isConnected {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
@@ -548,7 +549,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 	c.mutex.Lock()
 
-	if !c.isConnected {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
@@ -611,7 +612,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 // Publish sends PUBLISH control packet to the server.
 func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error) {
-	if !c.isConnected {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
@@ -767,7 +768,7 @@ func (c *Client) KeepAlive() (err error) {
 	c.mutex.RLock()
 	defer c.mutex.RUnlock()
 
-	if !c.isConnected {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
@@ -813,7 +814,7 @@ func (c *Client) KeepAlive() (err error) {
 // call to the Publish method should take place on the same goroutine that a call to Poll takes place on as this could
 // potentially cause a deadlock.
 func (c *Client) Poll(ctx context.Context) (err error) {
-	if !c.isConnected {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
@@ -826,7 +827,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	if time.Now().After(c.pingRespDeadline) {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
-		c.isConnected = false
+		c.isConnected.Store(false)
 		if err := c.conn.Close(); err != nil {
 			return err
 		}
-- 
2.43.0


From 316c0748b113524f6d6a7a6f138b7b82c6f72a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 20/43] fix: default both Receive Maximums to 65535

---
 mqtt/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 10ac5aa..e09d2b9 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -29,6 +29,7 @@ import (
 	"context"
 	"errors"
 	"io"
+	"math"
 	"math/rand"
 	"net"
 	"os"
@@ -281,11 +282,14 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	}
 
 	// Store receive maximum reported by the connect packet and CONNACK received from the server
+	// SPEC: If the Receive Maximum value is absent then its value defaults to 65,535.
 	c.serverReceiveMaximum = connack.ReceiveMaximum.Value()
+	if c.serverReceiveMaximum == 0 {
+		c.serverReceiveMaximum = math.MaxUint16
+	}
 
 	if packet.ReceiveMaximum == 0 {
-		// Default to that of the server
-		c.clientReceiveMaximum = c.serverReceiveMaximum
+		c.clientReceiveMaximum = math.MaxUint16
 	} else {
 		// Use the value from the connect control packet
 		c.clientReceiveMaximum = packet.ReceiveMaximum.Value()
-- 
2.43.0


From b786795be54ca3ed9619753107e95d0008ce6412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 21/43] fix: always lock the connection before the client state

---
 mqtt/client.go | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index e09d2b9..43927d1 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -43,7 +43,9 @@ import (
 )
 
 type Client struct {
-	conn      net.Conn
+	conn net.Conn
+
+	// Lock order: connMutex, mutex, eventMutex
 	connMutex sync.Mutex
 	mutex     sync.RWMutex
 
@@ -211,18 +213,14 @@ func (c *Client) signal(packetType packets.PacketType, data any, channel chan<-
 // Connect sends the CONNECT packet to the server and waits for the server to send the acknowledgement (CONNACK) packet
 // back to the client. If the acknowledgement contains a failure reason, then a ReasonCode error is returned.
 func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err error) {
-	c.mutex.Lock()
-	defer c.mutex.Unlock()
-
 	var deadline time.Time
 	var ok bool
 	if deadline, ok = ctx.Deadline(); !ok {
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
 	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
+	defer c.connMutex.Unlock()
 
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
@@ -255,8 +253,6 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
-
 	// Did the server send an error response?
 	// SPEC: If a Server sends a CONNACK packet containing a Reason code of 128 or greater it MUST then close the
 	//       Network Connection [MQTT-3.2.2-7].
@@ -270,6 +266,9 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		return ReasonCode(connack.ReasonCode)
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	// Handle server keep alive specification
 	if connack.ServerKeepAlive > 0 {
 		// Use the keep alive interval returned by the server
@@ -340,6 +339,9 @@ func (c *Client) Disconnect(ctx context.Context, publishWill bool) (err error) {
 // time. Setting a zero value for the sessionExpiryInterval parameter will cause the server to default to the value
 // specified in the CONNECT control packet.
 func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bool, sessionExpiryInterval int) (err error) {
+	c.connMutex.Lock()
+	defer c.connMutex.Unlock()
+
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
@@ -353,10 +355,6 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -389,7 +387,6 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	if err = c.conn.Close(); err != nil {
 		return
 	}
-	unlockConn.Do(c.connMutex.Unlock)
 
 	c.isConnected.Store(false)
 
@@ -769,6 +766,9 @@ func (c *Client) KeepAliveInterval() time.Duration {
 //
 //	PINGREQ packet. [MQTT-3.1.2-20]
 func (c *Client) KeepAlive() (err error) {
+	c.connMutex.Lock()
+	defer c.connMutex.Unlock()
+
 	c.mutex.RLock()
 	defer c.mutex.RUnlock()
 
@@ -789,10 +789,6 @@ func (c *Client) KeepAlive() (err error) {
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -806,8 +802,6 @@ func (c *Client) KeepAlive() (err error) {
 		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
-
 	// NOTE: Poll handles receiving the response and disconnecting if no response has been sent within twice the keep
 	// alive interval.
 	return
-- 
2.43.0


From 43a91d6c82313414f6867056506b44fa67af2ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:37 +0000
Subject: [PATCH 22/43] fix: do not time out connections whose keep alive
 mechanism is turned off

---
 mqtt/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 43927d1..2c6eafd 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -789,6 +789,11 @@ func (c *Client) KeepAlive() (err error) {
 		deadline = time.Time{}
 	}
 
+	// There is no response to wait for in time if the keep alive mechanism is turned off
+	if c.keepAliveInterval == 0 {
+		deadline = time.Time{}
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -822,7 +827,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	// Check if current time is after the ping response deadline
 	// SPEC: If a Client does not receive a PINGRESP packet within a reasonable amount of time after it has sent a
 	//       PINGREQ, it SHOULD close the Network Connection to the Server.
-	if time.Now().After(c.pingRespDeadline) {
+	// SPEC: A Keep Alive value of 0 has the effect of turning off the Keep Alive mechanism.
+	if c.keepAliveInterval > 0 && time.Now().After(c.pingRespDeadline) {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
 		c.isConnected.Store(false)
-- 
2.43.0


From a2171329b7521cb89f3bfc86a72d48303799ba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 23/43] fix: leave the connected state when the server
 disconnects or closing the connection fails

---
 mqtt/client.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 2c6eafd..4398005 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -52,6 +52,7 @@ type Client struct {
 	storage storage.Storage
 
 	isConnected           atomic.Bool
+	disconnected          chan struct{}
 	keepAliveInterval     time.Duration
 	pingRespDeadline      time.Time
 	sessionExpiryInterval uint32
@@ -258,9 +259,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	//       Network Connection [MQTT-3.2.2-7].
 	if connack.ReasonCode >= 128 {
 		// Close the connection
-		if err = c.conn.Close(); err != nil {
-			return
-		}
+		c.conn.Close()
 
 		// Error the ACK as the error
 		return ReasonCode(connack.ReasonCode)
@@ -310,6 +309,9 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.sessionExpiryInterval = uint32(packet.SessionExpiryInterval)
 
 	// Successful connection!
+	if !c.isConnected.Load() {
+		c.disconnected = make(chan struct{})
+	}
 	c.isConnected.Store(true)
 
 	// Signal CONNACK event
@@ -324,6 +326,14 @@ func (c *Client) IsConnected() bool {
 	return c.isConnected.Load()
 }
 
+// setDisconnected leaves the connected state and releases every call that is waiting for the server. connMutex must be
+// held.
+func (c *Client) setDisconnected() {
+	if c.isConnected.Swap(false) {
+		close(c.disconnected)
+	}
+}
+
 // Disconnect sends the DISCONNECT packet to the server. The network connection will be closed upon sending the
 // DISCONNECT packet. Setting the publishWill parameter to true will require the server to publish the "Will" message if
 // one was specified initially in the CONNECT packet. The server will default session expiry interval to that of the
@@ -384,12 +394,11 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
 	//       MUST close the Network Connection [MQTT-3.14.4-2].
+	c.setDisconnected()
 	if err = c.conn.Close(); err != nil {
 		return
 	}
 
-	c.isConnected.Store(false)
-
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
 
@@ -441,7 +450,7 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	}
 	unlockConn.Do(c.connMutex.Unlock)
 
-	c.isConnected.Store(false)
+	c.setDisconnected()
 
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
@@ -831,7 +840,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	if c.keepAliveInterval > 0 && time.Now().After(c.pingRespDeadline) {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
-		c.isConnected.Store(false)
+		c.setDisconnected()
 		if err := c.conn.Close(); err != nil {
 			return err
 		}
@@ -1101,11 +1110,13 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if _, err = disconnect.ReadFrom(c.conn); err != nil {
 			return
 		}
+		c.setDisconnected()
+		c.signal(packets.DISCONNECT, disconnect, nil)
+
 		// Close the connection
 		if err = c.conn.Close(); err != nil {
 			return
 		}
-		c.signal(packets.DISCONNECT, disconnect, nil)
 	case packets.AUTH:
 		auth := &packets.Auth{Header: header}
 		if _, err = auth.ReadFrom(c.conn); err != nil {
-- 
2.43.0


From 72ca908ce26ef63db9f70626ede73587ee38bda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 24/43] fix: close the connection after a control packet was
 written partially

---
 mqtt/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 4398005..83efaf5 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1212,7 +1212,13 @@ func (c *Client) send(w io.WriterTo) (err error) {
 	}
 
 	// Finally, write to the open connection
-	if _, err = c.conn.Write(buf.Bytes()); err != nil {
+	var n int
+	if n, err = c.conn.Write(buf.Bytes()); err != nil {
+		if n > 0 {
+			// The server can not make sense of anything that follows an incomplete control packet
+			c.setDisconnected()
+			c.conn.Close()
+		}
 		return err
 	}
 
-- 
2.43.0


From f01f3176a78303fb36763f188c260ea394ec2411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 25/43] fix: disconnect when the server exceeds the Receive
 Maximum instead of deadlocking

---
 mqtt/client.go | 41 ++++++++++++++---------------------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 83efaf5..dd7a6e3 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -405,26 +405,13 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	return nil
 }
 
-func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.PrimitiveByte) (err error) {
-	if c.isConnected.Load() {
+// disconnectWithReason sends the DISCONNECT packet with the reason code to the server and closes the network connection
+// even if that fails. connMutex must be held.
+func (c *Client) disconnectWithReason(reason primitives.PrimitiveByte) (err error) {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
 	disconnect := &packets.Disconnect{
 		ReasonCode: reason,
 	}
@@ -438,19 +425,15 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	//}
 
 	// Send the DISCONNECT packet to the server
-	if err = c.send(disconnect); err != nil {
-		return err
-	}
+	err = c.send(disconnect)
 
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
 	//       MUST close the Network Connection [MQTT-3.14.4-2].
-	if err = c.conn.Close(); err != nil {
-		return
-	}
-	unlockConn.Do(c.connMutex.Unlock)
-
 	c.setDisconnected()
+	if closeErr := c.conn.Close(); err == nil {
+		err = closeErr
+	}
 
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
@@ -901,10 +884,14 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			//       [MQTT-3.3.4-9]. If it receives more than Receive Maximum QoS 1 and QoS 2 PUBLISH packets where it
 			//       has not sent a PUBACK or PUBCOMP in response, the Client uses DISCONNECT with Reason Code 0x93
 			//       (Receive Maximum exceeded) as described in section 4.13 Handling errors.
-			if err = c.disconnectWithReason(ctx, 0x93); err != nil {
-				c.mutex.Unlock()
+			err = c.disconnectWithReason(0x93)
+			c.mutex.Unlock()
+			if err != nil {
 				return err
 			}
+
+			// Neither acknowledge nor deliver this publish
+			return ReasonCode(0x93)
 		} else {
 			// Decrement the receive quota counter
 			c.receiveQuota--
-- 
2.43.0


From 5ff9e4e2f65d69a54790e4f050bd47096a42c540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 26/43] fix: unlock the client when handling an acknowledgement
 fails

---
 mqtt/client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mqtt/client.go b/mqtt/client.go
index dd7a6e3..07ae9a5 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -955,6 +955,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Drop any persisted publish with the same packet identifier
 		if c.storage != nil {
 			if err = c.storage.Drop(puback.PacketIdentifier.Value()); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 		}
@@ -980,11 +981,13 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if c.storage != nil {
 			// Discard original publish from persistent storage
 			if err = c.storage.Drop(pubrec.PacketIdentifier.Value()); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 
 			// Store the incoming PUBREC to persistent storage
 			if err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 		}
@@ -997,6 +1000,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		if err = c.send(pubrel); err != nil {
+			c.mutex.Unlock()
 			return err
 		}
 
@@ -1015,6 +1019,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
 			if err = c.storage.Drop(pubrel.PacketIdentifier.Value()); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 		}
@@ -1061,6 +1066,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
 			if err = c.storage.Drop(pubcomp.PacketIdentifier.Value()); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 		}
-- 
2.43.0


From b9de3771a4560ac00d966cba1390e179ffddc8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 27/43] fix: use the connection of a connected client only

---
 mqtt/client.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mqtt/client.go b/mqtt/client.go
index 07ae9a5..80e9626 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -462,6 +462,11 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	c.connMutex.Lock()
 	defer unlockConn.Do(c.connMutex.Unlock)
 
+	// The client may have been disconnected while waiting for the connection
+	if !c.isConnected.Load() {
+		return ErrClientNotConnected
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -619,6 +624,11 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	c.connMutex.Lock()
 	defer unlockConn.Do(c.connMutex.Unlock)
 
+	// The client may have been disconnected while waiting for the connection
+	if !c.isConnected.Load() {
+		return ErrClientNotConnected
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -816,6 +826,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	c.connMutex.Lock()
 	defer c.connMutex.Unlock()
 
+	// The client may have been disconnected while waiting for the connection
+	if !c.isConnected.Load() {
+		return ErrClientNotConnected
+	}
+
 	// Check if current time is after the ping response deadline
 	// SPEC: If a Client does not receive a PINGRESP packet within a reasonable amount of time after it has sent a
 	//       PINGREQ, it SHOULD close the Network Connection to the Server.
-- 
2.43.0


From b4a4c76c6462a24ea8bc298aca9a9ff6d85fb86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:31 +0000
Subject: [PATCH 28/43] fix: receive the whole packet header after its first
 byte

---
 mqtt/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 80e9626..8578b6e 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -865,7 +865,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 	// Attempt to receive a control packet header
 	header := packets.FixedHeader{}
-	if _, err = header.ReadFrom(c.conn); errors.Is(err, os.ErrDeadlineExceeded) {
+	if _, err = header.Header.ReadFrom(c.conn); errors.Is(err, os.ErrDeadlineExceeded) {
 		// No incoming data
 		return nil
 	} else if err != nil {
@@ -883,6 +883,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.conn.SetDeadline(time.Time{})
 	}
 
+	// Receive the remainder of the header
+	if _, err = header.Remaining.ReadFrom(c.conn); err != nil {
+		return
+	}
+
 	// Read control packet
 	switch header.GetType() {
 	case packets.PUBLISH:
-- 
2.43.0


From 099608ddb86a1fbe3fb11f8b7e6ab65f22480096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:31 +0000
Subject: [PATCH 29/43] fix: acknowledge a message that was received past the
 deadline of Poll

---
 mqtt/client.go | 30 ++++--------------------------
 1 file changed, 4 insertions(+), 26 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 8578b6e..aae98f2 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -684,23 +684,12 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 
 // sendPuback will send the PUBACK control packet to the server. This API is only accessible via Publish when it is
 // RECEIVED from the server during the Poll method.
-func (c *Client) sendPuback(ctx context.Context, publish *packets.Publish) (err error) {
+func (c *Client) sendPuback(publish *packets.Publish) (err error) {
 	// The packet identifier MUST be set
 	if publish.PacketIdentifier == 0 {
 		return packets.ErrControlPacketIsMalformed
 	}
 
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
 	puback := &packets.Puback{
 		PacketIdentifier: publish.PacketIdentifier,
 	}
@@ -722,23 +711,12 @@ func (c *Client) sendPuback(ctx context.Context, publish *packets.Publish) (err
 
 // sendPubrec will send the PUBREC control packet to the server. This API is only accessible via Publish when it is
 // RECEIVED from the server during the Poll method.
-func (c *Client) sendPubrec(ctx context.Context, publish *packets.Publish) (err error) {
+func (c *Client) sendPubrec(publish *packets.Publish) (err error) {
 	// The packet identifier MUST be set
 	if publish.PacketIdentifier == 0 {
 		return packets.ErrControlPacketIsMalformed
 	}
 
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
 	pubrec := &packets.Pubrec{
 		Puback: packets.Puback{
 			PacketIdentifier: publish.PacketIdentifier,
@@ -920,11 +898,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Send the respective acknowledgement control packet type for the QoS level of the incoming publish.
 		if publish.QoS == packets.QoS1 {
-			if err = c.sendPuback(ctx, publish); err != nil {
+			if err = c.sendPuback(publish); err != nil {
 				return err
 			}
 		} else if publish.QoS == packets.QoS2 {
-			if err = c.sendPubrec(ctx, publish); err != nil {
+			if err = c.sendPubrec(publish); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 5d1d48f8dc8a25ec1fa89b378cb865f38655ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 30/43] fix: reject a PINGRESP with a body

---
 mqtt/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqtt/client.go b/mqtt/client.go
index aae98f2..aabc8ac 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1115,6 +1115,10 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 		c.signal(packets.AUTH, auth, nil)
 	case packets.PINGRESP:
+		if header.Remaining != 0 {
+			return packets.ErrControlPacketIsMalformed
+		}
+
 		// Extend the ping response deadline
 		c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
 	default:
-- 
2.43.0


From 48ae2971bbaf4ba1b6599ae9375ddcd0936dad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 31/43] fix: handle acknowledgements of packets that are not in
 storage

---
 mqtt/client.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index aabc8ac..08b0394 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -952,7 +952,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Drop any persisted publish with the same packet identifier
 		if c.storage != nil {
-			if err = c.storage.Drop(puback.PacketIdentifier.Value()); err != nil {
+			if err = c.drop(puback.PacketIdentifier.Value()); err != nil {
 				c.mutex.Unlock()
 				return err
 			}
@@ -978,7 +978,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		if c.storage != nil {
 			// Discard original publish from persistent storage
-			if err = c.storage.Drop(pubrec.PacketIdentifier.Value()); err != nil {
+			if err = c.drop(pubrec.PacketIdentifier.Value()); err != nil {
 				c.mutex.Unlock()
 				return err
 			}
@@ -1016,7 +1016,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.mutex.Lock()
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
-			if err = c.storage.Drop(pubrel.PacketIdentifier.Value()); err != nil {
+			if err = c.drop(pubrel.PacketIdentifier.Value()); err != nil {
 				c.mutex.Unlock()
 				return err
 			}
@@ -1063,7 +1063,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
-			if err = c.storage.Drop(pubcomp.PacketIdentifier.Value()); err != nil {
+			if err = c.drop(pubcomp.PacketIdentifier.Value()); err != nil {
 				c.mutex.Unlock()
 				return err
 			}
@@ -1197,6 +1197,14 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	return true
 }
 
+// drop removes the control packet from persistent storage if it is present.
+func (c *Client) drop(identifier uint16) (err error) {
+	if err = c.storage.Drop(identifier); errors.Is(err, storage.ErrNoEntry) {
+		return nil
+	}
+	return err
+}
+
 func (c *Client) send(w io.WriterTo) (err error) {
 	// Allocate a new buffer
 	buf := bytes.NewBuffer(make([]byte, 0, 128))
-- 
2.43.0


From 04e5031cc2a98076d039a75d0387ac21d231536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 32/43] fix: count unreleased QoS 2 messages against the
 Receive Maximum and deliver them once

---
 mqtt/client.go | 49 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 08b0394..b9c216a 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -71,6 +71,9 @@ type Client struct {
 	sendQuota    uint16
 	receiveQuota uint16
 
+	// Identifiers of the QoS 2 publishes that the server has yet to release and whether their PUBREC is in storage
+	received map[uint16]bool
+
 	rngFn func() uint32
 
 	pendingSendSemaphore chan struct{}
@@ -92,6 +95,7 @@ func NewClient(conn net.Conn) *Client {
 		eventChans:      make(map[int]EventChannel),
 		topicChans:      make(map[string]EventChannel),
 		responseChan:    make(map[int]chan any),
+		received:        make(map[uint16]bool),
 		evChanIdCounter: 1,
 		rngFn:           rand.Uint32,
 	}
@@ -296,6 +300,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	// Initialize quotas
 	c.sendQuota = c.serverReceiveMaximum
 	c.receiveQuota = c.clientReceiveMaximum
+	c.received = make(map[uint16]bool)
 
 	c.pendingSendSemaphore = make(chan struct{}) //, c.sendQuota)
 
@@ -699,11 +704,6 @@ func (c *Client) sendPuback(publish *packets.Publish) (err error) {
 		return err
 	}
 
-	// Increment the receive quota counter so that more publishes (QoS > 0) can be received
-	c.mutex.Lock()
-	c.receiveQuota++
-	c.mutex.Unlock()
-
 	// No response to wait for
 
 	return
@@ -874,8 +874,12 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			return
 		}
 
+		// The server sends a QoS 2 publish again if it did not receive the PUBREC
 		c.mutex.Lock()
-		if c.receiveQuota == 0 && publish.QoS > 0 {
+		_, retransmitted := c.received[publish.PacketIdentifier.Value()]
+		retransmitted = retransmitted && publish.QoS == packets.QoS2
+
+		if c.receiveQuota == 0 && publish.QoS > 0 && !retransmitted {
 			// The server has sent more publishes than this client is willing to accept. Send disconnect.
 			// SPEC: The Server MUST NOT send more than Receive Maximum QoS 1 and QoS 2 PUBLISH packets for which it has
 			//       not received PUBACK, PUBCOMP, or PUBREC with a Reason Code of 128 or greater from the Client
@@ -890,9 +894,6 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 			// Neither acknowledge nor deliver this publish
 			return ReasonCode(0x93)
-		} else {
-			// Decrement the receive quota counter
-			c.receiveQuota--
 		}
 		c.mutex.Unlock()
 
@@ -907,6 +908,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			}
 		}
 
+		if retransmitted {
+			// This publish was delivered already
+			return nil
+		}
+
 		// Route the PUBLISH to the correct event channels as configured by the Subscribe API
 		for filter, channel := range c.topicChans {
 			// Does the topic match any known filter?
@@ -918,16 +924,24 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Create a Pubrec control packet and store it. This might be used later during the message delivery retry flow.
 		// It will be removed when a PUBREL control packet comes in.
-		c.mutex.RLock()
-		if publish.QoS > 0 && c.storage != nil {
+		c.mutex.Lock()
+		if publish.QoS == packets.QoS2 {
+			// Decrement the receive quota counter until this publish is released
+			c.receiveQuota--
+			c.received[publish.PacketIdentifier.Value()] = false
+		}
+
+		if publish.QoS == packets.QoS2 && c.storage != nil {
 			pubrec := &packets.Pubrec{
 				Puback: packets.Puback{
 					PacketIdentifier: publish.PacketIdentifier,
 				},
 			}
-			c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec)
+			if c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec) == nil {
+				c.received[pubrec.PacketIdentifier.Value()] = true
+			}
 		}
-		c.mutex.RUnlock()
+		c.mutex.Unlock()
 
 		c.signal(packets.PUBLISH, publish, nil)
 	case packets.PUBACK:
@@ -1014,12 +1028,14 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform persistence operations as required by the QoS level of the related PUBLISH.
 		c.mutex.Lock()
-		if c.storage != nil {
+		stored, unreleased := c.received[pubrel.PacketIdentifier.Value()]
+		if c.storage != nil && stored {
 			// Discard original PUBREC control packet from persistent storage
 			if err = c.drop(pubrel.PacketIdentifier.Value()); err != nil {
 				c.mutex.Unlock()
 				return err
 			}
+			c.received[pubrel.PacketIdentifier.Value()] = false
 		}
 		c.mutex.Unlock()
 
@@ -1035,9 +1051,12 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Increment receive quota counter
-		if c.receiveQuota < c.clientReceiveMaximum {
+		c.mutex.Lock()
+		if unreleased && c.receiveQuota < c.clientReceiveMaximum {
 			c.receiveQuota++
 		}
+		delete(c.received, pubrel.PacketIdentifier.Value())
+		c.mutex.Unlock()
 
 		c.signal(packets.PUBREL, pubrel, nil)
 	case packets.PUBCOMP:
-- 
2.43.0


From 43e302c421d810ab75268512596e11e06f830379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 33/43] fix: keep the stored PUBREC of an inbound message when
 an outbound one with the same identifier is acknowledged

---
 mqtt/client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index b9c216a..bb19ed7 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -965,7 +965,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Drop any persisted publish with the same packet identifier
-		if c.storage != nil {
+		if c.storage != nil && !c.received[puback.PacketIdentifier.Value()] {
 			if err = c.drop(puback.PacketIdentifier.Value()); err != nil {
 				c.mutex.Unlock()
 				return err
@@ -990,7 +990,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			}
 		}
 
-		if c.storage != nil {
+		if c.storage != nil && !c.received[pubrec.PacketIdentifier.Value()] {
 			// Discard original publish from persistent storage
 			if err = c.drop(pubrec.PacketIdentifier.Value()); err != nil {
 				c.mutex.Unlock()
@@ -1080,7 +1080,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			}
 		}
 
-		if c.storage != nil {
+		if c.storage != nil && !c.received[pubcomp.PacketIdentifier.Value()] {
 			// Discard original PUBREC control packet from persistent storage
 			if err = c.drop(pubcomp.PacketIdentifier.Value()); err != nil {
 				c.mutex.Unlock()
-- 
2.43.0


From 0c586c82565390b0af60b2c3dd0b325c3b6a736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:32 +0000
Subject: [PATCH 34/43] fix: count publishes in flight against the server
 Receive Maximum and wake up waiting ones

---
 mqtt/client.go | 147 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 106 insertions(+), 41 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index bb19ed7..053f11d 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -71,6 +71,9 @@ type Client struct {
 	sendQuota    uint16
 	receiveQuota uint16
 
+	// Number of publishes in flight by packet identifier
+	inFlight map[uint16]int
+
 	// Identifiers of the QoS 2 publishes that the server has yet to release and whether their PUBREC is in storage
 	received map[uint16]bool
 
@@ -96,8 +99,11 @@ func NewClient(conn net.Conn) *Client {
 		topicChans:      make(map[string]EventChannel),
 		responseChan:    make(map[int]chan any),
 		received:        make(map[uint16]bool),
+		inFlight:        make(map[uint16]int),
 		evChanIdCounter: 1,
 		rngFn:           rand.Uint32,
+
+		pendingSendSemaphore: make(chan struct{}, 1),
 	}
 }
 
@@ -301,8 +307,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.sendQuota = c.serverReceiveMaximum
 	c.receiveQuota = c.clientReceiveMaximum
 	c.received = make(map[uint16]bool)
-
-	c.pendingSendSemaphore = make(chan struct{}) //, c.sendQuota)
+	c.inFlight = make(map[uint16]int)
 
 	// Set the ping response deadline
 	c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
@@ -625,6 +630,28 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 		deadline = time.Time{}
 	}
 
+	// SPEC: Each time the Client or Server sends a PUBLISH packet at QoS > 0, it decrements the send quota. If the send
+	//       quota reaches zero, the Client or Server MUST NOT send any more PUBLISH packets with QoS > 0
+	//       [MQTT-4.9.0-2].
+	//
+	//       It MAY continue to send PUBLISH packets with QoS 0, or it MAY choose to suspend sending these as well. The
+	//       Client and Server MUST continue to process and respond to all other MQTT Control Packets even if the quota
+	//       is zero [MQTT-4.9.0-3].
+	if pub.QoS > 0 {
+		if err = c.acquireSendQuota(ctx); err != nil {
+			return err
+		}
+
+		defer func() {
+			if err != nil {
+				// Nothing was sent
+				c.mutex.Lock()
+				c.releaseSendQuota()
+				c.mutex.Unlock()
+			}
+		}()
+	}
+
 	var unlockConn sync.Once
 	c.connMutex.Lock()
 	defer unlockConn.Do(c.connMutex.Unlock)
@@ -654,37 +681,91 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 				return err
 			}
 		}
+		c.inFlight[uint16(pub.PacketIdentifier)]++
 		c.mutex.Unlock()
 	}
 
-	// SPEC: Each time the Client or Server sends a PUBLISH packet at QoS > 0, it decrements the send quota. If the send
-	//       quota reaches zero, the Client or Server MUST NOT send any more PUBLISH packets with QoS > 0
-	//       [MQTT-4.9.0-2].
-	//
-	//       It MAY continue to send PUBLISH packets with QoS 0, or it MAY choose to suspend sending these as well. The
-	//       Client and Server MUST continue to process and respond to all other MQTT Control Packets even if the quota
-	//       is zero [MQTT-4.9.0-3].
-	if c.sendQuota == 0 && pub.QoS > 0 {
-		// Delay sending this publish until one of the unacknowledged publishes is acknowledged
-		c.connMutex.Unlock()
-		c.pendingSendSemaphore <- struct{}{}
-		c.connMutex.Lock()
-	}
 	// Write the publish
 	if err = c.send(pub); err != nil {
+		if pub.QoS > 0 {
+			// The server will not acknowledge this publish
+			c.mutex.Lock()
+			c.finishPublish(uint16(pub.PacketIdentifier))
+			if c.storage != nil {
+				c.drop(uint16(pub.PacketIdentifier))
+			}
+			c.mutex.Unlock()
+		}
 		return err
 	}
 
 	unlockConn.Do(c.connMutex.Unlock)
 
-	if pub.QoS > 0 {
+	return
+}
+
+// acquireSendQuota decrements the send quota counter. It waits until one of the unacknowledged publishes is acknowledged
+// if the quota is exhausted.
+func (c *Client) acquireSendQuota(ctx context.Context) (err error) {
+	for {
 		c.mutex.Lock()
-		// Decrement the send quota counter
-		c.sendQuota--
+		disconnected := c.disconnected
+		if !c.isConnected.Load() {
+			c.mutex.Unlock()
+			return ErrClientNotConnected
+		}
+
+		if c.sendQuota > 0 {
+			// Decrement the send quota counter
+			c.sendQuota--
+			c.signalSendQuota()
+			c.mutex.Unlock()
+			return nil
+		}
 		c.mutex.Unlock()
+
+		// Delay sending this publish until one of the unacknowledged publishes is acknowledged
+		select {
+		case <-c.pendingSendSemaphore:
+		case <-ctx.Done():
+			return ctx.Err()
+		case <-disconnected:
+			return ErrClientNotConnected
+		}
 	}
+}
 
-	return
+// releaseSendQuota increments the send quota counter. mutex must be held.
+func (c *Client) releaseSendQuota() {
+	if c.sendQuota < c.serverReceiveMaximum {
+		// Increment the sent publish counter
+		c.sendQuota++
+	}
+	c.signalSendQuota()
+}
+
+// signalSendQuota potentially allows a blocked call to Publish to continue. mutex must be held.
+// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
+func (c *Client) signalSendQuota() {
+	if c.sendQuota > 0 {
+		select {
+		case c.pendingSendSemaphore <- struct{}{}: // Unblock a pending call to Publish
+		default: // A call to Publish is about to continue already
+		}
+	}
+}
+
+// finishPublish returns whether a publish with the identifier was in flight, which it is not any longer. mutex must be
+// held.
+func (c *Client) finishPublish(identifier uint16) bool {
+	if c.inFlight[identifier] == 0 {
+		return false
+	}
+
+	if c.inFlight[identifier]--; c.inFlight[identifier] == 0 {
+		delete(c.inFlight, identifier)
+	}
+	return true
 }
 
 // sendPuback will send the PUBACK control packet to the server. This API is only accessible via Publish when it is
@@ -952,16 +1033,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
-		if c.sendQuota < c.serverReceiveMaximum {
-			// Increment the sent publish counter
-			c.sendQuota++
-
-			// Potentially allow a blocked call to Publish to continue.
-			// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
-			select {
-			case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
-			default: // No call to Publish is pending
-			}
+		if c.finishPublish(puback.PacketIdentifier.Value()) {
+			c.releaseSendQuota()
 		}
 
 		// Drop any persisted publish with the same packet identifier
@@ -985,8 +1058,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// SPEC: Each time a PUBREC packet is received with a Return Code of 0x80 or greater.
 		c.mutex.Lock()
 		if pubrec.ReasonCode > 0x80 {
-			if c.sendQuota < c.serverReceiveMaximum {
-				c.sendQuota++
+			if c.finishPublish(pubrec.PacketIdentifier.Value()) {
+				c.releaseSendQuota()
 			}
 		}
 
@@ -1068,16 +1141,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
-		if c.sendQuota < c.serverReceiveMaximum {
-			// Increment the sent publish counter
-			c.sendQuota++
-
-			// Potentially allow a blocked call to Publish to continue.
-			// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
-			select {
-			case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
-			default: // No call to Publish is pending
-			}
+		if c.finishPublish(pubcomp.PacketIdentifier.Value()) {
+			c.releaseSendQuota()
 		}
 
 		if c.storage != nil && !c.received[pubcomp.PacketIdentifier.Value()] {
-- 
2.43.0


From fba26b5121d75d36e9332612c4a2256dc569844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 35/43] fix: do not send PUBREL for a publish that the server
 refused

---
 mqtt/client.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 053f11d..ecd3d63 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1057,7 +1057,9 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Increment the send quota counter if it contains a failure reason code
 		// SPEC: Each time a PUBREC packet is received with a Return Code of 0x80 or greater.
 		c.mutex.Lock()
-		if pubrec.ReasonCode > 0x80 {
+		failed := pubrec.ReasonCode >= 0x80
+		inFlight := c.inFlight[pubrec.PacketIdentifier.Value()] > 0
+		if failed {
 			if c.finishPublish(pubrec.PacketIdentifier.Value()) {
 				c.releaseSendQuota()
 			}
@@ -1071,12 +1073,21 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			}
 
 			// Store the incoming PUBREC to persistent storage
-			if err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec); err != nil {
-				c.mutex.Unlock()
-				return err
+			if inFlight && !failed {
+				if err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec); err != nil {
+					c.mutex.Unlock()
+					return err
+				}
 			}
 		}
 
+		// The exchange ends without a PUBREL if the server refused the publish
+		if failed {
+			c.mutex.Unlock()
+			c.signal(packets.PUBREC, pubrec, nil)
+			return nil
+		}
+
 		// Send PUBREL control packet
 		pubrel := &packets.Pubrel{
 			Puback: packets.Puback{
-- 
2.43.0


From 328191301f8ef47e6d800c2d6dce5298c75f34ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 36/43] fix: choose packet identifiers that are valid and not
 in use

---
 mqtt/client.go | 59 +++++++++++++++++++++++++++++++++++++++++++++++---
 mqtt/errors.go |  1 +
 2 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index ecd3d63..a107cca 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -488,8 +488,14 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	}
 
 	c.mutex.Lock()
+	identifier, err := c.nextPacketIdentifier()
+	if err != nil {
+		c.mutex.Unlock()
+		return err
+	}
+
 	subscribe := &packets.Subscribe{
-		PacketIdentifier: primitives.PrimitiveUint16(c.rngFn()),
+		PacketIdentifier: identifier,
 		Topics:           _topics,
 
 		// TODO: Use context to set these optional parameters
@@ -578,8 +584,14 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		t.SetFilter(topics[index])
 		_topics = append(_topics, t)
 	}
+	identifier, err := c.nextPacketIdentifier()
+	if err != nil {
+		c.mutex.Unlock()
+		return err
+	}
+
 	unsubscribe := &packets.Unsubscribe{
-		PacketIdentifier: primitives.PrimitiveUint16(c.rngFn()),
+		PacketIdentifier: identifier,
 		Topics:           _topics,
 
 		// TODO: Use context to set these optional parameters
@@ -671,7 +683,17 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 		// Assign a packet identifier if none is set
 		c.mutex.Lock()
 		if pub.PacketIdentifier == 0 {
-			pub.PacketIdentifier = primitives.PrimitiveUint16(c.rngFn())
+			if pub.PacketIdentifier, err = c.nextPacketIdentifier(); err != nil {
+				c.mutex.Unlock()
+				return err
+			}
+
+			defer func() {
+				if err != nil {
+					// Nothing was sent with this identifier
+					pub.PacketIdentifier = 0
+				}
+			}()
 		}
 
 		if c.storage != nil {
@@ -704,6 +726,37 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	return
 }
 
+// nextPacketIdentifier returns a random packet identifier that is not in use. mutex must be held.
+// SPEC: Each time a Client sends a new SUBSCRIBE, UNSUBSCRIBE, or PUBLISH (where QoS > 0) MQTT Control Packet it MUST
+//
+//	assign it a non-zero Packet Identifier that is currently unused [MQTT-2.2.1-3].
+func (c *Client) nextPacketIdentifier() (identifier primitives.PrimitiveUint16, err error) {
+	identifier = primitives.PrimitiveUint16(c.rngFn())
+	for i := 0; i <= math.MaxUint16; i++ {
+		if identifier != 0 && !c.packetIdentifierInUse(identifier) {
+			return identifier, nil
+		}
+		identifier++
+	}
+	return 0, ErrNoPacketIdentifier
+}
+
+func (c *Client) packetIdentifierInUse(identifier primitives.PrimitiveUint16) bool {
+	if c.inFlight[identifier.Value()] > 0 {
+		return true
+	}
+
+	if _, ok := c.responseChan[int(identifier)]; ok {
+		return true
+	}
+
+	if c.storage != nil {
+		_, err := c.storage.Get(identifier.Value())
+		return err == nil
+	}
+	return false
+}
+
 // acquireSendQuota decrements the send quota counter. It waits until one of the unacknowledged publishes is acknowledged
 // if the quota is exhausted.
 func (c *Client) acquireSendQuota(ctx context.Context) (err error) {
diff --git a/mqtt/errors.go b/mqtt/errors.go
index 3a19402..ee32fec 100644
--- a/mqtt/errors.go
+++ b/mqtt/errors.go
@@ -30,6 +30,7 @@ var (
 	ErrUnexpectedPacketTypeReceived = errors.New("unexpected packet type received")
 	ErrClientNotConnected           = errors.New("the client is not connected")
 	ErrInvalidArgument              = errors.New("invalid argument")
+	ErrNoPacketIdentifier           = errors.New("no packet identifier is available")
 )
 
 type ReasonCode byte
-- 
2.43.0


From 4abf3993eac1edaab8b3380db76a8949b1c793f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:00 +0000
Subject: [PATCH 37/43] fix: allow event channels to be closed more than once

---
 mqtt/client.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mqtt/client.go b/mqtt/client.go
index a107cca..ec5ee21 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -60,6 +60,8 @@ type Client struct {
 	clientReceiveMaximum uint16
 	serverReceiveMaximum uint16
 
+	// All of these are guarded by eventMutex
+	openChans  map[int]EventChannel
 	eventChans map[int]EventChannel
 	topicChans map[string]EventChannel
 
@@ -95,6 +97,7 @@ func (t *Topic) SetEventChannel(channel EventChannel) *Topic {
 func NewClient(conn net.Conn) *Client {
 	return &Client{
 		conn:            conn,
+		openChans:       make(map[int]EventChannel),
 		eventChans:      make(map[int]EventChannel),
 		topicChans:      make(map[string]EventChannel),
 		responseChan:    make(map[int]chan any),
@@ -149,6 +152,7 @@ func (c *Client) CreateEventChannel(n int) EventChannel {
 	}
 
 	// Track this chan so fanout signalling can occur later
+	c.openChans[c.evChanIdCounter] = result
 	c.eventChans[c.evChanIdCounter] = result
 	c.evChanIdCounter++
 
@@ -164,6 +168,12 @@ func (c *Client) CloseEventChannel(channel EventChannel) {
 }
 
 func (c *Client) closeEventChannelInternal(channel EventChannel) {
+	// Nothing can be closed if it is not an event channel of this client or was closed before
+	if _, ok := c.openChans[channel.id]; !ok {
+		return
+	}
+	delete(c.openChans, channel.id)
+
 	// Close the channel so that no further signals can occur on it
 	close(channel.channel)
 
-- 
2.43.0


From 7a632a35653a08f486613174e37497b07a94f4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 38/43] fix: bind, route to and close event channels under one
 lock

---
 mqtt/client.go | 89 ++++++++++++++++++++------------------------------
 mqtt/events.go | 13 ++++++++
 2 files changed, 49 insertions(+), 53 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index ec5ee21..457e10c 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -190,9 +190,9 @@ func (c *Client) closeEventChannelInternal(channel EventChannel) {
 	}
 }
 
-// signal signals on all event channels in a fanout fashion. This function is only meant to be called by the client
-// internally.
-func (c *Client) signal(packetType packets.PacketType, data any, channel chan<- *Event) {
+// signal signals on all event channels in a fanout fashion. A publish is signalled on the event channels of the matching
+// subscriptions as well. This function is only meant to be called by the client internally.
+func (c *Client) signal(packetType packets.PacketType, data any) {
 	c.eventMutex.Lock()
 	defer c.eventMutex.Unlock()
 
@@ -201,32 +201,22 @@ func (c *Client) signal(packetType packets.PacketType, data any, channel chan<-
 		Data:       data,
 	}
 
-	if channel != nil {
-		// Signal this channel directly
-		select {
-		case channel <- e:
-			// Signalled
-		default:
-			// TODO: Decide whether or not to let this goroutine block. If this goroutine is allowed to block, then it
-			//       will be required that no event channel goes unconsumed. Otherwise, the tradeoff would be unconsumed
-			//       event channels will stop receiving new events when they are full.
-			// Already has a pending event. This channel will miss the current event
-		}
-	} else {
-		// Fanout to all other channels
-		for _, channel := range c.eventChans {
-			select {
-			case channel.channel <- e:
-				// Signalled
-			default:
-				// TODO: Decide whether or not to let this goroutine block. If this goroutine is allowed to block, then it
-				//       will be required that no event channel goes unconsumed. Otherwise, the tradeoff would be unconsumed
-				//       event channels will stop receiving new events when they are full.
-				// Already has a pending event. This channel will miss the current event
+	if publish, ok := data.(*packets.Publish); ok {
+		// Route the PUBLISH to the correct event channels as configured by the Subscribe API
+		for filter, channel := range c.topicChans {
+			// Does the topic match any known filter?
+			if c.matchTopic(publish.Topic.String(), filter) {
+				// Signal the publish on this channel
+				channel.signal(e)
 			}
 		}
 	}
 
+	// Fanout to all other channels
+	for _, channel := range c.eventChans {
+		channel.signal(e)
+	}
+
 	// Sleep this goroutine to allow other goroutines to consume their event channels
 	time.Sleep(time.Nanosecond)
 }
@@ -335,7 +325,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.isConnected.Store(true)
 
 	// Signal CONNACK event
-	c.signal(packets.CONNACK, connack, nil)
+	c.signal(packets.CONNACK, connack)
 
 	return
 }
@@ -420,7 +410,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	}
 
 	// Signal disconnect
-	c.signal(packets.DISCONNECT, disconnect, nil)
+	c.signal(packets.DISCONNECT, disconnect)
 
 	return nil
 }
@@ -456,7 +446,7 @@ func (c *Client) disconnectWithReason(reason primitives.PrimitiveByte) (err erro
 	}
 
 	// Signal disconnect
-	c.signal(packets.DISCONNECT, disconnect, nil)
+	c.signal(packets.DISCONNECT, disconnect)
 
 	return
 }
@@ -540,13 +530,15 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 				// TODO: Consider session retention details here
 
 				if chanid := topics[i].channel.id; chanid != 0 {
-					// Map the event channel to the topic
-					c.mutex.Lock()
-					c.topicChans[topics[i].Topic.Filter()] = c.eventChans[chanid]
+					// Map the event channel to the topic unless it was closed
+					c.eventMutex.Lock()
+					if channel, ok := c.openChans[chanid]; ok {
+						c.topicChans[topics[i].Topic.Filter()] = channel
+					}
 
 					// Remove this channel from the general event channel map
 					delete(c.eventChans, chanid)
-					c.mutex.Unlock()
+					c.eventMutex.Unlock()
 				}
 			}
 		}
@@ -622,14 +614,14 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	// Wait for the acknowledgement
 	select {
 	case <-respChan:
-		c.mutex.Lock()
+		c.eventMutex.Lock()
 		// Close any event channels bound to the topics
 		for _, topic := range topics {
 			if channel, ok := c.topicChans[topic]; ok {
 				c.closeEventChannelInternal(channel)
 			}
 		}
-		c.mutex.Unlock()
+		c.eventMutex.Unlock()
 	}
 
 	c.mutex.Lock()
@@ -1057,15 +1049,6 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			return nil
 		}
 
-		// Route the PUBLISH to the correct event channels as configured by the Subscribe API
-		for filter, channel := range c.topicChans {
-			// Does the topic match any known filter?
-			if c.matchTopic(publish.Topic.String(), filter) {
-				// Signal the publish on this channel
-				c.signal(packets.PUBLISH, publish, channel.channel)
-			}
-		}
-
 		// Create a Pubrec control packet and store it. This might be used later during the message delivery retry flow.
 		// It will be removed when a PUBREL control packet comes in.
 		c.mutex.Lock()
@@ -1087,7 +1070,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 		c.mutex.Unlock()
 
-		c.signal(packets.PUBLISH, publish, nil)
+		c.signal(packets.PUBLISH, publish)
 	case packets.PUBACK:
 		puback := &packets.Puback{Header: header}
 		if _, err = puback.ReadFrom(c.conn); err != nil {
@@ -1109,7 +1092,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 		c.mutex.Unlock()
 
-		c.signal(packets.PUBACK, puback, nil)
+		c.signal(packets.PUBACK, puback)
 	case packets.PUBREC:
 		pubrec := &packets.Pubrec{}
 		pubrec.Header = header
@@ -1147,7 +1130,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// The exchange ends without a PUBREL if the server refused the publish
 		if failed {
 			c.mutex.Unlock()
-			c.signal(packets.PUBREC, pubrec, nil)
+			c.signal(packets.PUBREC, pubrec)
 			return nil
 		}
 
@@ -1165,7 +1148,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		c.mutex.Unlock()
 
-		c.signal(packets.PUBREC, pubrec, nil)
+		c.signal(packets.PUBREC, pubrec)
 	case packets.PUBREL:
 		pubrel := &packets.Pubrel{}
 		pubrel.Header = header
@@ -1205,7 +1188,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		delete(c.received, pubrel.PacketIdentifier.Value())
 		c.mutex.Unlock()
 
-		c.signal(packets.PUBREL, pubrel, nil)
+		c.signal(packets.PUBREL, pubrel)
 	case packets.PUBCOMP:
 		pubcomp := &packets.Pubcomp{}
 		pubcomp.Header = header
@@ -1229,7 +1212,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		c.mutex.Unlock()
 
-		c.signal(packets.PUBCOMP, pubcomp, nil)
+		c.signal(packets.PUBCOMP, pubcomp)
 	case packets.SUBACK:
 		suback := &packets.Suback{Header: header}
 		if _, err = suback.ReadFrom(c.conn); err != nil {
@@ -1241,7 +1224,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			respChan <- suback
 		}
 
-		c.signal(packets.SUBACK, suback, nil)
+		c.signal(packets.SUBACK, suback)
 	case packets.UNSUBACK:
 		unsuback := &packets.Unsuback{Header: header}
 		if _, err = unsuback.ReadFrom(c.conn); err != nil {
@@ -1253,14 +1236,14 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			respChan <- unsuback
 		}
 
-		c.signal(packets.UNSUBACK, unsuback, nil)
+		c.signal(packets.UNSUBACK, unsuback)
 	case packets.DISCONNECT:
 		disconnect := &packets.Disconnect{Header: header}
 		if _, err = disconnect.ReadFrom(c.conn); err != nil {
 			return
 		}
 		c.setDisconnected()
-		c.signal(packets.DISCONNECT, disconnect, nil)
+		c.signal(packets.DISCONNECT, disconnect)
 
 		// Close the connection
 		if err = c.conn.Close(); err != nil {
@@ -1271,7 +1254,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if _, err = auth.ReadFrom(c.conn); err != nil {
 			return
 		}
-		c.signal(packets.AUTH, auth, nil)
+		c.signal(packets.AUTH, auth)
 	case packets.PINGRESP:
 		if header.Remaining != 0 {
 			return packets.ErrControlPacketIsMalformed
diff --git a/mqtt/events.go b/mqtt/events.go
index 8125fae..6d5efdc 100644
--- a/mqtt/events.go
+++ b/mqtt/events.go
@@ -45,3 +45,16 @@ type EventChannel struct {
 	channel chan *Event
 	done    chan struct{}
 }
+
+// signal signals the event on the channel.
+func (e EventChannel) signal(event *Event) {
+	select {
+	case e.channel <- event:
+		// Signalled
+	default:
+		// TODO: Decide whether or not to let this goroutine block. If this goroutine is allowed to block, then it
+		//       will be required that no event channel goes unconsumed. Otherwise, the tradeoff would be unconsumed
+		//       event channels will stop receiving new events when they are full.
+		// Already has a pending event. This channel will miss the current event
+	}
+}
-- 
2.43.0


From 9d104ece5c8fd20162eea6b7e9bd8630c8e8cc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 39/43] fix: complete Subscribe and Unsubscribe with their own
 acknowledgement only

---
 mqtt/client.go | 194 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 135 insertions(+), 59 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 457e10c..dfa51cf 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -65,7 +65,8 @@ type Client struct {
 	eventChans map[int]EventChannel
 	topicChans map[string]EventChannel
 
-	responseChan map[int]chan any
+	// Handlers of the pending acknowledgements, see responseKey. A nil handler reserves the packet identifier.
+	responseFns map[int]func(any)
 
 	evChanIdCounter int
 	eventMutex      sync.Mutex
@@ -100,7 +101,7 @@ func NewClient(conn net.Conn) *Client {
 		openChans:       make(map[int]EventChannel),
 		eventChans:      make(map[int]EventChannel),
 		topicChans:      make(map[string]EventChannel),
-		responseChan:    make(map[int]chan any),
+		responseFns:     make(map[int]func(any)),
 		received:        make(map[uint16]bool),
 		inFlight:        make(map[uint16]int),
 		evChanIdCounter: 1,
@@ -308,6 +309,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.receiveQuota = c.clientReceiveMaximum
 	c.received = make(map[uint16]bool)
 	c.inFlight = make(map[uint16]int)
+	c.responseFns = make(map[int]func(any))
 
 	// Set the ping response deadline
 	c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
@@ -505,54 +507,60 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 
 	// Create channel to receive the response on
 	respChan := make(chan any, 1)
-	c.responseChan[int(subscribe.PacketIdentifier)] = respChan
+	key := responseKey(packets.SUBACK, identifier)
+	c.responseFns[key] = func(resp any) {
+		c.bindEventChannels(topics, resp.(*packets.Suback).ReasonCodes)
+		respChan <- resp
+	}
+	disconnected := c.disconnected
 
 	// Send the SUBSCRIBE control packet
 	if err = c.send(subscribe); err != nil {
+		delete(c.responseFns, key)
 		c.mutex.Unlock()
 		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
 	c.mutex.Unlock()
+	unlockConn.Do(c.connMutex.Unlock)
 
 	// Wait for the acknowledgement
-	select {
-	case resp := <-respChan:
-		suback := resp.(*packets.Suback)
-
-		// Check all reason codes
-		for i, code := range suback.ReasonCodes {
-			if code >= 0x80 {
-				// TODO: Return all failure reason codes to caller somehow
-				return ReasonCode(code)
-			} else {
-				// TODO: Consider session retention details here
-
-				if chanid := topics[i].channel.id; chanid != 0 {
-					// Map the event channel to the topic unless it was closed
-					c.eventMutex.Lock()
-					if channel, ok := c.openChans[chanid]; ok {
-						c.topicChans[topics[i].Topic.Filter()] = channel
-					}
-
-					// Remove this channel from the general event channel map
-					delete(c.eventChans, chanid)
-					c.eventMutex.Unlock()
-				}
-			}
+	resp, err := c.waitResponse(ctx, key, respChan, disconnected)
+	if err != nil {
+		return err
+	}
+
+	// Check all reason codes
+	for _, code := range resp.(*packets.Suback).ReasonCodes {
+		if code >= 0x80 {
+			// TODO: Return all failure reason codes to caller somehow
+			return ReasonCode(code)
 		}
 	}
 
-	// Close the chan
-	close(respChan)
+	return
+}
 
-	c.mutex.Lock()
-	// Remove the channel from the map
-	delete(c.responseChan, int(subscribe.PacketIdentifier))
-	c.mutex.Unlock()
+// bindEventChannels maps the event channels to the topics that were granted.
+func (c *Client) bindEventChannels(topics []Topic, codes []byte) {
+	c.eventMutex.Lock()
+	defer c.eventMutex.Unlock()
 
-	return
+	for i, code := range codes {
+		// TODO: Consider session retention details here
+		if i >= len(topics) || code >= 0x80 {
+			continue
+		}
+
+		// Map the event channel to the topic unless it was closed
+		chanid := topics[i].channel.id
+		if channel, ok := c.openChans[chanid]; ok {
+			c.topicChans[topics[i].Topic.Filter()] = channel
+
+			// Remove this channel from the general event channel map
+			delete(c.eventChans, chanid)
+		}
+	}
 }
 
 // Unsubscribe sends the UNSUBSCRIBE control packet to the server with the specified topic filters. Any event channels
@@ -563,8 +571,6 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		return ErrInvalidArgument
 	}
 
-	c.mutex.Lock()
-
 	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
@@ -575,6 +581,15 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		deadline = time.Time{}
 	}
 
+	var unlockConn sync.Once
+	c.connMutex.Lock()
+	defer unlockConn.Do(c.connMutex.Unlock)
+
+	// The client may have been disconnected while waiting for the connection
+	if !c.isConnected.Load() {
+		return ErrClientNotConnected
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -586,6 +601,8 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		t.SetFilter(topics[index])
 		_topics = append(_topics, t)
 	}
+
+	c.mutex.Lock()
 	identifier, err := c.nextPacketIdentifier()
 	if err != nil {
 		c.mutex.Unlock()
@@ -602,34 +619,95 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 	// Create channel to receive the response on
 	respChan := make(chan any, 1)
-	c.responseChan[int(unsubscribe.PacketIdentifier)] = respChan
+	key := responseKey(packets.UNSUBACK, identifier)
+	c.responseFns[key] = func(resp any) {
+		c.closeEventChannels(topics, resp.(*packets.Unsuback).ReasonCodes)
+		respChan <- resp
+	}
+	disconnected := c.disconnected
 
 	// Send the UNSUBSCRIBE control packet
 	if err = c.send(unsubscribe); err != nil {
+		delete(c.responseFns, key)
+		c.mutex.Unlock()
 		return err
 	}
 
 	c.mutex.Unlock()
+	unlockConn.Do(c.connMutex.Unlock)
 
 	// Wait for the acknowledgement
-	select {
-	case <-respChan:
-		c.eventMutex.Lock()
-		// Close any event channels bound to the topics
-		for _, topic := range topics {
-			if channel, ok := c.topicChans[topic]; ok {
-				c.closeEventChannelInternal(channel)
-			}
+	resp, err := c.waitResponse(ctx, key, respChan, disconnected)
+	if err != nil {
+		return err
+	}
+
+	// Check all reason codes
+	for _, code := range resp.(*packets.Unsuback).ReasonCodes {
+		if code >= 0x80 {
+			return ReasonCode(code)
+		}
+	}
+
+	return
+}
+
+// closeEventChannels closes any event channels bound to the topics unless the server refused to unsubscribe from them.
+func (c *Client) closeEventChannels(topics []string, codes []byte) {
+	c.eventMutex.Lock()
+	defer c.eventMutex.Unlock()
+
+	for i, topic := range topics {
+		if i < len(codes) && codes[i] >= 0x80 {
+			continue
 		}
-		c.eventMutex.Unlock()
+
+		if channel, ok := c.topicChans[topic]; ok {
+			c.closeEventChannelInternal(channel)
+		}
+	}
+}
+
+// responseKey returns the key of the handler of an acknowledgement.
+func responseKey(packetType packets.PacketType, identifier primitives.PrimitiveUint16) int {
+	return int(packetType)<<16 | int(identifier)
+}
+
+// respond calls the handler of the acknowledgement if one is pending.
+func (c *Client) respond(packetType packets.PacketType, identifier primitives.PrimitiveUint16, resp any) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	key := responseKey(packetType, identifier)
+	if fn := c.responseFns[key]; fn != nil {
+		fn(resp)
+	}
+	delete(c.responseFns, key)
+}
+
+// waitResponse waits for the acknowledgement with the key.
+func (c *Client) waitResponse(ctx context.Context, key int, respChan <-chan any, disconnected <-chan struct{}) (resp any, err error) {
+	select {
+	case resp = <-respChan:
+		return resp, nil
+	case <-ctx.Done():
+		err = ctx.Err()
+	case <-disconnected:
+		err = ErrClientNotConnected
 	}
 
 	c.mutex.Lock()
-	// Remove the channel from the map
-	delete(c.responseChan, int(unsubscribe.PacketIdentifier))
-	c.mutex.Unlock()
+	defer c.mutex.Unlock()
 
-	return
+	// The acknowledgement may have been received in the meantime
+	select {
+	case resp = <-respChan:
+		return resp, nil
+	default:
+		// Keep the identifier in use until the server acknowledges it
+		c.responseFns[key] = nil
+		return nil, err
+	}
 }
 
 // Publish sends PUBLISH control packet to the server.
@@ -748,8 +826,10 @@ func (c *Client) packetIdentifierInUse(identifier primitives.PrimitiveUint16) bo
 		return true
 	}
 
-	if _, ok := c.responseChan[int(identifier)]; ok {
-		return true
+	for _, packetType := range []packets.PacketType{packets.SUBACK, packets.UNSUBACK} {
+		if _, ok := c.responseFns[responseKey(packetType, identifier)]; ok {
+			return true
+		}
 	}
 
 	if c.storage != nil {
@@ -1220,9 +1300,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Respond to the call to client.Subscribe
-		if respChan, ok := c.responseChan[int(suback.PacketIdentifier)]; ok {
-			respChan <- suback
-		}
+		c.respond(packets.SUBACK, suback.PacketIdentifier, suback)
 
 		c.signal(packets.SUBACK, suback)
 	case packets.UNSUBACK:
@@ -1232,9 +1310,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Respond to the call to client.Unsubscribe
-		if respChan, ok := c.responseChan[int(unsuback.PacketIdentifier)]; ok {
-			respChan <- unsuback
-		}
+		c.respond(packets.UNSUBACK, unsuback.PacketIdentifier, unsuback)
 
 		c.signal(packets.UNSUBACK, unsuback)
 	case packets.DISCONNECT:
-- 
2.43.0


From ede697a62109957d87a7f651d94c9c372fa1ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:37 +0000
Subject: [PATCH 40/43] fix: guard the keep alive interval and the storage with
 the mutex

---
 mqtt/client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index dfa51cf..4eefc41 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -115,8 +115,8 @@ func NewClient(conn net.Conn) *Client {
 // QoS 1 and QoS 2. No persistence will take place if no storage implementation is set which cause message delivery
 // retry to be effectively disabled. No storage implementation is set by default.
 func (c *Client) SetStorage(storage storage.Storage) {
-	c.eventMutex.Lock()
-	defer c.eventMutex.Unlock()
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 
 	c.storage = storage
 }
@@ -952,6 +952,9 @@ func (c *Client) sendPubrec(publish *packets.Publish) (err error) {
 // KeepAliveInterval returns the interval at which frequent PINGREQ packets must be sent. The server may specify a
 // different value in the CONNACK packet than what was originally specified by the CONNECT packet.
 func (c *Client) KeepAliveInterval() time.Duration {
+	c.mutex.RLock()
+	defer c.mutex.RUnlock()
+
 	return c.keepAliveInterval
 }
 
-- 
2.43.0


From d88a96ad914132d83e996be1e5e9d455d604a194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:39 +0000
Subject: [PATCH 41/43] fix: use the keep alive of the current CONNECT when
 connecting again

A client that connects again with keep alive 0 kept the interval of its
previous connection, and timed out although keep alive was turned off.
---
 mqtt/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 4eefc41..266f8d3 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -285,7 +285,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		// SPEC: If the Server returns a Server Keep Alive on the CONNACK packet, the Client MUST use that value instead
 		//       of the value it sent as the Keep Alive. [MQTT-3.1.2-21]
 		c.keepAliveInterval = time.Second * time.Duration(connack.ServerKeepAlive)
-	} else if packet.KeepAlive > 0 {
+	} else {
 		// Use the keep alive interval defined in the CONNECT packet
 		c.keepAliveInterval = time.Second * time.Duration(packet.KeepAlive)
 	}
-- 
2.43.0


From 8938b9b970918754a274b930caf90fc6585adb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:02 +0000
Subject: [PATCH 42/43] fix: send quota acquired on an earlier connection was
 used on the next one

A publish that acquired quota, then had to wait for the connection while the
client was disconnected and connected again, was sent in excess of the new
connection's Receive Maximum; one that failed meanwhile released quota that
the new connection never gave.
---
 mqtt/client.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 266f8d3..8ce069e 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -729,8 +729,9 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	//       It MAY continue to send PUBLISH packets with QoS 0, or it MAY choose to suspend sending these as well. The
 	//       Client and Server MUST continue to process and respond to all other MQTT Control Packets even if the quota
 	//       is zero [MQTT-4.9.0-3].
+	var connection <-chan struct{}
 	if pub.QoS > 0 {
-		if err = c.acquireSendQuota(ctx); err != nil {
+		if connection, err = c.acquireSendQuota(ctx); err != nil {
 			return err
 		}
 
@@ -738,7 +739,9 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 			if err != nil {
 				// Nothing was sent
 				c.mutex.Lock()
-				c.releaseSendQuota()
+				if c.disconnected == connection {
+					c.releaseSendQuota()
+				}
 				c.mutex.Unlock()
 			}
 		}()
@@ -748,8 +751,8 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	c.connMutex.Lock()
 	defer unlockConn.Do(c.connMutex.Unlock)
 
-	// The client may have been disconnected while waiting for the connection
-	if !c.isConnected.Load() {
+	// The client may have been disconnected, and connected again, while waiting for the connection
+	if !c.isConnected.Load() || (pub.QoS > 0 && c.disconnected != connection) {
 		return ErrClientNotConnected
 	}
 
@@ -840,14 +843,14 @@ func (c *Client) packetIdentifierInUse(identifier primitives.PrimitiveUint16) bo
 }
 
 // acquireSendQuota decrements the send quota counter. It waits until one of the unacknowledged publishes is acknowledged
-// if the quota is exhausted.
-func (c *Client) acquireSendQuota(ctx context.Context) (err error) {
+// if the quota is exhausted. The quota belongs to the returned connection.
+func (c *Client) acquireSendQuota(ctx context.Context) (connection <-chan struct{}, err error) {
 	for {
 		c.mutex.Lock()
 		disconnected := c.disconnected
 		if !c.isConnected.Load() {
 			c.mutex.Unlock()
-			return ErrClientNotConnected
+			return nil, ErrClientNotConnected
 		}
 
 		if c.sendQuota > 0 {
@@ -855,7 +858,7 @@ func (c *Client) acquireSendQuota(ctx context.Context) (err error) {
 			c.sendQuota--
 			c.signalSendQuota()
 			c.mutex.Unlock()
-			return nil
+			return disconnected, nil
 		}
 		c.mutex.Unlock()
 
@@ -863,9 +866,9 @@ func (c *Client) acquireSendQuota(ctx context.Context) (err error) {
 		select {
 		case <-c.pendingSendSemaphore:
 		case <-ctx.Done():
-			return ctx.Err()
+			return nil, ctx.Err()
 		case <-disconnected:
-			return ErrClientNotConnected
+			return nil, ErrClientNotConnected
 		}
 	}
 }
-- 
2.43.0


From 52e59885654a29ea4a8a654ddfee402f4abf9e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:02 +0000
Subject: [PATCH 43/43] fix: a request that ended with its connection displaced
 one of the next connection

The handler of a pending SUBSCRIBE or UNSUBSCRIBE of the new connection was
overwritten if it used the same packet identifier, and the call never returned.
---
 mqtt/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 8ce069e..76411c4 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -705,7 +705,9 @@ func (c *Client) waitResponse(ctx context.Context, key int, respChan <-chan any,
 		return resp, nil
 	default:
 		// Keep the identifier in use until the server acknowledges it
-		c.responseFns[key] = nil
+		if c.disconnected == disconnected {
+			c.responseFns[key] = nil
+		}
 		return nil, err
 	}
 }
-- 
2.43.0

