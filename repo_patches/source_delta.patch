From 3bf7a16a2cb0ee28fef2e9b99fa00e7ede0276ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 01/25] fix: keep nested read limits balanced and inside the
 enclosing limit

A property section as long as (or longer than) the rest of the packet dropped
the packet limit, so the decoder read on into the following packet.
---
 src/byte_reader.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 48da1a3..6290fcd 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -49,10 +49,10 @@ impl<R: Read> ByteReader<R> {
     /// sets a limit of reading, has to be used together
     /// with has_more() and reset_limit()
     pub fn take(&mut self, len: u32) {
+        let mut len = len;
         if let Some(l) = self.curr_limit {
-            if len >= l {
-                return;
-            }
+            // a nested limit can never reach past the one around it
+            len = len.min(l);
             // push alread subtracted number
             self.read_limits.push(l - len);
         }
@@ -184,6 +184,8 @@ impl<R: Read> ByteReader<R> {
 
     fn start_properties_decode(&mut self) -> Res<u32> {
         let length = self.read_variable_int()?;
+        // properties have to fit into the packet
+        self.ensure_limit(length)?;
         if length > 0 {
             self.take(length);
         }
-- 
2.43.0


From 8abee7a71d82aca7dee3f93b4d59e4ef1dc365ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 02/25] fix: discard the whole packet after an error inside its
 properties

Only the rest of the property section was discarded, so the remainder of the
failed packet was parsed as the next packet (or its limit stayed active).
---
 src/byte_reader.rs | 15 +++++++++++++--
 src/packet.rs      |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 6290fcd..caadc6a 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -29,8 +29,7 @@ impl<R: Read> ByteReader<R> {
             Err(e) => {
                 if let Ok(len) = length {
                     self.take(len);
-                    self.consume()?;
-                    self.reset_limit();
+                    self.finish_packet()?;
                 }
                 return Err(e);
             }
@@ -224,6 +223,18 @@ impl<R: Read> ByteReader<R> {
         }
     }
 
+    /// Drops the limits of unfinished nested sections, discards whatever is left
+    /// of the current packet and removes its limit.
+    /// Returns the number of discarded bytes
+    pub(crate) fn finish_packet(&mut self) -> Res<usize> {
+        while !self.read_limits.is_empty() {
+            self.reset_limit();
+        }
+        let rest = self.consume();
+        self.reset_limit();
+        rest.map(|r| r.len())
+    }
+
     pub fn read_properties(&mut self) -> Res<Option<Vec<(u8, PropType)>>> {
         let mut props = vec![];
         // zero length properties are also valid
diff --git a/src/packet.rs b/src/packet.rs
index 389d327..d8860e4 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -172,7 +172,7 @@ impl<R: io::Read> PacketDecoder<R> {
         if dec.is_err() {
             // TODO: this should probably return an Error that indicates some
             // critical failure
-            self.reader.consume()?;
+            self.reader.finish_packet()?;
         }
         self.reader.reset_limit();
         dec
-- 
2.43.0


From cbbf4c2b0267f7c5ca32181897c81106a9ee9bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 03/25] fix: reject packets that are longer or shorter than
 their contents

Bytes left over after a successfully parsed packet were taken for the next
packet, and packets cut off by the end of the stream could be reported as ok.
---
 src/packet.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index d8860e4..5730da9 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -169,12 +169,11 @@ impl<R: io::Read> PacketDecoder<R> {
     pub fn decode_packet(&mut self, protocol_version: u8) -> Res<MqttPacket> {
         let (length, fixed) = self.reader.read_header()?;
         let dec = self.decode_by_type(fixed, length, protocol_version);
-        if dec.is_err() {
-            // TODO: this should probably return an Error that indicates some
-            // critical failure
-            self.reader.finish_packet()?;
+        // TODO: an error should probably indicate some critical failure
+        let unread = self.reader.finish_packet()?;
+        if dec.is_ok() && unread > 0 {
+            return Err(format!("Malformed packet, {} unexpected bytes", unread));
         }
-        self.reader.reset_limit();
         dec
     }
 
-- 
2.43.0


From 7a80a158aca7f43275f2dc5b96de7379c24574be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 04/25] fix: reject variable byte integers longer than four
 bytes

The continuation bit of the fourth byte was ignored.
---
 src/byte_reader.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index caadc6a..fa64881 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -159,13 +159,10 @@ impl<R: Read> ByteReader<R> {
             num += mult * (next & VARBYTEINT_MASK);
             mult *= 0x80;
             if next & VARBYTEINT_FIN_MASK == 0 {
-                break;
+                return Ok(num);
             }
         }
-        if num > VARBYTEINT_MAX {
-            return Err(format!("Invalid variable int {}", num));
-        }
-        Ok(num)
+        Err("Invalid variable int, must not be longer than 4 bytes".to_string())
     }
 
     pub fn has_more(&mut self) -> bool {
-- 
2.43.0


From 89ca7793999d764dca9e2da75255d9d1ff9db00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 05/25] fix: do not take an interrupted read for the end of the
 input

An ErrorKind::Interrupted during has_more() ended topic and code lists early.
---
 src/byte_reader.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index fa64881..47ebba5 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -1,5 +1,5 @@
 use crate::structure::*;
-use std::io::{BufRead, BufReader, Read};
+use std::io::{BufRead, BufReader, ErrorKind, Read};
 
 static VARBYTEINT_MASK: u32 = 0x7F;
 static VARBYTEINT_FIN_MASK: u32 = 0x80;
@@ -172,9 +172,13 @@ impl<R: Read> ByteReader<R> {
             return false;
         }
         // TODO: switch to a better way to do this
-        match self.reader.fill_buf() {
-            Ok(v) => !v.is_empty(),
-            Err(_) => false,
+        loop {
+            match self.reader.fill_buf() {
+                Ok(v) => return !v.is_empty(),
+                // same as in read_exact, interrupted reads are just repeated
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                Err(_) => return false,
+            }
         }
     }
 
-- 
2.43.0


From 52c2029737f08791ba087907fc49ae0c3f7586c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 06/25] fix: decode MQTT 5 DISCONNECT without reason code or
 properties

Both may be omitted (MQTT5 3.14.2.1, 3.14.2.2.1), but this was an error.
---
 src/disconnect.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index 5a03629..f50c4c3 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -24,11 +24,13 @@ impl Packet for DisconnectPacket {
             } else {
                 packet.reason_code = Some(DisconnectCode::NormalDisconnection);
             }
-            // properies mqtt 5
-            packet.properties = match reader.read_properties()? {
-                None => None,
-                Some(props) => Some(DisconnectProperties::from_properties(props)?),
-            };
+            // properies mqtt 5, may be omitted
+            if length > 1 {
+                packet.properties = match reader.read_properties()? {
+                    None => None,
+                    Some(props) => Some(DisconnectProperties::from_properties(props)?),
+                };
+            }
         }
 
         Ok(packet)
-- 
2.43.0


From b940b8d58f6b3392766516c7cc03e7b6985e1673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 07/25] fix: decode AUTH without reason code and properties

A remaining length of 0 means Success without properties (MQTT5 3.15.2.1).
---
 src/auth.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auth.rs b/src/auth.rs
index b5bd7e2..2180902 100644
--- a/src/auth.rs
+++ b/src/auth.rs
@@ -38,7 +38,7 @@ impl Packet for AuthPacket {
     fn decode<R: io::Read>(
         reader: &mut ByteReader<R>,
         _: FixedHeader,
-        _: u32,
+        length: u32,
         protocol_version: u8,
     ) -> Res<AuthPacket> {
         if protocol_version != 5 {
@@ -49,6 +49,10 @@ impl Packet for AuthPacket {
             reason_code: AuthCode::Success,
             properties: None,
         };
+        // reason code and properties may be omitted if the code is Success
+        if length == 0 {
+            return Ok(packet);
+        }
         packet.reason_code = AuthCode::from_byte(reader.read_u8()?)?;
         // properies mqtt 5
         packet.properties = match reader.read_properties()? {
-- 
2.43.0


From db66815df24fcfcd0f72c7b32ab6423f24e0a9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 08/25] fix: encode a property set without any properties as
 zero length

It was written as a one byte section with the invalid property 0, or, with
only valueless user properties, without any property length.
---
 src/structure/properties.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/structure/properties.rs b/src/structure/properties.rs
index 6ffcf10..083d357 100644
--- a/src/structure/properties.rs
+++ b/src/structure/properties.rs
@@ -13,25 +13,23 @@ pub(crate) trait Properties: Sized {
     /// packet.encode() will move the value since a packet is usually built to
     /// be encoded and sent anyway
     fn encode(&self) -> Res<Vec<u8>> {
-        // Confirm should not add empty property length with no properties (rfc 3.4.2.2.1)
-        let pairs = self.to_pairs()?;
-        if pairs.is_empty() {
-            return Ok(vec![0]); // empty properties
-        }
         // TODO: calculate size of properties before allocating buffer
         let mut writer = MqttWriter::new(100);
-        writer.write_properties(pairs)?;
+        writer.write_properties(self.to_pairs()?)?;
         Ok(writer.into_vec())
     }
 
     fn encode_option(props: Option<&Self>, protocol_version: u8) -> Res<(Vec<u8>, Vec<u8>)> {
         // Confirm should not add empty property length with no properties (rfc 3.4.2.2.1)
         if protocol_version == 5 {
-            if let Some(p) = props {
-                let enc = p.encode()?;
-                Ok((MqttWriter::encode_variable_num(enc.len() as u32), enc))
-            } else {
+            let enc = match props {
+                Some(p) => p.encode()?,
+                None => vec![],
+            };
+            if enc.is_empty() {
                 Ok((vec![0], vec![])) // empty properties
+            } else {
+                Ok((MqttWriter::encode_variable_num(enc.len() as u32), enc))
             }
         } else {
             Ok((vec![], vec![])) // no properties exist in MQTT < 5
-- 
2.43.0


From 2a5d824438f6605e2f33abce754ecbd063132ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 09/25] fix: count the reason code in the length of
 acknowledgements

The remaining length of every PUBACK/PUBREC/PUBREL/PUBCOMP with a reason code
other than Success or with properties was one byte too small.
---
 src/confirmation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/confirmation.rs b/src/confirmation.rs
index ae6d084..4a2df29 100644
--- a/src/confirmation.rs
+++ b/src/confirmation.rs
@@ -225,7 +225,9 @@ impl Packet for ConfirmationPacket {
         // Remaining Length of 2.
         match (code, properties_data.is_empty()) {
             (Some(0), true) => length = 2,
-            _ => length += properties_data.len() + props_len.len(),
+            (code, _) => {
+                length += code.is_some() as usize + properties_data.len() + props_len.len()
+            }
         };
 
         let mut writer = MqttWriter::new(length);
-- 
2.43.0


From 569b10844007ed085d5707567a131062ad17f5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 10/25] fix: refuse acknowledgements of a non-acknowledgement
 type below MQTT 5

They were encoded with the header of e.g. CONNECT. MQTT 5 already refused them.
---
 src/confirmation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/confirmation.rs b/src/confirmation.rs
index 4a2df29..8e1872f 100644
--- a/src/confirmation.rs
+++ b/src/confirmation.rs
@@ -183,6 +183,12 @@ impl Packet for ConfirmationPacket {
             message_id,
             ..
         } = &self;
+        if !matches!(
+            cmd,
+            PacketType::Puback | PacketType::Pubrec | PacketType::Pubrel | PacketType::Pubcomp
+        ) {
+            return Err(format!("Invalid confirmation type {:?}", cmd));
+        }
         // let mut length = if protocol_version == 5 { 3 } else { 2 };
         let mut length = 2;
         // Bits 3,2,1 and 0 of the Fixed Header in the PUBREL packet are reserved
-- 
2.43.0


From 46902d30bc19176535ef6bbea102c940af7a422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 11/25] fix: write the reason code of a MQTT 5 DISCONNECT that
 has none set

It was counted in the remaining length, but not written.
---
 src/disconnect.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index f50c4c3..82d44dc 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -48,8 +48,12 @@ impl Packet for DisconnectPacket {
         // Length
         writer.write_variable_num(length as u32)?;
         // reason code in header
-        if protocol_version == 5 && self.reason_code.is_some() {
-            writer.write_u8(self.reason_code.as_ref().unwrap().to_byte());
+        if protocol_version == 5 {
+            let reason_code = self
+                .reason_code
+                .as_ref()
+                .unwrap_or(&DisconnectCode::NormalDisconnection);
+            writer.write_u8(reason_code.to_byte());
         }
         // properies mqtt 5
         writer.write_sized(&properties_data, &props_len)?;
-- 
2.43.0


From a4e12e6dce97c3315787c42854c636423c0432bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 12/25] fix: do not write reason codes into UNSUBACK below MQTT
 5

The payload does not exist there and the result could not be decoded.
---
 src/unsuback.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/unsuback.rs b/src/unsuback.rs
index 60bc6fd..b7c28f1 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -9,8 +9,13 @@ impl Packet for UnsubackPacket {
         // Check message ID
         let mut length = 2;
 
-        // add length of unsubscriptions
-        length += self.granted.len();
+        // codes only exist in MQTT 5
+        let granted: &[UnsubackCode] = if protocol_version == 5 {
+            &self.granted
+        } else {
+            &[]
+        };
+        length += granted.len();
 
         // properies mqtt 5
         let (props_len, properties_data) =
@@ -30,7 +35,7 @@ impl Packet for UnsubackPacket {
         writer.write_sized(&properties_data, &props_len)?;
 
         // Granted
-        for g in self.granted.iter() {
+        for g in granted {
             writer.write_u8(g.to_byte());
         }
         Ok(writer.into_vec())
-- 
2.43.0


From 7f3820b7979c37e6f16fe8c0785f72e4f26e22cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 13/25] fix: refuse to encode a will without topic or with QoS
 above 2

A missing will topic was written, but not counted in the remaining length, and
only the low two bits of the will QoS were used.
---
 src/connect.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index 728bb0b..1afd472 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -82,14 +82,14 @@ impl Packet for ConnectPacket {
             will_retain = *retain;
             will_qos = Some(qos);
             // It must have non-empty topic
-            // add topic length if any
-            if let Some(t) = topic.as_ref() {
-                if t.is_empty() {
-                    return Err("Not allowed to use empty will topic".to_string());
-                }
-                will_topic = t;
-                length += t.len() + 2;
+            will_topic = topic.as_deref().unwrap_or("");
+            if will_topic.is_empty() {
+                return Err("Not allowed to use empty will topic".to_string());
             }
+            if *qos > 2 {
+                return Err("Invalid will QoS, must be <= 2".to_string());
+            }
+            length += will_topic.len() + 2;
             // Payload
             length += 2; // payload length
             if let Some(data) = payload.as_ref() {
-- 
2.43.0


From 5448cee4f69eac6eaba289f4e4645d2e07bb1f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 14/25] fix: reject CONNECT with will QoS 3

[MQTT-3.1.2-12 / MQTT5 3.1.2-12] a value of 3 is malformed.
---
 src/connect.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connect.rs b/src/connect.rs
index 1afd472..60fa720 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -278,6 +278,10 @@ impl ConnectFlags {
         }
         let connect_flags = ConnectFlags::new(connect_flags);
 
+        if connect_flags.will_qos > 2 {
+            return Err("Will QoS must not be 3".to_string());
+        }
+
         if !connect_flags.will {
             if connect_flags.will_retain {
                 return Err(
-- 
2.43.0


From 5a215966f13572854461ca4ab894006b03dbcde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 15/25] fix: refuse to encode PUBLISH with a QoS above 2

It overflowed into the dup flag or the packet type.
---
 src/publish.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/publish.rs b/src/publish.rs
index 766e571..7d6f9cd 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -58,6 +58,11 @@ impl Packet for PublishPacket {
             return Err("Invalid topic".to_string());
         }
 
+        // only two bits in the header
+        if *qos > 2 {
+            return Err("Invalid QoS, must be <= 2".to_string());
+        }
+
         // Get the payload length
         length += payload.len();
 
-- 
2.43.0


From 36e60dfee81e3c24ee5e114a2bd85f1247fef138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 16/25] fix: refuse to encode SUBSCRIBE, UNSUBSCRIBE and SUBACK
 without payload

The protocol requires at least one entry and the decoder rejects such packets.
---
 src/suback.rs      | 3 +++
 src/subscribe.rs   | 3 +++
 src/unsubscribe.rs | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/suback.rs b/src/suback.rs
index 3d60ed8..7c10288 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -89,6 +89,9 @@ impl Packet for SubackPacket {
         } else {
             self.granted.iter().map(|code| code.to_byte()).collect()
         };
+        if granted.is_empty() {
+            return Err("Invalid suback - no codes".to_string());
+        }
         length += granted.len();
 
         // properies mqtt 5
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 76043cb..d2d511a 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -91,6 +91,9 @@ impl Packet for SubscribePacket {
         let mut length = 2;
 
         // check subscriptions
+        if self.subscriptions.is_empty() {
+            return Err("Invalid subscriptions - no topics".to_string());
+        }
         for sub in self.subscriptions.iter() {
             if sub.topic.is_empty() {
                 return Err("Invalid subscriptions - empty topic".to_string());
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index c9e4989..64d2e41 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -9,6 +9,9 @@ impl Packet for UnsubscribePacket {
     // Check message ID
     let mut length = 2;
 
+    if self.unsubscriptions.is_empty() {
+      return Err("Invalid unsubscriptions - no topics".to_string());
+    }
     // add length of unsubscriptions
     length += self
       .unsubscriptions
-- 
2.43.0


From 8f1a5678b6e8c45231db988afec71d568abfdf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 17/25] fix: subscription features are available unless CONNACK
 says otherwise

If the property is absent wildcard subscriptions, subscription identifiers and
shared subscriptions are supported (MQTT5 3.2.2.3.11 - 3.2.2.3.13).
---
 src/structure/properties.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/structure/properties.rs b/src/structure/properties.rs
index 083d357..0123f41 100644
--- a/src/structure/properties.rs
+++ b/src/structure/properties.rs
@@ -407,9 +407,10 @@ impl Default for ConnackProperties {
             maximum_qos: 2,
             // retained messages available by default
             retain_available: true,
-            wildcard_subscription_available: false,
-            subscription_identifiers_available: false,
-            shared_subscription_available: false,
+            // all kinds of subscriptions are available by default
+            wildcard_subscription_available: true,
+            subscription_identifiers_available: true,
+            shared_subscription_available: true,
         }
     }
 }
-- 
2.43.0


From 99417fd9fa629226ed6ed4257773a3fd71df902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 18/25] fix: refuse strings and binary data longer than 65535
 bytes

Their length was truncated to 16 bits, which corrupted the packet.
---
 src/connect.rs     | 10 +++++-----
 src/mqtt_writer.rs | 42 ++++++++++++++++++++----------------------
 src/publish.rs     |  2 +-
 src/subscribe.rs   |  2 +-
 src/unsubscribe.rs |  2 +-
 5 files changed, 28 insertions(+), 30 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index 60fa720..c6ec19b 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -149,24 +149,24 @@ impl Packet for ConnectPacket {
 
         writer.write_sized(&properties_data, &props_len)?;
         // client id
-        writer.write_utf8_str(client_id);
+        writer.write_utf8_str(client_id)?;
         // will properties
         if protocol_version == 5 {
             writer.write_sized(&will_properties, &will_props_len)?;
         }
         // will topic and payload
         if has_will {
-            writer.write_utf8_str(will_topic);
-            writer.write_utf8_str(will_payload);
+            writer.write_utf8_str(will_topic)?;
+            writer.write_utf8_str(will_payload)?;
         }
 
         // username
         if let Some(u) = user_name {
-            writer.write_utf8_str(u);
+            writer.write_utf8_str(u)?;
         }
         // password
         if let Some(p) = password {
-            writer.write_utf8_str(p);
+            writer.write_utf8_str(p)?;
         }
         Ok(writer.into_vec())
     }
diff --git a/src/mqtt_writer.rs b/src/mqtt_writer.rs
index cb92fda..d2cbc87 100644
--- a/src/mqtt_writer.rs
+++ b/src/mqtt_writer.rs
@@ -34,19 +34,19 @@ impl MqttWriter {
                 }
                 (code, PropType::String(v)) => {
                     self.write_u8(code);
-                    self.write_utf8_string(v)
+                    self.write_utf8_string(v)?
                 }
                 (code, PropType::Str(v)) => {
                     self.write_u8(code);
-                    self.write_utf8_str(v)
+                    self.write_utf8_str(v)?
                 }
                 (code, PropType::Binary(v)) => {
                     self.write_u8(code);
-                    self.write_binary(v)
+                    self.write_binary(v)?
                 }
                 (code, PropType::BinaryRef(v)) => {
                     self.write_u8(code);
-                    self.write_binary_ref(v)
+                    self.write_binary_ref(v)?
                 }
                 // should never happen actually
                 (_, PropType::Pair(_, _)) => {}
@@ -57,8 +57,8 @@ impl MqttWriter {
                         // split into pairs
                         for val in v {
                             self.write_u8(code);
-                            self.write_utf8_str(&k);
-                            self.write_utf8_str(&val);
+                            self.write_utf8_str(&k)?;
+                            self.write_utf8_str(&val)?;
                         }
                     }
                 }
@@ -67,8 +67,8 @@ impl MqttWriter {
                         // split into pairs
                         for val in v {
                             self.write_u8(code);
-                            self.write_utf8_str(k);
-                            self.write_utf8_str(val);
+                            self.write_utf8_str(k)?;
+                            self.write_utf8_str(val)?;
                         }
                     }
                 }
@@ -121,29 +121,27 @@ impl MqttWriter {
         Ok(())
     }
 
-    pub fn write_utf8_string(&mut self, s: String) {
-        self.write_u16(s.len() as u16);
-        for b in s.bytes() {
-            self.buf.push(b);
-        }
+    pub fn write_utf8_string(&mut self, s: String) -> Res<()> {
+        self.write_utf8_str(&s)
     }
 
-    pub fn write_utf8_str(&mut self, s: &str) {
-        self.write_u16(s.len() as u16);
-        for b in s.bytes() {
-            self.buf.push(b);
-        }
+    pub fn write_utf8_str(&mut self, s: &str) -> Res<()> {
+        self.write_binary_ref(s.as_bytes())
     }
 
     /// a Binary vector should never be empty
-    pub fn write_binary(&mut self, s: Vec<u8>) {
-        self.write_u16(s.len() as u16);
-        self.write_vec(s);
+    pub fn write_binary(&mut self, s: Vec<u8>) -> Res<()> {
+        self.write_binary_ref(&s)
     }
 
-    pub fn write_binary_ref(&mut self, s: &[u8]) {
+    /// the length of strings and binary data has to fit into two bytes
+    pub fn write_binary_ref(&mut self, s: &[u8]) -> Res<()> {
+        if s.len() > u16::MAX as usize {
+            return Err(format!("Field of {} bytes is too long", s.len()));
+        }
         self.write_u16(s.len() as u16);
         self.write_slice(s);
+        Ok(())
     }
 
     pub fn write_u16(&mut self, length: u16) {
diff --git a/src/publish.rs b/src/publish.rs
index 7d6f9cd..80104aa 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -91,7 +91,7 @@ impl Packet for PublishPacket {
         writer.write_variable_num(length as u32)?;
 
         // Topic
-        writer.write_utf8_str(topic);
+        writer.write_utf8_str(topic)?;
 
         // Message ID
         if *qos > 0 {
diff --git a/src/subscribe.rs b/src/subscribe.rs
index d2d511a..1d389f8 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -130,7 +130,7 @@ impl Packet for SubscribePacket {
 
         // subscriptions payload
         for sub in self.subscriptions.iter() {
-            writer.write_utf8_str(&sub.topic);
+            writer.write_utf8_str(&sub.topic)?;
             let mut options = sub.qos.to_byte();
             if protocol_version == 5 {
                 let nl = (sub.nl as u8) << SUBSCRIBE_OPTIONS_NL_SHIFT;
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index 64d2e41..a844423 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -37,7 +37,7 @@ impl Packet for UnsubscribePacket {
 
     // Unsubs
     for unsub in self.unsubscriptions.iter() {
-      writer.write_utf8_str(unsub);
+      writer.write_utf8_str(unsub)?;
     }
     Ok(writer.into_vec())
   }
-- 
2.43.0


From 2f566ef57b34b3d65102c8155df5744b2ac85b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 19/25] fix: refuse packets of 4 GiB and more

Their length was truncated to 32 bits before it was compared to the maximum.
---
 src/auth.rs         | 2 +-
 src/confirmation.rs | 2 +-
 src/connack.rs      | 2 +-
 src/connect.rs      | 2 +-
 src/disconnect.rs   | 2 +-
 src/mqtt_writer.rs  | 8 ++++++++
 src/publish.rs      | 2 +-
 src/suback.rs       | 2 +-
 src/subscribe.rs    | 2 +-
 src/unsuback.rs     | 2 +-
 src/unsubscribe.rs  | 2 +-
 11 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/auth.rs b/src/auth.rs
index 2180902..4a22c3f 100644
--- a/src/auth.rs
+++ b/src/auth.rs
@@ -24,7 +24,7 @@ impl Packet for AuthPacket {
         writer.write_header(FixedHeader::for_type(PacketType::Auth));
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // reason code
         writer.write_u8(self.reason_code.to_byte());
diff --git a/src/confirmation.rs b/src/confirmation.rs
index 8e1872f..85d1a62 100644
--- a/src/confirmation.rs
+++ b/src/confirmation.rs
@@ -248,7 +248,7 @@ impl Packet for ConfirmationPacket {
         writer.write_u8(header);
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(*message_id);
diff --git a/src/connack.rs b/src/connack.rs
index 32af8fa..cc04b4c 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -23,7 +23,7 @@ impl Packet for ConnackPacket {
         let mut writer = MqttWriter::new(length);
         writer.write_u8(FixedHeader::for_type(PacketType::Connack).encode());
         // length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
         writer.write_u8(if self.session_present { 0x01 } else { 0x0 });
         writer.write_u8(rc);
         writer.write_sized(&properties_data, &props_len)?;
diff --git a/src/connect.rs b/src/connect.rs
index c6ec19b..c05265d 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -126,7 +126,7 @@ impl Packet for ConnectPacket {
         // write header
         writer.write_u8(FixedHeader::for_type(PacketType::Connect).encode());
         // length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
         // protocol id and protocol version
         let proto_vec = match protocol_id {
             Protocol::MQIsdp => MQISDP_BUF.to_vec(),
diff --git a/src/disconnect.rs b/src/disconnect.rs
index 82d44dc..013ab61 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -46,7 +46,7 @@ impl Packet for DisconnectPacket {
         // Header
         writer.write_header(FixedHeader::for_type(PacketType::Disconnect));
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
         // reason code in header
         if protocol_version == 5 {
             let reason_code = self
diff --git a/src/mqtt_writer.rs b/src/mqtt_writer.rs
index d2cbc87..a5f889e 100644
--- a/src/mqtt_writer.rs
+++ b/src/mqtt_writer.rs
@@ -108,6 +108,14 @@ impl MqttWriter {
         v
     }
 
+    /// write remaining length of the packet
+    pub fn write_length(&mut self, length: usize) -> Res<()> {
+        if length > VARBYTEINT_MAX as usize {
+            return Err(format!("Invalid packet length {}", length));
+        }
+        self.write_variable_num(length as u32)
+    }
+
     pub fn write_variable_num(&mut self, num: u32) -> Res<()> {
         if num > VARBYTEINT_MAX {
             return Err(format!("Invalid variable int {}", num));
diff --git a/src/publish.rs b/src/publish.rs
index 80104aa..40730af 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -88,7 +88,7 @@ impl Packet for PublishPacket {
         });
 
         // Remaining length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Topic
         writer.write_utf8_str(topic)?;
diff --git a/src/suback.rs b/src/suback.rs
index 7c10288..bf989ca 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -103,7 +103,7 @@ impl Packet for SubackPacket {
         writer.write_header(FixedHeader::for_type(PacketType::Suback));
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(self.message_id);
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 1d389f8..5bde874 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -120,7 +120,7 @@ impl Packet for SubscribePacket {
         });
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(self.message_id);
diff --git a/src/unsuback.rs b/src/unsuback.rs
index b7c28f1..d34a052 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -26,7 +26,7 @@ impl Packet for UnsubackPacket {
         writer.write_header(FixedHeader::for_type(PacketType::Unsuback));
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(self.message_id);
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index a844423..d6e4d62 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -27,7 +27,7 @@ impl Packet for UnsubscribePacket {
     writer.write_header(FixedHeader::for_type(PacketType::Unsubscribe));
 
     // Length
-    writer.write_variable_num(length as u32)?;
+    writer.write_length(length)?;
 
     // Message ID
     writer.write_u16(self.message_id);
-- 
2.43.0


From 27680eeaace79a2823b02788b7d925c3a3bce204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 20/25] fix: announce maximum QoS 2 in CONNACK by leaving the
 property out

---
 src/structure/properties.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/structure/properties.rs b/src/structure/properties.rs
index 0123f41..25d5a30 100644
--- a/src/structure/properties.rs
+++ b/src/structure/properties.rs
@@ -481,9 +481,12 @@ impl Properties for ConnackProperties {
         // if let v = self.topic_alias_maximum {
         out.push((0x22, PropType::U16(self.topic_alias_maximum)));
         // }
-        // if let v = self.maximum_qos {
-        out.push((0x24, PropType::U8(self.maximum_qos)));
-        // }
+        // only 0 and 1 may be sent, QoS 2 is what the absence of the property means
+        match self.maximum_qos {
+            0 | 1 => out.push((0x24, PropType::U8(self.maximum_qos))),
+            2 => {}
+            q => return Err(format!("Invalid maximum_qos {}, must be <= 2", q)),
+        }
         // if let v = self.retain_available {
         out.push((0x25, PropType::Bool(self.retain_available)));
         // }
-- 
2.43.0


From f48f8a9d5dfc7d6ff0189a88d37e0b2be4defa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 21/25] fix: encode MQTT 5 PUBLISH that has a topic alias
 instead of a topic

---
 src/publish.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/publish.rs b/src/publish.rs
index 40730af..f6e4ef7 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -52,9 +52,12 @@ impl Packet for PublishPacket {
             retain,
         } = &self;
 
-        // Topic must be a non-empty string or Buffer
+        // Topic must be a non-empty string or Buffer, only in MQTT 5
+        // a topic alias can stand in for it
         length += 2 + topic.len();
-        if topic.is_empty() {
+        let has_alias = protocol_version == 5
+            && matches!(properties, Some(p) if p.topic_alias.unwrap_or(0) > 0);
+        if topic.is_empty() && !has_alias {
             return Err("Invalid topic".to_string());
         }
 
-- 
2.43.0


From d82176ed5828b7bd0db5a81b17386014fb620c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 22/25] fix: allow MQTT 5 CONNECT without client id to keep its
 session

---
 src/connect.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index c05265d..84b6351 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -39,8 +39,10 @@ impl Packet for ConnectPacket {
             return Err("Invalid protocol version".to_string());
         }
 
-        // ClientId might be omitted in 3.1.1 and 5, but only if cleanSession is set to 1
-        if (client_id.is_empty() && protocol_version >= 4 && *clean_session)
+        // ClientId might be omitted in 3.1.1, but only if cleanSession is set to 1, and in 5
+        if (client_id.is_empty()
+            && protocol_version >= 4
+            && (*clean_session || protocol_version == 5))
             || !client_id.is_empty()
         {
             length += client_id.len() + 2;
-- 
2.43.0


From af759f6efc8026500cc7d100fdfe3d29db8fe124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 23/25] fix: allow MQTT 5 CONNECT with a password only

---
 src/connect.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connect.rs b/src/connect.rs
index 84b6351..f202bdb 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -117,7 +117,8 @@ impl Packet for ConnectPacket {
         // Password
         let mut has_password = false;
         if let Some(pass) = &password {
-            if !has_username {
+            // MQTT 5 allows to send a password without user name
+            if !has_username && protocol_version < 5 {
                 return Err("Username is required to use password".to_string());
             }
             has_password = true;
-- 
2.43.0


From 853cc81631498c4fe4e6430e227b65ba5e585172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 24/25] fix: do not take a read error for the end of a section

has_more() answers false when the reader fails. Inside a packet that ended
the property section or list early, and when the error was a passing one the
packet was assembled from what remained.
---
 src/byte_reader.rs | 12 +++++++++++-
 src/connack.rs     |  2 +-
 src/connect.rs     |  2 +-
 src/suback.rs      |  4 ++--
 src/subscribe.rs   |  4 ++--
 src/unsuback.rs    |  2 +-
 src/unsubscribe.rs |  4 ++--
 7 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 47ebba5..abed5ee 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -182,6 +182,16 @@ impl<R: Read> ByteReader<R> {
         }
     }
 
+    /// tells if the current limit has bytes left, no matter if they can be read.
+    /// Unlike has_more() this does not mistake a failing reader for the end of a
+    /// section, the error is returned by the next read instead
+    pub(crate) fn has_more_in_limit(&mut self) -> bool {
+        match self.curr_limit {
+            Some(n) => n > 0,
+            None => self.has_more(),
+        }
+    }
+
     fn start_properties_decode(&mut self) -> Res<u32> {
         let length = self.read_variable_int()?;
         // properties have to fit into the packet
@@ -246,7 +256,7 @@ impl<R: Read> ByteReader<R> {
         // let mut subscription_identifiers = vec![];
 
         // TODO: return Err when key is repeated, but not allowed to
-        while self.has_more() {
+        while self.has_more_in_limit() {
             let prop = self.decode_property()?;
             match prop {
                 (0x26, PropType::Pair(k, v)) => {
diff --git a/src/connack.rs b/src/connack.rs
index cc04b4c..7f401eb 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -61,7 +61,7 @@ impl Packet for ConnackPacket {
             packet.return_code = Some(reader.read_u8()?);
         }
         // mqtt 5 properties
-        if protocol_version == 5 && reader.has_more() {
+        if protocol_version == 5 && reader.has_more_in_limit() {
             packet.properties = match reader.read_properties()? {
                 None => None,
                 Some(props) => Some(ConnackProperties::from_properties(props)?),
diff --git a/src/connect.rs b/src/connect.rs
index f202bdb..7d6d86d 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -181,7 +181,7 @@ impl Packet for ConnectPacket {
         let protocol_id = Protocol::from_source(&protocol_id)?;
         // Parse constants version number
         let mut protocol_version = reader.read_u8()?;
-        if !reader.has_more() {
+        if !reader.has_more_in_limit() {
             return Err("Packet too short".to_string());
         }
 
diff --git a/src/suback.rs b/src/suback.rs
index bf989ca..9ea0261 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -58,12 +58,12 @@ impl Packet for SubackPacket {
             };
         }
 
-        if !reader.has_more() {
+        if !reader.has_more_in_limit() {
             return Err("Malformed suback, no payload specified".to_string());
         }
 
         // Parse granted QoSes
-        while reader.has_more() {
+        while reader.has_more_in_limit() {
             let code = reader.read_u8()?;
             if protocol_version == 5 {
                 packet
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 5bde874..88b8880 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -34,11 +34,11 @@ impl Packet for SubscribePacket {
             };
         }
 
-        if !reader.has_more() {
+        if !reader.has_more_in_limit() {
             return Err("Malformed subscribe, no payload specified".to_string());
         }
 
-        while reader.has_more() {
+        while reader.has_more_in_limit() {
             // Parse topic
             let topic = reader.read_utf8_string()?;
             let options = reader.read_u8()?;
diff --git a/src/unsuback.rs b/src/unsuback.rs
index d34a052..ebc5a9a 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -68,7 +68,7 @@ impl Packet for UnsubackPacket {
             };
             // Parse granted QoSes
 
-            while reader.has_more() {
+            while reader.has_more_in_limit() {
                 let code = UnsubackCode::from_byte(reader.read_u8()?)?;
                 packet.granted.push(code);
             }
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index d6e4d62..a2efff9 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -64,11 +64,11 @@ impl Packet for UnsubscribePacket {
       };
     }
 
-    if !reader.has_more() {
+    if !reader.has_more_in_limit() {
       return Err("Malformed unsubscribe, no payload specified".to_string());
     }
 
-    while reader.has_more() {
+    while reader.has_more_in_limit() {
       // Parse topic
       let topic = reader.read_utf8_string()?;
       // Push topic to unsubscriptions
-- 
2.43.0


From d0d89be7ebbbbad3ea9e8e58300f4138899b988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:51 +0000
Subject: [PATCH 25/25] fix: reserve memory for bytes that arrived, not for the
 announced length

---
 src/byte_reader.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index abed5ee..ff528d9 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -3,6 +3,7 @@ use std::io::{BufRead, BufReader, ErrorKind, Read};
 
 static VARBYTEINT_MASK: u32 = 0x7F;
 static VARBYTEINT_FIN_MASK: u32 = 0x80;
+static MAX_PREALLOCATED: u32 = 0x1000;
 
 pub struct ByteReader<R: Read> {
     reader: BufReader<R>,
@@ -90,12 +91,16 @@ impl<R: Read> ByteReader<R> {
 
     pub fn read_len(&mut self, len: u32) -> Result<Vec<u8>, String> {
         self.ensure_limit(len)?;
-        let mut buf = vec![0; len as usize];
-        match self.reader.read_exact(&mut buf) {
-            Ok(_) => {
+        // the length is only what the sender announces, so memory
+        // is reserved for the bytes that really arrive
+        let mut buf = Vec::with_capacity(len.min(MAX_PREALLOCATED) as usize);
+        let source = self.reader.by_ref();
+        match source.take(len as u64).read_to_end(&mut buf) {
+            Ok(n) if n == len as usize => {
                 self.limit(len);
                 Ok(buf)
             }
+            Ok(n) => Err(format!("Failed to read {} bytes. Reason: got {}", len, n)),
             Err(e) => Err(format!("Failed to read {} bytes. Reason: {:?}", len, e)),
         }
     }
-- 
2.43.0

