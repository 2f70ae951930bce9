From 6f2cd63ca83de16b5adc7f874d1c77555d6d5f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 01/19] fix: do not overflow or allocate by the announced
 number of bits of a bit set

A bit set whose announced number of bits was close to 2^32 panicked on
overflow, and any announced number was allocated (up to 512 MB) before a
single word of it had been read.
---
 src/common/bit_set.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/bit_set.rs b/src/common/bit_set.rs
index 177ca66..50e145a 100644
--- a/src/common/bit_set.rs
+++ b/src/common/bit_set.rs
@@ -34,12 +34,14 @@ impl<'a, C: Context> Readable<'a, C> for BitSetRef {
     #[inline]
     fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
         let number_of_bits = reader.read_u32()?;
-        let number_of_bytes = (number_of_bits + 31) / 32;
+        let number_of_words = number_of_bits / 32 + (number_of_bits % 32 != 0) as u32;
 
-        let mut bit_vec = BitVec::with_capacity(number_of_bits as usize);
+        // `number_of_bits` comes from the network, therefore storage grows
+        // only with the words which are really there
+        let mut bit_vec = BitVec::new();
         unsafe {
             let inner = bit_vec.storage_mut();
-            for _ in 0..number_of_bytes {
+            for _ in 0..number_of_words {
                 inner.push(reader.read_u32()?);
             }
         }
-- 
2.43.0


From db3647b83f206256e3defd18dcb943cdeb4beee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 02/19] fix: keep the members of a bit set read from the wire

The words were pushed into the storage of a bit vector of length zero, so
that a set read from the wire contained no number at all when queried or
iterated, and bits beyond the announced number of bits were kept.
---
 src/common/bit_set.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/common/bit_set.rs b/src/common/bit_set.rs
index 50e145a..83c8db7 100644
--- a/src/common/bit_set.rs
+++ b/src/common/bit_set.rs
@@ -38,14 +38,15 @@ impl<'a, C: Context> Readable<'a, C> for BitSetRef {
 
         // `number_of_bits` comes from the network, therefore storage grows
         // only with the words which are really there
-        let mut bit_vec = BitVec::new();
-        unsafe {
-            let inner = bit_vec.storage_mut();
-            for _ in 0..number_of_words {
-                inner.push(reader.read_u32()?);
-            }
+        let mut words = Vec::new();
+        for _ in 0..number_of_words {
+            words.push(reader.read_u32()?);
         }
 
+        let bit_vec = BitVec::from_fn(number_of_bits as usize, |bit| {
+            words[bit / 32] >> (bit % 32) & 1 != 0
+        });
+
         Ok(BitSetRef(BitSet::from_bit_vec(bit_vec)))
     }
 
-- 
2.43.0


From b236dc999fc3dc88306c6d988c31c55457afdb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 03/19] fix: do not panic iterating a received set that reaches
 beyond the number range

The base and the bits of a set come from the network; their sum need not
be a representable number.
---
 src/common/ranged_bit_set.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/ranged_bit_set.rs b/src/common/ranged_bit_set.rs
index 2430387..260843f 100644
--- a/src/common/ranged_bit_set.rs
+++ b/src/common/ranged_bit_set.rs
@@ -51,7 +51,11 @@ where
                 None => return None,
                 Some((_, false)) => {}
                 Some((i, true)) => {
-                    return Some(B::from_usize(i).unwrap().checked_add(&self.base).unwrap());
+                    // a received set may reach beyond the range of numbers
+                    let value = B::from_usize(i).and_then(|i| i.checked_add(&self.base));
+                    if value.is_some() {
+                        return value;
+                    }
                 }
             }
         }
-- 
2.43.0


From f981d146d51a24759a78d6163ae158e5c39e0ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 04/19] fix: declare the size of a locator so that bogus
 locator counts are refused

Without it a locator list allocated memory for as many locators as its
count announced, up to 100 GB, which aborts the process.
---
 src/structure/locator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/structure/locator.rs b/src/structure/locator.rs
index ad64bb0..fa5d345 100644
--- a/src/structure/locator.rs
+++ b/src/structure/locator.rs
@@ -88,6 +88,11 @@ impl<'a, C: Context> Readable<'a, C> for Locator_t {
         }
         Ok(locator)
     }
+
+    #[inline]
+    fn minimum_bytes_needed() -> usize {
+        24
+    }
 }
 
 impl<C: Context> Writable<C> for Locator_t {
-- 
2.43.0


From 9f6a30377c16d3883a574eddedff7dee249c1f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 05/19] fix: cut each submessage out of the buffer by its
 declared length

---
 src/messages/receiver.rs | 80 ++++++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 35 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 3b621dd..4a7d78a 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -18,7 +18,7 @@ use log::info;
 use speedy::{Endianness, Readable};
 use std::io::{Error, ErrorKind};
 
-use bytes::BytesMut;
+use bytes::{Buf, BytesMut};
 use tokio_util::codec::Decoder;
 
 #[derive(Debug, PartialEq)]
@@ -89,6 +89,12 @@ impl Decoder for MessageReceiver {
         };
 
         match self.state {
+            DeserializationState::ReadingHeader
+                if bytes.len() < <Header as Readable<Endianness>>::minimum_bytes_needed() =>
+            {
+                Ok(None)
+            }
+
             DeserializationState::ReadingHeader => Header::read_from_buffer_owned_with_ctx(
                 Endianness::NATIVE,
                 &bytes.split_to(<Header as Readable<Endianness>>::minimum_bytes_needed()),
@@ -111,27 +117,39 @@ impl Decoder for MessageReceiver {
             }),
 
             DeserializationState::ReadingSubmessage => {
-                SubmessageHeader::read_from_buffer_owned_with_ctx(
+                let header_length =
+                    <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed();
+                if bytes.len() < header_length {
+                    return Ok(None);
+                }
+
+                let submessage_header = SubmessageHeader::read_from_buffer_owned_with_ctx(
                     Endianness::NATIVE,
-                    &bytes.split_to(
-                        <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed(),
-                    ),
-                )
-                .and_then(|submessage_header| {
-                    if submessage_header.submessage_length == 0
-                        && submessage_header.submessage_id != SubmessageKind::INFO_TS
-                        && submessage_header.submessage_id != SubmessageKind::PAD
-                    {
-                        // This is a last submessage
-                        self.state = DeserializationState::ReadingHeader;
-                    }
-                    Ok(submessage_header)
-                })
-                .and_then(|submessage_header| match submessage_header.submessage_id {
+                    &bytes[..header_length],
+                )?;
+                let submessage_length = usize::from(submessage_header.submessage_length);
+                if bytes.len() < header_length + submessage_length {
+                    return Ok(None);
+                }
+
+                // Whatever happens to the content of this submessage,
+                // the next one starts right behind it
+                bytes.advance(header_length);
+                let mut bytes = bytes.split_to(submessage_length);
+
+                if submessage_header.submessage_length == 0
+                    && submessage_header.submessage_id != SubmessageKind::INFO_TS
+                    && submessage_header.submessage_id != SubmessageKind::PAD
+                {
+                    // This is a last submessage
+                    self.state = DeserializationState::ReadingHeader;
+                }
+
+                match submessage_header.submessage_id {
                     SubmessageKind::ACKNACK => {
                         let ack_nack = AckNack::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
                         Ok(Some(EntitySubmessage::AckNack(
                             ack_nack,
@@ -147,14 +165,14 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::GAP => {
                         let gap = Gap::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
                         Ok(Some(EntitySubmessage::Gap(gap)))
                     }
                     SubmessageKind::NACK_FRAG => {
                         let nack_frag = NackFrag::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
 
                         Ok(Some(EntitySubmessage::NackFrag(nack_frag)))
@@ -162,7 +180,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::HEARTBEAT => {
                         let heartbeat = Heartbeat::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
 
                         Ok(Some(EntitySubmessage::Heartbeat(
@@ -173,7 +191,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::HEARTBEAT_FRAG => {
                         let heartbeat_frag = HeartbeatFrag::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
 
                         Ok(Some(EntitySubmessage::HeartbeatFrag(heartbeat_frag)))
@@ -181,7 +199,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::INFO_SRC => {
                         let info_src = InfoSource::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
                         self.receiver.source_guid_prefix = info_src.guid_prefix;
                         self.receiver.source_version = info_src.protocol_version;
@@ -196,7 +214,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::INFO_DST => {
                         let info_dst = InfoDestination::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
 
                         if info_dst.guid_prefix != GuidPrefix_t::GUIDPREFIX_UNKNOWN {
@@ -206,7 +224,6 @@ impl Decoder for MessageReceiver {
                         Ok(None)
                     }
                     SubmessageKind::INFO_REPLAY => {
-                        let mut bytes = bytes.split_to(submessage_header.submessage_length.into());
                         let (unicast_locator_list, read_bytes) =
                             LocatorList_t::read_with_length_from_buffer_with_ctx(
                                 submessage_header.flags.endianness_flag(),
@@ -214,7 +231,6 @@ impl Decoder for MessageReceiver {
                             );
                         self.receiver.unicast_reply_locator_list = unicast_locator_list?;
 
-                        use crate::bytes::Buf;
                         let mut bytes = bytes.split_off(read_bytes);
 
                         self.receiver.multicast_reply_locator_list =
@@ -233,7 +249,6 @@ impl Decoder for MessageReceiver {
                         Ok(None)
                     }
                     SubmessageKind::INFO_REPLAY_IP4 => {
-                        let mut bytes = bytes.split_to(submessage_header.submessage_length.into());
                         let unicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
                             submessage_header.flags.endianness_flag(),
                             &bytes.split_to(
@@ -262,7 +277,7 @@ impl Decoder for MessageReceiver {
                         if !submessage_header.flags.is_flag_set(0x02) {
                             let timestamp = Time_t::read_from_buffer_owned_with_ctx(
                                 submessage_header.flags.endianness_flag(),
-                                &bytes.split_to(submessage_header.submessage_length.into()),
+                                &bytes,
                             )?;
                             self.receiver.have_timestamp = true;
                             self.receiver.timestamp = timestamp;
@@ -272,11 +287,7 @@ impl Decoder for MessageReceiver {
 
                         Ok(None)
                     }
-                    SubmessageKind::PAD => {
-                        use crate::bytes::Buf;
-                        bytes.advance(submessage_header.submessage_length.into());
-                        Ok(None)
-                    }
+                    SubmessageKind::PAD => Ok(None),
                     _ => {
                         info!(
                             "Received unknown submessage with id {:?}, skipping",
@@ -284,8 +295,7 @@ impl Decoder for MessageReceiver {
                         );
                         Ok(None)
                     }
-                })
-                .or_else(|err| Err(err.into()))
+                }
             }
         }
     }
-- 
2.43.0


From 5e07e1bce568bf981a926def1c00056e486e5066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 06/19] fix: do not ask for more bytes while complete
 submessages are buffered

---
 src/messages/receiver.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 4a7d78a..befedc8 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -75,11 +75,9 @@ impl MessageReceiver {
     }
 }
 
-impl Decoder for MessageReceiver {
-    type Item = EntitySubmessage;
-    type Error = std::io::Error;
-
-    fn decode(&mut self, bytes: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+impl MessageReceiver {
+    /// Decodes a single header or submessage, most of them yield no item
+    fn decode_next(&mut self, bytes: &mut BytesMut) -> Result<Option<EntitySubmessage>, Error> {
         let validate_header = |header: Header| {
             if header.valid() {
                 Ok(header)
@@ -301,6 +299,22 @@ impl Decoder for MessageReceiver {
     }
 }
 
+impl Decoder for MessageReceiver {
+    type Item = EntitySubmessage;
+    type Error = std::io::Error;
+
+    fn decode(&mut self, bytes: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+        loop {
+            let available = bytes.len();
+            let item = self.decode_next(bytes)?;
+            // `None` tells the caller that more bytes are needed
+            if item.is_some() || bytes.len() == available {
+                return Ok(item);
+            }
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use speedy::Writable;
-- 
2.43.0


From c91b12c57df19f055ceb1ca03b5a18df31f9e352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 07/19] fix: read a last submessage of length zero up to the
 end of the message

---
 src/messages/receiver.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index befedc8..be5f730 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -125,7 +125,15 @@ impl MessageReceiver {
                     Endianness::NATIVE,
                     &bytes[..header_length],
                 )?;
-                let submessage_length = usize::from(submessage_header.submessage_length);
+                let is_last = submessage_header.submessage_length == 0
+                    && submessage_header.submessage_id != SubmessageKind::INFO_TS
+                    && submessage_header.submessage_id != SubmessageKind::PAD;
+                let submessage_length = if is_last {
+                    // It extends to the end of the message
+                    bytes.len() - header_length
+                } else {
+                    usize::from(submessage_header.submessage_length)
+                };
                 if bytes.len() < header_length + submessage_length {
                     return Ok(None);
                 }
@@ -135,11 +143,7 @@ impl MessageReceiver {
                 bytes.advance(header_length);
                 let mut bytes = bytes.split_to(submessage_length);
 
-                if submessage_header.submessage_length == 0
-                    && submessage_header.submessage_id != SubmessageKind::INFO_TS
-                    && submessage_header.submessage_id != SubmessageKind::PAD
-                {
-                    // This is a last submessage
+                if is_last {
                     self.state = DeserializationState::ReadingHeader;
                 }
 
-- 
2.43.0


From c9c1249ca9ea546eef4c63197d166dcc283d588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 08/19] fix: refuse an INFO_REPLY_IP4 which is too short
 instead of panicking

---
 src/messages/receiver.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index be5f730..309224c 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -251,28 +251,27 @@ impl MessageReceiver {
                         Ok(None)
                     }
                     SubmessageKind::INFO_REPLAY_IP4 => {
-                        let unicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
-                            submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(
-                                <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(),
-                            ),
-                        )?;
-                        self.receiver.unicast_reply_locator_list = vec![unicast_locator.into()];
+                        let (unicast_locator, read_bytes) =
+                            LocatorUDPv4_t::read_with_length_from_buffer_with_ctx(
+                                submessage_header.flags.endianness_flag(),
+                                &bytes,
+                            );
+                        let unicast_locator = unicast_locator?;
 
-                        self.receiver.multicast_reply_locator_list =
+                        let multicast_reply_locator_list =
                             if submessage_header.flags.is_flag_set(0x02) {
                                 let multicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
-                                submessage_header.flags.endianness_flag(),
-                                &bytes.split_to(
-                                    <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(
-                                    ),
-                                ),
-                            )?;
+                                    submessage_header.flags.endianness_flag(),
+                                    &bytes[read_bytes..],
+                                )?;
                                 vec![multicast_locator.into()]
                             } else {
                                 vec![]
                             };
 
+                        self.receiver.unicast_reply_locator_list = vec![unicast_locator.into()];
+                        self.receiver.multicast_reply_locator_list = multicast_reply_locator_list;
+
                         Ok(None)
                     }
                     SubmessageKind::INFO_TS => {
-- 
2.43.0


From 755f5330da91a0f93015399ba8b96f70080a4500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 09/19] fix: do not keep the unicast locators of a rejected
 INFO_REPLY

---
 src/messages/receiver.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 309224c..8249938 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -231,11 +231,11 @@ impl MessageReceiver {
                                 submessage_header.flags.endianness_flag(),
                                 &bytes,
                             );
-                        self.receiver.unicast_reply_locator_list = unicast_locator_list?;
+                        let unicast_locator_list = unicast_locator_list?;
 
                         let mut bytes = bytes.split_off(read_bytes);
 
-                        self.receiver.multicast_reply_locator_list =
+                        let multicast_locator_list =
                             if submessage_header.flags.is_flag_set(0x02) {
                                 let (multicast_locator_list, read_bytes) =
                                     LocatorList_t::read_with_length_from_buffer_with_ctx(
@@ -248,6 +248,9 @@ impl MessageReceiver {
                                 vec![]
                             };
 
+                        self.receiver.unicast_reply_locator_list = unicast_locator_list;
+                        self.receiver.multicast_reply_locator_list = multicast_locator_list;
+
                         Ok(None)
                     }
                     SubmessageKind::INFO_REPLAY_IP4 => {
-- 
2.43.0


From eaa2a90a775e55847bebf638390535168e24c315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 10/19] fix: let INFO_DST with the unknown prefix address this
 participant again

---
 src/messages/receiver.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 8249938..02fef78 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -219,9 +219,8 @@ impl MessageReceiver {
                             &bytes,
                         )?;
 
-                        if info_dst.guid_prefix != GuidPrefix_t::GUIDPREFIX_UNKNOWN {
-                            self.receiver.dest_guid_prefix = info_dst.guid_prefix;
-                        }
+                        // The unknown prefix addresses the receiving participant again
+                        self.receiver.dest_guid_prefix = info_dst.guid_prefix;
 
                         Ok(None)
                     }
-- 
2.43.0


From 49db74859c6bb474bdad4a6689b77e5ffe99c68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 11/19] fix: start every message with a fresh interpretation
 context

---
 src/messages/receiver.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 02fef78..f8d74fc 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -62,6 +62,7 @@ enum DeserializationState {
 }
 
 pub struct MessageReceiver {
+    locator_kind: LocatorKind_t,
     receiver: Receiver,
     state: DeserializationState,
 }
@@ -69,6 +70,7 @@ pub struct MessageReceiver {
 impl MessageReceiver {
     pub fn new(locator_kind: LocatorKind_t) -> Self {
         MessageReceiver {
+            locator_kind,
             receiver: Receiver::new(locator_kind),
             state: DeserializationState::ReadingHeader,
         }
@@ -99,10 +101,11 @@ impl MessageReceiver {
             )
             .and_then(validate_header)
             .and_then(|header: Header| {
+                // Nothing of the previous message applies to this one
+                self.receiver = Receiver::new(self.locator_kind);
                 self.receiver.source_guid_prefix = header.guid_prefix;
                 self.receiver.source_version = header.protocol_version;
                 self.receiver.source_vendor_id = header.vendor_id;
-                self.receiver.have_timestamp = false;
 
                 self.state = DeserializationState::ReadingSubmessage;
                 Ok(None)
-- 
2.43.0


From 61abcb10fcf611bb783857033545b84594b8232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 12/19] fix: do not carry an unfinished message over the end of
 the input

---
 src/messages/receiver.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index f8d74fc..330a0ca 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -237,18 +237,17 @@ impl MessageReceiver {
 
                         let mut bytes = bytes.split_off(read_bytes);
 
-                        let multicast_locator_list =
-                            if submessage_header.flags.is_flag_set(0x02) {
-                                let (multicast_locator_list, read_bytes) =
-                                    LocatorList_t::read_with_length_from_buffer_with_ctx(
-                                        submessage_header.flags.endianness_flag(),
-                                        &bytes,
-                                    );
-                                bytes.advance(read_bytes);
-                                multicast_locator_list?
-                            } else {
-                                vec![]
-                            };
+                        let multicast_locator_list = if submessage_header.flags.is_flag_set(0x02) {
+                            let (multicast_locator_list, read_bytes) =
+                                LocatorList_t::read_with_length_from_buffer_with_ctx(
+                                    submessage_header.flags.endianness_flag(),
+                                    &bytes,
+                                );
+                            bytes.advance(read_bytes);
+                            multicast_locator_list?
+                        } else {
+                            vec![]
+                        };
 
                         self.receiver.unicast_reply_locator_list = unicast_locator_list;
                         self.receiver.multicast_reply_locator_list = multicast_locator_list;
@@ -321,6 +320,19 @@ impl Decoder for MessageReceiver {
             }
         }
     }
+
+    fn decode_eof(&mut self, bytes: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+        let item = self.decode(bytes)?;
+        if item.is_none() {
+            // The message ends here, complete or not, the next bytes open a new one
+            self.state = DeserializationState::ReadingHeader;
+            if !bytes.is_empty() {
+                bytes.clear();
+                return Err(Error::new(ErrorKind::Other, "bytes remaining on stream"));
+            }
+        }
+        Ok(item)
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 2e3686568a61cd607fd44b75aa93af6b9810f877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 13/19] fix: pad parameters to a multiple of four and refuse
 values too long for their length

---
 src/messages/submessage_elements/parameter.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/messages/submessage_elements/parameter.rs b/src/messages/submessage_elements/parameter.rs
index 096de34..7a65509 100644
--- a/src/messages/submessage_elements/parameter.rs
+++ b/src/messages/submessage_elements/parameter.rs
@@ -1,5 +1,6 @@
 use crate::structure::parameter_id::ParameterId;
 use speedy::{Context, Readable, Reader, Writable, Writer};
+use std::convert::TryFrom;
 
 #[derive(Debug, PartialEq)]
 pub struct Parameter {
@@ -14,10 +15,12 @@ impl<'a, C: Context> Readable<'a, C> for Parameter {
     #[inline]
     fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
         let parameter_id: ParameterId = reader.read_value()?;
-        let length = reader.read_u16()?;
-        let alignment = length % 4;
+        let length = usize::from(reader.read_u16()?);
+        let alignment = (4 - length % 4) % 4;
 
-        let mut value = Vec::with_capacity((length + alignment) as usize);
+        // `length` comes from the network, therefore storage grows
+        // only with the bytes which are really there
+        let mut value = Vec::new();
 
         for _ in 0..(length + alignment) {
             let byte = reader.read_u8()?;
@@ -32,7 +35,7 @@ impl<'a, C: Context> Readable<'a, C> for Parameter {
 
     #[inline]
     fn minimum_bytes_needed() -> usize {
-        8
+        4
     }
 }
 
@@ -42,8 +45,10 @@ impl<C: Context> Writable<C> for Parameter {
         writer.write_value(&self.parameter_id)?;
 
         let length = self.value.len();
-        let alignment = length % 4;
-        writer.write_u16((length + alignment) as u16)?;
+        let alignment = (4 - length % 4) % 4;
+        let aligned_length = u16::try_from(length + alignment)
+            .map_err(|_| speedy::Error::custom("Parameter value is too long"))?;
+        writer.write_u16(aligned_length)?;
 
         for byte in &self.value {
             writer.write_u8(*byte)?;
-- 
2.43.0


From 6aedeb799763c203f9fef44d7ce6d0d1058b35e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 14/19] fix: refuse times which do not fit instead of wrapping
 them around

---
 src/structure/time.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/structure/time.rs b/src/structure/time.rs
index 052331f..9510cf5 100644
--- a/src/structure/time.rs
+++ b/src/structure/time.rs
@@ -37,10 +37,12 @@ impl From<SystemTime> for Time_t {
             .duration_since(std::time::UNIX_EPOCH)
             .and_then(|dur_since_epoch| {
                 let fraction = (i64::from(dur_since_epoch.subsec_nanos()) << 32) / NANOS_PER_SEC;
-                Ok(Time_t {
-                    seconds: dur_since_epoch.as_secs() as i32,
-                    fraction: fraction as u32,
-                })
+                Ok(i32::try_from(dur_since_epoch.as_secs())
+                    .map(|seconds| Time_t {
+                        seconds,
+                        fraction: fraction as u32,
+                    })
+                    .unwrap_or(Time_t::TIME_INVALID))
             })
             .unwrap_or(Time_t::TIME_INVALID)
     }
@@ -53,8 +55,10 @@ impl TryFrom<Time_t> for SystemTime {
         match time {
             Time_t::TIME_INVALID => Err("Conversion from Time_t::TIME_INVALID"),
             _ => {
+                let seconds =
+                    u64::try_from(time.seconds).map_err(|_| "Conversion from negative Time_t")?;
                 let fraction = (i64::from(time.fraction) * NANOS_PER_SEC) >> 32;
-                Ok(std::time::UNIX_EPOCH + Duration::new(time.seconds as u64, fraction as u32))
+                Ok(std::time::UNIX_EPOCH + Duration::new(seconds, fraction as u32))
             }
         }
     }
-- 
2.43.0


From 2d97e972ee625a80c8288d4a7942583292407550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 15/19] fix: do not wrap durations around which do not fit

---
 src/structure/duration.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/structure/duration.rs b/src/structure/duration.rs
index 0246417..0df3894 100644
--- a/src/structure/duration.rs
+++ b/src/structure/duration.rs
@@ -1,5 +1,5 @@
 use speedy::{Readable, Writable};
-use std::convert::From;
+use std::convert::{From, TryFrom};
 use std::time::Duration;
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Readable, Writable)]
@@ -25,16 +25,20 @@ impl Duration_t {
 
 impl From<Duration> for Duration_t {
     fn from(duration: Duration) -> Self {
-        Duration_t {
-            seconds: duration.as_secs() as i32,
-            fraction: duration.subsec_nanos() as u32,
-        }
+        i32::try_from(duration.as_secs())
+            .map(|seconds| Duration_t {
+                seconds,
+                fraction: duration.subsec_nanos() as u32,
+            })
+            .unwrap_or(Duration_t::DURATION_INFINITE)
     }
 }
 
 impl From<Duration_t> for Duration {
     fn from(duration: Duration_t) -> Self {
-        Duration::new(duration.seconds as u64, duration.fraction)
+        u64::try_from(duration.seconds)
+            .map(|seconds| Duration::new(seconds, duration.fraction))
+            .unwrap_or_default()
     }
 }
 
-- 
2.43.0


From 910d7e591315586c83bc6adbef53f5c678299338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 16/19] fix: do not turn a locator port beyond 65535 into
 another port

---
 src/structure/locator.rs        | 20 ++++++++++++++------
 src/structure/locator_udp_v4.rs |  9 +++++----
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/structure/locator.rs b/src/structure/locator.rs
index fa5d345..119d109 100644
--- a/src/structure/locator.rs
+++ b/src/structure/locator.rs
@@ -1,7 +1,10 @@
 use crate::structure::locator_udp_v4::LocatorUDPv4_t;
 use speedy::{Context, Readable, Reader, Writable, Writer};
 pub use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
-use std::{convert::From, net::SocketAddrV4};
+use std::{
+    convert::{From, TryFrom},
+    net::SocketAddrV4,
+};
 
 pub use crate::structure::locator_kind::LocatorKind_t;
 
@@ -52,6 +55,12 @@ impl From<SocketAddr> for Locator_t {
 
 impl From<Locator_t> for SocketAddr {
     fn from(locator: Locator_t) -> Self {
+        let port = match u16::try_from(locator.port) {
+            Ok(port) => port,
+            // not a port of UDP, must not become another one
+            Err(_) => return SocketAddr::new(IpAddr::V6(Ipv6Addr::UNSPECIFIED), 0),
+        };
+
         match locator.kind {
             LocatorKind_t::LOCATOR_KIND_UDPv4 => SocketAddr::new(
                 IpAddr::V4(Ipv4Addr::new(
@@ -60,12 +69,11 @@ impl From<Locator_t> for SocketAddr {
                     locator.address[14],
                     locator.address[15],
                 )),
-                locator.port as u16,
-            ),
-            LocatorKind_t::LOCATOR_KIND_UDPv6 => SocketAddr::new(
-                IpAddr::V6(Ipv6Addr::from(locator.address)),
-                locator.port as u16,
+                port,
             ),
+            LocatorKind_t::LOCATOR_KIND_UDPv6 => {
+                SocketAddr::new(IpAddr::V6(Ipv6Addr::from(locator.address)), port)
+            }
             _ => SocketAddr::new(IpAddr::V6(Ipv6Addr::UNSPECIFIED), 0),
         }
     }
diff --git a/src/structure/locator_udp_v4.rs b/src/structure/locator_udp_v4.rs
index e47e448..9907626 100644
--- a/src/structure/locator_udp_v4.rs
+++ b/src/structure/locator_udp_v4.rs
@@ -1,4 +1,5 @@
 use speedy::{Readable, Writable};
+use std::convert::TryFrom;
 use std::net::{Ipv4Addr, SocketAddrV4};
 
 /// Specialization of Locator_t used to hold UDP IPv4 locators using a more
@@ -32,10 +33,10 @@ impl From<SocketAddrV4> for LocatorUDPv4_t {
 
 impl From<LocatorUDPv4_t> for SocketAddrV4 {
     fn from(locator_udp_v4: LocatorUDPv4_t) -> Self {
-        SocketAddrV4::new(
-            Ipv4Addr::from(locator_udp_v4.address),
-            locator_udp_v4.port as u16,
-        )
+        u16::try_from(locator_udp_v4.port)
+            .map(|port| SocketAddrV4::new(Ipv4Addr::from(locator_udp_v4.address), port))
+            // not a port of UDP, must not become another one
+            .unwrap_or_else(|_| SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 0))
     }
 }
 
-- 
2.43.0


From 34a4cf61053f58206a2402a27504849b83d6c45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 17/19] Give the verification harness access to private types
 (cfg rtps_verif)

---
 src/behavior/reader_locator.rs                | 17 ++++++
 src/behavior/stateful_writer.rs               | 16 ++++++
 src/behavior/stateless_writer.rs              | 52 +++++++++++++++++++
 src/lib.rs                                    | 17 ++++++
 src/messages/receiver.rs                      |  7 +++
 src/messages/submessage_elements/parameter.rs | 14 +++++
 src/structure/history_cache.rs                | 33 ++++++++++++
 7 files changed, 156 insertions(+)

diff --git a/src/behavior/reader_locator.rs b/src/behavior/reader_locator.rs
index 7a3593e..6355dc7 100644
--- a/src/behavior/reader_locator.rs
+++ b/src/behavior/reader_locator.rs
@@ -49,3 +49,20 @@ impl ReaderLocator {
         unimplemented!();
     }
 }
+
+#[cfg(rtps_verif)]
+impl ReaderLocator {
+    pub fn verif_new(
+        requested_changes: Vec<CacheChange>,
+        unsent_changes: Vec<CacheChange>,
+        locator: Locator_t,
+        expects_inline_qos: bool,
+    ) -> Self {
+        ReaderLocator {
+            requested_changes,
+            unsent_changes,
+            locator,
+            expects_inline_qos,
+        }
+    }
+}
diff --git a/src/behavior/stateful_writer.rs b/src/behavior/stateful_writer.rs
index 4efabfe..c96b89f 100644
--- a/src/behavior/stateful_writer.rs
+++ b/src/behavior/stateful_writer.rs
@@ -76,5 +76,21 @@ impl StatefulWriter {
     }
 }
 
+#[cfg(rtps_verif)]
+impl StatefulWriter {
+    pub fn verif_new(
+        entity: EntityAttributes,
+        endpoint: EndpointAttributes,
+        writer: WriterAttributes,
+    ) -> Self {
+        StatefulWriter {
+            matched_readers: Default::default(),
+            entity,
+            endpoint,
+            writer,
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {}
diff --git a/src/behavior/stateless_writer.rs b/src/behavior/stateless_writer.rs
index 1b8a49f..00835e2 100644
--- a/src/behavior/stateless_writer.rs
+++ b/src/behavior/stateless_writer.rs
@@ -95,5 +95,57 @@ impl StatelessWriter {
     }
 }
 
+#[cfg(rtps_verif)]
+pub mod verif {
+    use super::*;
+
+    pub struct VerifStatelessWriter(StatelessWriter);
+
+    impl VerifStatelessWriter {
+        pub fn new(
+            entity_attributes: EntityAttributes,
+            endpoint_attributes: EndpointAttributes,
+            writer_attributes: WriterAttributes,
+            resend_data_period: Time_t,
+        ) -> Self {
+            VerifStatelessWriter(StatelessWriter::new(
+                entity_attributes,
+                endpoint_attributes,
+                writer_attributes,
+                resend_data_period,
+            ))
+        }
+
+        pub fn as_entity(&self) -> &EntityAttributes {
+            self.0.as_entity()
+        }
+
+        pub fn as_writer(&self) -> &WriterAttributes {
+            self.0.as_writer()
+        }
+
+        pub fn new_change(
+            &mut self,
+            kind: ChangeKind_t,
+            data: Data,
+            handle: InstanceHandle_t,
+        ) -> CacheChange {
+            self.0.new_change(kind, data, handle)
+        }
+
+        pub fn reader_locator_add(&mut self, a_locator: ReaderLocator) {
+            self.0.reader_locator_add(a_locator)
+        }
+
+        pub fn reader_locator_remove(&mut self, a_locator: ReaderLocator) {
+            self.0.reader_locator_remove(a_locator)
+        }
+
+        pub fn reader_locators(&self) -> impl Iterator<Item = &ReaderLocator> {
+            self.0.reader_locators.iter()
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {}
diff --git a/src/lib.rs b/src/lib.rs
index 8489566..2aa34f8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -20,3 +20,20 @@ mod dds;
 mod discovery;
 mod messages;
 mod structure;
+
+/// Access for the verification harness, not part of the public interface
+#[cfg(rtps_verif)]
+pub mod verif {
+    pub mod behavior {
+        pub use crate::behavior::*;
+    }
+    pub mod common {
+        pub use crate::common::*;
+    }
+    pub mod messages {
+        pub use crate::messages::*;
+    }
+    pub mod structure {
+        pub use crate::structure::*;
+    }
+}
diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 330a0ca..78079c6 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -335,6 +335,13 @@ impl Decoder for MessageReceiver {
     }
 }
 
+#[cfg(rtps_verif)]
+impl MessageReceiver {
+    pub fn verif_receiver(&self) -> &Receiver {
+        &self.receiver
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use speedy::Writable;
diff --git a/src/messages/submessage_elements/parameter.rs b/src/messages/submessage_elements/parameter.rs
index 7a65509..bb119b3 100644
--- a/src/messages/submessage_elements/parameter.rs
+++ b/src/messages/submessage_elements/parameter.rs
@@ -62,6 +62,20 @@ impl<C: Context> Writable<C> for Parameter {
     }
 }
 
+#[cfg(rtps_verif)]
+impl Parameter {
+    pub fn verif_new(parameter_id: ParameterId, value: Vec<u8>) -> Self {
+        Parameter {
+            parameter_id,
+            value,
+        }
+    }
+
+    pub fn verif_parts(&self) -> (&ParameterId, &[u8]) {
+        (&self.parameter_id, &self.value)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/structure/history_cache.rs b/src/structure/history_cache.rs
index 743d6d8..9fcb6fe 100644
--- a/src/structure/history_cache.rs
+++ b/src/structure/history_cache.rs
@@ -42,6 +42,39 @@ impl HistoryCache {
     }
 }
 
+#[cfg(rtps_verif)]
+pub mod verif {
+    use super::*;
+
+    pub struct VerifHistoryCache(HistoryCache);
+
+    impl VerifHistoryCache {
+        pub fn new() -> Self {
+            VerifHistoryCache(HistoryCache::new())
+        }
+
+        pub fn add_change(&mut self, change: CacheChange) {
+            self.0.add_change(change)
+        }
+
+        pub fn get_change(&self, sequence_number: SequenceNumber_t) -> Option<&CacheChange> {
+            self.0.get_change(sequence_number)
+        }
+
+        pub fn remove_change(&mut self, sequence_number: SequenceNumber_t) {
+            self.0.remove_change(sequence_number)
+        }
+
+        pub fn get_seq_num_min(&self) -> Option<SequenceNumber_t> {
+            self.0.get_seq_num_min().copied()
+        }
+
+        pub fn get_seq_num_max(&self) -> Option<SequenceNumber_t> {
+            self.0.get_seq_num_max().copied()
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 4464dae194216db447cbe98d9ed2043d8f268d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 18/19] fix: refuse DATA and DATA_FRAG with an error instead of
 panicking

---
 src/messages/receiver.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 78079c6..6f95225 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -161,12 +161,13 @@ impl MessageReceiver {
                             submessage_header.flags,
                         )))
                     }
-                    SubmessageKind::DATA => {
-                        unimplemented!();
-                    }
-                    SubmessageKind::DATA_FRAG => {
-                        unimplemented!();
-                    }
+                    SubmessageKind::DATA | SubmessageKind::DATA_FRAG => Err(Error::new(
+                        ErrorKind::Other,
+                        format!(
+                            "Submessage {:?} is not supported",
+                            submessage_header.submessage_id
+                        ),
+                    )),
                     SubmessageKind::GAP => {
                         let gap = Gap::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-- 
2.43.0


From 238e04e22864edc6d137a489c69eb7137a96c177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:19 +0000
Subject: [PATCH 19/19] Show a stateless writer's endpoint attributes to the
 verification harness (cfg rtps_verif)

---
 src/behavior/stateless_writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/behavior/stateless_writer.rs b/src/behavior/stateless_writer.rs
index 00835e2..b4edd94 100644
--- a/src/behavior/stateless_writer.rs
+++ b/src/behavior/stateless_writer.rs
@@ -120,6 +120,10 @@ pub mod verif {
             self.0.as_entity()
         }
 
+        pub fn as_endpoint(&self) -> &EndpointAttributes {
+            self.0.as_endpoint()
+        }
+
         pub fn as_writer(&self) -> &WriterAttributes {
             self.0.as_writer()
         }
-- 
2.43.0

