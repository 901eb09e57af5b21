From 8c00ba61123d436fd430f4670f1c8b7c431135f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:32 +0000
Subject: [PATCH 01/31] fix: size of the byte form of time code, song position
 and tune request

Song position pointer is three bytes, time code two and tune request one.
A song position pointer lost its high data byte (and setting it in a two
byte buffer panicked), time code carried a spurious third byte and a one
byte tune request could not be parsed.
---
 midi2/src/system_common.rs                       | 2 +-
 midi2/src/system_common/song_position_pointer.rs | 2 +-
 midi2/src/system_common/time_code.rs             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi2/src/system_common.rs b/midi2/src/system_common.rs
index f3122ac..500ce5e 100644
--- a/midi2/src/system_common.rs
+++ b/midi2/src/system_common.rs
@@ -20,7 +20,7 @@ mod tune_request {
         Via(system_common::SystemCommon),
         FixedSize,
         MinSizeUmp(1),
-        MinSizeBytes(2)
+        MinSizeBytes(1)
     )]
     struct TuneRequest {
         #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
diff --git a/midi2/src/system_common/song_position_pointer.rs b/midi2/src/system_common/song_position_pointer.rs
index ea23dd6..1753655 100644
--- a/midi2/src/system_common/song_position_pointer.rs
+++ b/midi2/src/system_common/song_position_pointer.rs
@@ -12,7 +12,7 @@ pub const STATUS: u8 = 0xF2;
     Via(system_common::SystemCommon),
     FixedSize,
     MinSizeUmp(1),
-    MinSizeBytes(2)
+    MinSizeBytes(3)
 )]
 struct SongPositionPointer {
     #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
diff --git a/midi2/src/system_common/time_code.rs b/midi2/src/system_common/time_code.rs
index 97ba7cd..74ece8b 100644
--- a/midi2/src/system_common/time_code.rs
+++ b/midi2/src/system_common/time_code.rs
@@ -12,7 +12,7 @@ pub const STATUS: u8 = 0xF1;
     Via(system_common::SystemCommon),
     FixedSize,
     MinSizeUmp(1),
-    MinSizeBytes(3)
+    MinSizeBytes(2)
 )]
 struct TimeCode {
     #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
-- 
2.43.0


From 10fb3af892845a65c40ff5e52325b3b00bbcd57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:17 +0000
Subject: [PATCH 02/31] fix: writing EffectDepth 5 and ChorusSendLevel
 controllers

Setting the controller read from index 95 panicked (the arm was missing) and
ChorusSendLevel (controller 93) was written as 91, reverb send level.
---
 midi2/src/channel_voice2/controller.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/midi2/src/channel_voice2/controller.rs b/midi2/src/channel_voice2/controller.rs
index bf385c5..5073580 100644
--- a/midi2/src/channel_voice2/controller.rs
+++ b/midi2/src/channel_voice2/controller.rs
@@ -118,8 +118,9 @@ pub fn to_index_and_data(c: Controller) -> (u8, u32) {
         Controller::ReverbSendLevel(data) => (91, data),
         Controller::EffectDepth { index: 2, data } => (92, data),
         Controller::EffectDepth { index: 3, data } => (93, data),
-        Controller::ChorusSendLevel(data) => (91, data),
+        Controller::ChorusSendLevel(data) => (93, data),
         Controller::EffectDepth { index: 4, data } => (94, data),
+        Controller::EffectDepth { index: 5, data } => (95, data),
         _ => unreachable!(),
     }
 }
-- 
2.43.0


From 307d3565e239fada1c7ca93f4c04cdb575eaa542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:06 +0000
Subject: [PATCH 03/31] fix: sysex7 payload writes clear the whole octet of a
 reused buffer

---
 midi2/src/sysex7.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index e754d17..4b0311c 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -591,7 +591,7 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                 let buffer_index = 2 * (payload_index / 6);
                 let byte_index = payload_index % 6;
                 self.0.specialise_u32_mut()[buffer_index + (byte_index + 2) / 4]
-                    .set_septet((byte_index + 2) % 4, datum);
+                    .set_octet((byte_index + 2) % 4, datum.into());
             }
             _ => unreachable!(),
         }
-- 
2.43.0


From 5664f3a28189da8bbebdb4997b53fe5b9f1a00bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:06 +0000
Subject: [PATCH 04/31] fix: position of the payload tail when splicing fills a
 fixed size buffer

---
 midi2/src/detail/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 148bfb1..8486f2c 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -229,7 +229,7 @@ mod detail {
                     ) {
                         // failed. we'll work with what we've got
                         running_data_size_estimate = sz.saturating_sub(initial_size - splice_size);
-                        to = splice_begin + running_data_size_estimate - splice_size;
+                        to = splice_begin + running_data_size_estimate;
                     };
                 }
 
-- 
2.43.0


From 99f4d9f99b45b92d03c43ff3733dc851777ea52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:19 +0000
Subject: [PATCH 05/31] fix: stale end bytes when a sysex7 byte payload grows
 in a reused buffer

---
 midi2/src/sysex7.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 4b0311c..1bb2766 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -534,8 +534,8 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                 let old_payload_size = self.payload_size();
                 self.0.resize(buffer_sz);
                 if payload_size > old_payload_size {
-                    // erase old end bit
-                    self.0.specialise_u8_mut()[old_payload_size + 1] = 0;
+                    // erase old end byte and whatever follows it in the buffer
+                    self.0.specialise_u8_mut()[old_payload_size + 1..buffer_sz - 1].fill(0);
                 }
                 self.0.specialise_u8_mut()[buffer_sz - 1] = END_BYTE;
             }
@@ -563,9 +563,9 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                     buffer_sz = self.0.buffer().len();
                     crate::traits::SysexTryResizeError(buffer_sz.saturating_sub(2))
                 });
-                if buffer_sz > old_payload_size {
-                    // erase old end bit
-                    self.0.specialise_u8_mut()[old_payload_size + 1] = 0;
+                if buffer_sz - 2 > old_payload_size {
+                    // erase old end byte and whatever follows it in the buffer
+                    self.0.specialise_u8_mut()[old_payload_size + 1..buffer_sz - 1].fill(0);
                 }
                 self.0.specialise_u8_mut()[buffer_sz - 1] = END_BYTE;
                 result
-- 
2.43.0


From 35c571b7e18c3e0724ccacff8c117ca55b1a05ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:05 +0000
Subject: [PATCH 06/31] fix: sysex set_byte and insert panic past the end of
 the payload as documented

---
 midi2/src/detail/helpers.rs | 4 ++++
 midi2/src/sysex7.rs         | 4 ++++
 midi2/src/sysex8.rs         | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 8486f2c..d6eda62 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -168,6 +168,10 @@ mod detail {
             core::ops::Bound::Excluded(&v) => v,
             core::ops::Bound::Unbounded => initial_size,
         };
+        assert!(
+            splice_begin <= splice_end && splice_end <= initial_size,
+            "range is out of the bounds of the payload"
+        );
         let splice_size = splice_end - splice_begin;
 
         let mut running_data_size_estimate = match data.size_hint() {
diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 1bb2766..256a9e8 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -471,6 +471,10 @@ impl<B: crate::buffer::Buffer> Sysex<B> for Sysex7<B> {
     where
         B: crate::buffer::BufferMut,
     {
+        assert!(
+            index < self.payload_size(),
+            "index is out of the bounds of the payload"
+        );
         match <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID {
             crate::buffer::UNIT_ID_U8 => {
                 let buffer = self.buffer_access_mut().specialise_u8_mut();
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 0328a6a..fd6377b 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -375,6 +375,10 @@ impl<B: crate::buffer::Ump> Sysex<B> for Sysex8<B> {
     where
         B: crate::buffer::BufferMut,
     {
+        assert!(
+            index < self.payload_size(),
+            "index is out of the bounds of the payload"
+        );
         // can't assume a compact payload here:
         // linear complexity
 
-- 
2.43.0


From d4c7e2c8acea0f2ccb5cdbf3203b69c13b4bc2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:06 +0000
Subject: [PATCH 07/31] fix: sysex8 stream id setter writes the stream id field

---
 midi2/src/sysex8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index fd6377b..8740407 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -177,7 +177,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
             .chunks_exact_mut(4)
             .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
         {
-            packet[0].set_octet(3, id);
+            packet[0].set_octet(2, id);
         }
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
-- 
2.43.0


From a6a7ffab2b216a2902af7715dffc88482e79725a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:22 +0000
Subject: [PATCH 08/31] fix: sysex8 packets added by a resize carry the stream
 id

---
 midi2/src/sysex8.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 8740407..71f53ec 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -521,6 +521,7 @@ fn try_resize<
         .take(buffer_size / 4)
         .peekable();
     let mut group = None;
+    let mut stream_id = None;
 
     const MESSAGE_TYPE: u4 = u4::new(UMP_MESSAGE_TYPE);
     const STATUS_COMPLETE: u4 = u4::new(0x0);
@@ -532,6 +533,7 @@ fn try_resize<
     if let Some(first_packet) = iter.next() {
         first_packet[0].set_nibble(0, MESSAGE_TYPE);
         group = Some(first_packet[0].nibble(1));
+        stream_id = Some(stream_id_from_packet(first_packet));
         if iter.peek().is_some() {
             // start packet
             first_packet[0].set_nibble(2, STATUS_START);
@@ -546,6 +548,7 @@ fn try_resize<
     while let Some(chunk) = iter.next() {
         chunk[0].set_nibble(0, MESSAGE_TYPE);
         chunk[0].set_nibble(1, group.unwrap());
+        chunk[0].set_octet(2, stream_id.unwrap());
         if iter.peek().is_some() {
             // middle packet
             chunk[0].set_nibble(2, STATUS_CONTINUE);
-- 
2.43.0


From e993a65533ebb0148813ab7b976f336fe99ffe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:39 +0000
Subject: [PATCH 09/31] fix: sysex7 compactness test looks at every packet

---
 midi2/src/sysex7.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 256a9e8..538e6d9 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -672,7 +672,7 @@ fn is_compact<B: crate::buffer::Buffer>(sysex: &Sysex7<B>) -> bool {
                 .0
                 .buffer()
                 .specialise_u32()
-                .chunks_exact(4)
+                .chunks_exact(2)
                 .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
             {
                 let status: u8 = chunk[0].nibble(2).into();
-- 
2.43.0


From 2834241cd2d111a522f62a6eeb34d7f80ff32999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:55 +0000
Subject: [PATCH 10/31] fix: reject multi packet messages which end in an
 incomplete packet

---
 midi2/src/detail/helpers.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index d6eda62..ebee0d0 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -78,6 +78,11 @@ pub fn validate_sysex_group_statuses<
     }
 
     while let Some(chunk) = iter.next() {
+        if chunk.len() < stride {
+            return Err(InvalidData(
+                crate::detail::common_err_strings::ERR_SLICE_TOO_SHORT,
+            ));
+        }
         if iter.peek().is_some() && !is_continue(chunk) {
             return Err(InvalidData(ERR_SYSEX_EXPECTED_CONTINUE));
         }
-- 
2.43.0


From 482957eddb1e77cfc77a1b517ed59a7bbc453413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:10 +0000
Subject: [PATCH 11/31] fix: sysex packet sizes are not validated in messages
 which follow in the slice

---
 midi2/src/sysex7.rs |  1 +
 midi2/src/sysex8.rs | 13 +++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 538e6d9..a9df1e5 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -173,6 +173,7 @@ impl<'a, B: crate::buffer::Buffer> crate::detail::property::ReadProperty<'a, B>
             if buffer
                 .specialise_u32()
                 .chunks_exact(2)
+                .take_while(|p| u8::from(p[0].nibble(0)) == UMP_MESSAGE_TYPE)
                 .any(|p| u8::from(p[0].nibble(3)) > 6)
             {
                 Err(crate::error::InvalidData(ERR_INVALID_PACKET_SIZE))
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 71f53ec..c593a82 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -66,10 +66,15 @@ impl<B: crate::buffer::Ump> crate::detail::property::Property<B> for ValidPacket
 impl<'a, B: crate::buffer::Ump> crate::detail::property::ReadProperty<'a, B> for ValidPacketSizes {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer.buffer().chunks_exact(4).any(|p| {
-            let number_bytes = u8::from(p[0].nibble(3));
-            !(1..=14).contains(&number_bytes)
-        }) {
+        if buffer
+            .buffer()
+            .chunks_exact(4)
+            .take_while(|p| u8::from(p[0].nibble(0)) == UMP_MESSAGE_TYPE)
+            .any(|p| {
+                let number_bytes = u8::from(p[0].nibble(3));
+                !(1..=14).contains(&number_bytes)
+            })
+        {
             Err(crate::error::InvalidData(
                 ERR_INVALID_NUMBER_OF_PAYLOAD_BYTES,
             ))
-- 
2.43.0


From 82e336f252e85cf5d93c2569be3856016fdb57fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:24 +0000
Subject: [PATCH 12/31] fix: nth of the sysex payload iterators past the last
 byte

---
 midi2/src/sysex7.rs | 16 ++++++++--------
 midi2/src/sysex8.rs | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index a9df1e5..cd38f05 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -899,6 +899,13 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
                 self.next()
             }
             crate::buffer::UNIT_ID_U32 => {
+                if n >= self.size_cache {
+                    // we ran out of data
+                    // so we set the iterator into finished state
+                    self.size_cache = 0;
+                    return None;
+                }
+
                 let mut do_nth = || {
                     let mut packets = self.data_ump()[self.packet_index * 2..]
                         .chunks_exact(2)
@@ -937,14 +944,7 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
                     self.next()
                 };
 
-                let ret = do_nth();
-                if ret.is_none() {
-                    // if we failed it means we ran out of data
-                    // so we set the iterator into finished state
-                    self.packet_index = self.data.len() / 2;
-                    self.size_cache = 0;
-                }
-                ret
+                do_nth()
             }
             _ => unreachable!(),
         }
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index c593a82..3f790cb 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -239,6 +239,13 @@ impl core::iter::Iterator for PayloadIterator<'_> {
     ///
     /// O(n)
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
+        if n >= self.size_cache {
+            // we ran out of data
+            // so we set the iterator into finished state
+            self.size_cache = 0;
+            return None;
+        }
+
         let mut do_nth = || {
             let mut packets = self.data[self.packet_index * 4..]
                 .chunks_exact(4)
@@ -277,14 +284,7 @@ impl core::iter::Iterator for PayloadIterator<'_> {
             self.next()
         };
 
-        let ret = do_nth();
-        if ret.is_none() {
-            // if we failed it means we ran out of data
-            // so we set the iterator into finished state
-            self.packet_index = self.data.len() / 2;
-            self.size_cache = 0;
-        }
-        ret
+        do_nth()
     }
 
     fn count(self) -> usize
-- 
2.43.0


From a1e84a5e0b41d705728a443c7c177af4db8e42f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:53 +0000
Subject: [PATCH 13/31] fix: size_hint and nth of the sysex7 byte payload
 iterator

---
 midi2/src/sysex7.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index cd38f05..96ac52e 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -895,7 +895,7 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
         match U::UNIT_ID {
             crate::buffer::UNIT_ID_U8 => {
-                self.payload_index += n;
+                self.payload_index = self.payload_index.saturating_add(n).min(self.data.len());
                 self.next()
             }
             crate::buffer::UNIT_ID_U32 => {
@@ -958,7 +958,7 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.size_cache, Some(self.size_cache))
+        (self.len(), Some(self.len()))
     }
 }
 
-- 
2.43.0


From 6ed0fbe2cf2a42d715a4083fc0f96a6b8c979e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:10 +0000
Subject: [PATCH 14/31] fix: reject sysex7 byte messages whose payload has
 bytes above 0x7F

---
 midi2/src/sysex7.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 96ac52e..44ae4ee 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -36,6 +36,7 @@ struct Sysex7 {
 
 const ERR_NO_BEGIN_BYTE: &str = "Sysex messages should begin 0xF0";
 const ERR_NO_END_BYTE: &str = "Sysex messages should end 0xF7";
+const ERR_INVALID_DATA_BYTE: &str = "Sysex payload bytes can not exceed 0x7F";
 const ERR_INVALID_PACKET_SIZE: &str = "Size field can not exceed 6";
 
 const START_BYTE: u8 = 0xF0;
@@ -95,12 +96,17 @@ impl<'a, B: crate::buffer::Buffer> crate::detail::property::ReadProperty<'a, B>
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
         match <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID {
-            crate::buffer::UNIT_ID_U8 => buffer
-                .specialise_u8()
-                .iter()
-                .position(|b| *b == 0xF7)
-                .map(|_| ())
-                .ok_or(crate::error::InvalidData(ERR_NO_END_BYTE)),
+            crate::buffer::UNIT_ID_U8 => {
+                let data = buffer.specialise_u8();
+                let end = data
+                    .iter()
+                    .position(|b| *b == END_BYTE)
+                    .ok_or(crate::error::InvalidData(ERR_NO_END_BYTE))?;
+                if data[1..end].iter().any(|b| *b > 0x7F) {
+                    return Err(crate::error::InvalidData(ERR_INVALID_DATA_BYTE));
+                }
+                Ok(())
+            }
             crate::buffer::UNIT_ID_U32 => Ok(()),
             _ => unreachable!(),
         }
-- 
2.43.0


From 38ab12274994392e60aba6f61d1f95a124427616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:38 +0000
Subject: [PATCH 15/31] fix: nth of the sysex packet payload iterators

---
 midi2/src/sysex7/packet.rs | 4 ++--
 midi2/src/sysex8/packet.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/midi2/src/sysex7/packet.rs b/midi2/src/sysex7/packet.rs
index 9797cd6..9bf11e4 100644
--- a/midi2/src/sysex7/packet.rs
+++ b/midi2/src/sysex7/packet.rs
@@ -94,8 +94,8 @@ impl core::iter::Iterator for PayloadIterator<'_> {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         use crate::detail::BitOps;
-        if self.index + n >= self.packet_size() {
-            self.index = (self.index + n).min(6);
+        if n >= self.len() {
+            self.index = self.packet_size();
             return None;
         }
         let v = self.data[(self.index + n + 2) / 4].septet((self.index + n + 2) % 4);
diff --git a/midi2/src/sysex8/packet.rs b/midi2/src/sysex8/packet.rs
index 21a807e..98f2afc 100644
--- a/midi2/src/sysex8/packet.rs
+++ b/midi2/src/sysex8/packet.rs
@@ -122,12 +122,12 @@ impl core::iter::Iterator for PayloadIterator<'_> {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         use crate::detail::BitOps;
-        if self.index + n >= self.packet_size() {
-            self.index += n;
+        if n >= self.len() {
+            self.index = self.packet_size();
             return None;
         }
         let v = self.data[(self.index + n + 3) / 4].octet((self.index + n + 3) % 4);
-        self.index = (self.index + n).min(13);
+        self.index += n + 1;
         Some(v)
     }
 
-- 
2.43.0


From 1b4b9745498ff41f68790d4e8e271df98ac95b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:52 +0000
Subject: [PATCH 16/31] fix: sysex8 packets with an invalid number of payload
 bytes

---
 midi2/src/sysex8/packet.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/midi2/src/sysex8/packet.rs b/midi2/src/sysex8/packet.rs
index 98f2afc..e1547ed 100644
--- a/midi2/src/sysex8/packet.rs
+++ b/midi2/src/sysex8/packet.rs
@@ -31,7 +31,15 @@ impl<'a> core::convert::TryFrom<&'a [u32]> for Packet {
             ));
         }
 
-        status_from_data(data)?;
+        let status = status_from_data(data)?;
+
+        if !matches!(status, Status::UnexpectedEnd(_))
+            && !(1..=14).contains(&u8::from(data[0].nibble(3)))
+        {
+            return Err(error::InvalidData(
+                sysex8::ERR_INVALID_NUMBER_OF_PAYLOAD_BYTES,
+            ));
+        }
 
         Ok(Packet({
             let mut buffer = [0x0; 4];
@@ -152,9 +160,15 @@ impl core::iter::ExactSizeIterator for PayloadIterator<'_> {
 impl PayloadIterator<'_> {
     fn packet_size(&self) -> usize {
         use crate::detail::BitOps;
-        let len = u8::from(self.data[0].nibble(3)) as usize - 1;
-        debug_assert!(len <= 13);
-        len
+        match status_from_data(self.data) {
+            // these carry no data
+            Ok(Status::UnexpectedEnd(_)) => 0,
+            _ => {
+                let len = u8::from(self.data[0].nibble(3)) as usize - 1;
+                debug_assert!(len <= 13);
+                len
+            }
+        }
     }
 }
 
-- 
2.43.0


From af51307134b530bc79b6a563c1589b213d314b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:40 +0000
Subject: [PATCH 17/31] fix: sysex compactness test reads past the end of the
 message

---
 midi2/src/sysex7.rs | 8 +-------
 midi2/src/sysex8.rs | 7 +------
 2 files changed, 2 insertions(+), 13 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 44ae4ee..c3e9799 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -675,13 +675,7 @@ fn is_compact<B: crate::buffer::Buffer>(sysex: &Sysex7<B>) -> bool {
         crate::buffer::UNIT_ID_U8 => true,
         crate::buffer::UNIT_ID_U32 => {
             use crate::detail::BitOps;
-            for chunk in sysex
-                .0
-                .buffer()
-                .specialise_u32()
-                .chunks_exact(2)
-                .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-            {
+            for chunk in sysex.data().specialise_u32().chunks_exact(2) {
                 let status: u8 = chunk[0].nibble(2).into();
                 let is_begin = status == 0x1;
                 let is_continue = status == 0x2;
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 3f790cb..c58837f 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -594,12 +594,7 @@ fn buffer_size_from_payload_size(payload_size: usize) -> usize {
 // will determine whether the payload data in the message is maximally
 // compact in the underlying buffer
 fn is_compact<B: crate::buffer::Buffer<Unit = u32>>(sysex: &Sysex8<B>) -> bool {
-    for chunk in sysex
-        .0
-        .buffer()
-        .chunks_exact(4)
-        .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-    {
+    for chunk in sysex.data().chunks_exact(4) {
         let status: u8 = chunk[0].nibble(2).into();
         let is_begin = status == 0x1;
         let is_continue = status == 0x2;
-- 
2.43.0


From e2c814d627865a2acb58c13066f8ed0579228002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:49 +0000
Subject: [PATCH 18/31] fix: words behind a flex data message are not part of
 its status and bank

---
 midi2/src/flex_data.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 13ad909..d00c516 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -929,6 +929,7 @@ impl<'a, const STATUS: u8, B: Ump> ReadProperty<'a, B> for StatusProperty<STATUS
         if buffer
             .buffer()
             .chunks_exact(4)
+            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
             .all(|packet| packet[0].octet(3) == STATUS)
         {
             Ok(())
@@ -960,6 +961,7 @@ impl<'a, const BANK: u8, B: Ump> ReadProperty<'a, B> for BankProperty<BANK> {
         if buffer
             .buffer()
             .chunks_exact(4)
+            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
             .all(|packet| packet[0].octet(2) == BANK)
         {
             Ok(())
-- 
2.43.0


From 7c7e607a5896f293e03b453b2d4efd617067dd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:01 +0000
Subject: [PATCH 19/31] fix: words behind a ump stream message are not part of
 its status

---
 midi2/src/ump_stream.rs                     | 2 ++
 midi2/src/ump_stream/function_block_name.rs | 1 +
 2 files changed, 3 insertions(+)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 8123312..2715daf 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -123,9 +123,11 @@ impl<const STATUS: u16, B: Ump> property::Property<B> for StatusProperty<STATUS>
 impl<'a, const STATUS: u16, B: Ump> property::ReadProperty<'a, B> for StatusProperty<STATUS> {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
+        use crate::detail::BitOps;
         if buffer
             .buffer()
             .chunks_exact(4)
+            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
             .all(|packet| status_from_buffer(packet) == STATUS)
         {
             Ok(())
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index 04f0d4b..8bf2352 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -50,6 +50,7 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for FunctionBlockProperty {
         if !buffer
             .buffer()
             .chunks_exact(4)
+            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
             .all(|packet| packet[0].octet(2) == function_block)
         {
             Err(crate::error::InvalidData(
-- 
2.43.0


From c60294b49965bc7d4288989c975af1d8f67fa063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:12 +0000
Subject: [PATCH 20/31] fix: flex data text reads the last byte and nothing
 behind the message

---
 midi2/src/flex_data/text.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/midi2/src/flex_data/text.rs b/midi2/src/flex_data/text.rs
index d097c26..67c503e 100644
--- a/midi2/src/flex_data/text.rs
+++ b/midi2/src/flex_data/text.rs
@@ -135,7 +135,9 @@ impl core::iter::Iterator for TextBytesIterator<'_> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        ((self.buffer.len() - 1) * 12, Some(self.buffer.len() * 12))
+        let remaining = (self.buffer.len() / 4 * 12)
+            .saturating_sub(self.packet_index * 12 + self.byte_index);
+        (0, Some(remaining))
     }
 }
 
@@ -143,7 +145,7 @@ impl core::iter::FusedIterator for TextBytesIterator<'_> {}
 
 impl TextBytesIterator<'_> {
     fn finished(&self) -> bool {
-        self.packet_index == self.buffer.len() / 4 - 1 && self.byte_index == 11
+        self.packet_index >= self.buffer.len() / 4
     }
     fn advance(&mut self) {
         self.byte_index += 1;
@@ -170,7 +172,7 @@ impl<'a, B: Ump> Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as Property<B>>::Type {
         TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: &buffer.buffer()[..flex_data::flex_data_dyn_size(buffer)],
             packet_index: 0,
             byte_index: 0,
         }
-- 
2.43.0


From 7fce98854ea61abfd982a3841fa357897a4fc348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:23 +0000
Subject: [PATCH 21/31] fix: dispatch of accompanying performer name, recording
 date and recording location

---
 midi2/src/flex_data.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index d00c516..9fdd500 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -874,11 +874,11 @@ impl<'a> TryFrom<&'a [u32]> for FlexData<&'a [u32]> {
             0x01_09 => PrimaryPerformerName(
                 primary_performer_name::PrimaryPerformerName::try_from(value)?,
             ),
-            0x01_10 => AccompanyingPerformerName(
+            0x01_0A => AccompanyingPerformerName(
                 accompanying_performer_name::AccompanyingPerformerName::try_from(value)?,
             ),
-            0x01_11 => RecordingDate(recording_date::RecordingDate::try_from(value)?),
-            0x01_12 => RecordingLocation(recording_location::RecordingLocation::try_from(value)?),
+            0x01_0B => RecordingDate(recording_date::RecordingDate::try_from(value)?),
+            0x01_0C => RecordingLocation(recording_location::RecordingLocation::try_from(value)?),
             0x02_00 => UnknownPerformanceText(
                 unknown_performance_text::UnknownPerformanceText::try_from(value)?,
             ),
-- 
2.43.0


From a21e95d71241323d286d4464acb76d488982dbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:35 +0000
Subject: [PATCH 22/31] fix: setting the channel of a flex data message sets it
 in every packet

---
 midi2/src/flex_data.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 9fdd500..a7b8704 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -1025,9 +1025,12 @@ impl<'a, B: Ump> ReadProperty<'a, B> for OptionalChannelProperty {
 
 impl<B: Ump + BufferMut> WriteProperty<B> for OptionalChannelProperty {
     fn write(buffer: &mut B, v: Self::Type) {
-        let buffer_slice = buffer.buffer_mut();
-        let data = buffer_slice;
-        optional_channel_to_slice(data, v);
+        for (i, packet) in buffer.buffer_mut().chunks_mut(4).enumerate() {
+            if i > 0 && u8::from(packet[0].nibble(0)) != UMP_MESSAGE_TYPE {
+                break;
+            }
+            optional_channel_to_slice(packet, v);
+        }
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
         Ok(())
-- 
2.43.0


From 3203cf85e593ad8a8b9286c91a9daa66a54a3acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:52 +0000
Subject: [PATCH 23/31] fix: UnknownMetadataText implements FlexDataMessage

---
 midi2/src/flex_data/unknown_metadata_text.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/midi2/src/flex_data/unknown_metadata_text.rs b/midi2/src/flex_data/unknown_metadata_text.rs
index 376a06c..2230dfa 100644
--- a/midi2/src/flex_data/unknown_metadata_text.rs
+++ b/midi2/src/flex_data/unknown_metadata_text.rs
@@ -47,6 +47,8 @@ impl<B: crate::buffer::Ump> crate::traits::Size<B> for UnknownMetadataText<B> {
     }
 }
 
+impl<B: crate::buffer::Ump> flex_data::FlexDataMessage<B> for UnknownMetadataText<B> {}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 426204afbe3f76fb49ab44d60d4acdd5ae70d8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:05 +0000
Subject: [PATCH 24/31] fix: ump stream text reads nothing behind the message

---
 midi2/src/ump_stream.rs                     | 7 +++++--
 midi2/src/ump_stream/function_block_name.rs | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 2715daf..da494c0 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -273,7 +273,10 @@ impl core::iter::Iterator for TextBytesIterator<'_> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        ((self.buffer.len() - 1) * 14, Some(self.buffer.len() * 14))
+        let capacity = 14 - self.offset;
+        let remaining = (self.buffer.len() / 4 * capacity)
+            .saturating_sub(self.packet_index * capacity + self.byte_index);
+        (0, Some(remaining))
     }
 }
 
@@ -308,7 +311,7 @@ impl<'a, B: Ump> property::Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as property::Property<B>>::Type {
         TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: &buffer.buffer()[..message_size(buffer)],
             packet_index: 0,
             byte_index: 0,
             offset: 0,
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index 8bf2352..dcd0974 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -90,7 +90,7 @@ impl<'a, B: Ump> property::Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as property::Property<B>>::Type {
         ump_stream::TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: &buffer.buffer()[..ump_stream::message_size(buffer)],
             packet_index: 0,
             byte_index: 0,
             offset: 1,
-- 
2.43.0


From 7ed5c228f30c8af266eeb17cf966ed89f5581694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:17 +0000
Subject: [PATCH 25/31] fix: packets added to a function block name carry the
 function block

---
 midi2/src/ump_stream.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index da494c0..5cb726a 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -232,7 +232,7 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
         buffer.resize(buffer_size);
         clear_payload::<OFFSET>(buffer.buffer_mut());
 
-        write_message_header_data(buffer.buffer_mut(), buffer_size);
+        write_message_header_data::<OFFSET>(buffer.buffer_mut(), buffer_size);
         set_format_fields(buffer.buffer_mut());
     }
 
@@ -244,7 +244,7 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
         buffer.try_resize(buffer_size)?;
         clear_payload::<OFFSET>(buffer.buffer_mut());
 
-        write_message_header_data(buffer.buffer_mut(), buffer_size);
+        write_message_header_data::<OFFSET>(buffer.buffer_mut(), buffer_size);
         set_format_fields(buffer.buffer_mut());
 
         Ok(())
@@ -403,14 +403,18 @@ fn required_buffer_size_for_str<const OFFSET: usize>(s: &str) -> usize {
     }
 }
 
-fn write_message_header_data(buffer: &mut [u32], size: usize) {
+fn write_message_header_data<const OFFSET: usize>(buffer: &mut [u32], size: usize) {
     use crate::detail::BitOps;
     use crate::ux::u4;
 
     let status = status_from_buffer(buffer);
+    let prefix = buffer[0].octet(2);
 
     for packet in buffer[..size].chunks_exact_mut(4) {
         packet[0].set_nibble(0, u4::new(UMP_MESSAGE_TYPE));
+        if OFFSET > 0 {
+            packet[0].set_octet(2, prefix);
+        }
         packet[0] &= !0x03FF_0000;
         packet[0] |= (status as u32) << 16;
     }
-- 
2.43.0


From bc42bc425c196fe3cbc7924cc226dff253fd063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:28 +0000
Subject: [PATCH 26/31] fix: setting a key signature of zero flats

---
 midi2/src/flex_data/set_key_signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/flex_data/set_key_signature.rs b/midi2/src/flex_data/set_key_signature.rs
index e45f479..9845121 100644
--- a/midi2/src/flex_data/set_key_signature.rs
+++ b/midi2/src/flex_data/set_key_signature.rs
@@ -76,7 +76,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
             0,
             match v {
                 SharpsFlats::Sharps(v) => u4::from(v),
-                SharpsFlats::Flats(v) => u4::new((!u8::from(v) & 0b0000_1111) + 1),
+                SharpsFlats::Flats(v) => u4::new(u8::from(v).wrapping_neg() & 0b0000_1111),
                 SharpsFlats::NonStandard => u4::new(0x8),
             },
         );
-- 
2.43.0


From a8d978a5b661d2bc86f343398eb2046e23c4fd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:39 +0000
Subject: [PATCH 27/31] fix: CI device id of channel 16

---
 midi2/src/ci/device_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/ci/device_id.rs b/midi2/src/ci/device_id.rs
index 93aac5e..394d8ec 100644
--- a/midi2/src/ci/device_id.rs
+++ b/midi2/src/ci/device_id.rs
@@ -19,7 +19,7 @@ impl DeviceId {
             Ok(DeviceId::FunctionBlock)
         } else if v == 0x7E {
             Ok(DeviceId::Group)
-        } else if v < 0x0F {
+        } else if v <= 0x0F {
             Ok(DeviceId::Channel(v.try_into().unwrap()))
         } else {
             Err(crate::error::InvalidData(
-- 
2.43.0


From f61f627c0ad9687c1277996abd6095fcc9a1f646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:15 +0000
Subject: [PATCH 28/31] fix: new ump stream names in a reused buffer

---
 midi2/src/ump_stream.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 5cb726a..70e1f26 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -178,7 +178,9 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for ConsistentFormatsProperty {
 impl<B: Ump + BufferMut> property::WriteProperty<B> for ConsistentFormatsProperty {
     fn default() -> Self::Type {}
     fn write(buffer: &mut B, _v: Self::Type) {
-        set_format_fields(buffer.buffer_mut())
+        use crate::detail::BitOps;
+        // a new message is one packet, whatever the rest of the buffer holds
+        buffer.buffer_mut()[0].set_crumb(2, crate::ux::u2::new(COMPLETE_FORMAT));
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
         Ok(())
-- 
2.43.0


From 9d27a12593719ec90990534e6bdf58196f5089d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:20 +0000
Subject: [PATCH 29/31] fix: CI message which ends before its last field

---
 midi2_proc/src/generate_ci.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/midi2_proc/src/generate_ci.rs b/midi2_proc/src/generate_ci.rs
index 3850a26..8fe8631 100644
--- a/midi2_proc/src/generate_ci.rs
+++ b/midi2_proc/src/generate_ci.rs
@@ -548,6 +548,10 @@ fn try_from_slice_impl(root_ident: &syn::Ident, properties: &[Property]) -> Toke
                     return Err(crate::error::InvalidData("Incorrect CI version"));
                 }
                 let sysex7 = crate::sysex7::Sysex7::try_from(buffer)?;
+                // bytes behind the end of the sysex message do not count
+                if <_ as crate::traits::Data<&[u8]>>::data(&sysex7).len() < <Self as crate::traits::MinSize<&[u8]>>::MIN_SIZE {
+                    return Err(crate::error::InvalidData(crate::detail::common_err_strings::ERR_SLICE_TOO_SHORT));
+                }
                 let buffer = sysex7.buffer_access();
                 #validation_steps
                 Ok(#root_ident(sysex7))
-- 
2.43.0


From e0814d592107f95ecba3a3f7d3ecb897987a869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:23 +0000
Subject: [PATCH 30/31] fix: setting the function block of a name leaves what
 follows the message alone

---
 midi2/src/ump_stream/function_block_name.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index dcd0974..66b3111 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -75,7 +75,11 @@ impl<B: Ump + BufferMut> property::WriteProperty<B> for FunctionBlockProperty {
     }
     fn write(buffer: &mut B, v: Self::Type) {
         use crate::detail::BitOps;
-        for packet in buffer.buffer_mut().chunks_exact_mut(4) {
+        for packet in buffer
+            .buffer_mut()
+            .chunks_exact_mut(4)
+            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
+        {
             packet[0].set_octet(2, v);
         }
     }
-- 
2.43.0


From b215f2f299be79350b1a4cab967fc35c8fbefc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:33 +0000
Subject: [PATCH 31/31] fix: a sysex payload that fits is refused by buffers
 whose length changes

---
 midi2/src/detail/helpers.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index ebee0d0..88a241c 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -238,6 +238,16 @@ mod detail {
                     ) {
                         // failed. we'll work with what we've got
                         running_data_size_estimate = sz.saturating_sub(initial_size - splice_size);
+                        if running_data_size_estimate <= written {
+                            // not even one more: the buffer may still have
+                            // room for less than what we asked for
+                            running_data_size_estimate = written + 1;
+                            resize(
+                                sysex,
+                                running_data_size_estimate + initial_size - splice_size,
+                            )
+                            .map_err(|_| BufferOverflow)?;
+                        }
                         to = splice_begin + running_data_size_estimate;
                     };
                 }
-- 
2.43.0

