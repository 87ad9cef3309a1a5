From f631b79b22d722a683ec10a81bb220265e6626e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:47 +0000
Subject: [PATCH 01/24] fix: return 0 for an invalid payload offset

get_payload_offset() is documented to return 0 if the packet has no payload
or the offset is invalid. It returned 4 for packets without payload and
overflowed u8 for an adaptation field longer than 250 bytes.
---
 src/psi/mod.rs | 2 +-
 src/ts/mod.rs  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index ad66cd6..e69b645 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -107,7 +107,7 @@ impl Psi {
         }
 
         let ts_offset = ts::get_payload_offset(ts) as usize;
-        if ts_offset >= 188 {
+        if ts_offset == 0 {
             self.clear();
             return;
         }
diff --git a/src/ts/mod.rs b/src/ts/mod.rs
index aad30df..4c6506c 100644
--- a/src/ts/mod.rs
+++ b/src/ts/mod.rs
@@ -80,8 +80,12 @@ pub fn is_adaptation(ts: &[u8]) -> bool { (ts[3] & 0x20) != 0x00 }
 /// In the PSI packets the `pointer field` is a part of payload, so it do not sums.
 #[inline]
 pub fn get_payload_offset(ts: &[u8]) -> u8 {
-    if ! is_adaptation(ts) {
+    if ! is_payload(ts) {
+        0
+    } else if ! is_adaptation(ts) {
         4
+    } else if get_adaptation_size(ts) > 182 {
+        0
     } else {
         4 + 1 + get_adaptation_size(ts)
     }
-- 
2.43.0


From 69aa0c76eb26744f42474daa1d865bcbd751215b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:47 +0000
Subject: [PATCH 02/24] fix: reassemble PSI sections that share packets

A section that started after the end of the previous one was lost or the
previous one was reported again. In streams with sections packed back to
back the section boundary was lost for good and the buffer grew without
limit. A packet without section start could begin a section from the middle.
A pointer field after an adaptation field could point outside of the packet.

The completed section is now dropped before the next packet is handled, the
part before the pointer field ends the current section, and the part after
it starts the next one.
---
 src/psi/mod.rs | 61 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 14 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index e69b645..a7eb53c 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -100,7 +100,30 @@ impl Psi {
         }
     }
 
+    /// Skips sections completed by the previous packet
+    fn shift(&mut self) {
+        while self.size != 0 && self.buffer.len() >= self.size {
+            self.buffer.drain(.. self.size);
+            self.size = 0;
+            self.push(&[]);
+            self.skip_stuffing(0);
+        }
+    }
+
+    /// Drops stuffing bytes after the section
+    fn skip_stuffing(&mut self, skip: usize) {
+        if self.buffer.get(skip) == Some(&0xFF) {
+            self.buffer.truncate(skip);
+            if skip == 0 {
+                self.size = 0;
+            }
+        }
+    }
+
     /// Mux TS packets into single PSI packet
+    ///
+    /// If several sections end in the same TS packet only the first of them
+    /// is available after the call.
     pub fn mux(&mut self, ts: &[u8]) {
         if ! ts::is_payload(ts) {
             return;
@@ -114,39 +137,42 @@ impl Psi {
 
         let cc = ts::get_cc(ts);
 
+        self.shift();
+
         if ts::is_pusi(ts) {
             let pointer_field = ts[ts_offset] as usize;
-            if pointer_field >= 183 {
+            let ts_offset = ts_offset + 1;
+            if ts_offset + pointer_field >= 188 {
                 self.clear();
                 return;
             }
-            let ts_offset = ts_offset + 1;
 
             if pointer_field == 0 || cc != (self.cc + 1) & 0x0F {
                 self.clear();
             }
 
             // TODO: save pid into self.pid
-            if self.buffer.is_empty() {
-                self.push(&ts[ts_offset + pointer_field .. 188]);
-                if self.size != 0 && self.buffer.len() > self.size {
-                    self.buffer.resize(self.size, 0x00);
+            if ! self.buffer.is_empty() {
+                self.push(&ts[ts_offset .. ts_offset + pointer_field]);
+                if self.size == 0 || self.buffer.len() < self.size || self.is_corrupted() {
+                    self.clear();
+                } else {
+                    self.buffer.truncate(self.size);
                 }
-            } else {
-                if self.size != 0 && self.buffer.len() > self.size {
-                    self.buffer.drain(0 .. self.size);
-                    self.size = 0;
-                }
-                self.push(&ts[ts_offset .. 188]);
+            }
+
+            self.push(&ts[ts_offset + pointer_field .. 188]);
+            if self.size != 0 {
+                self.skip_stuffing(self.size);
             }
         } else {
-            if cc != (self.cc + 1) & 0x0F {
+            if self.buffer.is_empty() || cc != (self.cc + 1) & 0x0F {
                 self.clear();
                 return;
             }
 
             self.push(&ts[ts_offset .. 188]);
-            if self.buffer.len() > self.size {
+            if self.size != 0 && self.buffer.len() > self.size {
                 self.buffer.resize(self.size, 0x00);
             }
         }
@@ -173,6 +199,13 @@ impl Psi {
         self.get_crc32() == self.calc_crc32()
     }
 
+    /// Returns `true` if the section with checksum is damaged.
+    /// The short form sections (TDT) are without checksum.
+    #[inline]
+    fn is_corrupted(&self) -> bool {
+        (self.buffer[1] & 0x80) != 0 && ! self.check()
+    }
+
     /// Returns `true` if buffer contains complete PSI packet
     #[inline]
     pub fn check(&self) -> bool {
-- 
2.43.0


From df089c13ffbb3343cd10c994c6a6053f9073fcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:11 +0000
Subject: [PATCH 03/24] fix: compare incomplete PSI packets without panic

The comparison read the checksum of empty and partially received packets.
Such packets are now compared by their bytes.
---
 src/psi/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index a7eb53c..8fb0b0c 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -61,6 +61,10 @@ impl Default for Psi {
 
 impl PartialEq for Psi {
     fn eq(&self, other: &Psi) -> bool {
+        if ! self.is_complete() || ! other.is_complete() {
+            return self.size == other.size && self.buffer == other.buffer;
+        }
+
         self.size == other.size && self.get_crc32() == other.get_crc32()
     }
 }
@@ -180,6 +184,13 @@ impl Psi {
         self.cc = cc;
     }
 
+    /// Returns `true` if all bytes of the PSI packet with checksum are present
+    #[inline]
+    fn is_complete(&self) -> bool {
+        /* 3 - minimal PSI header, 4 - crc32 */
+        self.size > 7 && self.buffer.len() >= self.size
+    }
+
     /// Returns the PSI packet checksum
     #[inline]
     fn get_crc32(&self) -> u32 {
-- 
2.43.0


From 8dc8381b6d95b8c75bc42ca2b7cda29bda1b1025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:12 +0000
Subject: [PATCH 04/24] fix: do not parse a partially received TDT

The size is known from the first bytes of the section. Parsing panicked if
the rest of the section was not received yet.
---
 src/psi/tdt.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psi/tdt.rs b/src/psi/tdt.rs
index b491402..63a1b62 100644
--- a/src/psi/tdt.rs
+++ b/src/psi/tdt.rs
@@ -33,6 +33,7 @@ impl Tdt {
     #[inline]
     fn check(&self, psi: &Psi) -> bool {
         psi.size == 8 &&
+        psi.buffer.len() >= psi.size &&
         psi.buffer[0] == 0x70
     }
 
-- 
2.43.0


From 43955d3f389ced39c55b25c9861c90c488b4abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:12 +0000
Subject: [PATCH 05/24] fix: read PMT program descriptors from the right offset

The descriptors begin after the two bytes of the length field. They were
read one byte too early, so program descriptors were lost or garbled.
A length that points outside of the section caused a panic.
---
 src/psi/pmt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psi/pmt.rs b/src/psi/pmt.rs
index 16d3eb2..b85a2d8 100644
--- a/src/psi/pmt.rs
+++ b/src/psi/pmt.rs
@@ -138,7 +138,10 @@ impl Pmt {
         self.pcr = psi.buffer[8 ..].get_u16() & 0x1FFF;
 
         let descriptors_len = (psi.buffer[10 ..].get_u16() & 0x0FFF) as usize;
-        self.descriptors.parse(&psi.buffer[11 .. 11 + descriptors_len]);
+        if 12 + descriptors_len > psi.size - 4 {
+            return;
+        }
+        self.descriptors.parse(&psi.buffer[12 .. 12 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
         let mut skip = 0;
-- 
2.43.0


From 00762b1f776a9eeda913ef10612217170237d4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:13 +0000
Subject: [PATCH 06/24] fix: check the descriptors length in NIT and TOT

A length that points outside of the section caused a panic, or the checksum
bytes were parsed as a descriptor.
---
 src/psi/nit.rs | 3 +++
 src/psi/tot.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/psi/nit.rs b/src/psi/nit.rs
index cb0060e..8da33dd 100644
--- a/src/psi/nit.rs
+++ b/src/psi/nit.rs
@@ -106,6 +106,9 @@ impl Nit {
         self.version = (psi.buffer[5] & 0x3E) >> 1;
 
         let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
+        if 12 + descriptors_len > psi.size - 4 {
+            return;
+        }
         self.descriptors.parse(&psi.buffer[10 .. 10 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
diff --git a/src/psi/tot.rs b/src/psi/tot.rs
index a164000..0f541fd 100644
--- a/src/psi/tot.rs
+++ b/src/psi/tot.rs
@@ -49,6 +49,9 @@ impl Tot {
             u64::from(psi.buffer[5 ..].get_u24().from_bcd_time());
 
         let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
+        if 10 + descriptors_len > psi.size - 4 {
+            return;
+        }
         self.descriptors.parse(&psi.buffer[10 .. 10 + descriptors_len]);
     }
 }
-- 
2.43.0


From f66c9c5af8f97397e00df28ccce9c10442086c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:14 +0000
Subject: [PATCH 07/24] fix: accept any received value as date and time

Values come from the stream and could be anything, 0xFF is used for an
undefined time. Decoding panicked for digits above 9 and for dates before
1970, and minutes overflowed for offsets of more than 4 hours. Dates before
1970 are decoded as the beginning of the epoch.
---
 src/psi/utils/bcd.rs | 4 +---
 src/psi/utils/mjd.rs | 3 +--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/psi/utils/bcd.rs b/src/psi/utils/bcd.rs
index 372826d..4e1595e 100644
--- a/src/psi/utils/bcd.rs
+++ b/src/psi/utils/bcd.rs
@@ -17,8 +17,6 @@ pub trait BCD {
 impl BCD for u8 {
     #[inline]
     fn from_bcd(self) -> Self {
-        debug_assert!((self & 0xF0) < 0xA0);
-        debug_assert!((self & 0x0F) < 0x0A);
         self - (self >> 4) * 6
     }
 
@@ -67,7 +65,7 @@ pub trait BCDTime {
 impl BCDTime for u16 {
     #[inline]
     fn from_bcd_time(self) -> Self {
-        u16::from(u8::from_bcd((self >> 8) as u8) * 60) +
+        u16::from(u8::from_bcd((self >> 8) as u8)) * 60 +
         u16::from(u8::from_bcd(self as u8))
     }
 
diff --git a/src/psi/utils/mjd.rs b/src/psi/utils/mjd.rs
index a261d97..e6fcfa1 100644
--- a/src/psi/utils/mjd.rs
+++ b/src/psi/utils/mjd.rs
@@ -17,8 +17,7 @@ pub trait MJDTo {
 impl MJDFrom for u16 {
     #[inline]
     fn from_mjd(self) -> u64 {
-        debug_assert!(self >= 40587);
-        (u64::from(self) - 40587) * 86400
+        u64::from(self).saturating_sub(40587) * 86400
     }
 }
 
-- 
2.43.0


From 9d5c018f97a31f55d4e28a2c7f931b61201c1459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:47 +0000
Subject: [PATCH 08/24] fix: keep descriptors with unrepresentable values as is

Delivery system and local time offset descriptors with digits above 9, with
a frequency out of range, or with an impossible time were decoded into
values which overflow, or which panic when the descriptor is assembled
again. Such descriptors are now kept as raw data, like the descriptors with
a wrong length.
---
 src/psi/descriptors/x43.rs |  9 +++++++--
 src/psi/descriptors/x44.rs | 10 ++++++++--
 src/psi/descriptors/x58.rs |  9 ++++++++-
 src/psi/descriptors/x5a.rs |  3 ++-
 src/psi/utils/bcd.rs       |  6 ++++++
 src/psi/utils/mod.rs       |  2 ++
 6 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/psi/descriptors/x43.rs b/src/psi/descriptors/x43.rs
index 0692971..a01be6e 100644
--- a/src/psi/descriptors/x43.rs
+++ b/src/psi/descriptors/x43.rs
@@ -7,7 +7,10 @@
 
 use crate::{
     bytes::Bytes,
-    psi::BCD,
+    psi::{
+        BCD,
+        is_bcd,
+    },
 };
 
 use super::Desc;
@@ -45,7 +48,9 @@ pub struct Desc43 {
 
 impl Desc43 {
     pub fn check(slice: &[u8]) -> bool {
-        slice.len() == MIN_SIZE
+        slice.len() == MIN_SIZE &&
+        is_bcd(&slice[2 .. 8]) &&
+        is_bcd(&slice[9 .. 12])
     }
 
     pub fn parse(slice: &[u8]) -> Self {
diff --git a/src/psi/descriptors/x44.rs b/src/psi/descriptors/x44.rs
index 2375d9c..7e63f81 100644
--- a/src/psi/descriptors/x44.rs
+++ b/src/psi/descriptors/x44.rs
@@ -7,7 +7,10 @@
 
 use crate::{
     bytes::Bytes,
-    psi::BCD,
+    psi::{
+        BCD,
+        is_bcd,
+    },
 };
 
 use super::Desc;
@@ -36,7 +39,10 @@ pub struct Desc44 {
 
 impl Desc44 {
     pub fn check(slice: &[u8]) -> bool {
-        slice.len() == MIN_SIZE
+        slice.len() == MIN_SIZE &&
+        is_bcd(&slice[2 .. 6]) &&
+        is_bcd(&slice[9 .. 12]) &&
+        slice[2 ..].get_u32().from_bcd() <= std::u32::MAX / 100
     }
 
     pub fn parse(slice: &[u8]) -> Self {
diff --git a/src/psi/descriptors/x58.rs b/src/psi/descriptors/x58.rs
index eddf401..6333d76 100644
--- a/src/psi/descriptors/x58.rs
+++ b/src/psi/descriptors/x58.rs
@@ -10,6 +10,7 @@ use crate::{
     bytes::Bytes,
     psi::{
         BCDTime,
+        is_bcd,
         MJDFrom,
         MJDTo,
     },
@@ -45,7 +46,13 @@ pub struct Desc58 {
 impl Desc58 {
     pub fn check(slice: &[u8]) -> bool {
         slice.len() >= MIN_SIZE &&
-        ((slice.len() - 2) % 13) == 0
+        ((slice.len() - 2) % 13) == 0 &&
+        slice[2 ..].chunks(13).all(|item| {
+            is_bcd(&item[4 .. 6]) && item[4] < 0x24 && item[5] < 0x60 &&
+            item[6 ..].get_u16() >= 40587 &&
+            is_bcd(&item[8 .. 13]) && item[8] < 0x24 && item[9] < 0x60 && item[10] < 0x60 &&
+            item[11] < 0x24 && item[12] < 0x60
+        })
     }
 
     pub fn parse(slice: &[u8]) -> Self {
diff --git a/src/psi/descriptors/x5a.rs b/src/psi/descriptors/x5a.rs
index a8e0e49..94dbf80 100644
--- a/src/psi/descriptors/x5a.rs
+++ b/src/psi/descriptors/x5a.rs
@@ -55,7 +55,8 @@ pub struct Desc5A {
 
 impl Desc5A {
     pub fn check(slice: &[u8]) -> bool {
-        slice.len() == MIN_SIZE
+        slice.len() == MIN_SIZE &&
+        slice[2 ..].get_u32() <= std::u32::MAX / 10
     }
 
     pub fn parse(slice: &[u8]) -> Self {
diff --git a/src/psi/utils/bcd.rs b/src/psi/utils/bcd.rs
index 4e1595e..a52e418 100644
--- a/src/psi/utils/bcd.rs
+++ b/src/psi/utils/bcd.rs
@@ -54,6 +54,12 @@ impl BCD for u32 {
 }
 
 
+/// Returns `true` if each nibble is a decimal digit
+pub(crate) fn is_bcd(slice: &[u8]) -> bool {
+    slice.iter().all(|&v| (v >> 4) < 10 && (v & 0x0F) < 10)
+}
+
+
 /// Converts between Unix Timestamp and Binary Coded Decimal Time
 pub trait BCDTime {
     fn from_bcd_time(self) -> Self;
diff --git a/src/psi/utils/mod.rs b/src/psi/utils/mod.rs
index ebe8b90..4b0869d 100644
--- a/src/psi/utils/mod.rs
+++ b/src/psi/utils/mod.rs
@@ -14,6 +14,8 @@ pub use bcd::{
     BCDTime,
 };
 
+pub(crate) use bcd::is_bcd;
+
 mod mjd;
 pub use mjd::{
     MJDFrom,
-- 
2.43.0


From a52871101099f6e81de57e49318bfc6411a59c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:47 +0000
Subject: [PATCH 09/24] fix: check the inner lengths of text descriptors

A string length in the service, short event, or extended event descriptor
that points outside of the descriptor caused a panic. Such descriptors are
now kept as raw data.
---
 src/psi/descriptors/x48.rs |  3 +++
 src/psi/descriptors/x4d.rs |  3 +++
 src/psi/descriptors/x4e.rs | 19 +++++++++++++++++++
 3 files changed, 25 insertions(+)

diff --git a/src/psi/descriptors/x48.rs b/src/psi/descriptors/x48.rs
index c3831f1..65d9675 100644
--- a/src/psi/descriptors/x48.rs
+++ b/src/psi/descriptors/x48.rs
@@ -34,6 +34,9 @@ impl Desc48 {
         }
 
         let provider_length = usize::from(slice[3]);
+        if slice.len() < MIN_SIZE + provider_length {
+            return false;
+        }
         let name_length = usize::from(slice[4 + provider_length]);
 
         usize::from(slice[1]) == MIN_SIZE - 2 + provider_length + name_length
diff --git a/src/psi/descriptors/x4d.rs b/src/psi/descriptors/x4d.rs
index 35f87ca..9265551 100644
--- a/src/psi/descriptors/x4d.rs
+++ b/src/psi/descriptors/x4d.rs
@@ -34,6 +34,9 @@ impl Desc4D {
         }
 
         let event_name_length = usize::from(slice[5]);
+        if slice.len() < MIN_SIZE + event_name_length {
+            return false;
+        }
         let text_length = usize::from(slice[6 + event_name_length]);
         usize::from(slice[1]) == MIN_SIZE - 2 + event_name_length + text_length
     }
diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index 762bc3c..959d1f5 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -42,6 +42,25 @@ impl Desc4E {
         }
 
         let length_of_items = usize::from(slice[6]);
+        if slice.len() < MIN_SIZE + length_of_items {
+            return false;
+        }
+
+        // each item is two strings with length
+        let items = &slice[7 .. 7 + length_of_items];
+        let mut skip = 0;
+        while skip < items.len() {
+            for _ in 0 .. 2 {
+                if skip >= items.len() {
+                    return false;
+                }
+                skip += 1 + usize::from(items[skip]);
+            }
+        }
+        if skip != items.len() {
+            return false;
+        }
+
         let text_length = usize::from(slice[7 + length_of_items]);
         usize::from(slice[1]) == MIN_SIZE - 2 + length_of_items + text_length
     }
-- 
2.43.0


From aaab96155960c495193cc0538089e7e49cd69833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:48 +0000
Subject: [PATCH 10/24] fix: count the length bytes of extended event items

The length of the extended event descriptor was two bytes short for each
item, so the rest of the descriptor loop was unreadable.
---
 src/psi/descriptors/x4e.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index 959d1f5..4bd1fa5 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -107,7 +107,7 @@ impl Desc for Desc4E {
     fn size(&self) -> usize {
         let mut items_size = 0;
         for (item_desc, item_text) in &self.items {
-            items_size += item_desc.size() + item_text.size();
+            items_size += 1 + item_desc.size() + 1 + item_text.size();
         }
         MIN_SIZE + items_size + self.text.size()
     }
-- 
2.43.0


From d4af00b9619f9d9da83a026181442333371d25ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:49 +0000
Subject: [PATCH 11/24] fix: clone raw descriptors with a known tag

A descriptor with a known tag and unexpected content is stored as raw data.
Cloning it panicked because the type was selected by the tag only.
---
 src/psi/descriptors/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psi/descriptors/mod.rs b/src/psi/descriptors/mod.rs
index 0c85eb4..4539fa2 100644
--- a/src/psi/descriptors/mod.rs
+++ b/src/psi/descriptors/mod.rs
@@ -52,6 +52,10 @@ pub struct Descriptor(Box<dyn Desc>);
 
 impl Clone for Descriptor {
     fn clone(&self) -> Self {
+        if let Some(raw) = self.0.as_any_ref().downcast_ref::<DescRaw>() {
+            return raw.clone().into();
+        }
+
         match self.0.tag() {
             0x09 => self.downcast_ref::<Desc09>().clone().into(),
             0x0A => self.downcast_ref::<Desc0A>().clone().into(),
-- 
2.43.0


From 58579efab61987aad253278bc407ca416ce83bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:49 +0000
Subject: [PATCH 12/24] fix: read language and country codes as three bytes

The codes have no codepage identifier. A code with the first byte below 0x20
was read as a shorter text, and the assembled descriptor did not match its
own length.
---
 src/psi/descriptors/x0a.rs | 2 +-
 src/psi/descriptors/x4d.rs | 2 +-
 src/psi/descriptors/x4e.rs | 2 +-
 src/psi/descriptors/x58.rs | 2 +-
 src/textcode/mod.rs        | 9 +++++++++
 5 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/psi/descriptors/x0a.rs b/src/psi/descriptors/x0a.rs
index 29c5657..6cf8ef9 100644
--- a/src/psi/descriptors/x0a.rs
+++ b/src/psi/descriptors/x0a.rs
@@ -42,7 +42,7 @@ impl Desc0A {
         let mut skip = 2;
 
         while slice.len() > skip {
-            let code = StringDVB::from(&slice[skip .. skip + 3]);
+            let code = StringDVB::from_code(&slice[skip .. skip + 3]);
             let audio_type = slice[skip + 3];
             result.items.push(Desc0Ai {
                 code,
diff --git a/src/psi/descriptors/x4d.rs b/src/psi/descriptors/x4d.rs
index 9265551..dea09e1 100644
--- a/src/psi/descriptors/x4d.rs
+++ b/src/psi/descriptors/x4d.rs
@@ -48,7 +48,7 @@ impl Desc4D {
         let text_e = text_s + slice[name_e] as usize;
 
         Desc4D {
-            lang: StringDVB::from(&slice[2 .. 5]),
+            lang: StringDVB::from_code(&slice[2 .. 5]),
             name: StringDVB::from(&slice[name_s .. name_e]),
             text: StringDVB::from(&slice[text_s .. text_e]),
         }
diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index 4bd1fa5..9dc81a7 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -74,7 +74,7 @@ impl Desc4E {
         Desc4E {
             number: slice[2] >> 4,
             last_number: slice[2] & 0x0F,
-            lang: StringDVB::from(&slice[3 .. 6]),
+            lang: StringDVB::from_code(&slice[3 .. 6]),
             items: {
                 let mut out: Vec<(StringDVB, StringDVB)> = Vec::new();
                 while items_s < items_e {
diff --git a/src/psi/descriptors/x58.rs b/src/psi/descriptors/x58.rs
index 6333d76..42e39d2 100644
--- a/src/psi/descriptors/x58.rs
+++ b/src/psi/descriptors/x58.rs
@@ -60,7 +60,7 @@ impl Desc58 {
         let mut skip = 2;
 
         while slice.len() > skip {
-            let country_code = StringDVB::from(&slice[skip .. skip + 3]);
+            let country_code = StringDVB::from_code(&slice[skip .. skip + 3]);
             let region_id = slice[skip + 3] >> 2;
             let offset_polarity = slice[skip + 3] & 0x01;
             let offset = slice[skip + 4 ..].get_u16().from_bcd_time();
diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 3ed2126..0e1f4f5 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -178,6 +178,15 @@ impl StringDVB {
         }
     }
 
+    /// Creates StringDVB from the bytes without codepage identifier.
+    /// For example: language and country codes
+    pub(crate) fn from_code(code: &[u8]) -> Self {
+        StringDVB {
+            codepage: ISO6937,
+            data: Vec::from(code),
+        }
+    }
+
     #[inline]
     pub fn get_codepage(&self) -> u8 {
         self.codepage
-- 
2.43.0


From 4c2143e82e7d688b0e252f3f79015c3aaa46778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:39 +0000
Subject: [PATCH 13/24] fix: read text with an unsupported codepage as unknown

A reserved codepage identifier produced a text which panicked on output and
was assembled with another identifier. Such text is now replaced with a
question mark, like the other unknown identifiers.
---
 src/textcode/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 0e1f4f5..7f0b600 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -308,12 +308,14 @@ impl<'a> From<&'a [u8]> for StringDVB {
                 codepage: 0,
                 data: Vec::from(data),
             }
-        } else if data[0] < 0x10 {
+        } else if data[0] > 0x00 && data[0] < 0x10 && get_codepage_map(data[0] + 4).is_some() {
             StringDVB {
                 codepage: data[0] + 4,
                 data: Vec::from(&data[1 ..]),
             }
-        } else if data[0] == 0x10 && data.len() >= 3 {
+        } else if data[0] == 0x10 && data.len() >= 3 && data[1] == 0x00 &&
+            data[2] != ISO6937 && get_codepage_map(data[2]).is_some()
+        {
             StringDVB {
                 codepage: data[2],
                 data: Vec::from(&data[3 ..]),
-- 
2.43.0


From fd6cce46ff6bcdfbbc4062385fd1c628bfb778f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:40 +0000
Subject: [PATCH 14/24] fix: replace characters above U+FFFF with a question
 mark

The character code was cut to 16 bits and an unrelated character was
written, for example U+10041 became A.
---
 src/textcode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 7f0b600..c972c79 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -154,7 +154,7 @@ impl StringDVB {
             data: {
                 let mut data: Vec<u8> = Vec::new();
                 for c in s.chars() {
-                    let c = c as u16;
+                    let c = cmp::min(c as u32, 0xFFFF) as u16;
                     if c <= 0x007F {
                         data.push(c as u8);
                     } else if c >= 0x00A0 {
-- 
2.43.0


From cac5b4fe523c03e977dfe65a3a701bef67bf64ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:40 +0000
Subject: [PATCH 15/24] fix: truncate text on a character boundary

Truncating cut a UTF-8 character in the middle and panicked if the size was
less than 3.
---
 src/textcode/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index c972c79..4488178 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -251,10 +251,18 @@ impl StringDVB {
 
     pub fn truncate(&mut self, size: usize) {
         if self.data.len() > size {
-            self.data.resize(size, 0);
-            self.data[size - 1] = b'.';
-            self.data[size - 2] = b'.';
-            self.data[size - 3] = b'.';
+            let dots = if size < 3 { 0 } else { 3 };
+            let mut next = size - dots;
+            if self.codepage == UTF8 {
+                for _ in 0 .. 3 {
+                    if next == 0 || self.data[next] & 0xC0 != 0x80 {
+                        break;
+                    }
+                    next -= 1;
+                }
+            }
+            self.data.truncate(next);
+            self.data.extend_from_slice(&b"..."[.. dots]);
         }
     }
 
-- 
2.43.0


From cfefa140f833569cd888a997993dabfe14f954dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:41 +0000
Subject: [PATCH 16/24] fix: do not split four byte characters

The boundary search stopped after two steps, so a UTF-8 character of four
bytes could be split between its first and second part.
---
 src/textcode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 4488178..f0c67f9 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -284,7 +284,7 @@ impl StringDVB {
         while skip < self.data.len() {
             let mut next = cmp::min(self.data.len(), skip + size);
             if self.codepage == UTF8 && next < self.data.len() {
-                for _ in 1 .. 3 {
+                for _ in 0 .. 3 {
                     if self.data[next] & 0xC0 != 0x80 {
                         break;
                     }
-- 
2.43.0


From 4561b459b00477b6a9f8e469ba4b01972d53a281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:42 +0000
Subject: [PATCH 17/24] fix: repeat interrupted reads

A read interrupted by a signal in the middle of a packet was returned as an
error, the caller repeated the call, and the received part of the packet was
lost together with the synchronization.
---
 src/reader/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 79c6bce..785e2fc 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -49,6 +49,16 @@ impl<R: fmt::Debug + Read> TsReader<R> {
     #[inline]
     pub fn into_inner(self) -> R { self.inner }
 
+    /// Reads from the underlying reader, repeats interrupted operation
+    fn fill(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            match self.inner.read(buf) {
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {},
+                result => return result,
+            }
+        }
+    }
+
     /// Parses TS packets
     fn parse(&mut self, packet: &[u8]) {
         let _pid = ts::get_pid(packet);
@@ -74,7 +84,7 @@ impl<R: fmt::Debug + Read> TsRead for TsReader<R> {
         let mut skip = 0;
 
         while skip == 0 {
-            let x = self.inner.read(&mut packet[.. 1])?;
+            let x = self.fill(&mut packet[.. 1])?;
             if x == 0 {
                 return Ok(0)
             }
@@ -84,7 +94,7 @@ impl<R: fmt::Debug + Read> TsRead for TsReader<R> {
         }
 
         while skip != ts::PACKET_SIZE {
-            let x = self.inner.read(&mut packet[skip .. ts::PACKET_SIZE])?;
+            let x = self.fill(&mut packet[skip .. ts::PACKET_SIZE])?;
             if x == 0 {
                 return Ok(0)
             }
-- 
2.43.0


From 17229911aa454e7feccd17ff30a9cf9fab001a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:42 +0000
Subject: [PATCH 18/24] fix: do not lose a packet on an empty read

Reading into an empty buffer between packets took the next packet from the
source and dropped it.
---
 src/reader/drain.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader/drain.rs b/src/reader/drain.rs
index db4a198..7ac60c6 100644
--- a/src/reader/drain.rs
+++ b/src/reader/drain.rs
@@ -54,6 +54,10 @@ impl<R: TsRead> TsDrain<R> {
 
 impl<R: TsRead> Read for TsDrain<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
+
         if self.pos == 0 {
             if buf.len() >= ts::PACKET_SIZE {
                 return self.inner.read(buf);
-- 
2.43.0


From 08e728070237c465b03328b9562e32e1688a767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:43 +0000
Subject: [PATCH 19/24] fix: assemble PAT of several sections

Programs that do not fit into the first section were dropped. They are now
placed into the next sections, like in the other tables.
---
 src/psi/pat.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/psi/pat.rs b/src/psi/pat.rs
index ddb4f2d..0c175fe 100644
--- a/src/psi/pat.rs
+++ b/src/psi/pat.rs
@@ -95,22 +95,30 @@ impl Pat {
             skip += 4;
         }
     }
+
+    fn psi_init(&self) -> Psi {
+        let mut psi = Psi::new(0x00, 8, self.version);
+        psi.buffer[3 ..].set_u16(self.tsid);
+        psi
+    }
 }
 
 
 impl PsiDemux for Pat {
     fn psi_list_assemble(&self) -> Vec<Psi> {
-        let mut psi = Psi::new(0x00, 8, self.version);
-        psi.buffer[3 ..].set_u16(self.tsid);
+        let mut psi_list = Vec::new();
+        let mut psi = self.psi_init();
 
         for item in &self.items {
             if psi.buffer.len() + item.size() > PAT_SECTION_SIZE {
-                break;
+                psi_list.push(psi);
+                psi = self.psi_init();
             }
             item.assemble(&mut psi.buffer);
         }
 
-        vec![psi]
+        psi_list.push(psi);
+        psi_list
     }
 }
 
-- 
2.43.0


From 8aaee8a75c971ebc575b0d36e7edd7fae439cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:44 +0000
Subject: [PATCH 20/24] fix: assemble event duration of 24 hours and more

The duration was written modulo 24 hours, so an event of one day became an
event with no duration.
---
 src/psi/eit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 82ee8f8..75a1c98 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -8,6 +8,7 @@
 use crate::{
     bytes::Bytes,
     psi::{
+        BCD,
         BCDTime,
         MJDFrom,
         MJDTo,
@@ -72,7 +73,9 @@ impl EitItem {
         buffer[skip ..].set_u16(self.event_id);
         buffer[skip + 2 ..].set_u16(self.start.to_mjd());
         buffer[skip + 4 ..].set_u24((self.start as u32).to_bcd_time());
-        buffer[skip + 7 ..].set_u24(self.duration.to_bcd_time());
+        buffer[skip + 7 ..].set_u24(
+            (u32::from(((self.duration / 3600 % 100) as u8).to_bcd()) << 16) |
+            (self.duration % 3600).to_bcd_time());
 
         let flags_10 = set_bits!(8,
             self.status, 3,
-- 
2.43.0


From 7b115b37bfa3a546cd329c9860694622e4bfcee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:45 +0000
Subject: [PATCH 21/24] fix: use assigned table ids in the EIT schedule

The last table id was calculated from the event time and did not match the
emitted sections. The first section with events kept the table id of the
source table while the other sections started from the first table id of
the schedule.
---
 src/psi/eit.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 75a1c98..f1f0bd8 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -206,13 +206,6 @@ impl PsiDemux for Eit {
         let first_item = self.items.first().unwrap();
         let mut midnight = first_item.start / DAY_DURATION * DAY_DURATION;
 
-        // Last table id
-        let last_table_id = {
-            let last_item = self.items.last().unwrap();
-            let service_duration = last_item.start - midnight;
-            let service_segments = service_duration / SEG_DURATION;
-            table_id + (service_segments / 32) as u8
-        };
         let mut current_table_id = self.table_id & 0xF0;
 
         let mut current_section: u8 = 0;
@@ -242,6 +235,7 @@ impl PsiDemux for Eit {
 
         {
             let mut psi = self.psi_init();
+            psi.buffer[0] = current_table_id;
             psi.buffer[6] = current_section;
             psi_list.push(psi);
         }
@@ -283,6 +277,9 @@ impl PsiDemux for Eit {
             item.assemble(&mut psi.buffer);
         }
 
+        // Last table id
+        let last_table_id = current_table_id;
+
         // TODO: fix Segment_last_Section_number
 
         current_table_id = 0x00;
-- 
2.43.0


From 67cfbafb4685cdd2ceaed9473bd2f44798d9f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:45 +0000
Subject: [PATCH 22/24] fix: clock arithmetic over the wrap

Timestamp difference and PCR jitter were one clock off if the counter
wrapped between the values. The estimated STC did not wrap at all, so it was
out of range of the PCR.
---
 src/es/pes.rs | 2 +-
 src/ts/pcr.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/es/pes.rs b/src/es/pes.rs
index 472b0d0..6cb6a27 100644
--- a/src/es/pes.rs
+++ b/src/es/pes.rs
@@ -79,7 +79,7 @@ pub fn pts_delta(last_pts: u64, current_pts: u64) -> u64 {
     if current_pts >= last_pts {
         current_pts - last_pts
     } else {
-        current_pts + PTS_MAX - last_pts
+        current_pts + PTS_NONE - last_pts
     }
 }
 
diff --git a/src/ts/pcr.rs b/src/ts/pcr.rs
index 8dc1b50..fc4f963 100644
--- a/src/ts/pcr.rs
+++ b/src/ts/pcr.rs
@@ -106,7 +106,7 @@ pub fn pcr_delta(last_pcr: u64, current_pcr: u64) -> u64 {
 /// ```
 #[inline]
 pub fn pcr_to_stc(last_pcr: u64, bytes: u64, last_delta: u64, last_bytes: u64) -> u64 {
-    last_delta * bytes / last_bytes + last_pcr
+    (last_delta * bytes / last_bytes + last_pcr) % PCR_NONE
 }
 
 
@@ -115,14 +115,14 @@ pub fn pcr_to_stc(last_pcr: u64, bytes: u64, last_delta: u64, last_bytes: u64) -
 pub fn pcr_jitter_ns(pcr: u64, stc: u64) -> i64 {
     let mut result = {
         if pcr < stc {
-            pcr + PCR_MAX - stc
+            pcr + PCR_NONE - stc
         } else {
             pcr - stc
         }
     } as i64;
 
     if result > PCR_SYSTEM_CLOCK as i64 {
-        result -= PCR_MAX as i64;
+        result -= PCR_NONE as i64;
     }
 
     result * 1000 / PCR_CLOCK_US as i64
-- 
2.43.0


From d36bd610f91c9c6f4a20dbc93197175a6c3d5cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:46 +0000
Subject: [PATCH 23/24] fix: outer FEC code of Reed-Solomon

EN 300 468 table 35: 0b0001 is no outer FEC coding, 0b0010 is RS(204/188).
---
 src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index b8d814b..47e436a 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -35,7 +35,7 @@ pub const MODULATION_DVB_T_64QAM: u8  = 0b10;
 
 pub const FEC_OUTER_NOT_DEFINED: u8 = 0b0000;
 pub const FEC_OUTER_NO_CODING: u8   = 0b0001;
-pub const FEC_OUTER_RS: u8          = 0b0001;
+pub const FEC_OUTER_RS: u8          = 0b0010;
 
 pub const FEC_NOT_DEFINED: u8 = 0b0000;
 pub const FEC_1_2: u8         = 0b0001;
-- 
2.43.0


From 60af4908bcda81f5f905fbacb5c53f39adb4303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:32 +0000
Subject: [PATCH 24/24] fix: set the last section number of EIT schedule
 segments

Each section of a schedule carried its own number there. It now carries the
number of the last section of its three-hour segment, as EN 300 468 asks.
---
 src/psi/eit.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index f1f0bd8..99a26e4 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -280,22 +280,27 @@ impl PsiDemux for Eit {
         // Last table id
         let last_table_id = current_table_id;
 
-        // TODO: fix Segment_last_Section_number
-
         current_table_id = 0x00;
         let mut last_section_number = 0x00;
+        let mut segment_last_section_number = 0x00;
 
         // Now current_section is last_section_number
         for psi in psi_list.iter_mut().rev() {
             if psi.buffer[0] != current_table_id {
                 current_table_id = psi.buffer[0];
                 last_section_number = psi.buffer[6];
+                segment_last_section_number = psi.buffer[6];
+            }
+
+            // Segment is a group of 8 sections
+            if psi.buffer[6] / 8 != segment_last_section_number / 8 {
+                segment_last_section_number = psi.buffer[6];
             }
 
             // Last_Section_number
             psi.buffer[7] = last_section_number;
             // Segment_last_Section_number
-            psi.buffer[12] = psi.buffer[6];
+            psi.buffer[12] = segment_last_section_number;
             // Last_table_id
             psi.buffer[13] = last_table_id;
 
-- 
2.43.0

