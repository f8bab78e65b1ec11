From 224993be6ba2d9de249e06563bdb7126c7c8efc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:20 +0000
Subject: [PATCH 01/28] verif hooks: parse and build packets (cfg
 over_there_verif)

---
 src/core/transport/mod.rs         |  2 +
 src/core/transport/wire/mod.rs    |  2 +
 src/core/transport/wire/packet.rs |  5 ++
 src/core/transport/wire/verif.rs  | 87 +++++++++++++++++++++++++++++++
 src/lib.rs                        |  3 ++
 5 files changed, 99 insertions(+)
 create mode 100644 src/core/transport/wire/verif.rs

diff --git a/src/core/transport/mod.rs b/src/core/transport/mod.rs
index 517e575..ff493b5 100644
--- a/src/core/transport/mod.rs
+++ b/src/core/transport/mod.rs
@@ -18,6 +18,8 @@ pub use wire::{
 
 // Export useful constructs
 pub use net::NetTransmission;
+#[cfg(over_there_verif)]
+pub use wire::verif;
 pub use wire::{
     tcp::{TcpStreamInboundWire, TcpStreamOutboundWire, TcpStreamWire},
     udp::{UdpSocketInboundWire, UdpSocketOutboundWire, UdpSocketWire},
diff --git a/src/core/transport/wire/mod.rs b/src/core/transport/wire/mod.rs
index 746ddf1..04ebd3d 100644
--- a/src/core/transport/wire/mod.rs
+++ b/src/core/transport/wire/mod.rs
@@ -3,6 +3,8 @@ mod output;
 mod packet;
 pub mod tcp;
 pub mod udp;
+#[cfg(over_there_verif)]
+pub mod verif;
 
 use crate::core::transport::auth::{self as auth, Authenticator, Signer, Verifier};
 use crate::core::transport::crypto::{
diff --git a/src/core/transport/wire/packet.rs b/src/core/transport/wire/packet.rs
index c4732cb..f9ef074 100644
--- a/src/core/transport/wire/packet.rs
+++ b/src/core/transport/wire/packet.rs
@@ -112,6 +112,11 @@ impl Packet {
         }
     }
 
+    #[cfg(over_there_verif)]
+    pub(crate) fn metadata(&self) -> &Metadata {
+        &self.metadata
+    }
+
     /// Returns the id associated with the packet
     pub fn id(&self) -> u32 {
         self.metadata.id
diff --git a/src/core/transport/wire/verif.rs b/src/core/transport/wire/verif.rs
new file mode 100644
index 0000000..1d454b3
--- /dev/null
+++ b/src/core/transport/wire/verif.rs
@@ -0,0 +1,87 @@
+//! Verification hooks, compiled only with `--cfg over_there_verif`: take a
+//! serialized packet apart and put it together again, so that a harness can
+//! forge and splice packets without knowing their serialized form.
+
+use super::packet::{Metadata, Packet, PacketEncryption, PacketType};
+use crate::core::transport::auth::Digest;
+use crate::core::transport::crypto::Nonce;
+use std::convert::{TryFrom, TryInto};
+
+/// Encryption information of a final packet
+#[derive(Clone, Debug, PartialEq, Eq, Hash)]
+pub enum RawEncryption {
+    None,
+    Encrypted,
+    WithNonce(Vec<u8>),
+}
+
+/// The fields of a packet
+#[derive(Clone, Debug, PartialEq, Eq, Hash)]
+pub struct RawPacket {
+    pub id: u32,
+    pub index: u32,
+    /// Present if the packet is the final one
+    pub last: Option<RawEncryption>,
+    pub signature: Vec<u8>,
+    pub data: Vec<u8>,
+}
+
+impl RawPacket {
+    pub fn parse(bytes: &[u8]) -> Option<Self> {
+        let p = Packet::from_slice(bytes).ok()?;
+        let last = match p.metadata().r#type {
+            PacketType::NotFinal => None,
+            PacketType::Final { encryption } => Some(match encryption {
+                PacketEncryption::None => RawEncryption::None,
+                PacketEncryption::Encrypted => RawEncryption::Encrypted,
+                PacketEncryption::EncryptedWithNonce { nonce } => {
+                    RawEncryption::WithNonce(nonce.as_slice().to_vec())
+                }
+            }),
+        };
+        Some(Self {
+            id: p.id(),
+            index: p.index(),
+            last,
+            signature: p.signature().digest().to_vec(),
+            data: p.data().clone(),
+        })
+    }
+
+    fn to_packet(&self) -> Option<Packet> {
+        let r#type = match &self.last {
+            None => PacketType::NotFinal,
+            Some(e) => PacketType::Final {
+                encryption: match e {
+                    RawEncryption::None => PacketEncryption::None,
+                    RawEncryption::Encrypted => PacketEncryption::Encrypted,
+                    RawEncryption::WithNonce(n) if n.len() == 12 => {
+                        PacketEncryption::from(Nonce::Nonce96Bits(
+                            n[..].try_into().ok()?,
+                        ))
+                    }
+                    RawEncryption::WithNonce(n) => PacketEncryption::from(
+                        Nonce::Nonce128Bits(n[..].try_into().ok()?),
+                    ),
+                },
+            },
+        };
+        let metadata = Metadata {
+            id: self.id,
+            index: self.index,
+            r#type,
+        };
+        let signature = Digest::try_from(&self.signature[..]).ok()?;
+        Some(Packet::new(metadata, signature, self.data.clone()))
+    }
+
+    /// Serializes the packet with its signature as is
+    pub fn to_vec(&self) -> Option<Vec<u8>> {
+        self.to_packet()?.to_vec().ok()
+    }
+
+    /// The bytes a signer signs for this packet
+    pub fn signed_content(&self) -> Option<Vec<u8>> {
+        self.to_packet()?.content_for_signature().ok()
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 3518453..c710f52 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+// `over_there_verif` is the guard of the verification hooks (see `wire::verif`)
+#![allow(unexpected_cfgs)]
+
 /// Contains CLI-specific code for the binary
 #[cfg(feature = "cli")]
 pub mod cli;
-- 
2.43.0


From 4fcc79ca00ac068a927c8184e7f0db4968a8d3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:56 +0000
Subject: [PATCH 02/28] fix: decrypt multi-packet payloads with the final
 packet's nonce

The nonce was taken from the packet received last, so a payload whose
final packet arrived before another of its packets failed to decrypt.
---
 src/core/transport/wire/input/decoder.rs | 9 ++++++++-
 src/core/transport/wire/input/mod.rs     | 9 +++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/core/transport/wire/input/decoder.rs b/src/core/transport/wire/input/decoder.rs
index 9807414..27e148a 100644
--- a/src/core/transport/wire/input/decoder.rs
+++ b/src/core/transport/wire/input/decoder.rs
@@ -1,4 +1,4 @@
-use crate::core::transport::{constants, wire::packet::Packet};
+use crate::core::transport::{constants, crypto::Nonce, wire::packet::Packet};
 use crate::utils::TtlValue;
 use derive_more::{Display, Error};
 use std::collections::HashMap;
@@ -131,6 +131,13 @@ impl Decoder {
             .unwrap_or_default()
     }
 
+    /// Retrieves the nonce carried by the final packet of the group, if the
+    /// final packet has been received and contains one
+    pub fn nonce(&self, group_id: u32) -> Option<&Nonce> {
+        let group = self.packet_groups.get(&group_id.into())?;
+        group.packets.get(&group.final_index?)?.nonce()
+    }
+
     /// Reconstructs the data represented by the packets
     /// NOTE: This currently produces a copy of all data instead of passing
     ///       back out ownership
diff --git a/src/core/transport/wire/input/mod.rs b/src/core/transport/wire/input/mod.rs
index 3d53473..5951a6e 100644
--- a/src/core/transport/wire/input/mod.rs
+++ b/src/core/transport/wire/input/mod.rs
@@ -1,6 +1,6 @@
 pub mod decoder;
 
-use crate::core::transport::crypto::{AssociatedData, CryptError, Decrypter, Nonce};
+use crate::core::transport::crypto::{AssociatedData, CryptError, Decrypter};
 use crate::core::transport::{auth::Verifier, wire::packet::Packet};
 use decoder::Decoder;
 use derive_more::{Display, Error};
@@ -59,7 +59,6 @@ where
         }
 
         let group_id = p.id();
-        let nonce = p.nonce().cloned();
 
         // Ensure that packet groups are still valid
         self.decoder.remove_expired();
@@ -72,7 +71,6 @@ where
                 group_id,
                 &self.decoder,
                 &self.decrypter,
-                nonce,
             )?;
 
             // Remove the underlying group as we no longer need to keep it
@@ -121,7 +119,6 @@ fn decode_and_decrypt<D>(
     group_id: u32,
     decoder: &Decoder,
     decrypter: &D,
-    nonce: Option<Nonce>,
 ) -> Result<Vec<u8>, InputProcessorError>
 where
     D: Decrypter,
@@ -131,6 +128,10 @@ where
         .decode(group_id)
         .map_err(InputProcessorError::DecodeData)?;
 
+    // The nonce travels with the final packet, which is not necessarily the
+    // packet that was received last
+    let nonce = decoder.nonce(group_id).cloned();
+
     // Decrypt our collective data
     let data = decrypter
         .decrypt(&data, &AssociatedData::from(nonce))
-- 
2.43.0


From ff6945f0d9d3ffa2796fab2e5b0b2e32753408c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 03/28] fix: only complete a packet group that has every packet
 up to the final one

A final packet was accepted below packets already received, and only the
number of packets was compared (overflowing for the largest index), so a
group with gaps could be reassembled and a forged index could panic.
---
 src/core/transport/wire/input/decoder.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/core/transport/wire/input/decoder.rs b/src/core/transport/wire/input/decoder.rs
index 27e148a..de8bef6 100644
--- a/src/core/transport/wire/input/decoder.rs
+++ b/src/core/transport/wire/input/decoder.rs
@@ -100,6 +100,19 @@ impl Decoder {
             return Err(DecoderError::PacketBeyondLastIndex { id, index });
         }
 
+        // Check if we are adding a final packet that comes before a packet
+        // we already have
+        if is_final {
+            if let Some(&last) = group.packets.keys().max() {
+                if last > index {
+                    return Err(DecoderError::PacketBeyondLastIndex {
+                        id,
+                        index: last,
+                    });
+                }
+            }
+        }
+
         // Add the packet to our group and, if it's final, mark it
         group.packets.insert(index, packet);
         if is_final {
@@ -125,8 +138,10 @@ impl Decoder {
         self.packet_groups
             .get(&group_id.into())
             .and_then(|g| {
-                let total_packets = g.packets.len() as u32;
-                g.final_index.map(|i| i + 1 == total_packets)
+                // NOTE: No packet is beyond the final index, so we have all of
+                //       them as soon as we have as many as we need
+                let total_packets = g.packets.len() as u64;
+                g.final_index.map(|i| u64::from(i) + 1 == total_packets)
             })
             .unwrap_or_default()
     }
-- 
2.43.0


From aadafc6b45e3aa30cd4aba6741cfe096e1a73303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:12 +0000
Subject: [PATCH 04/28] fix: keep signed packets within the transmission limit

A signature was serialized as a sequence of integers, whose size depends on
the values, but the packet size was estimated with an arbitrary signature,
so real packets could exceed the limit (and be truncated by the receiver).
---
 src/core/transport/auth/digest.rs | 53 ++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/src/core/transport/auth/digest.rs b/src/core/transport/auth/digest.rs
index e21697e..8a5c519 100644
--- a/src/core/transport/auth/digest.rs
+++ b/src/core/transport/auth/digest.rs
@@ -1,20 +1,65 @@
 use serde::{Deserialize, Serialize};
-use serde_big_array::big_array;
 use std::convert::TryFrom;
 
 pub type Digest256Bits = [u8; 32];
 pub type Digest512Bits = [u8; 64];
 
-big_array! { BigArray; }
-
 #[derive(Serialize, Deserialize, Clone)]
 pub enum Digest {
+    #[serde(with = "digest_bytes")]
     Digest256Bits(Digest256Bits),
 
-    #[serde(with = "BigArray")]
+    #[serde(with = "digest_bytes")]
     Digest512Bits(Digest512Bits),
 }
 
+/// Serializes a digest as bytes, so that digests of the same kind all have the
+/// same serialized size (as a sequence of integers, it varies with the values)
+mod digest_bytes {
+    use serde::{de::Error, Deserializer, Serializer};
+
+    pub fn serialize<T, S>(digest: &T, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        T: AsRef<[u8]>,
+        S: Serializer,
+    {
+        serializer.serialize_bytes(digest.as_ref())
+    }
+
+    pub fn deserialize<'de, T, D>(deserializer: D) -> Result<T, D::Error>
+    where
+        T: DigestArray,
+        D: Deserializer<'de>,
+    {
+        let bytes: Vec<u8> = serde_bytes::deserialize(deserializer)?;
+        T::from_bytes(&bytes)
+            .ok_or_else(|| D::Error::invalid_length(bytes.len(), &"a digest"))
+    }
+
+    pub trait DigestArray: Sized {
+        fn from_bytes(bytes: &[u8]) -> Option<Self>;
+    }
+
+    macro_rules! impl_digest_array {
+        ($size:expr) => {
+            impl DigestArray for [u8; $size] {
+                fn from_bytes(bytes: &[u8]) -> Option<Self> {
+                    let mut digest = [0; $size];
+                    if bytes.len() == digest.len() {
+                        digest.copy_from_slice(bytes);
+                        Some(digest)
+                    } else {
+                        None
+                    }
+                }
+            }
+        };
+    }
+
+    impl_digest_array!(32);
+    impl_digest_array!(64);
+}
+
 impl Digest {
     /// Retrieves reference to underlying digest
     pub fn digest(&self) -> &[u8] {
-- 
2.43.0


From 60480fa4ae48499fea05a667ec5bf3363a4969a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 05/28] fix: send a packet for empty data

Without encryption an empty payload produced no packet at all and was
silently lost.
---
 src/core/transport/wire/output/encoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/transport/wire/output/encoder.rs b/src/core/transport/wire/output/encoder.rs
index 5bd8d70..1e8ce19 100644
--- a/src/core/transport/wire/output/encoder.rs
+++ b/src/core/transport/wire/output/encoder.rs
@@ -82,7 +82,9 @@ impl Encoder {
         // collective using the chunks
         let mut packets = Vec::new();
         let mut i = 0;
-        while i < data.len() {
+
+        // NOTE: Empty data still needs a (final) packet to be received
+        while i < data.len() || packets.is_empty() {
             // Chunk length is determined by this logic:
             // 1. If we have room in the final packet for the remaining data,
             //    store it in the final packet
-- 
2.43.0


From 808d74fbb339dd347ad1da1f0b899ffbc08595cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 06/28] fix: check and remember a nonce in one step

---
 src/core/transport/crypto/nonce/cache.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/transport/crypto/nonce/cache.rs b/src/core/transport/crypto/nonce/cache.rs
index 0b542f0..2846588 100644
--- a/src/core/transport/crypto/nonce/cache.rs
+++ b/src/core/transport/crypto/nonce/cache.rs
@@ -34,12 +34,16 @@ impl<T: Bicrypter> NonceCacheBicrypter<T> {
     ) -> Result<&'a [u8], CryptError> {
         if let Some(cache) = &self.cache {
             let nonce_vec = nonce.to_vec();
-            if cache.read().unwrap().contains(&nonce_vec) {
+
+            // Check and mark under a single lock, so that of several uses of
+            // one nonce at the same time only one can succeed
+            let mut cache = cache.write().unwrap();
+            if cache.contains(&nonce_vec) {
                 return Err(CryptError::NonceAlreadyUsed { nonce: nonce_vec });
             }
 
             // Mark that we have used the nonce
-            cache.write().unwrap().put(nonce_vec, ());
+            cache.put(nonce_vec, ());
         }
 
         Ok(nonce)
-- 
2.43.0


From 0e95fd9d23d921f67540191e83cbc187820b53a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:00 +0000
Subject: [PATCH 07/28] fix: make forward requests and replies decodable

---
 src/core/msg/content/reply/forward.rs   |  4 ++++
 src/core/msg/content/request/forward.rs |  4 ++++
 src/utils/serializers/mod.rs            |  1 +
 src/utils/serializers/socket_addr.rs    | 26 +++++++++++++++++++++++++
 4 files changed, 35 insertions(+)
 create mode 100644 src/utils/serializers/socket_addr.rs

diff --git a/src/core/msg/content/reply/forward.rs b/src/core/msg/content/reply/forward.rs
index 1dd4bc3..a51d8f2 100644
--- a/src/core/msg/content/reply/forward.rs
+++ b/src/core/msg/content/reply/forward.rs
@@ -5,6 +5,10 @@ use std::net::SocketAddr;
 
 #[derive(JsonSchema, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
 pub struct ForwardArgs {
+    #[serde(
+        serialize_with = "crate::utils::serializers::socket_addr::serialize",
+        deserialize_with = "crate::utils::serializers::socket_addr::deserialize"
+    )]
     pub address: SocketAddr,
     pub reply: Box<Reply>,
 }
diff --git a/src/core/msg/content/request/forward.rs b/src/core/msg/content/request/forward.rs
index 2619c01..ee8463c 100644
--- a/src/core/msg/content/request/forward.rs
+++ b/src/core/msg/content/request/forward.rs
@@ -5,6 +5,10 @@ use std::net::SocketAddr;
 
 #[derive(JsonSchema, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
 pub struct ForwardArgs {
+    #[serde(
+        serialize_with = "crate::utils::serializers::socket_addr::serialize",
+        deserialize_with = "crate::utils::serializers::socket_addr::deserialize"
+    )]
     pub address: SocketAddr,
     pub request: Box<Request>,
 }
diff --git a/src/utils/serializers/mod.rs b/src/utils/serializers/mod.rs
index 4c6c21f..e8f1a3f 100644
--- a/src/utils/serializers/mod.rs
+++ b/src/utils/serializers/mod.rs
@@ -1,2 +1,3 @@
 pub mod error_kind;
 pub mod io_error;
+pub mod socket_addr;
diff --git a/src/utils/serializers/socket_addr.rs b/src/utils/serializers/socket_addr.rs
new file mode 100644
index 0000000..c8e82c0
--- /dev/null
+++ b/src/utils/serializers/socket_addr.rs
@@ -0,0 +1,26 @@
+use serde::{de, Deserialize, Deserializer, Serializer};
+use std::net::SocketAddr;
+
+// serde gives a socket address a different form depending on whether the
+// format is human-readable, but values buffered by an untagged enum are always
+// read back as human-readable; so, we use the textual form for all formats
+pub fn serialize<S>(
+    addr: &SocketAddr,
+    serializer: S,
+) -> std::result::Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    serializer.collect_str(addr)
+}
+
+pub fn deserialize<'de, D>(
+    deserializer: D,
+) -> std::result::Result<SocketAddr, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    String::deserialize(deserializer)?
+        .parse()
+        .map_err(de::Error::custom)
+}
-- 
2.43.0


From c65b8080f1aa291015b549b2d3ac269383f7ef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 08/28] fix: let unanswered operations appear among the results
 of sequences and batches

---
 src/core/msg/content/reply/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/msg/content/reply/mod.rs b/src/core/msg/content/reply/mod.rs
index 672dbf7..59f2868 100644
--- a/src/core/msg/content/reply/mod.rs
+++ b/src/core/msg/content/reply/mod.rs
@@ -28,8 +28,9 @@ use serde::{Deserialize, Serialize};
 // #[serde(tag = "type")]
 #[serde(tag = "type", content = "payload")]
 pub enum Reply {
-    /// Used when we want to NOT send a reply at all
-    #[serde(skip)]
+    /// Used when we want to NOT send a reply at all; only travels as one of
+    /// the results of a sequence or batch
+    #[serde(rename = "ignore_reply")]
     Ignore,
 
     // ------------------------------------------------------------------------
-- 
2.43.0


From 47c975d10d8f7816232773b821928da2ccc56c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:15 +0000
Subject: [PATCH 09/28] fix: find delimiters whatever the sizes of reads and
 writes

The reader also searched the part of its buffer that held no data yet and
so missed delimiters arriving in several reads, and underflowed when the
buffer was full without a partial delimiter; the writer ignored short writes.
---
 src/utils/delimiter.rs | 47 ++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/utils/delimiter.rs b/src/utils/delimiter.rs
index 83bdb48..3871eb5 100644
--- a/src/utils/delimiter.rs
+++ b/src/utils/delimiter.rs
@@ -5,7 +5,6 @@ pub const DEFAULT_DELIMITER: &[u8] = b"</>";
 
 #[derive(Clone, Copy)]
 struct PreReadResult {
-    buf_len: usize,
     delimiter_len: usize,
 }
 
@@ -73,17 +72,17 @@ impl DelimiterReader {
         // delimiter size and try again; this creates a sliding window where
         // we keep the max data size specified at all times
         if self.buf_pos > (buf_len - delimiter_len) {
-            let (pd_pos, pdelimiter_len) = self.find_partial_delimiter();
+            let (_, pdelimiter_len) = self.find_partial_delimiter();
             let shift_len = delimiter_len - pdelimiter_len;
             self.buf.rotate_left(shift_len);
             self.buf_filled -= shift_len;
-            self.buf_pos = pd_pos - shift_len;
+
+            // Continue the search at the partial delimiter, or at the end of
+            // the kept data if there is none
+            self.buf_pos = self.buf_filled - pdelimiter_len;
         };
 
-        PreReadResult {
-            buf_len,
-            delimiter_len,
-        }
+        PreReadResult { delimiter_len }
     }
 
     /// Performs update to buffer based on read bytes, copying data to external
@@ -94,20 +93,19 @@ impl DelimiterReader {
         bytes_read: Option<&usize>,
         preread_result: PreReadResult,
     ) -> usize {
-        let PreReadResult {
-            buf_len,
-            delimiter_len,
-        } = preread_result;
+        let PreReadResult { delimiter_len } = preread_result;
 
         // Mark where we will start reading and then update the filled count
         if let Some(bytes_read) = bytes_read {
             self.buf_filled += bytes_read;
         }
 
-        // Scan for the delimiter starting from the last place searched
+        // Scan for the delimiter starting from the last place searched, only
+        // looking at the part of the buffer that holds data as a delimiter
+        // may still be incomplete
         let mut size = 0;
-        if self.buf_filled > 0 {
-            for i in self.buf_pos..=(buf_len - delimiter_len) {
+        if self.buf_filled >= delimiter_len {
+            for i in self.buf_pos..=(self.buf_filled - delimiter_len) {
                 // If we have a match, we want to copy the contents (minus the delimiter) to the
                 // provided buffer, shift over any remaining data, and reset our buf filled count
                 if self.buf[i..i + delimiter_len] == self.delimiter[..] {
@@ -214,13 +212,30 @@ impl DelimiterWriter {
         F: FnMut(&[u8]) -> io::Result<usize>,
     {
         // Send all of the requested data first
-        f(data)?;
+        Self::write_all(data, &mut f)?;
 
         // Then send our delimiter
-        f(&self.delimiter)?;
+        Self::write_all(&self.delimiter, &mut f)?;
 
         Ok(data.len())
     }
+
+    /// Writes everything, however little is accepted by each individual write
+    fn write_all<F>(mut data: &[u8], f: &mut F) -> io::Result<()>
+    where
+        F: FnMut(&[u8]) -> io::Result<usize>,
+    {
+        while !data.is_empty() {
+            match f(data) {
+                Ok(0) => return Err(io::ErrorKind::WriteZero.into()),
+                Ok(n) => data = &data[n..],
+                Err(x) if x.kind() == io::ErrorKind::Interrupted => (),
+                Err(x) => return Err(x),
+            }
+        }
+
+        Ok(())
+    }
 }
 
 impl Default for DelimiterWriter {
-- 
2.43.0


From 1e31dc670a1f2122746bd9f79d91dfd39765b29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:30 +0000
Subject: [PATCH 10/28] fix: answer with an error when a custom handler panics

---
 src/core/server/action/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/core/server/action/mod.rs b/src/core/server/action/mod.rs
index cf3b43d..deda188 100644
--- a/src/core/server/action/mod.rs
+++ b/src/core/server/action/mod.rs
@@ -10,6 +10,7 @@ use futures::future::{BoxFuture, FutureExt};
 use log::trace;
 use std::collections::hash_map::Entry;
 use std::net::SocketAddr;
+use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
 use std::time::Instant;
 use tokio::{runtime::Handle, sync::mpsc};
@@ -361,11 +362,20 @@ fn route_and_execute(
                 // TODO: Move to handler function that can be tested
                 //       and have logging
                 Request::Custom(args) => match &state.custom_handler.as_ref() {
-                    Some(ch) => ch
-                        .invoke(args)
+                    // A panicking handler only fails its own request
+                    Some(ch) => AssertUnwindSafe(ch.invoke(args))
+                        .catch_unwind()
                         .await
-                        .map(Reply::Custom)
-                        .unwrap_or_else(Reply::from),
+                        .map(|result| {
+                            result
+                                .map(Reply::Custom)
+                                .unwrap_or_else(Reply::from)
+                        })
+                        .unwrap_or_else(|_| {
+                            Reply::Error(ReplyError::from(
+                                "Custom handler panicked",
+                            ))
+                        }),
                     None => Reply::Ignore,
                 },
 
-- 
2.43.0


From 163ab22940018c33708c992f25887a6d2d2086a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:00 +0000
Subject: [PATCH 11/28] fix: close a file when it is removed through its handle

---
 src/core/server/action/handler/fs.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/server/action/handler/fs.rs b/src/core/server/action/handler/fs.rs
index dc5746d..f293ae7 100644
--- a/src/core/server/action/handler/fs.rs
+++ b/src/core/server/action/handler/fs.rs
@@ -150,13 +150,19 @@ pub async fn remove_file(
     debug!("handler::remove_file: {:?}", args);
     state.touch_file_id(args.id).await;
 
-    match state.fs_manager.lock().await.get_mut(args.id) {
+    let mut fs_manager = state.fs_manager.lock().await;
+    match fs_manager.get_mut(args.id) {
         Some(local_file) => match local_file.remove(args.sig).await {
             Ok(_) => {
+                // The file is gone, so it must not be found by its path or
+                // id anymore
+                let handle = local_file.handle();
+                fs_manager.close_file(handle).map_err(FileIoError::Io)?;
+
                 state.remove_file_id(args.id).await;
                 Ok(FileRemovedArgs {
                     id: args.id,
-                    sig: local_file.sig(),
+                    sig: handle.sig,
                 })
             }
             Err(LocalFileError::SigMismatch) => Err(FileIoError::SigMismatch {
-- 
2.43.0


From 42fae6f08a884da31040cd7bb4a8ef11f6a7dd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:07 +0000
Subject: [PATCH 12/28] fix: keep the resolved path of an open file that is
 renamed

---
 src/core/server/fs/file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/server/fs/file.rs b/src/core/server/fs/file.rs
index ee2b38c..f10fd5b 100644
--- a/src/core/server/fs/file.rs
+++ b/src/core/server/fs/file.rs
@@ -145,7 +145,9 @@ impl LocalFile {
         // Update signature to reflect the change and update our internal
         // path so that we can continue to do renames/removals properly
         self.sig = OsRng.next_u32();
-        self.path = to.as_ref().to_path_buf();
+        self.path = fs::canonicalize(to.as_ref())
+            .await
+            .unwrap_or_else(|_| to.as_ref().to_path_buf());
 
         Ok(self.sig)
     }
-- 
2.43.0


From e6af1cdb1549690202040e71e7693bf001237a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:09 +0000
Subject: [PATCH 13/28] fix: refuse renames that would replace an open file

---
 src/core/server/action/handler/fs.rs | 12 +++++++++++-
 src/core/server/fs/mod.rs            | 22 ++++++++++++++++++++--
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/core/server/action/handler/fs.rs b/src/core/server/action/handler/fs.rs
index f293ae7..10938dc 100644
--- a/src/core/server/action/handler/fs.rs
+++ b/src/core/server/action/handler/fs.rs
@@ -107,7 +107,17 @@ pub async fn rename_file(
     debug!("handler::rename_file: {:?}", args);
     state.touch_file_id(args.id).await;
 
-    match state.fs_manager.lock().await.get_mut(args.id) {
+    let mut fs_manager = state.fs_manager.lock().await;
+
+    // NOTE: A rename with an outdated signature is refused below
+    if fs_manager.get(args.id).map(|f| f.sig()) == Some(args.sig) {
+        fs_manager
+            .check_rename_target(args.id, &args.to)
+            .await
+            .map_err(FileIoError::Io)?;
+    }
+
+    match fs_manager.get_mut(args.id) {
         Some(local_file) => match local_file.rename(args.sig, &args.to).await {
             Ok(_) => Ok(FileRenamedArgs {
                 id: args.id,
diff --git a/src/core/server/fs/mod.rs b/src/core/server/fs/mod.rs
index 0775431..7e47d52 100644
--- a/src/core/server/fs/mod.rs
+++ b/src/core/server/fs/mod.rs
@@ -40,7 +40,8 @@ impl FileSystemManager {
 
     /// Attempts to rename an entire directory.
     ///
-    /// Will fail if there is an open file within the directory on any level.
+    /// Will fail if there is an open file within the directory on any level,
+    /// or if the directory at `to` that would be replaced is open.
     pub async fn rename_dir(
         &mut self,
         from: impl AsRef<Path>,
@@ -50,6 +51,7 @@ impl FileSystemManager {
         let to = clean_path(to.as_ref()).await;
 
         self.check_no_open_files(from.as_path())?;
+        self.check_no_open_files(to.as_path())?;
 
         // No open file is within this directory, so good to attempt to rename
         dir::rename(from.as_path(), to.as_path()).await?;
@@ -183,7 +185,7 @@ impl FileSystemManager {
 
     /// Attempts to rename a file at `from` into `to`.
     ///
-    /// Will fail if file is open at `from`.
+    /// Will fail if file is open at `from` or at `to`.
     pub async fn rename_file(
         &mut self,
         from: impl AsRef<Path>,
@@ -193,6 +195,7 @@ impl FileSystemManager {
         let to = clean_path(to.as_ref()).await;
 
         self.check_no_open_files(from.as_path())?;
+        self.check_no_open_files(to.as_path())?;
 
         file::rename(from.as_path(), to.as_path()).await
     }
@@ -235,6 +238,21 @@ impl FileSystemManager {
         self.get(id).is_some()
     }
 
+    /// Checks that renaming the open file with `id` to `path` would not replace
+    /// some other file that is open
+    pub async fn check_rename_target(
+        &self,
+        id: u32,
+        path: impl AsRef<Path>,
+    ) -> io::Result<()> {
+        let path = clean_path(path.as_ref()).await;
+
+        match self.get(id) {
+            Some(file) if file.path() == path.as_path() => Ok(()),
+            _ => self.check_no_open_files(path),
+        }
+    }
+
     /// Checks that `path` is not an open file or (if dir) does not contain any
     /// open files managed by the file system manager
     fn check_no_open_files(&self, path: impl AsRef<Path>) -> io::Result<()> {
-- 
2.43.0


From 8d85a8b7327a54c19a05b1c997f16d77e438c1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:16 +0000
Subject: [PATCH 14/28] fix: restart the time of an opened file before it can
 be evicted

---
 src/core/server/action/handler/fs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/server/action/handler/fs.rs b/src/core/server/action/handler/fs.rs
index 10938dc..8bf6a6c 100644
--- a/src/core/server/action/handler/fs.rs
+++ b/src/core/server/action/handler/fs.rs
@@ -40,10 +40,8 @@ pub async fn open_file(
 ) -> Result<FileOpenedArgs, io::Error> {
     debug!("handler::open_file: {:?}", args);
 
-    let handle = state
-        .fs_manager
-        .lock()
-        .await
+    let mut fs_manager = state.fs_manager.lock().await;
+    let handle = fs_manager
         .open_file(
             &args.path,
             args.create_if_missing,
@@ -52,6 +50,8 @@ pub async fn open_file(
         )
         .await?;
 
+    // NOTE: Must happen before the files can be used by others, otherwise a
+    //       file that was already open could be evicted in between
     state.touch_file_id(handle.id).await;
 
     Ok(FileOpenedArgs {
-- 
2.43.0


From 770b9c0c77da192847c361afd23ad48633b00406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 15/28] fix: keep a UDP endpoint working after a failed send or
 receive

---
 src/core/event/udp.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/core/event/udp.rs b/src/core/event/udp.rs
index fab8228..103e14d 100644
--- a/src/core/event/udp.rs
+++ b/src/core/event/udp.rs
@@ -3,7 +3,7 @@ use crate::core::Msg;
 
 use log::error;
 use crate::core::transport::{
-    Authenticator, Bicrypter, Decrypter, Encrypter, Signer,
+    Authenticator, Bicrypter, Decrypter, Encrypter, InboundWireError, Signer,
     UdpSocketInboundWire, UdpSocketOutboundWire, Verifier, Wire,
 };
 use std::net::SocketAddr;
@@ -91,9 +91,10 @@ async fn udp_socket_outbound_loop<S, E>(
     E: Encrypter,
 {
     while let Some((msg, addr)) = rx.recv().await {
+        // NOTE: A failure to send to one address must not prevent us from
+        //       sending to others or trying again later
         if let Err(x) = writer.write_to(&msg, addr).await {
             error!("Failed to send: {}", x);
-            break;
         }
     }
 }
@@ -112,7 +113,16 @@ async fn udp_socket_inbound_loop<V, D>(
 {
     loop {
         let tx_2 = tx.clone();
-        let result = reader.read().await;
+        let result = match reader.read().await {
+            // NOTE: An error reported by a UDP socket only concerns a single
+            //       datagram, such as one we sent that nobody received, and
+            //       does not prevent the socket from receiving others
+            Err(InboundWireError::IO(x)) => {
+                error!("Failed to receive: {}", x);
+                continue;
+            }
+            x => x,
+        };
         if !super::process_inbound(result, tx_2, on_inbound_tx.clone()).await {
             break;
         }
-- 
2.43.0


From a48feed5258c0bcb37c8101ddc22108cea8d07f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 16/28] fix: report a changed file signature as such to the
 caller

---
 src/core/client/connected.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/client/connected.rs b/src/core/client/connected.rs
index 739eb03..7cd9b2c 100644
--- a/src/core/client/connected.rs
+++ b/src/core/client/connected.rs
@@ -622,6 +622,9 @@ fn make_file_ask_error(x: Reply) -> FileAskError {
         Reply::Error(ReplyError::Io(args)) => {
             FileAskError::IoError(args.into())
         }
+        Reply::Error(ReplyError::FileSigChanged(args)) => {
+            FileAskError::FileSignatureChanged { id: args.id }
+        }
         x => From::from(make_ask_error(x)),
     }
 }
-- 
2.43.0


From e448050da98e861f725dcc0d5cb231b0b3895daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 17/28] fix: find packets in a TCP stream however it is
 segmented

---
 src/core/transport/wire/packet.rs | 13 ++++++++
 src/core/transport/wire/tcp.rs    | 53 +++++++++++++++++++++----------
 2 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/src/core/transport/wire/packet.rs b/src/core/transport/wire/packet.rs
index f9ef074..1be7a49 100644
--- a/src/core/transport/wire/packet.rs
+++ b/src/core/transport/wire/packet.rs
@@ -164,4 +164,17 @@ impl Packet {
     pub fn from_slice(slice: &[u8]) -> Result<Self, serde_cbor::Error> {
         serde_cbor::from_slice(slice)
     }
+
+    /// Determines the size of the packet at the beginning of a slice, which
+    /// is nothing if the slice does not contain all of the packet
+    pub fn size_at_start(
+        slice: &[u8],
+    ) -> Result<Option<usize>, serde_cbor::Error> {
+        let mut deserializer = serde_cbor::Deserializer::from_slice(slice);
+        match Self::deserialize(&mut deserializer) {
+            Ok(_) => Ok(Some(deserializer.byte_offset())),
+            Err(x) if x.is_eof() => Ok(None),
+            Err(x) => Err(x),
+        }
+    }
 }
diff --git a/src/core/transport/wire/tcp.rs b/src/core/transport/wire/tcp.rs
index a6c2355..7e1a774 100644
--- a/src/core/transport/wire/tcp.rs
+++ b/src/core/transport/wire/tcp.rs
@@ -1,6 +1,7 @@
 use super::{
-    auth, crypto, Authenticator, Bicrypter, Decrypter, Encrypter, InboundWire,
-    InboundWireError, OutboundWire, OutboundWireError, Signer, Verifier, Wire,
+    auth, crypto, packet::Packet, Authenticator, Bicrypter, Decrypter,
+    Encrypter, InboundWire, InboundWireError, OutboundWire, OutboundWireError,
+    Signer, Verifier, Wire,
 };
 use std::net::SocketAddr;
 use tokio::{
@@ -86,6 +87,9 @@ where
     inbound_wire: InboundWire<V, D>,
     stream: ReadHalf<TcpStream>,
     remote_addr: SocketAddr,
+
+    /// Bytes received that have not been processed
+    unprocessed: Vec<u8>,
 }
 
 impl<V, D> TcpStreamInboundWire<V, D>
@@ -102,20 +106,41 @@ where
             inbound_wire,
             stream,
             remote_addr,
+            unprocessed: Vec::new(),
         }
     }
 
     pub async fn read(
         &mut self,
     ) -> Result<(Option<Vec<u8>>, SocketAddr), InboundWireError> {
-        let mut buf =
-            vec![0; self.inbound_wire.transmission_size()].into_boxed_slice();
-        let size = self
-            .stream
-            .read(&mut buf)
-            .await
-            .map_err(InboundWireError::IO)?;
-        let data = self.inbound_wire.process(&buf[..size])?;
+        let max_size = self.inbound_wire.transmission_size();
+
+        // NOTE: A stream does not keep the boundaries between packets, so we
+        //       can receive parts of a packet as well as several at once
+        let size = loop {
+            match Packet::size_at_start(&self.unprocessed) {
+                Ok(Some(size)) => break size,
+                Ok(None) if self.unprocessed.len() < max_size => (),
+                // Not a packet, so there is no telling where one starts
+                _ => break self.unprocessed.len(),
+            }
+
+            let mut buf = vec![0; max_size].into_boxed_slice();
+            let size = self
+                .stream
+                .read(&mut buf)
+                .await
+                .map_err(InboundWireError::IO)?;
+            if size == 0 {
+                return Err(InboundWireError::IO(
+                    io::ErrorKind::UnexpectedEof.into(),
+                ));
+            }
+            self.unprocessed.extend_from_slice(&buf[..size]);
+        };
+
+        let packet_bytes: Vec<u8> = self.unprocessed.drain(..size).collect();
+        let data = self.inbound_wire.process(&packet_bytes)?;
 
         Ok((data, self.remote_addr))
     }
@@ -149,14 +174,10 @@ where
         let data = self.outbound_wire.process(buf)?;
 
         for packet_bytes in data.iter() {
-            let size = self
-                .stream
-                .write(packet_bytes)
+            self.stream
+                .write_all(packet_bytes)
                 .await
                 .map_err(OutboundWireError::IO)?;
-            if size < packet_bytes.len() {
-                return Err(OutboundWireError::IncompleteSend);
-            }
         }
 
         Ok(())
-- 
2.43.0


From c1c6720a5b76b522b00e6a9043a6af2201d458e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 18/28] fix: release TCP connections of peers that left

---
 src/core/event/mod.rs | 11 ++++++++++-
 src/core/event/tcp.rs | 28 ++++++++++++++++++----------
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/core/event/mod.rs b/src/core/event/mod.rs
index 5e6b539..a93607c 100644
--- a/src/core/event/mod.rs
+++ b/src/core/event/mod.rs
@@ -20,7 +20,16 @@ impl EventManager {
     }
 
     pub async fn wait(self) -> Result<(), task::JoinError> {
-        tokio::try_join!(self.inbound_handle, self.outbound_handle).map(|_| ())
+        let Self {
+            inbound_handle,
+            outbound_handle,
+            tx,
+        } = self;
+
+        // NOTE: The outbound loop only ends once nobody is able to send
+        drop(tx);
+
+        tokio::try_join!(inbound_handle, outbound_handle).map(|_| ())
     }
 }
 
diff --git a/src/core/event/tcp.rs b/src/core/event/tcp.rs
index d8d7816..357dd75 100644
--- a/src/core/event/tcp.rs
+++ b/src/core/event/tcp.rs
@@ -34,8 +34,9 @@ impl EventManager {
 
         let (tx, rx) = mpsc::channel::<Vec<u8>>(max_outbound_queue);
 
-        let inbound_handle = handle.spawn(tcp_stream_outbound_loop(rx, writer));
-        let outbound_handle = handle.spawn(tcp_stream_inbound_loop(
+        let outbound_handle =
+            handle.spawn(tcp_stream_outbound_loop(rx, writer));
+        let inbound_handle = handle.spawn(tcp_stream_inbound_loop(
             tx.clone(),
             reader,
             on_inbound_tx,
@@ -154,7 +155,11 @@ async fn tcp_listener_spawn_stream<A, B>(
     A: Authenticator + Send + Sync + 'static,
     B: Bicrypter + Send + Sync + 'static,
 {
-    let event_manager = EventManager::for_tcp_stream(
+    let EventManager {
+        inbound_handle,
+        outbound_handle,
+        tx,
+    } = EventManager::for_tcp_stream(
         handle,
         max_outbound_queue,
         stream,
@@ -163,18 +168,21 @@ async fn tcp_listener_spawn_stream<A, B>(
         on_inbound_tx,
     );
 
-    connections
-        .lock()
-        .await
-        .insert(addr, event_manager.tx.clone());
+    connections.lock().await.insert(addr, tx);
 
-    // Wait for the stream's event manager to exit,
+    // Wait for the stream's inbound loop to exit,
     // and remove the connection once it does
-    if let Err(x) = event_manager.wait().await {
-        error!("Event manager exited badly: {}", x);
+    if let Err(x) = inbound_handle.await {
+        error!("Inbound loop exited badly: {}", x);
     }
 
+    // NOTE: Must happen before waiting for the outbound loop as that only
+    //       ends once nobody is able to send to the connection
     connections.lock().await.remove(&addr);
+
+    if let Err(x) = outbound_handle.await {
+        error!("Outbound loop exited badly: {}", x);
+    }
 }
 
 /// Loops continuously, reading outbound data and sending it out over the wire
-- 
2.43.0


From e9dda5ef43f45ab06402008dadf51d8fb2f825d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 19/28] fix: keep accepting TCP connections after a failed
 attempt

---
 src/core/event/tcp.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/event/tcp.rs b/src/core/event/tcp.rs
index 357dd75..eb1595f 100644
--- a/src/core/event/tcp.rs
+++ b/src/core/event/tcp.rs
@@ -9,12 +9,17 @@ use crate::core::transport::{
 use std::collections::HashMap;
 use std::net::SocketAddr;
 use std::sync::Arc;
+use std::time::Duration;
 use tokio::{
     net::{TcpListener, TcpStream},
     runtime::Handle,
     sync::{mpsc, Mutex},
+    time,
 };
 
+/// Time to wait before accepting again after failing to do so
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(100);
+
 /// Implementation of EventManager for TCP stream
 impl EventManager {
     pub fn for_tcp_stream<A, B>(
@@ -132,9 +137,12 @@ async fn tcp_listener_inbound_loop<A, B>(
                     max_outbound_queue,
                 ));
             }
+            // NOTE: A failed attempt to accept one connection, such as having
+            //       been aborted by the peer or there being too many open
+            //       files, does not prevent us from accepting others later
             Err(x) => {
                 error!("Listening for connections encountered error: {}", x);
-                break;
+                time::delay_for(ACCEPT_RETRY_DELAY).await;
             }
         }
     }
-- 
2.43.0


From 04517515fe17e7a6ed0632708161d13e0d570e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 20/28] fix: only accept signatures of the chosen algorithm

---
 src/core/transport/auth/impls.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/core/transport/auth/impls.rs b/src/core/transport/auth/impls.rs
index 6d0b066..1d48112 100644
--- a/src/core/transport/auth/impls.rs
+++ b/src/core/transport/auth/impls.rs
@@ -135,7 +135,12 @@ impl Signer for Sha256Authenticator {
 impl Verifier for Sha256Authenticator {
     /// Verifies a signature (digest) for some message
     fn verify(&self, message: &[u8], signature: &Digest) -> bool {
-        signature.verify(&self.key, message)
+        match signature {
+            Digest::Digest256Bits(d) => {
+                super::verify_sha256(&self.key, message, d)
+            }
+            _ => false,
+        }
     }
 }
 
@@ -169,7 +174,12 @@ impl Signer for Sha512Authenticator {
 impl Verifier for Sha512Authenticator {
     /// Verifies a signature (digest) for some message
     fn verify(&self, message: &[u8], signature: &Digest) -> bool {
-        signature.verify(&self.key, message)
+        match signature {
+            Digest::Digest512Bits(d) => {
+                super::verify_sha512(&self.key, message, d)
+            }
+            _ => false,
+        }
     }
 }
 
-- 
2.43.0


From 076af83ba46b795e6205e5a9a534c4a28afaa397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 21/28] fix: support the AES-SIV encryption offered on the
 command line

---
 src/cli/builder/mod.rs                       | 44 ++++++++++++++++----
 src/core/transport/crypto/aes/aes_siv_128.rs |  6 ++-
 src/core/transport/crypto/aes/aes_siv_256.rs |  6 ++-
 3 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/cli/builder/mod.rs b/src/cli/builder/mod.rs
index d2715d2..e1f1ec5 100644
--- a/src/cli/builder/mod.rs
+++ b/src/cli/builder/mod.rs
@@ -70,10 +70,24 @@ pub async fn start_client(cmd: &ClientCommand) -> io::Result<ConnectedClient> {
             auth::Authenticator::Sha512(a),
             crypto::Bicrypter::Aes256GcmSiv(b),
         ) => build_client_and_connect(cmd, a, b).await,
-        _ => Err(io::Error::new(
-            io::ErrorKind::InvalidInput,
-            "Unsupported authentication or encryption protocol",
-        )),
+        (auth::Authenticator::None(a), crypto::Bicrypter::Aes128Siv(b)) => {
+            build_client_and_connect(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha256(a), crypto::Bicrypter::Aes128Siv(b)) => {
+            build_client_and_connect(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha512(a), crypto::Bicrypter::Aes128Siv(b)) => {
+            build_client_and_connect(cmd, a, b).await
+        }
+        (auth::Authenticator::None(a), crypto::Bicrypter::Aes256Siv(b)) => {
+            build_client_and_connect(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha256(a), crypto::Bicrypter::Aes256Siv(b)) => {
+            build_client_and_connect(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha512(a), crypto::Bicrypter::Aes256Siv(b)) => {
+            build_client_and_connect(cmd, a, b).await
+        }
     }
 }
 
@@ -184,10 +198,24 @@ pub async fn start_server(cmd: &ServerCommand) -> io::Result<ListeningServer> {
             auth::Authenticator::Sha512(a),
             crypto::Bicrypter::Aes256GcmSiv(b),
         ) => build_server_and_listen(cmd, a, b).await,
-        _ => Err(io::Error::new(
-            io::ErrorKind::InvalidInput,
-            "Unsupported authentication or encryption protocol",
-        )),
+        (auth::Authenticator::None(a), crypto::Bicrypter::Aes128Siv(b)) => {
+            build_server_and_listen(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha256(a), crypto::Bicrypter::Aes128Siv(b)) => {
+            build_server_and_listen(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha512(a), crypto::Bicrypter::Aes128Siv(b)) => {
+            build_server_and_listen(cmd, a, b).await
+        }
+        (auth::Authenticator::None(a), crypto::Bicrypter::Aes256Siv(b)) => {
+            build_server_and_listen(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha256(a), crypto::Bicrypter::Aes256Siv(b)) => {
+            build_server_and_listen(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha512(a), crypto::Bicrypter::Aes256Siv(b)) => {
+            build_server_and_listen(cmd, a, b).await
+        }
     }
 }
 
diff --git a/src/core/transport/crypto/aes/aes_siv_128.rs b/src/core/transport/crypto/aes/aes_siv_128.rs
index 661d011..54ee354 100644
--- a/src/core/transport/crypto/aes/aes_siv_128.rs
+++ b/src/core/transport/crypto/aes/aes_siv_128.rs
@@ -6,9 +6,11 @@ use super::super::{
 use aead::generic_array::GenericArray;
 use aead::{Aead, NewAead};
 use aes_siv::Aes128SivAead;
+use std::sync::Arc;
 
+#[derive(Clone)]
 pub struct Aes128SivBicrypter {
-    inner: Aes128SivAead,
+    inner: Arc<Aes128SivAead>,
     nonce_size: NonceSize,
 }
 
@@ -23,7 +25,7 @@ impl Aes128SivBicrypter {
     pub fn new(key: &Key256Bits) -> Self {
         let key = GenericArray::clone_from_slice(key);
         Aes128SivBicrypter {
-            inner: Aes128SivAead::new(key),
+            inner: Arc::new(Aes128SivAead::new(key)),
             nonce_size: NonceSize::Nonce128Bits,
         }
     }
diff --git a/src/core/transport/crypto/aes/aes_siv_256.rs b/src/core/transport/crypto/aes/aes_siv_256.rs
index 8c1f24b..7074445 100644
--- a/src/core/transport/crypto/aes/aes_siv_256.rs
+++ b/src/core/transport/crypto/aes/aes_siv_256.rs
@@ -6,9 +6,11 @@ use super::super::{
 use aead::generic_array::GenericArray;
 use aead::{Aead, NewAead};
 use aes_siv::Aes256SivAead;
+use std::sync::Arc;
 
+#[derive(Clone)]
 pub struct Aes256SivBicrypter {
-    inner: Aes256SivAead,
+    inner: Arc<Aes256SivAead>,
     nonce_size: NonceSize,
 }
 
@@ -23,7 +25,7 @@ impl Aes256SivBicrypter {
     pub fn new(key: &Key512Bits) -> Self {
         let key = GenericArray::clone_from_slice(key);
         Aes256SivBicrypter {
-            inner: Aes256SivAead::new(key),
+            inner: Arc::new(Aes256SivAead::new(key)),
             nonce_size: NonceSize::Nonce128Bits,
         }
     }
-- 
2.43.0


From b7becd47a244fc4ed3cd13df8269329c21b3d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 22/28] fix: finish writing redirected output before reporting
 success

---
 src/cli/mod.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index d914358..df86aae 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -79,13 +79,16 @@ async fn write_stdout(text: String, path: Option<&PathBuf>) -> io::Result<()> {
     match path {
         Some(p) => {
             use tokio::io::AsyncWriteExt;
-            tokio::fs::OpenOptions::new()
+            let mut file = tokio::fs::OpenOptions::new()
                 .create(true)
                 .append(true)
                 .open(p)
-                .await?
-                .write_all(text.as_bytes())
-                .await
+                .await?;
+            file.write_all(text.as_bytes()).await?;
+
+            // NOTE: Data still being written in the background would be lost
+            //       if the program exits before that has finished
+            file.flush().await
         }
         None => {
             print!("{}", text);
@@ -98,13 +101,16 @@ async fn write_stderr(text: String, path: Option<&PathBuf>) -> io::Result<()> {
     match path {
         Some(p) => {
             use tokio::io::AsyncWriteExt;
-            tokio::fs::OpenOptions::new()
+            let mut file = tokio::fs::OpenOptions::new()
                 .create(true)
                 .append(true)
                 .open(p)
-                .await?
-                .write_all(text.as_bytes())
-                .await
+                .await?;
+            file.write_all(text.as_bytes()).await?;
+
+            // NOTE: Data still being written in the background would be lost
+            //       if the program exits before that has finished
+            file.flush().await
         }
         None => {
             eprint!("{}", text);
-- 
2.43.0


From 85a2943cf83e97d68196e970404ce85ce6e59cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 23/28] fix: do not create or require to write a file that is
 only read

---
 src/cli/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index df86aae..80130a8 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -261,7 +261,10 @@ async fn run_client(cmd: ClientCommand) -> Result<(), Box<dyn Error>> {
             )?;
         }
         client::Subcommand::ReadFile(c) => {
-            let file = client.ask_open_file(c.path.clone()).await?.into();
+            let file = client
+                .ask_open_file_with_options(c.path.clone(), false, false, true)
+                .await?
+                .into();
             let x = client.ask_read_file(&file).await?;
             format_content_write!(
                 cmd.output_format,
-- 
2.43.0


From 3cac8292637f4897376f5da69fa24a5e757715fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 24/28] fix: apply the client's timeout option

---
 src/cli/builder/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cli/builder/mod.rs b/src/cli/builder/mod.rs
index e1f1ec5..071d599 100644
--- a/src/cli/builder/mod.rs
+++ b/src/cli/builder/mod.rs
@@ -121,7 +121,7 @@ where
         types::Transport::Udp => Transport::Udp(addrs),
     };
 
-    ClientBuilder::default()
+    let mut client = ClientBuilder::default()
         .authenticator(authenticator)
         .bicrypter(bicrypter)
         .transport(transport)
@@ -135,7 +135,11 @@ where
             )
         })?
         .connect()
-        .await
+        .await?;
+
+    client.timeout = cmd.opts.timeout;
+
+    Ok(client)
 }
 
 pub async fn start_server(cmd: &ServerCommand) -> io::Result<ListeningServer> {
-- 
2.43.0


From 5b49fdd9369fe39827e3e2fcca518bc9f30a6e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 25/28] fix: redirect machine-readable output as well

---
 src/cli/mod.rs | 52 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 80130a8..01cebd3 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -144,13 +144,28 @@ macro_rules! format_content_write {
                 }
                 Ok(())
             }
-            _ => format::format_content_println($format, $content, |_| {
-                Err("Unreachable".into())
-            }),
+            _ => write_data($format, $path, $content).await,
         }
     };
 }
 
+/// Writes data using a non-human format as a line to stdout, or to the file
+/// that stdout is redirected to
+async fn write_data<T: Serialize>(
+    format: FormatOption,
+    path: Option<&PathBuf>,
+    data: T,
+) -> Result<(), Box<dyn Error>> {
+    let text = format::format(format, data, |_| Err("Unreachable".into()))?;
+
+    match path {
+        Some(_) => write_stdout(format!("{}\n", text), path).await?,
+        None => println!("{}", text),
+    }
+
+    Ok(())
+}
+
 async fn run_client(cmd: ClientCommand) -> Result<(), Box<dyn Error>> {
     info!("Launching client: {:?}", cmd);
 
@@ -339,6 +354,7 @@ async fn run_client(cmd: ClientCommand) -> Result<(), Box<dyn Error>> {
                     &line,
                     c.format,
                     c.format,
+                    cmd.redirect_stdout.as_ref(),
                     c.meta_mode,
                 )
                 .await?;
@@ -358,6 +374,7 @@ async fn run_client(cmd: ClientCommand) -> Result<(), Box<dyn Error>> {
                         &line,
                         c.format,
                         c.format,
+                        cmd.redirect_stdout.as_ref(),
                         c.meta_mode,
                     )
                     .await?;
@@ -420,14 +437,16 @@ async fn execute_raw_and_report(
     input: &str,
     input_format: FormatOption,
     output_format: FormatOption,
+    output_path: Option<&PathBuf>,
     meta_mode: bool,
 ) -> Result<(), Box<dyn std::error::Error>> {
     if meta_mode {
         match execute_raw_content_and_metadata(client, &input, input_format)
             .await
         {
-            Ok((result, metadata)) => format::format_println(
+            Ok((result, metadata)) => write_data(
                 output_format,
+                output_path,
                 ContentAndMetadata {
                     content: match result {
                         Ok(reply) => Content::from(reply),
@@ -435,29 +454,32 @@ async fn execute_raw_and_report(
                     },
                     metadata,
                 },
-                |_| Err("Unreachable".into()),
-            ),
-            Err(x) => format::format_println(
+            )
+            .await,
+            Err(x) => write_data(
                 output_format,
+                output_path,
                 ContentAndMetadata {
                     content: Content::from(Reply::from(x)),
                     metadata: HashMap::new(),
                 },
-                |_| Err("Unreachable".into()),
-            ),
+            )
+            .await,
         }
     } else {
         match execute_raw_content(client, &input, input_format).await {
-            Ok(reply) => format::format_content_println(
+            Ok(reply) => write_data(
                 output_format,
+                output_path,
                 Content::from(reply),
-                |_| Err("Unreachable".into()),
-            ),
-            Err(x) => format::format_content_println(
+            )
+            .await,
+            Err(x) => write_data(
                 output_format,
+                output_path,
                 Content::from(Reply::from(x)),
-                |_| Err("Unreachable".into()),
-            ),
+            )
+            .await,
         }
     }
 }
-- 
2.43.0


From 6228751b0edffd0e152d13b89ad086f66f40b7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 26/28] fix: keep replies apart from requests in the schema of
 content

The arguments of batch, sequence, forward and internal debug requests and
replies share their names, so that the schema of content described these
replies by the arguments of the requests.
---
 src/core/msg/content/reply/batch.rs          | 1 +
 src/core/msg/content/reply/forward.rs        | 1 +
 src/core/msg/content/reply/internal_debug.rs | 1 +
 src/core/msg/content/reply/sequence.rs       | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/core/msg/content/reply/batch.rs b/src/core/msg/content/reply/batch.rs
index 250a6e8..547131d 100644
--- a/src/core/msg/content/reply/batch.rs
+++ b/src/core/msg/content/reply/batch.rs
@@ -5,6 +5,7 @@ use serde::{Deserialize, Serialize};
 #[derive(
     JsonSchema, Serialize, Deserialize, Default, Clone, Debug, PartialEq, Eq,
 )]
+#[schemars(rename = "BatchReplyArgs")]
 pub struct BatchArgs {
     pub results: Vec<Reply>,
 }
diff --git a/src/core/msg/content/reply/forward.rs b/src/core/msg/content/reply/forward.rs
index a51d8f2..387c873 100644
--- a/src/core/msg/content/reply/forward.rs
+++ b/src/core/msg/content/reply/forward.rs
@@ -4,6 +4,7 @@ use serde::{Deserialize, Serialize};
 use std::net::SocketAddr;
 
 #[derive(JsonSchema, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
+#[schemars(rename = "ForwardReplyArgs")]
 pub struct ForwardArgs {
     #[serde(
         serialize_with = "crate::utils::serializers::socket_addr::serialize",
diff --git a/src/core/msg/content/reply/internal_debug.rs b/src/core/msg/content/reply/internal_debug.rs
index c81b752..8c52066 100644
--- a/src/core/msg/content/reply/internal_debug.rs
+++ b/src/core/msg/content/reply/internal_debug.rs
@@ -4,6 +4,7 @@ use serde::{Deserialize, Serialize};
 #[derive(
     JsonSchema, Serialize, Deserialize, Default, Clone, Debug, PartialEq, Eq,
 )]
+#[schemars(rename = "InternalDebugReplyArgs")]
 pub struct InternalDebugArgs {
     pub output: Vec<u8>,
 }
diff --git a/src/core/msg/content/reply/sequence.rs b/src/core/msg/content/reply/sequence.rs
index a358dd4..968c79f 100644
--- a/src/core/msg/content/reply/sequence.rs
+++ b/src/core/msg/content/reply/sequence.rs
@@ -6,6 +6,7 @@ use serde::{Deserialize, Serialize};
 #[derive(
     JsonSchema, Serialize, Deserialize, Default, Clone, Debug, PartialEq, Eq,
 )]
+#[schemars(rename = "SequenceReplyArgs")]
 pub struct SequenceArgs {
     pub results: Vec<Reply>,
 }
-- 
2.43.0


From bb32c20d0c87c426e7cc1b07ea639cbab0e925c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 27/28] fix: report a remote process's output while stdin is
 idle or refused

Waiting for a line of input held up the output and the exit of the remote
process, and input it no longer took ended the client before the output.
---
 src/cli/mod.rs | 56 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 01cebd3..0fdb8a1 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -16,6 +16,8 @@ use std::collections::HashMap;
 use std::error::Error;
 use std::io;
 use std::path::PathBuf;
+use std::sync::mpsc;
+use std::thread;
 use std::time::{Duration, Instant};
 
 pub use opts::Opts;
@@ -484,6 +486,34 @@ async fn execute_raw_and_report(
     }
 }
 
+/// Reads lines from stdin on another thread, so that waiting for input does
+/// not delay output or the exit of the remote process
+fn spawn_stdin_reader() -> mpsc::Receiver<Vec<u8>> {
+    let (tx, rx) = mpsc::channel();
+    thread::spawn(move || {
+        use io::BufRead;
+        let stdin = io::stdin();
+        loop {
+            let mut line = Vec::new();
+            let result = stdin.lock().read_until(b'\n', &mut line);
+            let is_eof = line.is_empty();
+            if !is_eof && tx.send(line).is_err() {
+                break;
+            }
+
+            match result {
+                Ok(_) if is_eof => break,
+                Ok(_) => (),
+                Err(x) if x.kind() == io::ErrorKind::WouldBlock => {
+                    thread::sleep(Duration::from_millis(1))
+                }
+                Err(x) => panic!("Failed to read line of input: {:?}", x),
+            }
+        }
+    });
+    rx
+}
+
 async fn process_proc(
     mut client: ConnectedClient,
     send_stdin: bool,
@@ -494,7 +524,7 @@ async fn process_proc(
     format: FormatOption,
     exit_print: bool,
 ) -> io::Result<()> {
-    let stdin = io::stdin();
+    let mut stdin = if send_stdin { Some(spawn_stdin_reader()) } else { None };
     let mut exit_instant: Option<Instant> = None;
 
     // Continue running as long as we haven't exceeded our post-exit duration
@@ -503,21 +533,12 @@ async fn process_proc(
         .map(|inst| inst.elapsed() < post_exit_duration)
         .unwrap_or(true)
     {
-        if send_stdin {
-            use io::BufRead;
-            let mut handle = stdin.lock();
-            let mut line = String::new();
-            match handle.read_line(&mut line) {
-                Ok(_) => (),
-                Err(x) if x.kind() == io::ErrorKind::WouldBlock => (),
-                Err(x) => panic!("Failed to read line of input: {:?}", x),
-            }
-
-            if !line.is_empty() {
-                client
-                    .ask_write_proc_stdin(&proc, &line.into_bytes())
-                    .await
-                    .expect("Failed to write stdin");
+        if let Some(line) = stdin.as_ref().and_then(|rx| rx.try_recv().ok()) {
+            // NOTE: The process no longer taking input (like head or true
+            //       finishing early) is no reason to lose its output
+            if let Err(x) = client.ask_write_proc_stdin(&proc, &line).await {
+                info!("Stopped forwarding stdin: {}", x);
+                stdin = None;
             }
         }
 
@@ -582,6 +603,9 @@ async fn process_proc(
                 exit_instant = Some(Instant::now());
             }
         }
+
+        // No longer held up by stdin, so do not ask without pause
+        tokio::time::delay_for(Duration::from_millis(1)).await;
     }
 
     Ok(())
-- 
2.43.0


From f874ad52f3d86ae6f8f7af3cbde87f4cc0cf4062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 28/28] fix: print the output of remote processes at once and
 byte for byte

Output that is not text, or text cut in the middle of a character, was
replaced, and output without an end of line was held back.
---
 src/cli/mod.rs | 70 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 0fdb8a1..123622c 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -77,7 +77,10 @@ fn validate_opts(opts: &opts::CommonOpts) -> io::Result<()> {
     Ok(())
 }
 
-async fn write_stdout(text: String, path: Option<&PathBuf>) -> io::Result<()> {
+async fn write_stdout(
+    text: impl AsRef<[u8]>,
+    path: Option<&PathBuf>,
+) -> io::Result<()> {
     match path {
         Some(p) => {
             use tokio::io::AsyncWriteExt;
@@ -86,20 +89,25 @@ async fn write_stdout(text: String, path: Option<&PathBuf>) -> io::Result<()> {
                 .append(true)
                 .open(p)
                 .await?;
-            file.write_all(text.as_bytes()).await?;
+            file.write_all(text.as_ref()).await?;
 
             // NOTE: Data still being written in the background would be lost
             //       if the program exits before that has finished
             file.flush().await
         }
         None => {
-            print!("{}", text);
-            Ok(())
+            use io::Write;
+            let mut stdout = io::stdout();
+            stdout.write_all(text.as_ref())?;
+            stdout.flush()
         }
     }
 }
 
-async fn write_stderr(text: String, path: Option<&PathBuf>) -> io::Result<()> {
+async fn write_stderr(
+    text: impl AsRef<[u8]>,
+    path: Option<&PathBuf>,
+) -> io::Result<()> {
     match path {
         Some(p) => {
             use tokio::io::AsyncWriteExt;
@@ -108,15 +116,15 @@ async fn write_stderr(text: String, path: Option<&PathBuf>) -> io::Result<()> {
                 .append(true)
                 .open(p)
                 .await?;
-            file.write_all(text.as_bytes()).await?;
+            file.write_all(text.as_ref()).await?;
 
             // NOTE: Data still being written in the background would be lost
             //       if the program exits before that has finished
             file.flush().await
         }
         None => {
-            eprint!("{}", text);
-            Ok(())
+            use io::Write;
+            io::stderr().write_all(text.as_ref())
         }
     }
 }
@@ -547,13 +555,21 @@ async fn process_proc(
             .await
             .expect("Failed to get stdout");
         if !stdout_args.output.is_empty() {
-            format_content_write!(
-                format,
-                stdout_path.as_ref(),
-                Content::from(Reply::ProcStdoutContents(stdout_args)),
-                Ok(format!("{}", String::from_utf8_lossy(&stdout_args.output))),
-            )
-            .expect("Failed to format stdout");
+            // NOTE: Output comes in arbitrary pieces and is not always text
+            match format {
+                FormatOption::Human => {
+                    write_stdout(&stdout_args.output, stdout_path.as_ref())
+                        .await
+                        .expect("Failed to write stdout")
+                }
+                f => write_data(
+                    f,
+                    stdout_path.as_ref(),
+                    Content::from(Reply::ProcStdoutContents(stdout_args)),
+                )
+                .await
+                .expect("Failed to format stdout"),
+            }
         }
 
         let stderr_args = client
@@ -561,16 +577,20 @@ async fn process_proc(
             .await
             .expect("Failed to get stderr");
         if !stderr_args.output.is_empty() {
-            format_content_write!(
-                format,
-                stderr_path.as_ref(),
-                Content::from(Reply::ProcStderrContents(stderr_args)),
-                Err(format!(
-                    "{}",
-                    String::from_utf8_lossy(&stderr_args.output)
-                )),
-            )
-            .expect("Failed to format stderr");
+            match format {
+                FormatOption::Human => {
+                    write_stderr(&stderr_args.output, stderr_path.as_ref())
+                        .await
+                        .expect("Failed to write stderr")
+                }
+                f => write_data(
+                    f,
+                    stderr_path.as_ref(),
+                    Content::from(Reply::ProcStderrContents(stderr_args)),
+                )
+                .await
+                .expect("Failed to format stderr"),
+            }
         }
 
         // Mark ready for exit if proc has exited
-- 
2.43.0

