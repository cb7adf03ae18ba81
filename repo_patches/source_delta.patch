From 05647bfee4083da8660493a3f012ef63b9493a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 01/22] fix: reject records of every non-3.x version, named or
 not

The version check of OpaqueMessage::read only looked at versions without a
name, so SSLv2 (0x0200) and DTLS (0xfeff, 0xfefd) records were accepted as
TLS although only 0x03XX is meant to be.
---
 crates/tls-core/src/msgs/message.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/tls-core/src/msgs/message.rs b/crates/tls-core/src/msgs/message.rs
index b222180..cedd788 100644
--- a/crates/tls-core/src/msgs/message.rs
+++ b/crates/tls-core/src/msgs/message.rs
@@ -97,12 +97,9 @@ impl OpaqueMessage {
         }
 
         // Accept only versions 0x03XX for any XX.
-        match version {
-            ProtocolVersion::Unknown(ref v) if (v & 0xff00) != 0x0300 => {
-                return Err(MessageError::IllegalProtocolVersion);
-            }
-            _ => {}
-        };
+        if version.get_u16() & 0xff00 != 0x0300 {
+            return Err(MessageError::IllegalProtocolVersion);
+        }
 
         let mut sub = r.sub(len as usize).ok_or(MessageError::TooShortForLength)?;
         let payload = Payload::read(&mut sub);
-- 
2.43.0


From b61cb6a257db2192f078cbf15244b687f6c0214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 02/22] fix: tell the curve apart when naming the algorithm
 that verified a signature

---
 crates/tls-core/src/verify.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/crates/tls-core/src/verify.rs b/crates/tls-core/src/verify.rs
index c52deab..2e3729b 100644
--- a/crates/tls-core/src/verify.rs
+++ b/crates/tls-core/src/verify.rs
@@ -484,28 +484,33 @@ pub enum SignatureAlgorithm {
 
 impl SignatureAlgorithm {
     pub fn from_alg(alg: &dyn pki_types::SignatureVerificationAlgorithm) -> Self {
-        let id = alg.signature_alg_id();
-        if id == webpki::ring::ECDSA_P256_SHA256.signature_alg_id() {
+        // The signature algorithm identifier alone does not determine the curve
+        // of an ECDSA key.
+        let is = |other: &dyn pki_types::SignatureVerificationAlgorithm| {
+            alg.signature_alg_id() == other.signature_alg_id()
+                && alg.public_key_alg_id() == other.public_key_alg_id()
+        };
+        if is(webpki::ring::ECDSA_P256_SHA256) {
             SignatureAlgorithm::ECDSA_NISTP256_SHA256
-        } else if id == webpki::ring::ECDSA_P256_SHA384.signature_alg_id() {
+        } else if is(webpki::ring::ECDSA_P256_SHA384) {
             SignatureAlgorithm::ECDSA_NISTP256_SHA384
-        } else if id == webpki::ring::ECDSA_P384_SHA256.signature_alg_id() {
+        } else if is(webpki::ring::ECDSA_P384_SHA256) {
             SignatureAlgorithm::ECDSA_NISTP384_SHA256
-        } else if id == webpki::ring::ECDSA_P384_SHA384.signature_alg_id() {
+        } else if is(webpki::ring::ECDSA_P384_SHA384) {
             SignatureAlgorithm::ECDSA_NISTP384_SHA384
-        } else if id == webpki::ring::ED25519.signature_alg_id() {
+        } else if is(webpki::ring::ED25519) {
             SignatureAlgorithm::ED25519
-        } else if id == webpki::ring::RSA_PKCS1_2048_8192_SHA256.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PKCS1_2048_8192_SHA256) {
             SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA256
-        } else if id == webpki::ring::RSA_PKCS1_2048_8192_SHA384.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PKCS1_2048_8192_SHA384) {
             SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA384
-        } else if id == webpki::ring::RSA_PKCS1_2048_8192_SHA512.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PKCS1_2048_8192_SHA512) {
             SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA512
-        } else if id == webpki::ring::RSA_PSS_2048_8192_SHA256_LEGACY_KEY.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PSS_2048_8192_SHA256_LEGACY_KEY) {
             SignatureAlgorithm::RSA_PSS_2048_8192_SHA256_LEGACY_KEY
-        } else if id == webpki::ring::RSA_PSS_2048_8192_SHA384_LEGACY_KEY.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PSS_2048_8192_SHA384_LEGACY_KEY) {
             SignatureAlgorithm::RSA_PSS_2048_8192_SHA384_LEGACY_KEY
-        } else if id == webpki::ring::RSA_PSS_2048_8192_SHA512_LEGACY_KEY.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PSS_2048_8192_SHA512_LEGACY_KEY) {
             SignatureAlgorithm::RSA_PSS_2048_8192_SHA512_LEGACY_KEY
         } else {
             unreachable!()
-- 
2.43.0


From 9fe360eaf5052f498cd0d8b4011d7cd1036171d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 03/22] fix: OK_EMPTY_HEADER is the response with an empty
 header

---
 crates/data-fixtures/src/http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/data-fixtures/src/http.rs b/crates/data-fixtures/src/http.rs
index be26c65..f8d6c7b 100644
--- a/crates/data-fixtures/src/http.rs
+++ b/crates/data-fixtures/src/http.rs
@@ -38,7 +38,7 @@ pub mod response {
     define_fixture!(
         OK_EMPTY_HEADER,
         "An OK response with an empty header.",
-        "../data/http/response_empty"
+        "../data/http/response_empty_header"
     );
     define_fixture!(
         OK_TEXT,
-- 
2.43.0


From 7eefe6ee3089d6e7c044b0fc611be99355ce1d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 04/22] fix: session hash stops at ServerHelloDone of the
 server flight

The session hash of the extended master secret covers the messages up to
and including ClientKeyExchange. A NewSessionTicket follows later, but its
bytes were hashed too, unlike for the client finished hash next to it.
---
 crates/core/src/transcript/tls/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/transcript/tls/builder.rs b/crates/core/src/transcript/tls/builder.rs
index 83ba75a..5b2c0c0 100644
--- a/crates/core/src/transcript/tls/builder.rs
+++ b/crates/core/src/transcript/tls/builder.rs
@@ -298,7 +298,7 @@ fn compute_handshake_hashes(
     // → client flight up to and including ClientKeyExchange.
     let mut hasher = Sha256::new();
     hasher.update(&sent_hs_bytes[..sent_ch_end]);
-    hasher.update(&recv_hs_bytes);
+    hasher.update(&recv_hs_bytes[..recv_shd_end]);
     hasher.update(&sent_hs_bytes[sent_ch_end..ckx.end]);
     let session_hash: [u8; 32] = hasher.finalize().into();
 
-- 
2.43.0


From d0a0b22905cbf34160945d26be2984722d60eb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 05/22] fix: refuse to prove an attestation body with ids out
 of sequence

BodyProof::new panicked for an attestation whose field ids are duplicated
or out of range, which can be received from a Notary.
---
 crates/attestation/src/proof.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/attestation/src/proof.rs b/crates/attestation/src/proof.rs
index 21b4fc3..49ed4c1 100644
--- a/crates/attestation/src/proof.rs
+++ b/crates/attestation/src/proof.rs
@@ -100,6 +100,14 @@ impl BodyProof {
             .map(|(id, hash)| (id.0 as usize, hash))
             .unzip();
 
+        // The tree holds exactly the fields of the body, in order of their ids.
+        if !indices.iter().copied().eq(0..leaves.len()) {
+            return Err(AttestationError::new(
+                ErrorKind::Body,
+                "field ids are not sequential",
+            ));
+        }
+
         let mut tree = MerkleTree::new(hasher.id());
         tree.insert(hasher, leaves);
 
-- 
2.43.0


From 212a0a4e2965798d304e7deb30243d726b49e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 06/22] fix: check the body of an attestation against its
 signed header

Request::validate verified the signature over the header but never that
the body is the one the header commits to.
---
 crates/attestation/src/request.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/attestation/src/request.rs b/crates/attestation/src/request.rs
index 8106802..ea9c874 100644
--- a/crates/attestation/src/request.rs
+++ b/crates/attestation/src/request.rs
@@ -21,7 +21,7 @@ use serde::{Deserialize, Serialize};
 use tlsn_core::hash::HashAlgId;
 
 use crate::{
-    Attestation, CryptoProvider, Extension, connection::ServerCertCommitment,
+    Attestation, CryptoProvider, Extension, connection::ServerCertCommitment, proof::BodyProof,
     serialize::CanonicalSerialize, signing::SignatureAlgId,
 };
 
@@ -98,6 +98,23 @@ impl Request {
                 AttestationValidationError::inconsistent("failed to verify the signature")
             })?;
 
+        let hasher = provider
+            .hash
+            .get(&attestation.header.root.alg)
+            .map_err(|_| {
+                AttestationValidationError::provider(format!(
+                    "provider not configured for hash algorithm id {:?}",
+                    attestation.header.root.alg,
+                ))
+            })?;
+
+        // The signature covers the header only, the body must be the one it commits to.
+        BodyProof::new(hasher, attestation.body.clone())
+            .and_then(|proof| proof.verify_with_provider(provider, &attestation.header))
+            .map_err(|_| {
+                AttestationValidationError::inconsistent("body does not match the header")
+            })?;
+
         Ok(())
     }
 }
-- 
2.43.0


From 374ce6c781218bef83d45469808496ee062a0589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 07/22] fix: keep the error of a failed connection for later
 process_new_packets calls

---
 crates/mpc-tls/src/client/conn.rs | 42 +++++++++++++++----------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/crates/mpc-tls/src/client/conn.rs b/crates/mpc-tls/src/client/conn.rs
index 3943820..8acd548 100644
--- a/crates/mpc-tls/src/client/conn.rs
+++ b/crates/mpc-tls/src/client/conn.rs
@@ -216,14 +216,28 @@ impl ClientConnection {
     /// [`read_tls`]: ClientConnection::read_tls
     /// [`process_new_packets`]: ClientConnection::process_new_packets
     pub async fn process_new_packets(&mut self) -> Result<IoState, Error> {
-        let mut state = match mem::replace(&mut self.state, Err(Error::HandshakeNotComplete)) {
-            Ok(state) => state,
+        let state = mem::replace(&mut self.state, Err(Error::HandshakeNotComplete))
+            .map_err(|e| {
+                self.state = Err(e.clone());
+                e
+            })?;
+
+        match self.process_packets(state).await {
+            Ok(state) => {
+                self.state = Ok(state);
+                Ok(self.common_state.current_io_state())
+            }
             Err(e) => {
                 self.state = Err(e.clone());
-                return Err(e);
+                Err(e)
             }
-        };
+        }
+    }
 
+    async fn process_packets(
+        &mut self,
+        mut state: Box<dyn State>,
+    ) -> Result<Box<dyn State>, Error> {
         if self.message_deframer.desynced {
             return Err(Error::CorruptMessage);
         }
@@ -236,35 +250,21 @@ impl ClientConnection {
             // If we're not decrypting yet, we process it immediately. Otherwise it will be
             // pushed to the backend.
             if let Some(plain) = self.process_incoming_opaque(msg).await? {
-                match self.process_incoming_plain(plain, state).await {
-                    Ok(new) => state = new,
-                    Err(e) => {
-                        self.state = Err(e.clone());
-                        return Err(e);
-                    }
-                }
+                state = self.process_incoming_plain(plain, state).await?;
             }
         }
         self.backend.flush().await?;
 
         // Process pending decrypted messages.
         while let Some(msg) = self.backend.next_incoming()? {
-            match self.process_incoming_plain(msg, state).await {
-                Ok(new) => state = new,
-                Err(e) => {
-                    self.state = Err(e.clone());
-                    return Err(e);
-                }
-            }
+            state = self.process_incoming_plain(msg, state).await?;
         }
 
         while let Some(msg) = self.backend.next_outgoing()? {
             self.queue_tls_message(msg);
         }
 
-        self.state = Ok(state);
-
-        Ok(self.common_state.current_io_state())
+        Ok(state)
     }
 
     async fn process_new_handshake_messages(
-- 
2.43.0


From 035caf8c77e2101eb3c9987f1003e8ed9d0de7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 08/22] fix: refuse alerts of unknown level instead of acting
 on them

---
 crates/mpc-tls/src/client/conn.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/mpc-tls/src/client/conn.rs b/crates/mpc-tls/src/client/conn.rs
index 8acd548..d484c24 100644
--- a/crates/mpc-tls/src/client/conn.rs
+++ b/crates/mpc-tls/src/client/conn.rs
@@ -590,6 +590,7 @@ impl CommonState {
         if let AlertLevel::Unknown(_) = alert.level {
             self.send_fatal_alert(AlertDescription::IllegalParameter)
                 .await?;
+            return Err(Error::AlertReceived(alert.description));
         }
 
         // If we get a CloseNotify, make a note to declare EOF to our
-- 
2.43.0


From 9a743852ecb38070dbb983d99f30ddcdbb80dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 09/22] fix: authenticate public records that are decrypted
 when the connection closes

---
 crates/mpc-tls/src/record_layer/decrypt.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/mpc-tls/src/record_layer/decrypt.rs b/crates/mpc-tls/src/record_layer/decrypt.rs
index 614b8ab..8940ed3 100644
--- a/crates/mpc-tls/src/record_layer/decrypt.rs
+++ b/crates/mpc-tls/src/record_layer/decrypt.rs
@@ -123,6 +123,17 @@ pub(crate) fn decrypt_local(
                 });
             }
             DecryptMode::Public => {
+                // No tag verification follows in MPC, so the leader must
+                // authenticate public records with the revealed key as well.
+                if let Role::Leader = role {
+                    local_decrypter.decrypt(
+                        op.explicit_nonce.clone(),
+                        op.aad.clone(),
+                        op.ciphertext.clone(),
+                        op.tag.clone(),
+                    )?;
+                }
+
                 pending_decrypt.push(PendingDecrypt {
                     output: public(vm, mpc_decrypter, op)?,
                 });
-- 
2.43.0


From fe162c998d87b8138adbc4ffc9284e07720f0a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 10/22] fix: compute with untrusted record lengths without
 overflow

---
 crates/mpc-tls/src/record_layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mpc-tls/src/record_layer.rs b/crates/mpc-tls/src/record_layer.rs
index c9010f3..cb437c3 100644
--- a/crates/mpc-tls/src/record_layer.rs
+++ b/crates/mpc-tls/src/record_layer.rs
@@ -292,7 +292,7 @@ impl RecordLayer {
     ) -> Result<(), MpcTlsError> {
         if self.encrypt_buffer.len() >= MAX_BUFFER_SIZE {
             return Err(MpcTlsError::peer("encrypt buffer is full"));
-        } else if self.sent + len > self.max_sent {
+        } else if len > self.max_sent.saturating_sub(self.sent) {
             return Err(MpcTlsError::record_layer(format!(
                 "attempted to send more data than was configured, increase `max_sent` in the config: current={}, additional={}, max={}",
                 self.sent, len, self.max_sent
-- 
2.43.0


From 6d864315432607a4be9817fbea766ad72b005f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 11/22] fix: report missing Finished records instead of
 panicking

---
 crates/core/src/transcript/tls/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/transcript/tls/builder.rs b/crates/core/src/transcript/tls/builder.rs
index 5b2c0c0..e88ba3c 100644
--- a/crates/core/src/transcript/tls/builder.rs
+++ b/crates/core/src/transcript/tls/builder.rs
@@ -140,7 +140,7 @@ impl<'a> TlsTranscriptBuilder<'a> {
         let sent = if let Some(records_sent) = self.records_sent {
             let client_finished = records_sent
                 .first()
-                .expect("client finished record should be available");
+                .ok_or_else(|| TlsTranscriptError::missing("client finished record"))?;
             validate_finished_record(client_finished)?;
             records_sent
         } else if let Some(sent_raw) = sent_raw {
@@ -153,7 +153,7 @@ impl<'a> TlsTranscriptBuilder<'a> {
         let recv = if let Some(records_recv) = self.records_recv {
             let server_finished = records_recv
                 .first()
-                .expect("server finished record should be available");
+                .ok_or_else(|| TlsTranscriptError::missing("server finished record"))?;
             validate_finished_record(server_finished)?;
             records_recv
         } else if let Some(recv_raw) = recv_raw {
-- 
2.43.0


From d9189174c5f32d6a683040453b59345a539141ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:37 +0000
Subject: [PATCH 12/22] fix: refuse Finished messages before the server hello

The follower would flush a PRF that has not been given its randoms, and never return.
---
 crates/mpc-tls/src/follower.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/mpc-tls/src/follower.rs b/crates/mpc-tls/src/follower.rs
index 38a9084..32ebad4 100644
--- a/crates/mpc-tls/src/follower.rs
+++ b/crates/mpc-tls/src/follower.rs
@@ -271,6 +271,10 @@ impl MpcTlsFollower {
                         return Err(MpcTlsError::hs("client finished VD already computed"));
                     }
 
+                    if server_hello.is_none() {
+                        return Err(MpcTlsError::hs("server hello not set"));
+                    }
+
                     let mut vm = vm
                         .try_lock()
                         .map_err(|_| MpcTlsError::other("VM lock is held"))?;
@@ -290,6 +294,10 @@ impl MpcTlsFollower {
                         return Err(MpcTlsError::hs("server finished VD already computed"));
                     }
 
+                    if server_hello.is_none() {
+                        return Err(MpcTlsError::hs("server hello not set"));
+                    }
+
                     let mut vm = vm
                         .try_lock()
                         .map_err(|_| MpcTlsError::other("VM lock is held"))?;
-- 
2.43.0


From c31ecef0c746abb7db938e9fc252b3ae219c2dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:19 +0000
Subject: [PATCH 13/22] fix: refuse the server hello before the client random

The follower would panic when computing the keys.
---
 crates/mpc-tls/src/follower.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/mpc-tls/src/follower.rs b/crates/mpc-tls/src/follower.rs
index 32ebad4..3a7cfa7 100644
--- a/crates/mpc-tls/src/follower.rs
+++ b/crates/mpc-tls/src/follower.rs
@@ -232,6 +232,10 @@ impl MpcTlsFollower {
                         return Err(MpcTlsError::hs("server hello already set"));
                     }
 
+                    if client_random.is_none() {
+                        return Err(MpcTlsError::hs("client random not set"));
+                    }
+
                     let this_time = web_time::UNIX_EPOCH
                         .elapsed()
                         .expect("system time is available")
-- 
2.43.0


From 3ce0507809b805f092c284bb811384df780fd63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:18 +0000
Subject: [PATCH 14/22] fix: refuse commitments beyond the transcript instead
 of panicking

---
 crates/tlsn/src/transcript_internal/auth.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/tlsn/src/transcript_internal/auth.rs b/crates/tlsn/src/transcript_internal/auth.rs
index 53777fe..2770d1d 100644
--- a/crates/tlsn/src/transcript_internal/auth.rs
+++ b/crates/tlsn/src/transcript_internal/auth.rs
@@ -35,6 +35,10 @@ pub(crate) fn prove_plaintext<'a>(
         commit.union(reveal).into_set()
     };
 
+    if alloc_ranges.end().is_some_and(|end| end > plaintext.len()) {
+        return Err(ErrorRepr::OutOfBounds.into());
+    }
+
     let plaintext_refs = alloc_plaintext(vm, &alloc_ranges)?;
     let records = RecordParams::from_iter(records).collect::<Vec<_>>();
 
@@ -101,6 +105,10 @@ pub(crate) fn verify_plaintext<'a>(
         commit.union(reveal).into_set()
     };
 
+    if alloc_ranges.end().is_some_and(|end| end > plaintext.len()) {
+        return Err(ErrorRepr::OutOfBounds.into());
+    }
+
     let plaintext_refs = alloc_plaintext(vm, &alloc_ranges)?;
     let records = RecordParams::from_iter(records).collect::<Vec<_>>();
 
-- 
2.43.0


From 6e62df0f11a854a45ed194a95d54e95307c840f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:47 +0000
Subject: [PATCH 15/22] fix: fail instead of overflowing the stack when the
 server closes during the MPC-TLS handshake

Once the server had closed the connection the client polled itself without
end, as a handshake that gets no more data never completes.
---
 crates/tlsn/src/prover/client/mpc.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/tlsn/src/prover/client/mpc.rs b/crates/tlsn/src/prover/client/mpc.rs
index 733726c..a4f4fe6 100644
--- a/crates/tlsn/src/prover/client/mpc.rs
+++ b/crates/tlsn/src/prover/client/mpc.rs
@@ -250,6 +250,11 @@ impl TlsClient for MpcTlsClient {
 
                 match fut.as_mut().poll(cx)? {
                     Poll::Ready(inner) => {
+                        // everything received has been processed, no more will come
+                        if self.server_closed && inner.tls.is_handshaking() {
+                            return Poll::Ready(Err(TlsnError::io()
+                                .with_msg("server closed the connection during the handshake")));
+                        }
                         self.state = State::Active { inner };
                         // re-poll immediately if a close transition is pending
                         if self.server_closed {
-- 
2.43.0


From 632c470a63944d7663a7872c8023d8ee5f61a760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:47 +0000
Subject: [PATCH 16/22] fix: send close_notify when the client closes the
 MPC-TLS connection

The alert was queued in the record layer only, and stayed there until
something else, e.g. data from the server, happened to wake the prover up.
---
 crates/tlsn/src/prover/client/mpc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/tlsn/src/prover/client/mpc.rs b/crates/tlsn/src/prover/client/mpc.rs
index a4f4fe6..1f56c29 100644
--- a/crates/tlsn/src/prover/client/mpc.rs
+++ b/crates/tlsn/src/prover/client/mpc.rs
@@ -382,6 +382,9 @@ impl InnerState {
                 warn!("failed to send close_notify to server: {}", e);
             }
             self.client_closed = true;
+
+            // nobody else may wake us up to send what was just queued
+            self = self.run().await?;
         }
 
         Ok(self)
-- 
2.43.0


From 59146c3c68a43aea8f7331e32b3fcab31e763649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:47 +0000
Subject: [PATCH 17/22] fix: fail when the server closes during the Proxy-TLS
 handshake

The prover waited forever for a handshake which could not complete anymore.
---
 crates/tlsn/src/prover/client/proxy/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/tlsn/src/prover/client/proxy/mod.rs b/crates/tlsn/src/prover/client/proxy/mod.rs
index cde5b84..ddb0563 100644
--- a/crates/tlsn/src/prover/client/proxy/mod.rs
+++ b/crates/tlsn/src/prover/client/proxy/mod.rs
@@ -229,6 +229,9 @@ impl TlsClient for ProxyTlsClient {
                         prover,
                     };
                     self.poll(cx)
+                } else if self.server_closed {
+                    Poll::Ready(Err(TlsnError::io()
+                        .with_msg("server closed the connection during the handshake")))
                 } else {
                     self.state = State::Handshaking { prover };
                     Poll::Pending
-- 
2.43.0


From 84b7c092596a29e922cfda260b1a7166d34304eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:47 +0000
Subject: [PATCH 18/22] fix: do not panic when a prover closes the proxy stream
 without using it

---
 crates/tlsn/src/verifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tlsn/src/verifier.rs b/crates/tlsn/src/verifier.rs
index 9733f25..5f11fc4 100644
--- a/crates/tlsn/src/verifier.rs
+++ b/crates/tlsn/src/verifier.rs
@@ -350,7 +350,7 @@ impl Verifier<state::CommitAccepted<Proxy>> {
 
         let conn_time = prover_reader
             .first_read()
-            .expect("connection time should have been set");
+            .ok_or_else(|| Error::io().with_msg("prover sent nothing to the server"))?;
 
         let (mut ctx, mut vm, output, cf_vd_check, sf_vd_check) =
             verifier.finalize(&sent_buf, &recv_buf, conn_time).await?;
-- 
2.43.0


From 7a1cbe686de1457b08a12aa7abb8445538bcf209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 19/22] fix: go on when the application dropped the connection
 before reading everything

---
 crates/tlsn/src/prover.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/tlsn/src/prover.rs b/crates/tlsn/src/prover.rs
index c61c49f..37365cb 100644
--- a/crates/tlsn/src/prover.rs
+++ b/crates/tlsn/src/prover.rs
@@ -492,12 +492,20 @@ where
                         simplex.advance_mut(read);
                     }
                 }
-                // do not attempt to write into closed sockets
+                // do not attempt to write into closed sockets, but take the
+                // plaintext nobody will read, or the client would wait for it
+                // to be read forever
                 Poll::Ready(Err(err))
                     if matches!(
                         err.kind(),
                         std::io::ErrorKind::BrokenPipe | std::io::ErrorKind::ConnectionReset
-                    ) => {}
+                    ) =>
+                {
+                    let mut unread = [0u8; 4096];
+                    while state.tls_client.wants_read() && state.tls_client.read(&mut unread)? > 0 {
+                        cx.waker().wake_by_ref();
+                    }
+                }
                 Poll::Ready(Err(err)) => return Err(Error::from(err)),
                 _ => {}
             }
-- 
2.43.0


From 3eceb6ed957b85b914041f943f178ca332f59827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:23 +0000
Subject: [PATCH 20/22] fix: ignore what a server sends after close_notify
 instead of spinning on it

---
 crates/tlsn/src/prover/client/mpc.rs       | 12 +++++++++++-
 crates/tlsn/src/prover/client/proxy/mod.rs | 13 +++++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/tlsn/src/prover/client/mpc.rs b/crates/tlsn/src/prover/client/mpc.rs
index 1f56c29..5dd843f 100644
--- a/crates/tlsn/src/prover/client/mpc.rs
+++ b/crates/tlsn/src/prover/client/mpc.rs
@@ -117,7 +117,7 @@ impl TlsClient for MpcTlsClient {
 
     fn wants_read_tls(&self) -> bool {
         if let Some(client) = self.inner_client() {
-            client.wants_read()
+            client.wants_read() || received_close_notify(client)
         } else {
             false
         }
@@ -136,6 +136,11 @@ impl TlsClient for MpcTlsClient {
             && client.wants_read()
         {
             client.read_tls(&mut buf).map_err(TlsnError::from)
+        } else if let Some(client) = self.inner_client()
+            && received_close_notify(client)
+        {
+            // anything after a close_notify is to be ignored
+            Ok(buf.len())
         } else {
             Ok(0)
         }
@@ -429,6 +434,11 @@ impl InnerState {
     }
 }
 
+/// Returns whether the server announced that it sends nothing any more.
+fn received_close_notify(client: &ClientConnection) -> bool {
+    !client.is_handshaking() && client.plaintext_is_empty() && !client.wants_read()
+}
+
 fn create_client_config(
     config: &TlsClientConfig,
 ) -> Result<mpc_tls::client::ClientConfig, TlsnError> {
diff --git a/crates/tlsn/src/prover/client/proxy/mod.rs b/crates/tlsn/src/prover/client/proxy/mod.rs
index ddb0563..b370cdf 100644
--- a/crates/tlsn/src/prover/client/proxy/mod.rs
+++ b/crates/tlsn/src/prover/client/proxy/mod.rs
@@ -40,6 +40,7 @@ pub(crate) struct ProxyTlsClient {
     traffic: TlsBytes,
     client_closed: bool,
     server_closed: bool,
+    received_close_notify: bool,
     state: State,
     decrypt: Arc<DecryptState>,
 }
@@ -115,6 +116,7 @@ impl ProxyTlsClient {
             traffic: TlsBytes::default(),
             client_closed: false,
             server_closed: false,
+            received_close_notify: false,
             state: State::Init { prover },
             decrypt: Arc::new(decrypt),
         };
@@ -127,7 +129,7 @@ impl TlsClient for ProxyTlsClient {
     type Error = TlsnError;
 
     fn wants_read_tls(&self) -> bool {
-        self.conn.wants_read()
+        self.conn.wants_read() || self.received_close_notify
     }
 
     fn wants_write_tls(&self) -> bool {
@@ -135,6 +137,12 @@ impl TlsClient for ProxyTlsClient {
     }
 
     fn read_tls(&mut self, buf: &[u8]) -> Result<usize, Self::Error> {
+        if self.received_close_notify {
+            // anything after a close_notify is to be ignored
+            self.traffic.tls_recv.extend_from_slice(buf);
+            return Ok(buf.len());
+        }
+
         let mut reader = buf;
         let n = self
             .conn
@@ -242,11 +250,12 @@ impl TlsClient for ProxyTlsClient {
                 prover,
             } => {
                 trace!("inner client is connected");
-                self.conn.process_new_packets().map_err(|err| {
+                let io_state = self.conn.process_new_packets().map_err(|err| {
                     TlsnError::internal()
                         .with_msg("rustls error")
                         .with_source(err)
                 })?;
+                self.received_close_notify = io_state.peer_has_closed();
 
                 if self.server_closed {
                     let ms = self.ms_log.take();
-- 
2.43.0


From 4a36c2bbb37512c32821f758a92a66ec7cf6ffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:25 +0000
Subject: [PATCH 21/22] fix: send close_notify when the application closed
 during the handshake

---
 crates/tlsn/src/prover/client/mpc.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/tlsn/src/prover/client/mpc.rs b/crates/tlsn/src/prover/client/mpc.rs
index 5dd843f..67e9d88 100644
--- a/crates/tlsn/src/prover/client/mpc.rs
+++ b/crates/tlsn/src/prover/client/mpc.rs
@@ -260,9 +260,12 @@ impl TlsClient for MpcTlsClient {
                             return Poll::Ready(Err(TlsnError::io()
                                 .with_msg("server closed the connection during the handshake")));
                         }
+                        let client_closing = self.client_wants_close
+                            && !inner.client_closed
+                            && !inner.tls.is_handshaking();
                         self.state = State::Active { inner };
                         // re-poll immediately if a close transition is pending
-                        if self.server_closed {
+                        if self.server_closed || client_closing {
                             return self.poll(cx);
                         }
                     }
-- 
2.43.0


From c47f3f0fd0615854f75deca82e9a8b9cc9f0002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:30 +0000
Subject: [PATCH 22/22] fix: drop the cached AES key schedule when a new key is
 set

---
 crates/components/cipher/src/aes/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/components/cipher/src/aes/mod.rs b/crates/components/cipher/src/aes/mod.rs
index 18f7c41..17e7bd4 100644
--- a/crates/components/cipher/src/aes/mod.rs
+++ b/crates/components/cipher/src/aes/mod.rs
@@ -52,6 +52,8 @@ impl Cipher for Aes128 {
 
     fn set_key(&mut self, key: Array<U8, 16>) {
         self.key = Some(key);
+        // The cached schedule belongs to the previous key.
+        self.key_schedule = None;
     }
 
     fn set_iv(&mut self, iv: Array<U8, 4>) {
-- 
2.43.0

