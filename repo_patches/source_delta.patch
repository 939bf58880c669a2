From 603bf1e49fcf6439e24a725801367fb0a519333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 01/12] fix: refuse short or inconsistent incoming messages
 instead of panicking

---
 src/reader.rs | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index d1c1539..3c3ee34 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -45,7 +45,7 @@ pub(crate) fn read(
     // Decrypt data
     let data_encrypted;
     let mut buffer = BufWriter::new(Vec::with_capacity(incoming_data.len()));
-    if incoming_data[..MAGIC_VALUE_END] == MAGIC_VALUE {
+    if incoming_data.starts_with(&MAGIC_VALUE) {
         // Data are not encrypted
         data_encrypted = false;
         buffer.write(incoming_data).map_err(Error::WriteError)?;
@@ -61,20 +61,28 @@ pub(crate) fn read(
     let decrypted_data = buffer.into_inner().map_err(|_| Error::BufferFlushError)?;
 
     // Check magic value
+    if decrypted_data.len() < MAGIC_VALUE_END {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
     if decrypted_data[..MAGIC_VALUE_END] != MAGIC_VALUE {
         return Err(IncomingMsgErr::InvalidMagicValue.into());
     }
 
     // Check version
+    if decrypted_data.len() < VERSION_END {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
     if decrypted_data[MAGIC_VALUE_END..VERSION_END] != CURRENT_VERSION {
         return Err(IncomingMsgErr::UnsupportedVersion.into());
     }
 
     // Read ENCAPSULED_MSG_SIZE
+    if decrypted_data.len() < ENCAPSULED_MSG_BEGIN {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
     let mut buffer_8_bytes: [u8; 8] = <[u8; 8]>::default();
     buffer_8_bytes.copy_from_slice(&decrypted_data[VERSION_END..ENCAPSULED_MSG_BEGIN]);
-    let encapsuled_msg_size = u64::from_be_bytes(buffer_8_bytes) as usize;
-    let user_msg_end = ENCAPSULED_MSG_BEGIN + encapsuled_msg_size;
+    let encapsuled_msg_size = u64::from_be_bytes(buffer_8_bytes);
 
     // Read type headers
     let (msg_type_headers, type_headers_len) =
@@ -84,20 +92,36 @@ pub(crate) fn read(
         Err(Error::RecvInvalidMsg(
             IncomingMsgErr::UnexpectedEncryptionState,
         ))
+    } else if encapsuled_msg_size < type_headers_len as u64
+        || encapsuled_msg_size > (decrypted_data.len() - ENCAPSULED_MSG_BEGIN) as u64
+    {
+        // The announced size must cover the type headers and fit in the received data
+        Err(IncomingMsgErr::MessageTooShort.into())
     } else {
         Ok(DecryptedIncomingData {
             data: decrypted_data,
             user_msg_begin: ENCAPSULED_MSG_BEGIN + type_headers_len,
-            user_msg_end,
+            user_msg_end: ENCAPSULED_MSG_BEGIN + encapsuled_msg_size as usize,
             msg_type_headers,
         })
     }
 }
 
+fn check_type_headers_len(type_headers: &[u8], min_len: usize) -> Result<()> {
+    if type_headers.len() < min_len {
+        Err(IncomingMsgErr::MessageTooShort.into())
+    } else {
+        Ok(())
+    }
+}
+
 fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
+    check_type_headers_len(type_headers, MSG_TYPE_LEN)?;
+
     // Match message type
     match &type_headers[..MSG_TYPE_LEN] {
         USER_MSG_TYPE => {
+            check_type_headers_len(type_headers, MSG_TYPE_LEN + NONCE_SIZE)?;
             let mut nonce = [0u8; NONCE_SIZE];
             nonce.copy_from_slice(&type_headers[MSG_TYPE_LEN..MSG_TYPE_LEN + NONCE_SIZE]);
             Ok((
@@ -108,12 +132,14 @@ fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
             ))
         }
         CONNECT_MSG_TYPE => {
+            check_type_headers_len(type_headers, SIG_PUBKEY_BEGIN)?;
             // Read PEER_EPHEMERAL_PUBKEY
             let mut peer_ephemeral_pk = [0u8; EPK_SIZE];
             peer_ephemeral_pk.copy_from_slice(&type_headers[MSG_TYPE_LEN..MSG_TYPE_LEN + EPK_SIZE]);
             // Read SIG_ALGO and SIG_PUBKEY
             match &type_headers[(MSG_TYPE_LEN + EPK_SIZE)..(SIG_PUBKEY_BEGIN)] {
                 SIG_ALGO_ED25519 => {
+                    check_type_headers_len(type_headers, SIG_PUBKEY_BEGIN + 32)?;
                     let mut sig_algo = [0u8; SIG_ALGO_LEN];
                     sig_algo.copy_from_slice(
                         &type_headers
@@ -133,6 +159,7 @@ fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
             }
         }
         ACK_MSG_TYPE => {
+            check_type_headers_len(type_headers, MSG_TYPE_LEN + CHALLENGE_SIZE)?;
             let mut challenge = [0u8; CHALLENGE_SIZE];
             challenge
                 .copy_from_slice(&&type_headers[MSG_TYPE_LEN..(MSG_TYPE_LEN + CHALLENGE_SIZE)]);
-- 
2.43.0


From 785d395ed8724a47a32dd2f3612ffadf3c30758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 02/12] fix: refuse encrypted messages shorter than the
 authentication tag instead of panicking

---
 src/encryption/chacha20_poly1305_aead.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/encryption/chacha20_poly1305_aead.rs b/src/encryption/chacha20_poly1305_aead.rs
index 7f8569c..6d08c80 100644
--- a/src/encryption/chacha20_poly1305_aead.rs
+++ b/src/encryption/chacha20_poly1305_aead.rs
@@ -15,6 +15,7 @@
 
 //! Manage cryptographic encryption operations with Chacha20Poly1305Aead algorithm.
 
+use crate::errors::IncomingMsgErr;
 use crate::seeds::Seed48;
 use crate::{Error, Result};
 use std::io::{BufWriter, Read, Write};
@@ -50,6 +51,9 @@ pub fn decrypt<W: Write>(
     secret_key: &SecretKey,
     writer: &mut BufWriter<W>,
 ) -> Result<()> {
+    if encrypted_data.len() < CHACHA20_TAG_SIZE {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
     let payload_len = encrypted_data.len() - CHACHA20_TAG_SIZE;
 
     chacha20_poly1305_aead::decrypt(
-- 
2.43.0


From 69c0e630ff570344dfff0466727099ef59eef824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:24 +0000
Subject: [PATCH 03/12] fix: remember the peer signature key only once its
 CONNECT message is verified

---
 src/minimal.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index c631832..dd46898 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -189,13 +189,11 @@ impl MinimalSecureLayer {
                 ref sig_pubkey,
                 ..
             } => {
-                // Verify (or get) peer sig pubkey
+                // Verify peer sig pubkey
                 if let Some(ref peer_sig_pubkey) = self.peer_sig_pubkey {
                     if sig_pubkey != peer_sig_pubkey {
                         return Err(Error::UnexpectedRemoteSigPubKey);
                     }
-                } else {
-                    self.peer_sig_pubkey = Some(sig_pubkey.to_vec());
                 }
 
                 // Verify sig
@@ -209,6 +207,9 @@ impl MinimalSecureLayer {
                 self.status
                     .apply_action(Action::Receive(MsgType::Connect))?;
 
+                // Remember peer sig pubkey, now that the message is known to be authentic
+                self.peer_sig_pubkey = Some(sig_pubkey.to_vec());
+
                 // Get peeer EPK and compute shared secret
                 self.peer_epk = Some(peer_ephemeral_pk.to_vec());
                 self.compute_shared_secret(&peer_ephemeral_pk[..])?;
-- 
2.43.0


From 9d5e736cb95323089b9ba074908a2fe172da0bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 04/12] fix: the connection fails when the key agreement fails

---
 src/minimal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index dd46898..3910935 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -212,7 +212,10 @@ impl MinimalSecureLayer {
 
                 // Get peeer EPK and compute shared secret
                 self.peer_epk = Some(peer_ephemeral_pk.to_vec());
-                self.compute_shared_secret(&peer_ephemeral_pk[..])?;
+                if let Err(e) = self.compute_shared_secret(&peer_ephemeral_pk[..]) {
+                    self.status = SecureLayerStatus::Fail;
+                    return Err(e);
+                }
             }
             MsgTypeHeaders::Ack { challenge } => {
                 // Verify challenge
-- 
2.43.0


From eb0a067952d94ba3382635d502946793eaf9bc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 05/12] fix: refuse a CONNECT message that carries our own
 ephemeral key

---
 src/minimal.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/minimal.rs b/src/minimal.rs
index 3910935..bcfb0d9 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -196,6 +196,11 @@ impl MinimalSecureLayer {
                     }
                 }
 
+                // Refuse our own ephemeral public key (reflected message)
+                if &peer_ephemeral_pk[..] == self.ephemeral_pubkey.as_ref() {
+                    return Err(IncomingMsgErr::UnexpectedConnectMsg.into());
+                }
+
                 // Verify sig
                 // The reader has already made sure that the signature algorithm is supported,
                 // as we only support the Ed25519 algorithm, we know that it is necessarily this one.
-- 
2.43.0


From 67902ab7600284ab0ff44acdc7ad1d504a3e1153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 06/12] fix: verify and number early user messages when they
 arrive, so that duplicates neither pile up nor lose the others

---
 src/minimal.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index bcfb0d9..2e45c76 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -47,7 +47,7 @@ pub struct MinimalSecureLayer {
     peer_epk: Option<Vec<u8>>,
     peer_sig_pubkey: Option<Vec<u8>>,
     pub(crate) status: SecureLayerStatus,
-    tmp_stack_user_msgs: Vec<Vec<u8>>,
+    tmp_stack_user_msgs: Vec<Message>,
 }
 
 impl MinimalSecureLayer {
@@ -131,14 +131,15 @@ impl MinimalSecureLayer {
     }
     /// Drain temporary stack of remote messages
     pub fn drain_tmp_stack_user_msgs(&mut self) -> Result<Vec<Message>> {
-        let bin_msgs: Vec<Vec<u8>> = self.tmp_stack_user_msgs.drain(..).collect();
-        let mut msgs = Vec::with_capacity(bin_msgs.len());
-        for bin_msg in bin_msgs {
-            if let Some(msg) = self.read_inner(&bin_msg, false)? {
-                msgs.push(msg);
+        match self.status {
+            SecureLayerStatus::NegotiationSuccessful => {
+                Ok(self.tmp_stack_user_msgs.drain(..).collect())
             }
+            SecureLayerStatus::Fail if !self.tmp_stack_user_msgs.is_empty() => {
+                Err(Error::ConnectionHadFail)
+            }
+            _ => Ok(Vec::new()),
         }
-        Ok(msgs)
     }
     #[inline]
     /// Encapsulate message
@@ -157,13 +158,6 @@ impl MinimalSecureLayer {
     #[inline]
     /// Read incoming data
     pub fn read(&mut self, incoming_data: &[u8]) -> Result<Option<Message>> {
-        self.read_inner(incoming_data, true)
-    }
-    fn read_inner(
-        &mut self,
-        incoming_data: &[u8],
-        check_encrypt_state: bool,
-    ) -> Result<Option<Message>> {
         // Decrypt incoming messsage and parse headers
         let DecryptedIncomingData {
             mut data,
@@ -173,7 +167,7 @@ impl MinimalSecureLayer {
         } = match reader::read(
             self.encrypt_algo_with_secret.as_ref(),
             incoming_data,
-            check_encrypt_state,
+            true,
         ) {
             Ok(decrypted_incoming_data) => decrypted_incoming_data,
             Err(e) => {
@@ -182,6 +176,8 @@ impl MinimalSecureLayer {
             }
         };
 
+        let mut recv_too_early = false;
+
         //println!("DEBUG TMP: msg_type_headers={:#?}", msg_type_headers);
         match msg_type_headers {
             MsgTypeHeaders::Connect {
@@ -259,8 +255,7 @@ impl MinimalSecureLayer {
                     .status
                     .apply_action(Action::Receive(MsgType::UserMsg))?
                 {
-                    self.tmp_stack_user_msgs.push(data);
-                    return Ok(None);
+                    recv_too_early = true;
                 }
 
                 // Verify hash
@@ -293,7 +288,13 @@ impl MinimalSecureLayer {
             msg_type_headers,
         )?;
 
-        Ok(Some(message))
+        if recv_too_early {
+            // Keep the message until the negotiation is successful
+            self.tmp_stack_user_msgs.push(message);
+            Ok(None)
+        } else {
+            Ok(Some(message))
+        }
     }
     /// Encrypt and write message on a writer
     #[inline]
-- 
2.43.0


From 7ae9637df2dd40f1b2536fcdae610a1b5341806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 07/12] fix: write whole messages even when the writer accepts
 them in parts

---
 src/complete/writer.rs                   | 7 +++----
 src/encryption/chacha20_poly1305_aead.rs | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/complete/writer.rs b/src/complete/writer.rs
index 8f15d72..4ab7d5b 100644
--- a/src/complete/writer.rs
+++ b/src/complete/writer.rs
@@ -42,7 +42,7 @@ where
 
         // Write connect message
         writer
-            .write(&bin_connect_msg)
+            .write_all(&bin_connect_msg)
             .map_err(|_| Error::BufferFlushError)?;
 
         // Sign message and write signature
@@ -72,7 +72,7 @@ where
 
         // Write ack message
         writer
-            .write(&bin_connect_msg)
+            .write_all(&bin_connect_msg)
             .map_err(|_| Error::BufferFlushError)?;
 
         // Sign message and write signature
@@ -92,8 +92,7 @@ where
     W: Write,
 {
     writer
-        .write(sig_key_pair.sign(bin_msg).as_ref())
-        .map(|_| ())
+        .write_all(sig_key_pair.sign(bin_msg).as_ref())
         .map_err(|_| Error::BufferFlushError)
 }
 
diff --git a/src/encryption/chacha20_poly1305_aead.rs b/src/encryption/chacha20_poly1305_aead.rs
index 6d08c80..52ea8b3 100644
--- a/src/encryption/chacha20_poly1305_aead.rs
+++ b/src/encryption/chacha20_poly1305_aead.rs
@@ -85,7 +85,7 @@ pub fn encrypt<R: Read, W: Write>(
     .map_err(Error::FailToEncryptData)?;
 
     writer
-        .write(&tag.to_vec())
+        .write_all(&tag)
         .map_err(Error::FailToEncryptData)?;
 
     Ok(())
-- 
2.43.0


From c4b643c59c22d7ef58fe80ad24d9766a58712f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:08 +0000
Subject: [PATCH 08/12] fix: typed messages in plain text format get an error
 instead of a panic

---
 src/complete/serde.rs              | 2 +-
 src/complete/serde/deserializer.rs | 5 +++--
 src/complete/serde/serializer.rs   | 5 +++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/complete/serde.rs b/src/complete/serde.rs
index c1940bc..e458687 100644
--- a/src/complete/serde.rs
+++ b/src/complete/serde.rs
@@ -56,7 +56,7 @@ pub enum SerdeError {
     #[cfg(feature = "json")]
     /// Json error
     JsonError(serde_json::Error),
-    /// For the "raw binary" format, use the functions suffixed by _bin
+    /// For the "raw binary" and "UTF-8 plain text" formats, use the functions suffixed by _bin
     UseSuffixedBinFunctions,
     /// Not copyable error for linter
     _IoError(std::io::Error),
diff --git a/src/complete/serde/deserializer.rs b/src/complete/serde/deserializer.rs
index 2024ea0..efeeba7 100644
--- a/src/complete/serde/deserializer.rs
+++ b/src/complete/serde/deserializer.rs
@@ -89,7 +89,9 @@ where
     M: Debug + DeserializeOwned,
 {
     match message_format {
-        MessageFormat::RawBinary => Err(SerdeError::UseSuffixedBinFunctions),
+        MessageFormat::RawBinary | MessageFormat::Utf8PlainText => {
+            Err(SerdeError::UseSuffixedBinFunctions)
+        }
         #[cfg(feature = "bin")]
         MessageFormat::Bincode => Ok(bincode::deserialize::<M>(binary_message)
             .map_err(|e| SerdeError::BincodeError(format!("{}", e)))?),
@@ -101,6 +103,5 @@ where
         MessageFormat::Utf8Json => {
             Ok(serde_json::from_slice::<M>(binary_message).map_err(SerdeError::JsonError)?)
         }
-        _ => unimplemented!(),
     }
 }
diff --git a/src/complete/serde/serializer.rs b/src/complete/serde/serializer.rs
index 478737f..57288d2 100644
--- a/src/complete/serde/serializer.rs
+++ b/src/complete/serde/serializer.rs
@@ -104,7 +104,9 @@ where
     W: Write,
 {
     match message_format {
-        MessageFormat::RawBinary => Err(SerdeError::UseSuffixedBinFunctions),
+        MessageFormat::RawBinary | MessageFormat::Utf8PlainText => {
+            Err(SerdeError::UseSuffixedBinFunctions)
+        }
         #[cfg(feature = "bin")]
         MessageFormat::Bincode => Ok(bincode::serialize_into(writer, message)
             .map_err(|e| SerdeError::BincodeError(format!("{}", e)))?),
@@ -116,6 +118,5 @@ where
         MessageFormat::Utf8Json => {
             Ok(serde_json::to_writer(writer, message).map_err(SerdeError::JsonError)?)
         }
-        _ => unimplemented!(),
     }
 }
-- 
2.43.0


From e9923f59f3216cfa718a249b9c76279ae2c1a7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:24 +0000
Subject: [PATCH 09/12] fix: do not print secret keys and seeds in debug output

---
 src/encryption/chacha20_poly1305_aead.rs | 9 ++++++++-
 src/seeds.rs                             | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/encryption/chacha20_poly1305_aead.rs b/src/encryption/chacha20_poly1305_aead.rs
index 52ea8b3..ce16316 100644
--- a/src/encryption/chacha20_poly1305_aead.rs
+++ b/src/encryption/chacha20_poly1305_aead.rs
@@ -23,7 +23,7 @@ use zeroize::Zeroize;
 
 const CHACHA20_TAG_SIZE: usize = 16;
 
-#[derive(Clone, Debug, Default, Zeroize)]
+#[derive(Clone, Default, Zeroize)]
 #[zeroize(drop)]
 /// Secret key used for encryption algo
 pub struct SecretKey {
@@ -32,6 +32,13 @@ pub struct SecretKey {
     aad: [u8; 4],
 }
 
+impl std::fmt::Debug for SecretKey {
+    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
+        // Never print the secret
+        f.write_str("SecretKey(..)")
+    }
+}
+
 impl SecretKey {
     /// Create new secret key
     pub fn new(seed: &Seed48) -> SecretKey {
diff --git a/src/seeds.rs b/src/seeds.rs
index 60ecd37..38d23e6 100644
--- a/src/seeds.rs
+++ b/src/seeds.rs
@@ -18,10 +18,17 @@
 use zeroize::Zeroize;
 
 /// Store a 32 bytes seed
-#[derive(Clone, Debug, Default, PartialEq, Zeroize)]
+#[derive(Clone, Default, PartialEq, Zeroize)]
 #[zeroize(drop)]
 pub struct Seed32([u8; 32]);
 
+impl std::fmt::Debug for Seed32 {
+    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
+        // Never print the secret
+        f.write_str("Seed32(..)")
+    }
+}
+
 impl AsRef<[u8]> for Seed32 {
     fn as_ref(&self) -> &[u8] {
         &self.0
-- 
2.43.0


From 7c6d3503db1e7c222f45c94d307ecb27d39b024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 10/12] fix: a clone keeps the signature key of its peer

---
 src/minimal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index 2e45c76..9d0aefe 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -64,7 +64,7 @@ impl MinimalSecureLayer {
                 ephemeral_pubkey: self.ephemeral_pubkey.clone(),
                 orphan_nonce_list: self.orphan_nonce_list.clone(),
                 peer_epk: None,
-                peer_sig_pubkey: None,
+                peer_sig_pubkey: self.peer_sig_pubkey.clone(),
                 next_nonce_expected: self.next_nonce_expected,
                 next_nonce_sent: self.next_nonce_sent,
                 status: SecureLayerStatus::NegotiationSuccessful,
-- 
2.43.0


From 02b5eb97ed1dcaccff8b5d1b5eb64f84276671ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 11/12] fix: a forged early ACK message does not hide the valid
 CONNECT message

---
 src/complete.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index d7fa065..a9aa9ca 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -23,6 +23,7 @@ pub mod writer;
 #[cfg(feature = "ser")]
 pub use self::serde::IncomingMessage;
 
+use crate::errors::IncomingMsgErr;
 use crate::{Error, Message, MinimalSecureLayer, Result, SecureLayerConfig, Seed32};
 use flate2::write::{DeflateDecoder, DeflateEncoder};
 use message::IncomingBinaryMessage;
@@ -130,16 +131,19 @@ impl SecureLayer {
                         },
                         peer_sig_public_key: sig_pubkey,
                     });
-                    if let Some(Message::Ack { custom_data }) =
-                        self.minimal_secure_layer.take_ack_msg_recv_too_early()?
-                    {
-                        messages.push(IncomingBinaryMessage::Ack {
-                            custom_data: if let Some(custom_data) = custom_data {
-                                Some(Self::uncompress(&custom_data)?)
-                            } else {
-                                None
-                            },
-                        });
+                    match self.minimal_secure_layer.take_ack_msg_recv_too_early() {
+                        Ok(Some(Message::Ack { custom_data })) => {
+                            messages.push(IncomingBinaryMessage::Ack {
+                                custom_data: if let Some(custom_data) = custom_data {
+                                    Some(Self::uncompress(&custom_data)?)
+                                } else {
+                                    None
+                                },
+                            });
+                        }
+                        // A forged ACK message must not hide the valid CONNECT message
+                        Ok(_) | Err(Error::RecvInvalidMsg(IncomingMsgErr::InvalidHashOrSig)) => (),
+                        Err(e) => return Err(e),
                     }
                 }
                 Message::Ack { custom_data } => {
-- 
2.43.0


From 3f558af7f6c1cee2b66efb59a4a513173f1129d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 12/12] fix: the crate builds without the zip-sign feature

The configuration type was compiled only with zip-sign although the minimal
layer, available without any feature, needs it.
---
 src/config.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index b883b23..418e449 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -23,7 +23,6 @@ const DEFAULT_COMPRESSION_MIN_SIZE: usize = 8_192;
 #[cfg(feature = "ser")]
 use crate::format::MessageFormat;
 
-#[cfg(feature = "zip-sign")]
 #[derive(Clone, Copy, Debug, PartialEq)]
 /// PKSTL Configuration
 pub struct SecureLayerConfig {
-- 
2.43.0

