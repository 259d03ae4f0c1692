From 7b19005c8cc3d999ae2a4321151c1e6438c3b1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:50 +0000
Subject: [PATCH 01/21] fix: use all 256 bits of the scalar in
 Point256::mult_scalar

The loop ran over 7 limbs and 8 bits of each, so only 56 bits of the
ECDHE private key had any effect.
---
 src/crypto/p256.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index f28b03a..2d31e06 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -207,8 +207,8 @@ impl Point256 {
 
     pub fn mult_scalar(&self, n: &Int256) -> Point256 {
         let mut ret = INFTY;
-        for i in (0..7).rev() {
-            for j in (0..8).rev() {
+        for i in (0..8).rev() {
+            for j in (0..32).rev() {
                 let bit = (n.v[i] >> j) & W(1);
 
                 let ret2 = ret.double();
-- 
2.43.0


From 8ebaf86fe24a58260e2beb7df611bf03a7d2a6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 02/21] fix: refuse public keys whose coordinates are not below
 the prime

Such encodings were accepted as aliases of other points, or hit a debug
assertion in reduce_once.
---
 src/crypto/p256.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index 2d31e06..1c5756a 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -253,6 +253,11 @@ impl NPoint256 {
             _ => return None,
         };
 
+        // coordinates must be field elements, i.e. less than P256
+        if !x.is_reduced() || !y.is_reduced() {
+            return None;
+        }
+
         let p = NPoint256 { x: x, y: y };
 
         // wait, but is p on the curve?
@@ -400,6 +405,13 @@ pub mod int256 {
             self.reduce_once(W(0))
         }
 
+        // return true iff self < P256.
+        // not constant-time: only for public values.
+        pub fn is_reduced(&self) -> bool {
+            let (_, carry_sub) = self.sub_no_reduce(&P256);
+            carry_sub.0 == 1
+        }
+
         pub fn add(&self, b: &Int256) -> Int256 {
             let (v, carry) = self.add_no_reduce(b);
             v.reduce_once(carry)
-- 
2.43.0


From 533289d053a001a4474d4a06dd3748431f0e174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:36 +0000
Subject: [PATCH 03/21] fix: hash HMAC keys longer than one block instead of
 panicking

---
 src/cipher/prf.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cipher/prf.rs b/src/cipher/prf.rs
index da0e802..4cab816 100644
--- a/src/cipher/prf.rs
+++ b/src/cipher/prf.rs
@@ -8,10 +8,14 @@ use std::mem;
 pub fn hmac_sha256(key: &[u8], msg: &[u8]) -> [u8; 32] {
     const B: usize = 64;
 
-    if key.len() > B {
-        // FIXME
-        unimplemented!();
-    }
+    // a key longer than the block is hashed first (RFC 2104)
+    let hashed_key;
+    let key = if key.len() > B {
+        hashed_key = sha256(key);
+        &hashed_key[..]
+    } else {
+        key
+    };
 
     let mut i_msg = [0x36u8; B].to_vec();
     let mut o_msg = [0x5cu8; B].to_vec();
-- 
2.43.0


From b27ca29c2acdb2d260ed6969b928bb7af4142442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 04/21] fix: refuse to write extensions and handshake messages
 too long for their length field

---
 src/handshake.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index c066a42..3406a16 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -55,6 +55,14 @@ tls_enum!(u8, enum ECPointFormat {
 });
 tls_vec!(ECPointFormatList = ECPointFormat(1, (1 << 8) - 1));
 
+// size of extension data must fit in two bytes
+fn extension_size(size: u64) -> TlsResult<u16> {
+    if size >= 1 << 16 {
+        return tls_err!(InternalError, "extension too long: {}", size);
+    }
+    Ok(size as u16)
+}
+
 // Hello extension (RFC 5246, 7.4.1.4.) is defined as like:
 // tls_vec!(ExtensionData = opaque(1, (1 << 16) - 1));
 // tls_struct!(struct Extension {
@@ -92,14 +100,16 @@ macro_rules! tls_hello_extension {
                 match *self {
                     $(
                         $enum_name::$ext_name(ref body) => {
+                            let size = extension_size(body.tls_size())?;
                             try_write_num!(u16, writer, tt_to_expr!($ext_num));
-                            try_write_num!(u16, writer, body.tls_size() as u16);
+                            try_write_num!(u16, writer, size);
                             body.tls_write(writer)?;
                         }
                     )+
                     $enum_name::Unknown(extension_type, ref extension_data) => {
+                        let size = extension_size(extension_data.len() as u64)?;
                         try_write_num!(u16, writer, extension_type);
-                        try_write_num!(u16, writer, extension_data.len() as u16);
+                        try_write_num!(u16, writer, size);
                         writer.write_all(extension_data)?;
                     }
                 }
@@ -205,9 +215,12 @@ macro_rules! tls_handshake(
                 match *self {
                     $(
                         Handshake::$name(ref body) => {
-                            writer.write_u8(tt_to_expr!($num))?;
-
                             let len = body.tls_size();
+                            if len >= 1 << 24 {
+                                return tls_err!(InternalError, "handshake message too long: {}", len);
+                            }
+
+                            writer.write_u8(tt_to_expr!($num))?;
                             writer.write_u8(((len >> 16) & 0xff) as u8)?;
                             writer.write_u8(((len >> 8) & 0xff) as u8)?;
                             writer.write_u8((len & 0xff) as u8)?;
-- 
2.43.0


From 422359141eff650599d9e91367b53efb6417302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 05/21] fix: refuse a hello with bytes after its extensions

---
 src/tls_item.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tls_item.rs b/src/tls_item.rs
index d8e9122..28190be 100644
--- a/src/tls_item.rs
+++ b/src/tls_item.rs
@@ -347,6 +347,12 @@ macro_rules! tls_option {
 
                 let mut rest_reader = std::io::Cursor::new(rest);
                 let extensions: $t = TlsItem::tls_read(&mut rest_reader)?;
+                if rest_reader.position() != len as u64 {
+                    return tls_err!(
+                        crate::tls_result::TlsErrorKind::DecodeError,
+                        "unexpected bytes after the last item"
+                    );
+                }
                 Ok(Some(extensions))
             }
 
-- 
2.43.0


From 865c15d0b5d203a26a43396893917f2e401bf823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 06/21] fix: refuse server key exchanges on another curve or
 with trailing bytes

---
 src/cipher/ecdhe.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 7a92f4f..228f106 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -8,7 +8,7 @@ use crate::crypto::wrapping::Wrapping as W;
 use crate::handshake::NamedCurve;
 use crate::signature::DigitallySigned;
 use crate::tls_item::TlsItem;
-use crate::tls_result::TlsErrorKind::IllegalParameter;
+use crate::tls_result::TlsErrorKind::{DecodeError, IllegalParameter};
 use crate::tls_result::TlsResult;
 use crate::tls_result;
 use crate::util::{ReadExt, WriteExt};
@@ -121,6 +121,14 @@ impl KeyExchange for EllipticDiffieHellman {
     fn compute_keys(&self, data: &[u8], rng: &mut OsRng) -> TlsResult<(Vec<u8>, Vec<u8>)> {
         let mut reader = Cursor::new(data);
         let ecdh_params: EcdheServerKeyExchange = TlsItem::tls_read(&mut reader)?;
+        if reader.position() != data.len() as u64 {
+            return tls_err!(DecodeError, "unexpected bytes after server key exchange");
+        }
+
+        let EcParameters::named_curve(curve) = ecdh_params.params.curve_params;
+        if curve != NamedCurve::secp256r1 {
+            return tls_err!(IllegalParameter, "server chose another curve than secp256r1");
+        }
 
         let gy = &ecdh_params.params.public;
         let gy = p256::NPoint256::from_uncompressed_bytes(gy);
-- 
2.43.0


From fdbf7081e1fc381c9867e3c7d05b559401cf6628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 07/21] fix: never use a multiple of the group order as the
 private key

---
 src/cipher/ecdhe.rs | 11 +++++++++--
 src/crypto/p256.rs  |  4 ++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 228f106..fdb9ad4 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -154,8 +154,15 @@ impl KeyExchange for EllipticDiffieHellman {
             }
         }
 
-        let x = get_random_x(rng);
-        let gx = p256::G.mult_scalar(&x).normalize().to_uncompressed_bytes();
+        // a multiple of the group order is not a private key
+        let (x, gx) = loop {
+            let x = get_random_x(rng);
+            let gx = p256::G.mult_scalar(&x);
+            if !gx.is_infinity() {
+                break (x, gx);
+            }
+        };
+        let gx = gx.normalize().to_uncompressed_bytes();
         let gxy = gy.mult_scalar(&x).normalize();
         let pre_master_secret = gxy.x.to_bytes();
 
diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index 1c5756a..693a1bb 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -74,6 +74,10 @@ impl Clone for Point256 {
 }
 
 impl Point256 {
+    pub fn is_infinity(&self) -> bool {
+        self.z.compare(&ZERO) == W(0)
+    }
+
     pub fn normalize(&self) -> NPoint256 {
         let z2 = self.z.square();
         let z3 = self.z.mult(&z2);
-- 
2.43.0


From b8583dfddd47673088902da8916960acce47bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 08/21] verif hook: set record sequence numbers (cfg
 husk_verif)

---
 src/tls.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tls.rs b/src/tls.rs
index d1a3b19..1d94b5c 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -112,6 +112,12 @@ impl<W: Write> TlsWriter<W> {
         self.iv = Some(iv);
     }
 
+    /// Verification hook: continue from this sequence number.
+    #[cfg(husk_verif)]
+    pub fn verif_set_write_count(&mut self, count: u64) {
+        self.write_count = count;
+    }
+
     pub fn write_record(&mut self, record: Record) -> TlsResult<()> {
         let encrypted_fragment = match self.encryptor {
             None => record.fragment,
@@ -241,6 +247,12 @@ impl<R: ReadExt> TlsReader<R> {
         self.iv = Some(iv);
     }
 
+    /// Verification hook: continue from this sequence number.
+    #[cfg(husk_verif)]
+    pub fn verif_set_read_count(&mut self, count: u64) {
+        self.read_count = count;
+    }
+
     /// Read a record from readable stream.
     ///
     /// Any record with unknown content type is treated as an error.
-- 
2.43.0


From 77ceb9ff53e98a79cc986f514daac55f5fe8d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:40 +0000
Subject: [PATCH 09/21] verif hook: set record sequence numbers of any width
 (cfg husk_verif)

---
 src/tls.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index 1d94b5c..40a819c 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -115,7 +115,7 @@ impl<W: Write> TlsWriter<W> {
     /// Verification hook: continue from this sequence number.
     #[cfg(husk_verif)]
     pub fn verif_set_write_count(&mut self, count: u64) {
-        self.write_count = count;
+        self.write_count = count as _;
     }
 
     pub fn write_record(&mut self, record: Record) -> TlsResult<()> {
@@ -250,7 +250,7 @@ impl<R: ReadExt> TlsReader<R> {
     /// Verification hook: continue from this sequence number.
     #[cfg(husk_verif)]
     pub fn verif_set_read_count(&mut self, count: u64) {
-        self.read_count = count;
+        self.read_count = count as _;
     }
 
     /// Read a record from readable stream.
-- 
2.43.0


From f51d7c59e12802270178ad0092ca7d70f7deb7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 10/21] fix: retry interrupted reads instead of failing

---
 src/util.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index bc10366..7357dbe 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -89,7 +89,12 @@ pub trait ReadExt: Read {
         let len = buf.len();
         let mut pos = 0;
         while pos < len {
-            let num_bytes = self.read(&mut buf[pos..])?;
+            let num_bytes = match self.read(&mut buf[pos..]) {
+                Ok(num_bytes) => num_bytes,
+                // nothing was read, just try again
+                Err(ref err) if err.kind() == io::ErrorKind::Interrupted => continue,
+                Err(err) => return Err(err),
+            };
             if num_bytes == 0 {
                 return Err(io::Error::new(
                     io::ErrorKind::Other,
-- 
2.43.0


From b4a5117fa654db87b40e947e787cd96ec2a0814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:32 +0000
Subject: [PATCH 11/21] fix: refuse protected records with too long a plaintext
 instead of panicking

---
 src/tls.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index 40a819c..2b0c372 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -321,8 +321,7 @@ impl<R: ReadExt> TlsReader<R> {
                 // TODO: "seq_num as nonce" is chacha20poly1305-specific
                 let data = decryptor.decrypt(&u96_seq_num, &fragment, &ad)?;
                 if data.len() > RECORD_MAX_LEN {
-                    // decryption routine went wrong.
-                    panic!("decrypted record too long: {}", data.len());
+                    return tls_err!(RecordOverflow, "decrypted record too long: {}", data.len());
                 }
 
                 Record::new(content_type, major, minor, data)
-- 
2.43.0


From 1d46886e905806aaa48417e70c52f1aa9493c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:18 +0000
Subject: [PATCH 12/21] fix: never reuse a sequence number after a failed write

---
 src/tls.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index 2b0c372..5917f7a 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -150,14 +150,15 @@ impl<W: Write> TlsWriter<W> {
             panic!("record too long: {} > 2^14 + 2048", fragment_len);
         }
 
+        // the nonce is used up even if the record is not completely written
+        self.write_count += 1;
+
         self.writer.write_u8(record.content_type as u8)?;
         self.writer.write_u8(record.ver_major)?;
         self.writer.write_u8(record.ver_minor)?;
         self.writer.write_be_u16(fragment_len as u16)?;
         self.writer.write_all(&encrypted_fragment)?;
 
-        self.write_count += 1;
-
         Ok(())
     }
 
-- 
2.43.0


From b5f6b9d82df5805c6115a386c6962af3808119c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 13/21] fix: refuse a change cipher spec in the middle of a
 handshake message

---
 src/handshake.rs | 5 +++++
 src/tls.rs       | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/src/handshake.rs b/src/handshake.rs
index 3406a16..270c3ee 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -352,6 +352,11 @@ impl HandshakeBuffer {
         self.buf.extend(fragment);
     }
 
+    /// `true` if there is no byte of an incomplete message.
+    pub fn is_empty(&self) -> bool {
+        self.buf.is_empty()
+    }
+
     // if message is arrived but has unknown type, the message is discarded and returns error.
     pub fn get_message(&mut self) -> TlsResult<Option<Handshake>> {
         let len = self.buf.len();
diff --git a/src/tls.rs b/src/tls.rs
index 5917f7a..5156790 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -361,6 +361,13 @@ impl<R: ReadExt> TlsReader<R> {
                     if record.fragment.len() != 1 || record.fragment[0] != 1 {
                         return tls_err!(UnexpectedMessage, "invalid ChangeCipherSpec arrived");
                     }
+                    // a message must not start in clear and end encrypted
+                    if !self.handshake_buffer.is_empty() {
+                        return tls_err!(
+                            UnexpectedMessage,
+                            "ChangeCipherSpec arrived inside a handshake message"
+                        );
+                    }
                     return Ok(ChangeCipherSpecMessage);
                 }
                 AlertTy => {
-- 
2.43.0


From 1b20d8c38fcc91cfaa78eba579b9db60e54a4842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 14/21] fix: report truncated handshake messages as decode
 errors, not as i/o errors

---
 src/cipher/ecdhe.rs |  5 +++--
 src/handshake.rs    |  5 +++--
 src/tls_result.rs   | 12 ++++++++++++
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index fdb9ad4..d833416 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -9,7 +9,7 @@ use crate::handshake::NamedCurve;
 use crate::signature::DigitallySigned;
 use crate::tls_item::TlsItem;
 use crate::tls_result::TlsErrorKind::{DecodeError, IllegalParameter};
-use crate::tls_result::TlsResult;
+use crate::tls_result::{TlsError, TlsResult};
 use crate::tls_result;
 use crate::util::{ReadExt, WriteExt};
 
@@ -120,7 +120,8 @@ pub struct EllipticDiffieHellman;
 impl KeyExchange for EllipticDiffieHellman {
     fn compute_keys(&self, data: &[u8], rng: &mut OsRng) -> TlsResult<(Vec<u8>, Vec<u8>)> {
         let mut reader = Cursor::new(data);
-        let ecdh_params: EcdheServerKeyExchange = TlsItem::tls_read(&mut reader)?;
+        let ecdh_params: TlsResult<EcdheServerKeyExchange> = TlsItem::tls_read(&mut reader);
+        let ecdh_params = ecdh_params.map_err(TlsError::into_decode_error)?;
         if reader.position() != data.len() as u64 {
             return tls_err!(DecodeError, "unexpected bytes after server key exchange");
         }
diff --git a/src/handshake.rs b/src/handshake.rs
index 270c3ee..5171e12 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -2,7 +2,7 @@ use crate::cipher::CipherSuite;
 use crate::tls::TLS_VERSION;
 use crate::tls_item::{DummyItem, ObscureData, TlsItem};
 use crate::tls_result::TlsErrorKind::{DecodeError, InternalError, UnexpectedMessage};
-use crate::tls_result::TlsResult;
+use crate::tls_result::{TlsError, TlsResult};
 use crate::util::{ReadExt, WriteExt};
 
 pub use crate::signature::{
@@ -385,7 +385,8 @@ impl HandshakeBuffer {
         self.buf = remaining;
 
         let reader = &mut &message[..];
-        let message: Handshake = TlsItem::tls_read(reader)?;
+        let message: TlsResult<Handshake> = TlsItem::tls_read(reader);
+        let message = message.map_err(TlsError::into_decode_error)?;
         Ok(Some(message))
     }
 }
diff --git a/src/tls_result.rs b/src/tls_result.rs
index be42c79..b29b7e6 100644
--- a/src/tls_result.rs
+++ b/src/tls_result.rs
@@ -31,6 +31,18 @@ impl TlsError {
             desc: desc,
         })
     }
+
+    /// For errors found while decoding bytes that have already arrived:
+    /// running out of them is not an i/o error, the message is malformed.
+    pub fn into_decode_error(self) -> TlsError {
+        match self.kind {
+            TlsErrorKind::IoFailure => TlsError {
+                kind: TlsErrorKind::DecodeError,
+                desc: format!("message too short: {}", self.desc),
+            },
+            _ => self,
+        }
+    }
 }
 
 impl Error for TlsError {
-- 
2.43.0


From a1ef9c27979d5b1876a24122e0178c436a0beab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:41 +0000
Subject: [PATCH 15/21] fix: report bytes after a handshake message body as a
 decode error

---
 src/handshake.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 5171e12..1c8f8d7 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -259,7 +259,7 @@ macro_rules! tls_handshake(
                 let should_be_err = reader.read_u8();
                 match should_be_err {
                     Err(_) => {},
-                    Ok(_) => return tls_err!(InternalError, "expected EOF but found not"),
+                    Ok(_) => return tls_err!(DecodeError, "expected EOF but found not"),
                 }
 
                 Ok(ret)
-- 
2.43.0


From 90ef032d643f794703b4491c3a25adb9b02e726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:17 +0000
Subject: [PATCH 16/21] fix: report unexpected messages on an open connection
 instead of panicking

---
 src/tls.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index 5156790..a25110b 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -423,9 +423,14 @@ impl<R: ReadExt> TlsReader<R> {
                     level: _,
                     description: AlertDescription::close_notify,
                 }) => return Ok(vec![]),
-                AlertMessage(..) => unimplemented!(),
-                ChangeCipherSpecMessage => unimplemented!(), // this should not come here
-                HandshakeMessage(..) => unimplemented!(),    // TODO: re-handshake
+                AlertMessage(alert) => {
+                    return tls_err!(AlertReceived, "alert: {:?}", alert.description)
+                }
+                ChangeCipherSpecMessage => {
+                    return tls_err!(UnexpectedMessage, "unexpected ChangeCipherSpec")
+                }
+                // TODO: re-handshake
+                HandshakeMessage(..) => return tls_err!(UnexpectedMessage, "unexpected Handshake"),
             }
         }
     }
-- 
2.43.0


From ad83277c1359c75ba237a95fd6cae4cc404eb404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:53 +0000
Subject: [PATCH 17/21] fix: return from read with what has arrived instead of
 waiting for more

---
 src/client.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index d8a79d9..9051e4c 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -328,6 +328,10 @@ impl<R: Read, W: Write> Read for TlsClient<R, W> {
         while pos < len {
             let remaining = len - pos;
             if self.buf.is_empty() {
+                // hand over what has arrived instead of waiting for more
+                if pos > 0 {
+                    break;
+                }
                 let data = match self.reader.read_application_data() {
                     Ok(data) => data,
                     Err(_err) => {
-- 
2.43.0


From 4cc8078f97a6c141096a4abf82c0fc9185ff352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:07 +0000
Subject: [PATCH 18/21] fix: deliver nothing more after a record was rejected

---
 src/client.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 9051e4c..6b02d7e 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -21,6 +21,8 @@ pub struct TlsClient<R: Read, W: Write> {
     pub writer: TlsWriter<W>,
     pub rng: OsRng,
     buf: Vec<u8>,
+    // nothing more is read after an error other than i/o.
+    read_closed: bool,
 }
 
 impl<R: Read, W: Write> TlsClient<R, W> {
@@ -30,6 +32,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
             writer: TlsWriter::new(writer),
             rng,
             buf: Vec::new(),
+            read_closed: false,
         };
 
         // handshake failed. send alert if necessary
@@ -329,12 +332,13 @@ impl<R: Read, W: Write> Read for TlsClient<R, W> {
             let remaining = len - pos;
             if self.buf.is_empty() {
                 // hand over what has arrived instead of waiting for more
-                if pos > 0 {
+                if pos > 0 || self.read_closed {
                     break;
                 }
                 let data = match self.reader.read_application_data() {
                     Ok(data) => data,
-                    Err(_err) => {
+                    Err(err) => {
+                        self.read_closed = err.kind != TlsErrorKind::IoFailure;
                         break; // FIXME: stop if EOF. otherwise raise error?
                     }
                 };
-- 
2.43.0


From a1bdacd8bc95aa97c90bc2074c5c6cd420c97e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:41 +0000
Subject: [PATCH 19/21] fix: make close_notify the end of the stream for good

---
 src/tls.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index a25110b..bd27fbc 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -10,7 +10,7 @@ use crate::tls_result::TlsErrorKind::{
 use crate::tls_result::TlsResult;
 use crate::util::{ReadExt, WriteExt};
 use crate::{
-    alert::{Alert, AlertDescription},
+    alert::Alert,
     util::u64_be_array,
 };
 
@@ -418,11 +418,7 @@ impl<R: ReadExt> TlsReader<R> {
             let msg = self.read_message()?;
             match msg {
                 ApplicationDataMessage(msg) => return Ok(msg),
-                // TODO: handle other cases
-                AlertMessage(Alert {
-                    level: _,
-                    description: AlertDescription::close_notify,
-                }) => return Ok(vec![]),
+                // this includes close_notify, after which nothing more may be read
                 AlertMessage(alert) => {
                     return tls_err!(AlertReceived, "alert: {:?}", alert.description)
                 }
-- 
2.43.0


From 4e8af1b01699292f090af57b8318ff47eedbddc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:46 +0000
Subject: [PATCH 20/21] fix: flush the transport after each flight and alert,
 and in flush

---
 src/client.rs | 7 +++++--
 src/tls.rs    | 6 ++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 6b02d7e..379dc2b 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -92,6 +92,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
 
         let client_hello = Handshake::new_client_hello(random, cipher_suite, extensions)?;
         self.writer.write_handshake(&client_hello)?;
+        self.writer.flush()?;
 
         let server_hello_data = expect!(server_hello);
         {
@@ -210,6 +211,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
         };
         let finished = Handshake::new_finished(client_verify_data)?;
         self.writer.write_handshake(&finished)?;
+        self.writer.flush()?;
 
         // Although client->server is encrypted, server->client isn't yet.
         // server may send either ChangeCipherSpec or Alert.
@@ -254,6 +256,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
             description: alert::AlertDescription::close_notify,
         };
         self.writer.write_alert(&alert_data)?;
+        self.writer.flush()?;
         Ok(())
     }
 
@@ -265,7 +268,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
             _ => {
                 let alert = alert::Alert::from_tls_err(&err);
                 let result = self.writer.write_alert(&alert);
-                match result {
+                match result.and_then(|()| self.writer.flush()) {
                     Ok(()) => err,
                     Err(err) => err,
                 }
@@ -296,7 +299,7 @@ impl<R: Read, W: Write> Write for TlsClient<R, W> {
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        Ok(())
+        self.writer.get_mut().flush()
     }
 
     fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
diff --git a/src/tls.rs b/src/tls.rs
index bd27fbc..8c6e74d 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -118,6 +118,12 @@ impl<W: Write> TlsWriter<W> {
         self.write_count = count as _;
     }
 
+    /// Pass on everything written so far.
+    pub fn flush(&mut self) -> TlsResult<()> {
+        self.writer.flush()?;
+        Ok(())
+    }
+
     pub fn write_record(&mut self, record: Record) -> TlsResult<()> {
         let encrypted_fragment = match self.encryptor {
             None => record.fragment,
-- 
2.43.0


From e06c749f82245239d25219b1ce44eb8797dda187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:07 +0000
Subject: [PATCH 21/21] fix: keep the tag comparison from being compiled to an
 early exit

---
 src/cipher/chacha20_poly1305.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cipher/chacha20_poly1305.rs b/src/cipher/chacha20_poly1305.rs
index c53aa57..e58d1c1 100644
--- a/src/cipher/chacha20_poly1305.rs
+++ b/src/cipher/chacha20_poly1305.rs
@@ -87,6 +87,8 @@ impl Decryptor for ChaCha20Poly1305Decryptor {
         for i in 0..MAC_LEN {
             diff |= mac_computed[i] ^ mac_expected[i];
         }
+        // read it back, or the loop may be compiled to comparisons that stop at the first difference
+        let diff = unsafe { std::ptr::read_volatile(&diff) };
 
         if diff != 0 {
             tls_err!(BadRecordMac, "wrong mac")
-- 
2.43.0

