From 559e6b76da80ca58fdca7e762d629a0aa24c2333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:33 +0000
Subject: [PATCH 01/11] fix: report an error instead of panicking when a TPM2B
 does not fit the output buffer

The guard compared the payload size with the larger of the type capacity
and the space left, so a destination smaller than the payload reached the
slice index and panicked.
---
 marshalable-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index acde6f9..938048a 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -278,7 +278,7 @@ fn derive_tpm2b_simple(
                 let used = self.size.try_marshal(buffer)?;
                 let (_, rest) = buffer.split_at_mut(used);
                 let buffer_marsh = self.get_size() as usize;
-                if buffer_marsh > (core::cmp::max(Self::MAX_BUFFER_SIZE, rest.len())) {
+                if buffer_marsh > (core::cmp::min(Self::MAX_BUFFER_SIZE, rest.len())) {
                     return Err(tpm2_rs_marshalable::Error::UnexpectedEndOfBuffer);
                 }
                 rest[..buffer_marsh].copy_from_slice(&self.#field_name[..buffer_marsh]);
-- 
2.43.0


From 1a83266382f65e2762d392f8da8f5164c7258313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:33 +0000
Subject: [PATCH 02/11] fix: reject a length field larger than its array when
 marshaling

Unmarshaling already returns ArrayLengthExceeded; marshaling a value whose
(public) length field exceeds the array capacity panicked.
---
 marshalable-derive/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index 938048a..8045ee5 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -409,9 +409,13 @@ fn get_named_field_marshal<'a>(
     let name = &field.ident;
     let span = Span::call_site().located_at(field.span());
     if let Some(length) = get_marshal_attribute(&field.attrs, "length")? {
+        let (max_size, _) = get_array_default(name, &field.ty)?;
         let length_prim =
             get_primitive(&length, basic_field_types.get(length.get_ident().unwrap()))?;
         Ok(quote_spanned! {span =>
+            if self.#length_prim as usize > #max_size {
+                return Err(tpm2_rs_marshalable::Error::ArrayLengthExceeded);
+            }
             for i in 0..self.#length_prim as usize {
                 written += self.#name[i].try_marshal(&mut buffer[written..])?;
             }
-- 
2.43.0


From 6414cfee52a0fb04e72dcd4a34e89aeead3c2385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:33 +0000
Subject: [PATCH 03/11] fix: only parse the response bytes the connection
 returned

A response header whose size is smaller than the header itself panicked, and
a size larger than the number of bytes received made the client parse bytes
of its own zeroed buffer as if the TPM had sent them.
---
 crates/tpm2-client/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index 6ed70a5..777951c 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -173,14 +173,18 @@ pub fn run_command_with_handles<
         .map_err(TssError::from)?;
 
     let mut resp_buffer = [0u8; RESP_BUFFER_SIZE];
-    tpm.transact(&cmd_buffer[..written], &mut resp_buffer)?;
+    let resp_buffer = tpm.transact(&cmd_buffer[..written], &mut resp_buffer)?;
 
-    let (resp_header, read) = read_response_header(&resp_buffer)?;
+    let (resp_header, read) = read_response_header(resp_buffer)?;
     let resp_size = resp_header.size as usize;
-    if resp_size > resp_buffer.len() {
+    if resp_size > RESP_BUFFER_SIZE {
         return Err(TssError::from(TssTcsError::OutOfMemory).into());
     }
-    let mut unmarsh = UnmarshalBuf::new(&resp_buffer[read..resp_size]);
+    // The size includes the header, and cannot exceed what the TPM returned.
+    let Some(resp_body) = resp_buffer.get(read..resp_size) else {
+        return Err(TssError::from(TssTcsError::TpmUnexpected).into());
+    };
+    let mut unmarsh = UnmarshalBuf::new(resp_body);
     let resp_handles = CmdT::RespHandles::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
     if resp_header.tag == TpmSt::Sessions {
         let _param_size = u32::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
-- 
2.43.0


From 867406c9b7a828586c31ac7f1ca3a014031f6593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:33 +0000
Subject: [PATCH 04/11] fix: report an error when there is no room for the
 authorization size

write_command_sessions indexed past the end of buffers shorter than the
authorization area size field and panicked.
---
 crates/tpm2-client/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index 777951c..3a8e3de 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -7,7 +7,7 @@ use sessions::{AuthorizationArea, Session};
 use tpm2_rs_base::commands::*;
 use tpm2_rs_base::constants::{TpmCc, TpmSt};
 use tpm2_rs_base::errors::{TssError, TssResult, TssTcsError};
-use tpm2_rs_base::marshal::{Marshalable, UnmarshalBuf};
+use tpm2_rs_base::marshal::{Error as MarshalError, Marshalable, UnmarshalBuf};
 use tpm2_rs_base::{TpmiStCommandTag, TpmsAuthResponse};
 
 pub mod connection;
@@ -83,6 +83,9 @@ pub fn write_command_sessions<
         return Ok(0);
     }
     let mut auth_offset = size_of::<u32>();
+    if buffer.len() < auth_offset {
+        return Err(MarshalError::UnexpectedEndOfBuffer.into());
+    }
     let (s1, s2, s3) = sessions.decompose_ref();
     let Some(s1) = s1 else {
         return marshal_auth_size(auth_offset, buffer);
-- 
2.43.0


From 4e38de77bbd60daa2d02214324489bb482f55226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:33 +0000
Subject: [PATCH 05/11] fix: write the whole response header for error
 responses

Only the response code was written, so the tag and size of an error response
were whatever the response buffer (or the in-place request) contained.
---
 crates/tpm2-impl/src/tpmctx.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/tpm2-impl/src/tpmctx.rs b/crates/tpm2-impl/src/tpmctx.rs
index 539915c..9bd1dc8 100644
--- a/crates/tpm2-impl/src/tpmctx.rs
+++ b/crates/tpm2-impl/src/tpmctx.rs
@@ -48,11 +48,16 @@ impl<Deps: TpmContextDeps> TpmContext<Deps> {
     }
 
     fn fill_error(&mut self, response: &mut Deps::Response, error: TpmRcError) -> usize {
-        // TODO fill out more of the TPM header for an error
-        if response.write(6, &error.get().to_be_bytes()).is_err() {
+        // An error response consists of only the header, and never has sessions.
+        const ERROR_RESPONSE_SIZE: usize = 10;
+        let mut header = [0u8; ERROR_RESPONSE_SIZE];
+        header[..2].copy_from_slice(&0x8001_u16.to_be_bytes());
+        header[2..6].copy_from_slice(&(ERROR_RESPONSE_SIZE as u32).to_be_bytes());
+        header[6..].copy_from_slice(&error.get().to_be_bytes());
+        if response.write(0, &header).is_err() {
             return 0;
         }
-        10
+        ERROR_RESPONSE_SIZE
     }
 
     fn execute_command(&mut self, buffers: impl TpmBuffers) -> Result<usize, TpmRcError> {
-- 
2.43.0


From 3c8e5b05534d65854a2da722946630e785fb0a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:33 +0000
Subject: [PATCH 06/11] fix: answer TPM_RC_FAILURE when the DRBG fails instead
 of panicking

---
 crates/tpm2-impl/src/handler/random.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/tpm2-impl/src/handler/random.rs b/crates/tpm2-impl/src/handler/random.rs
index 02428e6..8156a8f 100644
--- a/crates/tpm2-impl/src/handler/random.rs
+++ b/crates/tpm2-impl/src/handler/random.rs
@@ -20,11 +20,6 @@ impl<Deps: TpmContextDeps> CommandHandler<Deps> {
         self.crypto.drbg.fill_bytes(&[], buffer).map_err(Into::into)
     }
 
-    fn get_random_or_faiure_mode(&mut self, buffer: &mut [u8]) {
-        if self.try_get_random(buffer).is_err() {
-            todo!() // goto failure mode
-        }
-    }
     /// Handles the [TpmCc::GetRandom] (`0x17B`) command.
     pub fn get_random(
         &mut self,
@@ -34,11 +29,13 @@ impl<Deps: TpmContextDeps> CommandHandler<Deps> {
         let requested_bytes = request.read_be_u16().ok_or(TpmRcError::CommandSize)? as usize;
 
         let mut response = request.into_response();
+        let mut result = Ok(());
         response
             .write_callback(requested_bytes, |buffer| {
-                self.get_random_or_faiure_mode(buffer)
+                result = self.try_get_random(buffer);
             })
             .map_err(|_| TpmRcError::Memory)?;
-        Ok(())
+        // TODO: goto failure mode
+        result.map_err(|_| TpmRcError::Failure)
     }
 }
-- 
2.43.0


From 696b0aea154dc579778e807e267dce96ce258e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:56 +0000
Subject: [PATCH 07/11] fix: report out of bounds for buffer offsets that
 overflow

offset + length was computed unchecked, so an access near usize::MAX panicked
(or wrapped) instead of returning ReadOutOfBounds/WriteOutOfBounds.
---
 crates/tpm2-impl/src/platform/buffer.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/tpm2-impl/src/platform/buffer.rs b/crates/tpm2-impl/src/platform/buffer.rs
index 5f57ed7..bc13f6d 100644
--- a/crates/tpm2-impl/src/platform/buffer.rs
+++ b/crates/tpm2-impl/src/platform/buffer.rs
@@ -62,9 +62,8 @@ impl TpmReadBuffer for [u8] {
         self.len()
     }
     fn read_into(&self, offset: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
-        let read_from = self
-            .get(offset..offset + out.len())
-            .ok_or(ReadOutOfBounds)?;
+        let end = offset.checked_add(out.len()).ok_or(ReadOutOfBounds)?;
+        let read_from = self.get(offset..end).ok_or(ReadOutOfBounds)?;
         out.copy_from_slice(read_from);
         Ok(())
     }
@@ -72,9 +71,10 @@ impl TpmReadBuffer for [u8] {
 
 impl TpmWriteBuffer for [u8] {
     fn write(&mut self, write_offset: usize, data: &[u8]) -> Result<(), WriteOutOfBounds> {
-        let write_to = self
-            .get_mut(write_offset..write_offset + data.len())
+        let end = write_offset
+            .checked_add(data.len())
             .ok_or(WriteOutOfBounds)?;
+        let write_to = self.get_mut(write_offset..end).ok_or(WriteOutOfBounds)?;
         write_to.copy_from_slice(data);
 
         Ok(())
@@ -85,7 +85,8 @@ impl TpmWriteBuffer for [u8] {
         size: usize,
         callback: impl FnOnce(&mut [u8]),
     ) -> Result<(), WriteOutOfBounds> {
-        let Some(buffer) = self.get_mut(write_offset..write_offset + size) else {
+        let end = write_offset.checked_add(size).ok_or(WriteOutOfBounds)?;
+        let Some(buffer) = self.get_mut(write_offset..end) else {
             return Err(WriteOutOfBounds);
         };
         callback(buffer);
-- 
2.43.0


From 7d86506f90adcef3581dc9cb6c5dfa2b8b2ff37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:56 +0000
Subject: [PATCH 08/11] fix: decode handle and session format1 errors

Handle errors were reported as session errors (the session bit was never
tested), and the session bit was read as part of the position, so a code
built from (Session, Pos1) decoded as position 9.
---
 crates/tpm2/src/errors/tpm_rc/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/tpm2/src/errors/tpm_rc/mod.rs b/crates/tpm2/src/errors/tpm_rc/mod.rs
index 552e827..3a6ccc1 100644
--- a/crates/tpm2/src/errors/tpm_rc/mod.rs
+++ b/crates/tpm2/src/errors/tpm_rc/mod.rs
@@ -151,7 +151,7 @@ impl ErrorType {
         }
         if val & Self::PARAMETER_MASK != 0 {
             Some(Self::Parameter)
-        } else if Self::SESSION_MASK != 0 {
+        } else if val & Self::SESSION_MASK != 0 {
             Some(Self::Session)
         } else {
             Some(Self::Handle)
@@ -203,7 +203,14 @@ impl ErrorPosition {
         if val & 0x80 == 0 {
             return None;
         }
-        match val & 0xF00 {
+        // Bit 11 is part of the position only for parameters; otherwise it tells sessions
+        // apart from handles.
+        let mask = if val & ErrorType::PARAMETER_MASK != 0 {
+            0xF00
+        } else {
+            0x700
+        };
+        match val & mask {
             0x100 => Some(Self::Pos1),
             0x200 => Some(Self::Pos2),
             0x300 => Some(Self::Pos3),
-- 
2.43.0


From 9f50c9f45ab980fc7436c775d579ba5ce2f3fbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:56 +0000
Subject: [PATCH 09/11] fix: TPM_RC_SEQUENCE is 0x103

RC_VER1 + 0x003 in Part 2, 6.6.3 (TpmRc::Sequence in tpm2-rs-base agrees);
0x102 is unassigned.
---
 crates/tpm2/src/errors/tpm_rc/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tpm2/src/errors/tpm_rc/mod.rs b/crates/tpm2/src/errors/tpm_rc/mod.rs
index 3a6ccc1..099ba8c 100644
--- a/crates/tpm2/src/errors/tpm_rc/mod.rs
+++ b/crates/tpm2/src/errors/tpm_rc/mod.rs
@@ -61,7 +61,7 @@ impl TpmRcError {
     /// Commands not being accepted because of a TPM failure (`TPM_RC_FAILURE`).
     pub const Failure: Self = Self::new(0x101);
     /// Improper use of a sequence handle (`TPM_RC_SEQUENCE`).
-    pub const Sequence: Self = Self::new(0x102);
+    pub const Sequence: Self = Self::new(0x103);
 
     /// Command commandSize value is inconsistent with contents of the command buffer; either the
     /// size is not the same as the octets loaded by the hardware interface layer or the value is
-- 
2.43.0


From e1bfd8483080d93736420bcec8914901bffe0565 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 11:23:04 +0000
Subject: [PATCH 10/11] fix: reject a response with bytes after the size in its
 header

A response longer than its size field says was accepted, and the bytes after
that size were silently dropped.
---
 crates/tpm2-client/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index 3a8e3de..9b98aa9 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -183,11 +183,11 @@ pub fn run_command_with_handles<
     if resp_size > RESP_BUFFER_SIZE {
         return Err(TssError::from(TssTcsError::OutOfMemory).into());
     }
-    // The size includes the header, and cannot exceed what the TPM returned.
-    let Some(resp_body) = resp_buffer.get(read..resp_size) else {
+    // The size includes the header, and has to be that of what the TPM returned.
+    if resp_size != resp_buffer.len() {
         return Err(TssError::from(TssTcsError::TpmUnexpected).into());
-    };
-    let mut unmarsh = UnmarshalBuf::new(resp_body);
+    }
+    let mut unmarsh = UnmarshalBuf::new(&resp_buffer[read..]);
     let resp_handles = CmdT::RespHandles::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
     if resp_header.tag == TpmSt::Sessions {
         let _param_size = u32::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
-- 
2.43.0


From 13b4a9a030aa0a2bf69b1e079e354897ebea478c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 11:23:05 +0000
Subject: [PATCH 11/11] fix: reject a response whose parameter size is wrong

The parameter size of a response with sessions was read and ignored, so a
response in which it disagrees with the parameters was accepted.
---
 crates/tpm2-client/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index 9b98aa9..5ccd7e1 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -189,10 +189,15 @@ pub fn run_command_with_handles<
     }
     let mut unmarsh = UnmarshalBuf::new(&resp_buffer[read..]);
     let resp_handles = CmdT::RespHandles::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
+    let mut param_size = None;
     if resp_header.tag == TpmSt::Sessions {
-        let _param_size = u32::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
+        param_size = Some(u32::try_unmarshal(&mut unmarsh).map_err(TssError::from)?);
     }
+    let before_params = unmarsh.len();
     let resp = CmdT::RespT::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
+    if param_size.is_some_and(|size| size as usize != before_params - unmarsh.len()) {
+        return Err(TssError::from(TssTcsError::TpmUnexpected).into());
+    }
     read_response_sessions(&cmd_sessions, &mut unmarsh)?;
 
     if !unmarsh.is_empty() {
-- 
2.43.0

