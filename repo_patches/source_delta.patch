From 9a13875bc992b5a4173a248269bc20171e139214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:16 +0000
Subject: [PATCH 01/12] fix: TPM2B try_marshal must reject a buffer too small
 for the payload

The guard compared the payload length with the larger of the backing array
and the remaining buffer, so encoding into a short buffer panicked instead
of returning UnexpectedEndOfBuffer.
---
 marshalable-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index acde6f9..938048a 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -278,7 +278,7 @@ fn derive_tpm2b_simple(
                 let used = self.size.try_marshal(buffer)?;
                 let (_, rest) = buffer.split_at_mut(used);
                 let buffer_marsh = self.get_size() as usize;
-                if buffer_marsh > (core::cmp::max(Self::MAX_BUFFER_SIZE, rest.len())) {
+                if buffer_marsh > (core::cmp::min(Self::MAX_BUFFER_SIZE, rest.len())) {
                     return Err(tpm2_rs_marshalable::Error::UnexpectedEndOfBuffer);
                 }
                 rest[..buffer_marsh].copy_from_slice(&self.#field_name[..buffer_marsh]);
-- 
2.43.0


From c9efe991c2fe8bd8e094a8a6f2003a8448a25f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 02/12] fix: length-tagged array encoding must reject a count
 above the array capacity

The derived try_marshal indexed the array with an unchecked public count
field and panicked; the decoder already reports ArrayLengthExceeded.
---
 marshalable-derive/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index 938048a..0a2cb96 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -412,6 +412,9 @@ fn get_named_field_marshal<'a>(
         let length_prim =
             get_primitive(&length, basic_field_types.get(length.get_ident().unwrap()))?;
         Ok(quote_spanned! {span =>
+            if self.#length_prim as usize > self.#name.len() {
+                return Err(tpm2_rs_marshalable::Error::ArrayLengthExceeded);
+            }
             for i in 0..self.#length_prim as usize {
                 written += self.#name[i].try_marshal(&mut buffer[written..])?;
             }
-- 
2.43.0


From f0f98f31d0116a2a2187734d82e7b271ef13b787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 03/12] fix: write_command_sessions must not panic when the
 size field does not fit

A command whose handles leave fewer than four bytes of the command buffer
made the slice past the authorization size out of range.
---
 crates/tpm2-client/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index 6ed70a5..56cae65 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -82,7 +82,8 @@ pub fn write_command_sessions<
     if sessions.is_empty() {
         return Ok(0);
     }
-    let mut auth_offset = size_of::<u32>();
+    // Reserve room for the size, which is filled in by `marshal_auth_size`.
+    let mut auth_offset = 0u32.try_marshal(buffer)?;
     let (s1, s2, s3) = sessions.decompose_ref();
     let Some(s1) = s1 else {
         return marshal_auth_size(auth_offset, buffer);
-- 
2.43.0


From 6a611c96c240cd474dddb43e4622806ee1997783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:39 +0000
Subject: [PATCH 04/12] fix: only parse the bytes of the response that were
 actually received

run_command_with_handles ignored the slice returned by Connection::transact:
a response declaring more bytes than were received was completed with the
zeroes of the receive buffer, and one declaring fewer bytes than a header
panicked.
---
 crates/tpm2-client/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index 56cae65..c518496 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -174,14 +174,17 @@ pub fn run_command_with_handles<
         .map_err(TssError::from)?;
 
     let mut resp_buffer = [0u8; RESP_BUFFER_SIZE];
-    tpm.transact(&cmd_buffer[..written], &mut resp_buffer)?;
+    let response = tpm.transact(&cmd_buffer[..written], &mut resp_buffer)?;
 
-    let (resp_header, read) = read_response_header(&resp_buffer)?;
+    let (resp_header, read) = read_response_header(response)?;
     let resp_size = resp_header.size as usize;
-    if resp_size > resp_buffer.len() {
+    if resp_size > response.len() {
         return Err(TssError::from(TssTcsError::OutOfMemory).into());
     }
-    let mut unmarsh = UnmarshalBuf::new(&resp_buffer[read..resp_size]);
+    let Some(response) = response.get(read..resp_size) else {
+        return Err(TssError::from(TssTcsError::TpmUnexpected).into());
+    };
+    let mut unmarsh = UnmarshalBuf::new(response);
     let resp_handles = CmdT::RespHandles::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
     if resp_header.tag == TpmSt::Sessions {
         let _param_size = u32::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
-- 
2.43.0


From ee79a377ee07341441a1f5baac71175252c1f272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:39 +0000
Subject: [PATCH 05/12] fix: decode handle and session format-1 response codes

ErrorType::from_mask tested the constant SESSION_MASK instead of the code,
so every handle error was reported as a session error, and the position of
a session error included the session flag.
---
 crates/tpm2/src/errors/tpm_rc/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/tpm2/src/errors/tpm_rc/mod.rs b/crates/tpm2/src/errors/tpm_rc/mod.rs
index 552e827..ecd4eda 100644
--- a/crates/tpm2/src/errors/tpm_rc/mod.rs
+++ b/crates/tpm2/src/errors/tpm_rc/mod.rs
@@ -151,7 +151,7 @@ impl ErrorType {
         }
         if val & Self::PARAMETER_MASK != 0 {
             Some(Self::Parameter)
-        } else if Self::SESSION_MASK != 0 {
+        } else if val & Self::SESSION_MASK != 0 {
             Some(Self::Session)
         } else {
             Some(Self::Handle)
@@ -203,7 +203,14 @@ impl ErrorPosition {
         if val & 0x80 == 0 {
             return None;
         }
-        match val & 0xF00 {
+        // Only parameter errors use all four bits; for handle and session errors the top bit is
+        // what tells one from the other.
+        let mask = if val & ErrorType::PARAMETER_MASK != 0 {
+            0xF00
+        } else {
+            0x700
+        };
+        match val & mask {
             0x100 => Some(Self::Pos1),
             0x200 => Some(Self::Pos2),
             0x300 => Some(Self::Pos3),
-- 
2.43.0


From 1b042fe1839020038e20f3fae0819eb29aad6fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:39 +0000
Subject: [PATCH 06/12] fix: TPM_RC_SEQUENCE is RC_VER1 + 0x003

---
 crates/tpm2/src/errors/tpm_rc/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tpm2/src/errors/tpm_rc/mod.rs b/crates/tpm2/src/errors/tpm_rc/mod.rs
index ecd4eda..2393e72 100644
--- a/crates/tpm2/src/errors/tpm_rc/mod.rs
+++ b/crates/tpm2/src/errors/tpm_rc/mod.rs
@@ -61,7 +61,7 @@ impl TpmRcError {
     /// Commands not being accepted because of a TPM failure (`TPM_RC_FAILURE`).
     pub const Failure: Self = Self::new(0x101);
     /// Improper use of a sequence handle (`TPM_RC_SEQUENCE`).
-    pub const Sequence: Self = Self::new(0x102);
+    pub const Sequence: Self = Self::new(0x103);
 
     /// Command commandSize value is inconsistent with contents of the command buffer; either the
     /// size is not the same as the octets loaded by the hardware interface layer or the value is
-- 
2.43.0


From 8b45fe6f8a2d3422d8215c5aa1ddad9a115169d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:20 +0000
Subject: [PATCH 07/12] fix: error responses must carry a complete header

fill_error only wrote the response code and reported ten bytes, leaving
whatever the buffer held (the request itself for in-place buffers) as tag
and size.
---
 crates/tpm2-impl/src/tpmctx.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/tpm2-impl/src/tpmctx.rs b/crates/tpm2-impl/src/tpmctx.rs
index 539915c..4364200 100644
--- a/crates/tpm2-impl/src/tpmctx.rs
+++ b/crates/tpm2-impl/src/tpmctx.rs
@@ -48,11 +48,16 @@ impl<Deps: TpmContextDeps> TpmContext<Deps> {
     }
 
     fn fill_error(&mut self, response: &mut Deps::Response, error: TpmRcError) -> usize {
-        // TODO fill out more of the TPM header for an error
-        if response.write(6, &error.get().to_be_bytes()).is_err() {
+        const ERROR_RESPONSE_SIZE: usize = 10;
+        let session_tag = 0x8001_u16;
+        let mut header = [0; ERROR_RESPONSE_SIZE];
+        header[..2].copy_from_slice(&session_tag.to_be_bytes());
+        header[2..6].copy_from_slice(&(ERROR_RESPONSE_SIZE as u32).to_be_bytes());
+        header[6..].copy_from_slice(&error.get().to_be_bytes());
+        if response.write(0, &header).is_err() {
             return 0;
         }
-        10
+        ERROR_RESPONSE_SIZE
     }
 
     fn execute_command(&mut self, buffers: impl TpmBuffers) -> Result<usize, TpmRcError> {
-- 
2.43.0


From bed8f6eef9b13fff7a8fa3aef0664144b1fa3603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:22 +0000
Subject: [PATCH 08/12] fix: buffer accesses near usize::MAX must report out of
 bounds, not overflow

---
 crates/tpm2-impl/src/buffers/inout.rs   |  3 ++-
 crates/tpm2-impl/src/platform/buffer.rs | 13 +++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/tpm2-impl/src/buffers/inout.rs b/crates/tpm2-impl/src/buffers/inout.rs
index 11e1123..b5815e4 100644
--- a/crates/tpm2-impl/src/buffers/inout.rs
+++ b/crates/tpm2-impl/src/buffers/inout.rs
@@ -33,7 +33,8 @@ impl<W: TpmWriteBuffer + ?Sized> TpmReadBuffer for InOutBuffer<'_, W> {
 
     fn read_into(&self, offset: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
         // Limit the read view to only the request portion of the in-place buffer
-        if self.len < offset + out.len() {
+        let end = offset.checked_add(out.len()).ok_or(ReadOutOfBounds)?;
+        if self.len < end {
             return Err(ReadOutOfBounds);
         }
         self.buffer.read_into(offset, out)
diff --git a/crates/tpm2-impl/src/platform/buffer.rs b/crates/tpm2-impl/src/platform/buffer.rs
index 5f57ed7..bc13f6d 100644
--- a/crates/tpm2-impl/src/platform/buffer.rs
+++ b/crates/tpm2-impl/src/platform/buffer.rs
@@ -62,9 +62,8 @@ impl TpmReadBuffer for [u8] {
         self.len()
     }
     fn read_into(&self, offset: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
-        let read_from = self
-            .get(offset..offset + out.len())
-            .ok_or(ReadOutOfBounds)?;
+        let end = offset.checked_add(out.len()).ok_or(ReadOutOfBounds)?;
+        let read_from = self.get(offset..end).ok_or(ReadOutOfBounds)?;
         out.copy_from_slice(read_from);
         Ok(())
     }
@@ -72,9 +71,10 @@ impl TpmReadBuffer for [u8] {
 
 impl TpmWriteBuffer for [u8] {
     fn write(&mut self, write_offset: usize, data: &[u8]) -> Result<(), WriteOutOfBounds> {
-        let write_to = self
-            .get_mut(write_offset..write_offset + data.len())
+        let end = write_offset
+            .checked_add(data.len())
             .ok_or(WriteOutOfBounds)?;
+        let write_to = self.get_mut(write_offset..end).ok_or(WriteOutOfBounds)?;
         write_to.copy_from_slice(data);
 
         Ok(())
@@ -85,7 +85,8 @@ impl TpmWriteBuffer for [u8] {
         size: usize,
         callback: impl FnOnce(&mut [u8]),
     ) -> Result<(), WriteOutOfBounds> {
-        let Some(buffer) = self.get_mut(write_offset..write_offset + size) else {
+        let end = write_offset.checked_add(size).ok_or(WriteOutOfBounds)?;
+        let Some(buffer) = self.get_mut(write_offset..end) else {
             return Err(WriteOutOfBounds);
         };
         callback(buffer);
-- 
2.43.0


From f841c7a911a8724333bcf20dd29e82211b6d5697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:47 +0000
Subject: [PATCH 09/12] fix: a DRBG failure must be answered with
 TPM_RC_FAILURE, not a panic

---
 crates/tpm2-impl/src/handler/random.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/tpm2-impl/src/handler/random.rs b/crates/tpm2-impl/src/handler/random.rs
index 02428e6..1cf2c3a 100644
--- a/crates/tpm2-impl/src/handler/random.rs
+++ b/crates/tpm2-impl/src/handler/random.rs
@@ -20,11 +20,6 @@ impl<Deps: TpmContextDeps> CommandHandler<Deps> {
         self.crypto.drbg.fill_bytes(&[], buffer).map_err(Into::into)
     }
 
-    fn get_random_or_faiure_mode(&mut self, buffer: &mut [u8]) {
-        if self.try_get_random(buffer).is_err() {
-            todo!() // goto failure mode
-        }
-    }
     /// Handles the [TpmCc::GetRandom] (`0x17B`) command.
     pub fn get_random(
         &mut self,
@@ -34,11 +29,13 @@ impl<Deps: TpmContextDeps> CommandHandler<Deps> {
         let requested_bytes = request.read_be_u16().ok_or(TpmRcError::CommandSize)? as usize;
 
         let mut response = request.into_response();
+        let mut result = Ok(());
         response
             .write_callback(requested_bytes, |buffer| {
-                self.get_random_or_faiure_mode(buffer)
+                result = self.try_get_random(buffer);
             })
             .map_err(|_| TpmRcError::Memory)?;
-        Ok(())
+        // TODO goto failure mode
+        result.map_err(|_| TpmRcError::Failure)
     }
 }
-- 
2.43.0


From b781ca776edb920803e0cf392737de11aae46467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:47 +0000
Subject: [PATCH 10/12] fix: hcrtm_sequence must not truncate the announced
 data length

---
 crates/tpm2-client/src/connection/tcp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index 7a7f9b7..37ba4e7 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -96,6 +96,11 @@ impl TcpConnection {
     /// Returns an error if the communication with the TPM fails or if the
     /// response terminator is invalid.
     pub fn hcrtm_sequence(&mut self, data: &[u8]) -> Result<()> {
+        let data_size: u32 = data
+            .len()
+            .try_into()
+            .map_err(|e| Error::new(ErrorKind::InvalidInput, e))?;
+
         // Send TPM_Hash_Start
         let cmd_code = U32::new(SimulatorTpmCommandCode::SignalHashStart as u32);
         self.tpm_tcp.write_all(cmd_code.as_bytes())?;
@@ -104,7 +109,7 @@ impl TcpConnection {
         // Send TPM_Hash_Data
         let cmd_code = U32::new(SimulatorTpmCommandCode::SignalHashData as u32);
         let cmd_hdr = &SignalHashDataRequestHeader {
-            length: U32::new(data.len() as u32),
+            length: U32::new(data_size),
         };
         let bytes_written = self.tpm_tcp.write_vectored(&[
             IoSlice::new(cmd_code.as_bytes()),
-- 
2.43.0


From 68159ce1450314c6590e2ef9f2fd9ffd94971ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 11/12] fix: stop the simulator process when connecting to it
 fails

TcpSimulator::new left the spawned process running, with nothing left to
stop it, whenever the port files or the connection failed.
---
 crates/tpm2-client/src/connection/tcp.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index 37ba4e7..1b005b4 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -646,7 +646,7 @@ impl TcpSimulator {
             command.args(args);
         }
 
-        let child = command
+        let mut child = command
             // TODO: Capture stdout/stderr to display when requested.
             .stdout(Stdio::null())
             .stderr(Stdio::null())
@@ -662,16 +662,26 @@ impl TcpSimulator {
                 )
             })?;
 
+        match Self::connect_to_spawned(cwd.as_ref(), ip) {
+            Ok(conn) => Ok(TcpSimulator { child, conn }),
+            Err(err) => {
+                // Nobody else can stop the simulator once `child` is gone.
+                let _ = child.kill();
+                let _ = child.wait();
+                Err(err)
+            }
+        }
+    }
+
+    /// Connects to the simulator that was started in `cwd`.
+    fn connect_to_spawned(cwd: &Path, ip: &str) -> Result<TcpConnection> {
         // The TCG TPM simulator writes the ports it uses to two files:
         //   - TPM port: "command.port"
         //   - Platform port: "platform.port"
-        let tpm_port = Self::read_port_from_file_with_retries(&cwd.as_ref().join("command.port"))?;
-        let plat_port =
-            Self::read_port_from_file_with_retries(&cwd.as_ref().join("platform.port"))?;
-
-        let conn = TcpConnection::connect_with_retries(ip, Some(tpm_port), Some(plat_port))?;
+        let tpm_port = Self::read_port_from_file_with_retries(&cwd.join("command.port"))?;
+        let plat_port = Self::read_port_from_file_with_retries(&cwd.join("platform.port"))?;
 
-        Ok(TcpSimulator { child, conn })
+        TcpConnection::connect_with_retries(ip, Some(tpm_port), Some(plat_port))
     }
 
     /// Reads a port from a file with retires.
-- 
2.43.0


From 3439b808cd7166df7e34e262dd230a0a7c664ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:39 +0000
Subject: [PATCH 12/12] fix: build tpm2-client without the connection-tcp
 feature

---
 crates/tpm2-client/src/connection/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tpm2-client/src/connection/mod.rs b/crates/tpm2-client/src/connection/mod.rs
index 5839d2a..8e5e214 100644
--- a/crates/tpm2-client/src/connection/mod.rs
+++ b/crates/tpm2-client/src/connection/mod.rs
@@ -5,6 +5,7 @@
 use core::error::Error;
 
 mod tcp;
+#[cfg(feature = "connection-tcp")]
 pub use tcp::*;
 
 /// Trait for communicating with a TPM.
-- 
2.43.0

