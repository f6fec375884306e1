From b33a985ecfd15f5bce4ee5dff9e329ccecc8c137 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 01/16] fix: report an event whose total length is smaller than
 its header length as corrupted instead of panicking

---
 src/events/event.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 2ad6a44..1950274 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -138,7 +138,9 @@ impl Event {
     pub async fn from_async_read<R: AsyncRead + Unpin>(reader: &mut R) -> Result<Self> {
         let total_length = reader.read_u64().await?;
         let header_length = reader.read_u16().await?;
-        let data_length = total_length - header_length as u64;
+        let data_length = total_length
+            .checked_sub(header_length as u64)
+            .ok_or(Error::CorruptedEvent)?;
         tracing::trace!(total_length, header_length, data_length);
 
         let mut header_bytes = vec![0u8; header_length as usize];
-- 
2.43.0


From daa95751403bdca576c3cbe98b10cba7bfd0f31c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 02/16] fix: do not allocate the payload length a peer claims
 before the payload arrived

---
 src/events/event.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 1950274..ec357fc 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -6,7 +6,7 @@ use bytes::{BufMut, Bytes, BytesMut};
 use num_enum::{IntoPrimitive, TryFromPrimitive};
 use std::convert::TryFrom;
 use std::fmt::Debug;
-use std::io::{Cursor, Read};
+use std::io::{self, Cursor, Read};
 use tokio::io::{AsyncRead, AsyncReadExt};
 
 pub const FORMAT_VERSION: [u8; 3] = [0, 9, 0];
@@ -148,8 +148,12 @@ impl Event {
         // additional header fields can be added a the end because when reading they will just be ignored
         let header: EventHeader = EventHeader::from_read(&mut Cursor::new(header_bytes))?;
 
-        let mut buf = vec![0u8; data_length as usize];
-        reader.read_exact(&mut buf).await?;
+        // the length is chosen by the peer, so only allocate for data that really arrives
+        let mut buf = Vec::new();
+        reader.take(data_length).read_to_end(&mut buf).await?;
+        if (buf.len() as u64) < data_length {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
         let event = Event {
             header,
             data: Bytes::from(buf),
-- 
2.43.0


From 601e9740d3a057c748b7a93e798cd1ca3bcd86ac Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 03/16] fix: refuse to encode an event whose header does not
 fit its length field

---
 src/events/event.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/events/event.rs b/src/events/event.rs
index ec357fc..eb0eed7 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -166,6 +166,13 @@ impl Event {
     #[tracing::instrument(level = "trace", skip(self))]
     pub fn into_bytes(self) -> Result<Bytes> {
         let header_bytes = self.header.into_bytes();
+        if header_bytes.len() > u16::MAX as usize {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "the event name and namespace are too long to be encoded",
+            )
+            .into());
+        }
         let header_length = header_bytes.len() as u16;
         let data_length = self.data.len();
         let total_length = header_length as u64 + data_length as u64;
-- 
2.43.0


From 7a581353030d47fb313205c35d5ac3ae69fd2ffb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 04/16] fix: create end events with the end event type

---
 src/events/event.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index eb0eed7..c51624a 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -65,7 +65,7 @@ impl Event {
     #[tracing::instrument(level = "trace", skip(data))]
     #[inline]
     pub fn end(namespace: Option<String>, name: String, data: Bytes, ref_id: u64) -> Self {
-        Self::new(namespace, name, data, Some(ref_id), EventType::Response)
+        Self::new(namespace, name, data, Some(ref_id), EventType::End)
     }
 
     /// Creates a new event
-- 
2.43.0


From 4c13f1520642b06b700c9e1f241748b18bbeab3d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 05/16] fix: do not allocate the lengths a tandem or error
 payload claims before the data was read

---
 src/events/error_event.rs |  5 ++---
 src/events/payload.rs     | 21 ++++++++++++++++-----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/events/error_event.rs b/src/events/error_event.rs
index 90c78e3..897aedb 100644
--- a/src/events/error_event.rs
+++ b/src/events/error_event.rs
@@ -1,6 +1,6 @@
 use crate::context::Context;
 use crate::error::Result;
-use crate::payload::{FromPayload, IntoPayload};
+use crate::payload::{read_bytes, FromPayload, IntoPayload};
 use crate::prelude::{IPCError, IPCResult};
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
@@ -44,8 +44,7 @@ impl FromPayload for ErrorEventData {
     fn from_payload<R: Read>(mut reader: R) -> Result<Self> {
         let code = reader.read_u16::<BigEndian>()?;
         let message_len = reader.read_u32::<BigEndian>()?;
-        let mut message_buf = vec![0u8; message_len as usize];
-        reader.read_exact(&mut message_buf)?;
+        let message_buf = read_bytes(&mut reader, message_len as u64)?;
         let message = String::from_utf8(message_buf).map_err(|_| IPCError::CorruptedEvent)?;
 
         Ok(ErrorEventData { code, message })
diff --git a/src/events/payload.rs b/src/events/payload.rs
index 0d70d7f..001d446 100644
--- a/src/events/payload.rs
+++ b/src/events/payload.rs
@@ -1,7 +1,7 @@
 use crate::prelude::IPCResult;
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
-use std::io::Read;
+use std::io::{self, Read};
 
 #[cfg(feature = "serialize")]
 pub use super::payload_serializer::*;
@@ -23,6 +23,19 @@ pub trait FromPayload: Sized {
     fn from_payload<R: Read>(reader: R) -> IPCResult<Self>;
 }
 
+/// Reads exactly the given number of bytes.
+/// The length is chosen by the peer, so memory is only allocated for data that really is there.
+pub(crate) fn read_bytes<R: Read>(reader: &mut R, length: u64) -> io::Result<Vec<u8>> {
+    let mut bytes = Vec::new();
+    reader.take(length).read_to_end(&mut bytes)?;
+
+    if (bytes.len() as u64) < length {
+        Err(io::Error::from(io::ErrorKind::UnexpectedEof))
+    } else {
+        Ok(bytes)
+    }
+}
+
 /// A payload wrapper type for sending bytes directly without
 /// serializing them
 #[derive(Clone)]
@@ -115,12 +128,10 @@ impl<P1: IntoPayload, P2: IntoPayload> IntoPayload for TandemPayload<P1, P2> {
 impl<P1: FromPayload, P2: FromPayload> FromPayload for TandemPayload<P1, P2> {
     fn from_payload<R: Read>(mut reader: R) -> IPCResult<Self> {
         let p1_length = reader.read_u64::<BigEndian>()?;
-        let mut load1_bytes = vec![0u8; p1_length as usize];
-        reader.read_exact(&mut load1_bytes)?;
+        let load1_bytes = read_bytes(&mut reader, p1_length)?;
 
         let p2_length = reader.read_u64::<BigEndian>()?;
-        let mut load2_bytes = vec![0u8; p2_length as usize];
-        reader.read_exact(&mut load2_bytes)?;
+        let load2_bytes = read_bytes(&mut reader, p2_length)?;
 
         Ok(Self {
             load1: P1::from_payload(load1_bytes.as_slice())?,
-- 
2.43.0


From 362c32764fb786e84f2a0922da21215c1718d3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 06/16] fix: refuse to encode an error message that does not
 fit its length field

---
 src/events/error_event.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/events/error_event.rs b/src/events/error_event.rs
index 897aedb..3049747 100644
--- a/src/events/error_event.rs
+++ b/src/events/error_event.rs
@@ -4,9 +4,10 @@ use crate::payload::{read_bytes, FromPayload, IntoPayload};
 use crate::prelude::{IPCError, IPCResult};
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
+use std::convert::TryFrom;
 use std::error::Error;
 use std::fmt::{Display, Formatter};
-use std::io::Read;
+use std::io::{self, Read};
 
 pub static ERROR_EVENT_NAME: &str = "error";
 pub static END_EVENT_NAME: &str = "end";
@@ -33,7 +34,10 @@ impl IntoPayload for ErrorEventData {
     fn into_payload(self, _: &Context) -> IPCResult<Bytes> {
         let mut buf = BytesMut::new();
         buf.put_u16(self.code);
-        buf.put_u32(self.message.len() as u32);
+        let message_len = u32::try_from(self.message.len()).map_err(|_| {
+            io::Error::new(io::ErrorKind::InvalidInput, "the error message is too long")
+        })?;
+        buf.put_u32(message_len);
         buf.put(Bytes::from(self.message));
 
         Ok(buf.freeze())
-- 
2.43.0


From 0ae7e9d43688b8a8ea039fd86e2f1af3ef998e0b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 07/16] fix: route a reply whose listener is gone like any
 other event

---
 src/ipc/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index b663a64..36d82df 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -21,7 +21,7 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
     mut read_half: S::OwnedSplitReadHalf,
     ctx: Context,
 ) {
-    while let Ok(event) = Event::from_async_read(&mut read_half).await {
+    while let Ok(mut event) = Event::from_async_read(&mut read_half).await {
         tracing::trace!(
             "event.name = {:?}, event.namespace = {:?}, event.reference_id = {:?}",
             event.name(),
@@ -34,10 +34,11 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
             // get the listener for replies
             if let Some(sender) = ctx.get_reply_sender(ref_id).await {
                 // try sending the event to the listener for replies
-                if let Err(event) = sender.send(event).await {
-                    handle_event(Context::clone(&ctx), Arc::clone(&handler), event.0);
+                match sender.send(event).await {
+                    Ok(()) => continue,
+                    // the listener is gone so this is an ordinary event
+                    Err(e) => event = e.0,
                 }
-                continue;
             }
             tracing::trace!("No response listener found for event. Passing to regular listener.");
         }
-- 
2.43.0


From 69a7805097124de7e49b803d9fb0a0757a78e45d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 08/16] fix: do not pass events of an unknown namespace to the
 global handlers

---
 src/ipc/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index 36d82df..dbd2152 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -48,9 +48,13 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
             continue;
         }
 
-        if let Some(namespace) = event.namespace().clone().and_then(|n| namespaces.get(&n)) {
+        if let Some(namespace) = event.namespace().clone() {
             tracing::trace!("Passing event to namespace listener");
-            let handler = Arc::clone(&namespace.handler);
+            // events of a namespace that is not registered have no handlers
+            let handler = namespaces
+                .get(&namespace)
+                .map(|n| Arc::clone(&n.handler))
+                .unwrap_or_default();
             handle_event(Context::clone(&ctx), handler, event);
         } else {
             tracing::trace!("Passing event to global listener");
-- 
2.43.0


From 5645b2312bd4537fec1eb499ab3c0c803fbd4d74 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 09/16] fix: do not remove an own reply listener that shares
 its id with a handled event of the peer

---
 src/ipc/mod.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index dbd2152..4e1285b 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -67,7 +67,6 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
 /// Handles a single event in a different tokio context
 fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {
     ctx.set_ref_id(Some(event.id()));
-    let event_id = event.id();
 
     tokio::spawn(async move {
         match handler.handle_event(&ctx, event).await {
@@ -80,7 +79,6 @@ fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {
                 {
                     tracing::error!("Error occurred when sending error response: {:?}", e);
                 }
-                ctx.reply_listeners.remove(&event_id);
             }
             Err(e) => {
                 // emit an error event
-- 
2.43.0


From 517fb692cd183b9b03f787036b342e8ab52e471d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 10/16] fix: remove the reply listener when awaiting a reply
 times out or sending fails

---
 .../emit_metadata_with_response.rs            | 22 ++++++++++---------
 .../emit_metadata_with_response_stream.rs     |  5 ++++-
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/ipc/stream_emitter/emit_metadata_with_response.rs b/src/ipc/stream_emitter/emit_metadata_with_response.rs
index acd3b04..6741874 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response.rs
@@ -54,18 +54,20 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
 
             self.fut = Some(Box::pin(async move {
                 let mut tx = ctx.register_reply_listener(event_id).await?;
-                emit_metadata.await?;
-
-                let reply = tokio::select! {
-                    tx_result = tx.recv() => {
-                        tx_result.ok_or(Error::SendError)
-                    }
-                    _ = tokio::time::sleep(timeout) => {
-                        Err(Error::Timeout)
-                    }
-                }?;
+                let reply = match emit_metadata.await {
+                    Ok(_) => tokio::select! {
+                        tx_result = tx.recv() => {
+                            tx_result.ok_or(Error::SendError)
+                        }
+                        _ = tokio::time::sleep(timeout) => {
+                            Err(Error::Timeout)
+                        }
+                    },
+                    Err(e) => Err(e),
+                };
 
                 remove_reply_listener(&ctx, event_id).await;
+                let reply = reply?;
 
                 if reply.event_type() == EventType::Error {
                     Err(reply.payload::<ErrorEventData>()?.into())
diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index d90d40b..44c36f1 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -85,7 +85,10 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
 
             self.fut = Some(Box::pin(async move {
                 let tx = ctx.register_reply_listener(event_id).await?;
-                emit_metadata.await?;
+                if let Err(e) = emit_metadata.await {
+                    remove_reply_listener(&ctx, event_id).await;
+                    return Err(e);
+                }
 
                 Ok(ResponseStream::new(event_id, timeout, ctx, tx))
             }))
-- 
2.43.0


From e8fd63575af62c6cccb0e49c94fd6d12177839ca Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 11/16] fix: end a reply stream and remove its listener after a
 timeout instead of panicking on the next poll

---
 .../emit_metadata_with_response_stream.rs     | 41 ++++++++++---------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index 44c36f1..75d4b2a 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -116,41 +116,44 @@ impl Stream for ResponseStream {
             let event_id = self.event_id;
 
             self.fut = Some(Box::pin(async move {
-                let event: Option<Event> = tokio::select! {
+                let event: Result<Option<Event>> = tokio::select! {
                     tx_result = receiver.recv() => {
                         Ok(tx_result)
                     }
                     _ = tokio::time::sleep(timeout) => {
                         Err(Error::Timeout)
                     }
-                }?;
+                };
 
-                if event.is_none() || event.as_ref().unwrap().event_type() == EventType::End {
-                    remove_reply_listener(&ctx, event_id).await;
+                match &event {
+                    Ok(Some(event)) if event.event_type() != EventType::End => {}
+                    _ => remove_reply_listener(&ctx, event_id).await,
                 }
 
-                Ok((event, ctx, receiver))
+                Ok((event?, ctx, receiver))
             }));
         }
 
         match self.fut.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready(r) => match r {
-                Ok((event, ctx, tx)) => {
-                    self.fut = None;
-
-                    if let Some(event) = event {
-                        if event.event_type() != EventType::End {
-                            self.ctx = Some(ctx);
-                            self.receiver = Some(tx);
+            Poll::Ready(r) => {
+                self.fut = None;
+
+                match r {
+                    Ok((event, ctx, tx)) => {
+                        if let Some(event) = event {
+                            if event.event_type() != EventType::End {
+                                self.ctx = Some(ctx);
+                                self.receiver = Some(tx);
+                            }
+
+                            Poll::Ready(Some(Ok(event)))
+                        } else {
+                            Poll::Ready(None)
                         }
-
-                        Poll::Ready(Some(Ok(event)))
-                    } else {
-                        Poll::Ready(None)
                     }
+                    Err(e) => Poll::Ready(Some(Err(e))),
                 }
-                Err(e) => Poll::Ready(Some(Err(e))),
-            },
+            }
             Poll::Pending => Poll::Pending,
         }
     }
-- 
2.43.0


From 19d77e0a38dd931c02292913561015f4caefb50b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 12/16] fix: keep accepting connections on an encrypted
 listener after a failed key exchange

---
 src/protocol/encrypted/protocol_impl.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/protocol/encrypted/protocol_impl.rs b/src/protocol/encrypted/protocol_impl.rs
index 4c90c98..8aea47d 100644
--- a/src/protocol/encrypted/protocol_impl.rs
+++ b/src/protocol/encrypted/protocol_impl.rs
@@ -22,10 +22,14 @@ impl<T: AsyncStreamProtocolListener> AsyncStreamProtocolListener for EncryptedLi
     }
 
     async fn protocol_accept(&self) -> IPCResult<(Self::Stream, Self::RemoteAddressType)> {
-        let (inner_stream, remote_addr) = self.inner.protocol_accept().await?;
-        let stream = Self::Stream::from_server_key_exchange(inner_stream, &self.keys).await?;
-
-        Ok((stream, remote_addr))
+        loop {
+            let (inner_stream, remote_addr) = self.inner.protocol_accept().await?;
+            match Self::Stream::from_server_key_exchange(inner_stream, &self.keys).await {
+                Ok(stream) => return Ok((stream, remote_addr)),
+                // a peer that fails the key exchange must not stop the listener
+                Err(e) => tracing::warn!("Key exchange with {:?} failed: {:?}", remote_addr, e),
+            }
+        }
     }
 }
 
-- 
2.43.0


From 5c808679fff4c9b7aaedbbf089f77ce3b6202188 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 13/16] fix: hand out decrypted data as soon as there is some
 and keep an encrypted reader usable after an error

---
 src/protocol/encrypted/io_impl.rs | 40 +++++++++++--------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index 9182e21..34c20c1 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -51,47 +51,35 @@ impl<T: 'static + AsyncRead + Send + Sync + Unpin> AsyncRead for EncryptedReadSt
         cx: &mut Context<'_>,
         buf: &mut ReadBuf<'_>,
     ) -> Poll<std::io::Result<()>> {
-        if self.fut.is_none() {
-            if self.remaining.len() > 0 {
+        loop {
+            if self.remaining.len() > 0 || buf.remaining() == 0 {
                 let max_copy = min(buf.remaining(), self.remaining.len());
                 let bytes = self.remaining.copy_to_bytes(max_copy);
                 buf.put_slice(&bytes);
                 tracing::trace!("{} bytes read from buffer", bytes.len());
+
+                return Poll::Ready(Ok(()));
             }
 
-            if buf.remaining() > 0 {
+            if self.fut.is_none() {
                 tracing::trace!("{} bytes remaining to read", buf.remaining());
                 let reader = self.inner.take().unwrap();
                 let cipher = self.cipher.take().unwrap();
 
                 self.fut = Some(Box::pin(async move { read_bytes(reader, cipher).await }));
-            } else {
-                return Poll::Ready(Ok(()));
             }
-        }
-        match self.fut.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready((result, reader, cipher)) => {
-                self.inner = Some(reader);
-                self.cipher = Some(cipher);
-                match result {
-                    Ok(bytes) => {
-                        self.fut = None;
-                        self.remaining.put(bytes);
-                        let max_copy = min(self.remaining.len(), buf.remaining());
-                        let bytes = self.remaining.copy_to_bytes(max_copy);
-                        buf.put_slice(&bytes);
-                        tracing::trace!("{} bytes read from buffer", bytes.len());
-
-                        if buf.remaining() == 0 {
-                            Poll::Ready(Ok(()))
-                        } else {
-                            Poll::Pending
-                        }
+            match self.fut.as_mut().unwrap().as_mut().poll(cx) {
+                Poll::Ready((result, reader, cipher)) => {
+                    self.inner = Some(reader);
+                    self.cipher = Some(cipher);
+                    self.fut = None;
+                    match result {
+                        Ok(bytes) => self.remaining.put(bytes),
+                        Err(e) => return Poll::Ready(Err(e)),
                     }
-                    Err(e) => Poll::Ready(Err(e)),
                 }
+                Poll::Pending => return Poll::Pending,
             }
-            Poll::Pending => Poll::Pending,
         }
     }
 }
-- 
2.43.0


From 6c10fce42f38e597c2e32fbdd5ba95eac1ba8b4d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 14/16] fix: complete the shutdown of an encrypted stream and
 keep it usable after an interrupted write or flush

---
 src/protocol/encrypted/io_impl.rs | 105 +++++++++++++++---------------
 src/protocol/encrypted/mod.rs     |   2 +-
 2 files changed, 53 insertions(+), 54 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index 34c20c1..f1b1820 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -8,7 +8,7 @@ use std::cmp::min;
 use std::io;
 use std::io::Error;
 use std::pin::Pin;
-use std::task::{Context, Poll};
+use std::task::{ready, Context, Poll};
 use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt, ReadBuf};
 
 const WRITE_BUF_SIZE: usize = 1024;
@@ -92,41 +92,32 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWrit
         cx: &mut Context<'_>,
         buf: &[u8],
     ) -> Poll<Result<usize, Error>> {
-        let written_length = buf.len();
+        ready!(self.poll_unfinished(cx))?;
+        self.buffer.put_slice(buf);
 
-        if self.fut_write.is_none() {
-            self.buffer.put(Bytes::from(buf.to_vec()));
+        if self.buffer.len() >= WRITE_BUF_SIZE {
+            tracing::trace!("buffer has reached sending size: {}", self.buffer.len());
+            let buffer_len = self.buffer.len();
+            let max_copy = min(u32::MAX as usize, buffer_len);
+            let plaintext = self.buffer.copy_to_bytes(max_copy);
+            let writer = self.inner.take().unwrap();
+            let cipher = self.cipher.take().unwrap();
 
-            if self.buffer.len() >= WRITE_BUF_SIZE {
-                tracing::trace!("buffer has reached sending size: {}", self.buffer.len());
-                let buffer_len = self.buffer.len();
-                let max_copy = min(u32::MAX as usize, buffer_len);
-                let plaintext = self.buffer.copy_to_bytes(max_copy);
-                let writer = self.inner.take().unwrap();
-                let cipher = self.cipher.take().unwrap();
+            self.fut_write = Some(Box::pin(write_bytes(plaintext, writer, cipher)));
 
-                self.fut_write = Some(Box::pin(write_bytes(plaintext, writer, cipher)))
-            } else {
-                return Poll::Ready(Ok(written_length));
+            // the bytes are accepted, so a packet that is still pending is finished by the next call
+            if let Poll::Ready(Err(e)) = self.poll_unfinished(cx) {
+                return Poll::Ready(Err(e));
             }
         }
 
-        match self.fut_write.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready((result, writer, cipher)) => {
-                self.inner = Some(writer);
-                self.cipher = Some(cipher);
-                self.fut_write = None;
-
-                Poll::Ready(result.map(|_| written_length))
-            }
-            Poll::Pending => Poll::Pending,
-        }
+        Poll::Ready(Ok(buf.len()))
     }
 
     fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
-        let buffer_len = self.buffer.len();
-
         if self.fut_flush.is_none() {
+            ready!(self.poll_unfinished(cx))?;
+            let buffer_len = self.buffer.len();
             let max_copy = min(u32::MAX as usize, buffer_len);
             let plaintext = self.buffer.copy_to_bytes(max_copy);
             let writer = self.inner.take().unwrap();
@@ -149,39 +140,47 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWrit
                 }
             }))
         }
-        match self.fut_flush.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready((result, writer, cipher)) => {
-                self.inner = Some(writer);
-                self.cipher = Some(cipher);
-                self.fut_flush = None;
 
-                Poll::Ready(result)
-            }
-            Poll::Pending => Poll::Pending,
-        }
+        self.poll_unfinished(cx)
     }
 
     fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
         if self.fut_shutdown.is_none() {
-            match self.as_mut().poll_flush(cx) {
-                Poll::Ready(result) => match result {
-                    Ok(_) => {
-                        let mut writer = self.inner.take().unwrap();
-                        self.fut_shutdown = Some(Box::pin(async move { writer.shutdown().await }));
-                        Poll::Pending
-                    }
-                    Err(e) => Poll::Ready(Err(e)),
-                },
-                Poll::Pending => Poll::Pending,
-            }
+            ready!(self.as_mut().poll_flush(cx))?;
+            let mut writer = self.inner.take().unwrap();
+            let cipher = self.cipher.take().unwrap();
+
+            self.fut_shutdown = Some(Box::pin(async move {
+                let result = writer.shutdown().await;
+                (result, writer, cipher)
+            }));
+        }
+
+        self.poll_unfinished(cx)
+    }
+}
+
+impl<T: 'static + AsyncWrite + Unpin + Send + Sync> EncryptedWriteStream<T> {
+    /// Drives a write, flush or shutdown that has been started to its end.
+    /// There is at most one of them because each of them owns the inner writer.
+    fn poll_unfinished(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
+        let fut = self
+            .fut_write
+            .as_mut()
+            .or(self.fut_flush.as_mut())
+            .or(self.fut_shutdown.as_mut());
+
+        if let Some(fut) = fut {
+            let (result, writer, cipher) = ready!(fut.as_mut().poll(cx));
+            self.inner = Some(writer);
+            self.cipher = Some(cipher);
+            self.fut_write = None;
+            self.fut_flush = None;
+            self.fut_shutdown = None;
+
+            Poll::Ready(result)
         } else {
-            match self.fut_shutdown.as_mut().unwrap().as_mut().poll(cx) {
-                Poll::Ready(result) => {
-                    self.fut_shutdown = None;
-                    Poll::Ready(result)
-                }
-                Poll::Pending => Poll::Pending,
-            }
+            Poll::Ready(Ok(()))
         }
     }
 }
diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index 62133f0..5c111e1 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -114,7 +114,7 @@ pub struct EncryptedWriteStream<T: 'static + AsyncWrite + Unpin + Send + Sync> {
     buffer: BytesMut,
     fut_write: OptionalFuture<(io::Result<()>, T, CipherBox)>,
     fut_flush: OptionalFuture<(io::Result<()>, T, CipherBox)>,
-    fut_shutdown: OptionalFuture<io::Result<()>>,
+    fut_shutdown: OptionalFuture<(io::Result<()>, T, CipherBox)>,
 }
 
 impl<T: 'static + AsyncWrite + Unpin + Send + Sync> EncryptedWriteStream<T> {
-- 
2.43.0


From 08d72e17a5c10b92720e922d7ee28d6c6a2ae085 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 15/16] fix: keep encrypted packets within their 32-bit length
 and flush all of the buffer

---
 src/protocol/encrypted/io_impl.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index f1b1820..bbcec45 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -13,6 +13,9 @@ use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt, ReadBuf};
 
 const WRITE_BUF_SIZE: usize = 1024;
 
+/// The packet length is a u32 and includes the 16 bytes of the authentication tag
+const MAX_PLAINTEXT_SIZE: usize = u32::MAX as usize - 16;
+
 impl<T: AsyncProtocolStream> Unpin for EncryptedStream<T> {}
 
 impl<T: AsyncProtocolStream> AsyncWrite for EncryptedStream<T> {
@@ -98,7 +101,7 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWrit
         if self.buffer.len() >= WRITE_BUF_SIZE {
             tracing::trace!("buffer has reached sending size: {}", self.buffer.len());
             let buffer_len = self.buffer.len();
-            let max_copy = min(u32::MAX as usize, buffer_len);
+            let max_copy = min(MAX_PLAINTEXT_SIZE, buffer_len);
             let plaintext = self.buffer.copy_to_bytes(max_copy);
             let writer = self.inner.take().unwrap();
             let cipher = self.cipher.take().unwrap();
@@ -118,21 +121,20 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWrit
         if self.fut_flush.is_none() {
             ready!(self.poll_unfinished(cx))?;
             let buffer_len = self.buffer.len();
-            let max_copy = min(u32::MAX as usize, buffer_len);
-            let plaintext = self.buffer.copy_to_bytes(max_copy);
-            let writer = self.inner.take().unwrap();
-            let cipher = self.cipher.take().unwrap();
+            let mut plaintext = self.buffer.copy_to_bytes(buffer_len);
+            let mut writer = self.inner.take().unwrap();
+            let mut cipher = self.cipher.take().unwrap();
 
             self.fut_flush = Some(Box::pin(async move {
-                let (mut writer, cipher) = if plaintext.len() > 0 {
-                    let (result, writer, cipher) = write_bytes(plaintext, writer, cipher).await;
+                while plaintext.len() > 0 {
+                    let packet = plaintext.split_to(min(MAX_PLAINTEXT_SIZE, plaintext.len()));
+                    let (result, w, c) = write_bytes(packet, writer, cipher).await;
+                    writer = w;
+                    cipher = c;
                     if result.is_err() {
                         return (result, writer, cipher);
                     }
-                    (writer, cipher)
-                } else {
-                    (writer, cipher)
-                };
+                }
                 if let Err(e) = writer.flush().await {
                     (Err(e), writer, cipher)
                 } else {
-- 
2.43.0


From effdc95447826b5a19d475a52c5e65158cbc15b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:55 +0000
Subject: [PATCH 16/16] fix: decoding a bincode payload allocated the length
 the bytes claimed

---
 src/events/payload_serializer/serialize_bincode.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/events/payload_serializer/serialize_bincode.rs b/src/events/payload_serializer/serialize_bincode.rs
index afbc75b..359d2d7 100644
--- a/src/events/payload_serializer/serialize_bincode.rs
+++ b/src/events/payload_serializer/serialize_bincode.rs
@@ -12,7 +12,11 @@ pub fn serialize<T: Serialize>(data: T) -> SerializationResult<Bytes> {
 }
 
 #[inline]
-pub fn deserialize<R: Read, T: DeserializeOwned>(reader: R) -> SerializationResult<T> {
-    let type_data = bincode::deserialize_from(reader)?;
+pub fn deserialize<R: Read, T: DeserializeOwned>(mut reader: R) -> SerializationResult<T> {
+    let mut buf = Vec::new();
+    // bincode allocates the length a reader's data claims, but only what is there of a slice
+    reader.read_to_end(&mut buf)?;
+    let type_data = bincode::deserialize(&buf)?;
+
     Ok(type_data)
 }
-- 
2.43.0

