From 4af4d28bc2092f1c2f6191e23930d2e5ac68906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 01/20] fix: refuse truncated and overflowing varints

---
 spop/src/data/varint.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/spop/src/data/varint.rs b/spop/src/data/varint.rs
index 612703d..eca4cbc 100644
--- a/spop/src/data/varint.rs
+++ b/spop/src/data/varint.rs
@@ -25,17 +25,20 @@ pub fn get<T: Buf>(mut buf: T) -> Option<u64> {
             let mut n = b as u64;
             let mut r = 4;
 
-            while buf.has_remaining() {
+            loop {
+                if !buf.has_remaining() {
+                    return None;
+                }
+
                 let b = buf.get_u8();
-                n += (b as u64) << r;
+                let unit = 1u64.checked_shl(r)?;
+                n = n.checked_add(unit.checked_mul(b as u64)?)?;
                 r += 7;
 
                 if b < 0x80 {
-                    break;
+                    return Some(n);
                 }
             }
-
-            Some(n)
         }
     }
 }
-- 
2.43.0


From 58330feda7ecdb66539f524df47b42a004f571dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 02/20] fix: refuse frames with a malformed or missing item
 instead of truncating them

---
 spop/src/data/buf.rs     | 16 +++++-----------
 spop/src/frame/decode.rs | 29 ++++++++++++++++++-----------
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/spop/src/data/buf.rs b/spop/src/data/buf.rs
index 2a12472..b769e4e 100644
--- a/spop/src/data/buf.rs
+++ b/spop/src/data/buf.rs
@@ -18,8 +18,8 @@ pub trait BufExt {
     /// Get a string.
     fn string(&mut self) -> Option<String>;
 
-    /// Get key-value list.
-    fn kv_list(&mut self) -> impl Iterator<Item = (String, Typed)>;
+    /// Get key-value list; a malformed item is `None`.
+    fn kv_list(&mut self) -> impl Iterator<Item = Option<(String, Typed)>>;
 }
 
 impl<T> BufExt for T
@@ -40,16 +40,10 @@ where
         String::from_utf8(b.to_vec()).ok()
     }
 
-    fn kv_list(&mut self) -> impl Iterator<Item = (String, Typed)> {
+    fn kv_list(&mut self) -> impl Iterator<Item = Option<(String, Typed)>> {
         iter::from_fn(move || {
-            if self.has_remaining() {
-                let name = self.string()?;
-                let value = self.typed()?;
-
-                Some((name, value))
-            } else {
-                None
-            }
+            self.has_remaining()
+                .then(|| Some((self.string()?, self.typed()?)))
         })
     }
 }
diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index f5044f4..299bf47 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -73,7 +73,7 @@ fn metadata<B: Buf>(mut buf: B) -> Option<frame::Metadata> {
 }
 
 fn haproxy_hello<B: Buf>(mut buf: B) -> Result<haproxy::Hello> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;
 
     Ok(haproxy::Hello {
         supported_versions: kv.supported_versions()?,
@@ -85,7 +85,7 @@ fn haproxy_hello<B: Buf>(mut buf: B) -> Result<haproxy::Hello> {
 }
 
 fn agent_hello<B: Buf>(mut buf: B) -> Result<agent::Hello> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;
 
     Ok(agent::Hello {
         version: kv.version()?,
@@ -99,7 +99,9 @@ fn haproxy_notify<B: Buf>(buf: B, md: Metadata) -> Result<haproxy::Notify> {
         fragmented: md.fragmented(),
         stream_id: md.stream_id,
         frame_id: md.frame_id,
-        messages: list_of_messages(buf).collect::<Vec<_>>(),
+        messages: list_of_messages(buf)
+            .collect::<Option<Vec<_>>>()
+            .ok_or(Invalid)?,
     })
 }
 
@@ -109,12 +111,14 @@ fn agent_ack<B: Buf>(buf: B, md: Metadata) -> Result<agent::Ack> {
         aborted: md.aborted(),
         stream_id: md.stream_id,
         frame_id: md.frame_id,
-        actions: list_of_actions(buf).collect::<Vec<_>>(),
+        actions: list_of_actions(buf)
+            .collect::<Option<Vec<_>>>()
+            .ok_or(Invalid)?,
     })
 }
 
 fn disconnect<B: Buf>(mut buf: B) -> Result<frame::Disconnect> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;
 
     Ok(haproxy::Disconnect {
         status_code: kv.status_code(),
@@ -122,10 +126,10 @@ fn disconnect<B: Buf>(mut buf: B) -> Result<frame::Disconnect> {
     })
 }
 
-fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Message> {
+fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Option<Message>> {
     iter::from_fn(move || {
         if buf.has_remaining() {
-            message(&mut buf)
+            Some(message(&mut buf))
         } else {
             None
         }
@@ -135,15 +139,18 @@ fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Message> {
 fn message<B: Buf>(mut buf: B) -> Option<Message> {
     let name = buf.string()?;
     let nb = get_u8(&mut buf)?;
-    let args = buf.kv_list().take(nb as usize).collect();
+    let args = buf
+        .kv_list()
+        .take(nb as usize)
+        .collect::<Option<Vec<_>>>()?;
 
-    Some(Message { name, args })
+    (args.len() == nb as usize).then_some(Message { name, args })
 }
 
-fn list_of_actions<B: Buf>(mut buf: B) -> impl Iterator<Item = Action> {
+fn list_of_actions<B: Buf>(mut buf: B) -> impl Iterator<Item = Option<Action>> {
     iter::from_fn(move || {
         if buf.has_remaining() {
-            action(&mut buf)
+            Some(action(&mut buf))
         } else {
             None
         }
-- 
2.43.0


From 3d1d3bd127835f03c59f860f4c01c5c9da87a663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 03/20] fix: read an empty capability list as no capabilities

---
 spop/src/frame/decode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index 299bf47..97dbd53 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -222,7 +222,9 @@ impl KVList {
         let s = self.string(kv::CAPABILITIES_KEY).ok_or(NoCapabilities)?;
 
         s.split(',')
-            .map(|s| s.trim().parse())
+            .map(|s| s.trim())
+            .filter(|s| !s.is_empty())
+            .map(|s| s.parse())
             .collect::<StdResult<Vec<_>, _>>()
             .map_err(|_| Invalid)
     }
-- 
2.43.0


From 96310503eaab2f122236e4f50e81b15de78b80c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 04/20] fix: do not truncate 64-bit frame sizes and status
 codes

---
 spop/src/frame/decode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index 97dbd53..e375e8c 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -214,8 +214,8 @@ impl KVList {
 
     pub fn max_frame_size(&mut self) -> Result<u32> {
         self.uint(kv::MAX_FRAME_SIZE_KEY)
-            .map(|n| n as u32)
             .ok_or(NoFrameSize)
+            .and_then(|n| u32::try_from(n).map_err(|_| BadFrameSize))
     }
 
     pub fn capabilities(&mut self) -> Result<Vec<Capability>> {
@@ -231,7 +231,7 @@ impl KVList {
 
     pub fn status_code(&mut self) -> u32 {
         self.uint(kv::STATUS_CODE_KEY)
-            .map(|n| n as u32)
+            .map(|n| u32::try_from(n).unwrap_or(Unknown as u32))
             .unwrap_or_default()
     }
 
-- 
2.43.0


From 18540f1ecf19210fe8162b443c3f279963579d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 05/20] fix: report the decoder's status, and oversized frames
 as too big

---
 spop/src/frame/framer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 6d5ef3c..f658671 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -33,9 +33,9 @@ impl Framer {
 
             trace!(buf=%HexView::new(&buf));
 
-            buf.get_frame().map_err(|_| Invalid)
+            buf.get_frame()
         } else {
-            Err(BadFrameSize)
+            Err(TooBig)
         }
     }
 
-- 
2.43.0


From c34db1fd84e8ad3a6f5f50970e14053d4d59c56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 06/20] fix: refuse to send frames larger than the maximum
 frame size

---
 spop/src/frame/framer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index f658671..4cc7d4e 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -47,6 +47,10 @@ impl Framer {
 
         trace!(buf=%HexView::new(&buf[4..]));
 
+        if buf.len() - mem::size_of::<u32>() > self.max_frame_size {
+            return Err(TooBig);
+        }
+
         pin_mut!(w);
 
         w.write_all(&buf).await.map_err(|_| Io)?;
-- 
2.43.0


From b409fe0e95dbbb6f6fb77fa70a24198a7e97b622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 07/20] fix: flush the transport after writing a frame

---
 spop/src/frame/framer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 4cc7d4e..6e6d84c 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -54,6 +54,7 @@ impl Framer {
         pin_mut!(w);
 
         w.write_all(&buf).await.map_err(|_| Io)?;
+        w.flush().await.map_err(|_| Io)?;
 
         Ok(buf.len())
     }
-- 
2.43.0


From fbcb9e52609bbcf49b6ff697835b060b9b41615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 08/20] fix: report an unsupported version as such

---
 spoa/src/state/handshake.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spoa/src/state/handshake.rs b/spoa/src/state/handshake.rs
index 6b71b81..76dd821 100644
--- a/spoa/src/state/handshake.rs
+++ b/spoa/src/state/handshake.rs
@@ -5,7 +5,7 @@ use tracing::instrument;
 
 use crate::{
     error::Result,
-    spop::{AgentHello, Capability, Error::NoVersion, HaproxyHello, Version},
+    spop::{AgentHello, Capability, Error::BadVersion, HaproxyHello, Version},
 };
 
 #[instrument(ret, err, level = "trace")]
@@ -23,7 +23,7 @@ pub fn negotiate(
         .into_iter()
         .rev()
         .find(|version| supported_versions.iter().rev().any(|v| v == version))
-        .ok_or(NoVersion)?;
+        .ok_or(BadVersion)?;
     let max_frame_size = cmp::min(hello.max_frame_size, max_frame_size);
     let capabilities = hello
         .capabilities
-- 
2.43.0


From a43b8fc3320d358f814f6985d6bdb5747a2175f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 09/20] fix: refuse fragments when fragmentation was not
 negotiated

---
 spoa/src/state/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoa/src/state/process.rs b/spoa/src/state/process.rs
index c056a7b..c931bce 100644
--- a/spoa/src/state/process.rs
+++ b/spoa/src/state/process.rs
@@ -58,6 +58,8 @@ where
             }) => {
                 let msgs = if let Some(ref reassembly) = self.reassembly {
                     reassembly.reassemble(fragmented, stream_id, frame_id, messages)?
+                } else if fragmented {
+                    return Err(FragmentNotSupported).context("fragmentation was not negotiated");
                 } else {
                     Some(messages)
                 };
-- 
2.43.0


From 3f1db0e3cb85703b52933dfff656c5d6286c9532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 10/20] fix: register the waker of pending runtime streams

---
 spoa/src/runtime/processor.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/spoa/src/runtime/processor.rs b/spoa/src/runtime/processor.rs
index 15388eb..d00471b 100644
--- a/spoa/src/runtime/processor.rs
+++ b/spoa/src/runtime/processor.rs
@@ -3,7 +3,7 @@ use std::task::{Context, Poll};
 
 use derive_more::{From, Into};
 use futures::Stream;
-use tokio::sync::mpsc::{error::TryRecvError::*, UnboundedReceiver};
+use tokio::sync::mpsc::UnboundedReceiver;
 
 use crate::{runtime::Acker, spop::Message};
 
@@ -13,12 +13,10 @@ pub struct Processor(pub UnboundedReceiver<(Acker, UnboundedReceiver<Message>)>)
 impl Stream for Processor {
     type Item = (Acker, Messages);
 
-    fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Option<Self::Item>> {
-        match self.0.try_recv() {
-            Ok((acker, receiver)) => Poll::Ready(Some((acker, Messages(receiver)))),
-            Err(Empty) => Poll::Pending,
-            Err(Disconnected) => Poll::Ready(None),
-        }
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
+        self.0
+            .poll_recv(cx)
+            .map(|item| item.map(|(acker, receiver)| (acker, Messages(receiver))))
     }
 }
 
@@ -28,11 +26,7 @@ pub struct Messages(UnboundedReceiver<Message>);
 impl Stream for Messages {
     type Item = Message;
 
-    fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Option<Self::Item>> {
-        match self.0.try_recv() {
-            Ok(res) => Poll::Ready(Some(res)),
-            Err(Empty) => Poll::Pending,
-            Err(Disconnected) => Poll::Ready(None),
-        }
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
+        self.0.poll_recv(cx)
     }
 }
-- 
2.43.0


From fe24b45eeb97b81116c68779b2a7f4124943abde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:25 +0000
Subject: [PATCH 11/20] fix: add no dispatcher route for a work item that was
 not queued

---
 spoa/src/runtime/dispatch.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spoa/src/runtime/dispatch.rs b/spoa/src/runtime/dispatch.rs
index 285121f..1104e0f 100644
--- a/spoa/src/runtime/dispatch.rs
+++ b/spoa/src/runtime/dispatch.rs
@@ -34,14 +34,14 @@ impl Dispatcher {
                 Entry::Vacant(e) => {
                     let (sender, receiver) = unbounded_channel();
 
-                    if notify.fragmented {
-                        e.insert(sender.clone());
-                    }
-
                     let (acker, acked) = Acker::new(notify.stream_id, notify.frame_id);
 
                     self.processing.send((acker, receiver))?;
 
+                    if notify.fragmented {
+                        e.insert(sender.clone());
+                    }
+
                     (sender, Some(acked))
                 }
                 Entry::Occupied(e) => {
-- 
2.43.0


From c7d45a6f8cd9fe4e967c996739198bfbdb330bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 12/20] fix: keep repeated headers

---
 spoa/src/req.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spoa/src/req.rs b/spoa/src/req.rs
index a943186..d1fd070 100644
--- a/spoa/src/req.rs
+++ b/spoa/src/req.rs
@@ -24,7 +24,7 @@ pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
             break;
         }
 
-        hdrs.insert(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);
+        hdrs.append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);
     }
 
     Ok(hdrs)
-- 
2.43.0


From a5dbf74947f5d6c647554d3c9827d25631fe9450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 13/20] fix: read header lengths as variable-length integers

---
 spoa/src/req.rs | 4 ++--
 spop/src/lib.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spoa/src/req.rs b/spoa/src/req.rs
index d1fd070..8112122 100644
--- a/spoa/src/req.rs
+++ b/spoa/src/req.rs
@@ -3,14 +3,14 @@ use std::iter;
 use bytes::Buf;
 use http::{HeaderMap, HeaderName, HeaderValue};
 
-use crate::error::Result;
+use crate::{error::Result, spop::varint};
 
 pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
     let mut hdrs = HeaderMap::new();
 
     let mut strs = iter::from_fn(|| {
         if b.has_remaining() {
-            let len = b.get_u8() as usize;
+            let len = varint::get(&mut b)? as usize;
             if b.remaining() >= len {
                 return Some(b.copy_to_bytes(len));
             }
diff --git a/spop/src/lib.rs b/spop/src/lib.rs
index a2aaf2b..e34d28b 100644
--- a/spop/src/lib.rs
+++ b/spop/src/lib.rs
@@ -8,7 +8,7 @@ mod version;
 
 pub use self::action::{Action, Scope};
 pub use self::caps::Capability;
-pub use self::data::Typed;
+pub use self::data::{varint, Typed};
 pub use self::error::Error;
 pub use self::frame::{
     agent::{Ack as AgentAck, Disconnect as AgentDisconnect, Hello as AgentHello},
-- 
2.43.0


From 1c59b400df4732e0ecb596649ddc6f7c4a8fc855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 14/20] fix: keep accepting connections after a failed accept

---
 spoa/src/agent.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index d70b63d..d0a04dd 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -65,7 +65,15 @@ where
                     break
                 }
 
-                Ok((stream, peer)) = self.listener.accept() => {
+                res = self.listener.accept() => {
+                    let (stream, peer) = match res {
+                        Ok(accepted) => accepted,
+                        Err(err) => {
+                            debug!(%err, "failed to accept a connection");
+                            continue;
+                        }
+                    };
+
                     trace!(?peer, "accepted connection");
 
                     let mut conn = Connection::new(self.runtime.clone(), stream, self.shutdown.token.child_token());
-- 
2.43.0


From b78ab6aba0d9392139b947f7fbe84fe9a7f56b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 15/20] fix: do not truncate a configured frame size of more
 than 32 bits

---
 spoa/src/state/connect.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spoa/src/state/connect.rs b/spoa/src/state/connect.rs
index 2b2c13a..bd68f62 100644
--- a/spoa/src/state/connect.rs
+++ b/spoa/src/state/connect.rs
@@ -52,7 +52,7 @@ where
         let handshaked = {
             negotiate(
                 runtime.supported_versions.clone(),
-                runtime.max_frame_size as u32,
+                u32::try_from(runtime.max_frame_size).unwrap_or(u32::MAX),
                 runtime.capabilities.clone(),
                 hello,
             )?
-- 
2.43.0


From 54120de95a29e7df3d82b6c3a14bc9d7aef94a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 16/20] fix: call services only when they are ready

---
 spoa/src/runtime/runtime.rs | 5 +++++
 spoa/src/state/process.rs   | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/spoa/src/runtime/runtime.rs b/spoa/src/runtime/runtime.rs
index 7b85693..da8b983 100644
--- a/spoa/src/runtime/runtime.rs
+++ b/spoa/src/runtime/runtime.rs
@@ -1,4 +1,5 @@
 use std::error::Error as StdError;
+use std::future::poll_fn;
 use std::time::Duration;
 
 use tokio::sync::{mpsc::unbounded_channel, RwLock};
@@ -23,6 +24,10 @@ impl<S, T> ServiceMaker<S, T> {
         S::MakeError: StdError + Send + Sync + 'static,
         T: Clone,
     {
+        poll_fn(|cx| self.maker.poll_ready(cx))
+            .await
+            .context("make service")?;
+
         self.maker
             .make_service(self.state.clone())
             .await
diff --git a/spoa/src/state/process.rs b/spoa/src/state/process.rs
index c931bce..1c96bdd 100644
--- a/spoa/src/state/process.rs
+++ b/spoa/src/state/process.rs
@@ -1,4 +1,5 @@
 use std::fmt;
+use std::future::poll_fn;
 use std::sync::Arc;
 
 use derive_more::Debug;
@@ -65,7 +66,12 @@ where
                 };
 
                 if let Some(msgs) = msgs {
-                    match timeout(self.runtime.max_process_time, self.service.call(msgs)).await {
+                    let processing = async {
+                        poll_fn(|cx| self.service.poll_ready(cx)).await?;
+                        self.service.call(msgs).await
+                    };
+
+                    match timeout(self.runtime.max_process_time, processing).await {
                         Ok(res) => match res {
                             Ok(actions) => {
                                 let ack = Frame::ack(stream_id, frame_id, actions);
-- 
2.43.0


From 10502ebbc114cfa56d7027494da4c154012e25c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:26 +0000
Subject: [PATCH 17/20] fix: report read errors, oversized replies and shutdown
 to HAProxy before closing

---
 spoa/src/conn.rs | 56 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index e1f6136..8bc4e19 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -1,6 +1,7 @@
 use std::error::Error as StdError;
 use std::fmt;
 use std::mem;
+use std::result::Result as StdResult;
 use std::sync::Arc;
 
 use tokio::{
@@ -13,8 +14,8 @@ use tracing::instrument;
 
 use crate::runtime::Runtime;
 use crate::{
-    error::Result,
-    spop::{Action, BufCodec, Codec, Error as Status, Frame, Framer, Message},
+    error::{Error, Result},
+    spop::{Action, BufCodec, Codec, Disconnect, Error as Status, Frame, Framer, Message},
     state::AsyncHandler,
     State,
 };
@@ -51,6 +52,36 @@ where
         self.codec.write_frame(disconnect).await?;
         Ok(())
     }
+
+    /// Report the error to HAProxy and close the connection.
+    async fn fail(&mut self, err: Error) -> Result<()> {
+        let Disconnect {
+            status_code,
+            message,
+        } = err.into();
+
+        match self.send_disconnect(status_code, message).await {
+            // the description does not fit, the status code has to
+            Err(Status::TooBig) => self.send_disconnect(status_code, String::new()).await?,
+            res => res?,
+        };
+        self.tok.cancel();
+        Ok(())
+    }
+
+    async fn send_disconnect(
+        &mut self,
+        status_code: u32,
+        message: String,
+    ) -> StdResult<usize, Status> {
+        let disconnect = Disconnect {
+            status_code,
+            message,
+        };
+        self.codec
+            .write_frame(Frame::AgentDisconnect(disconnect))
+            .await
+    }
 }
 
 impl<IO, S, T> Connection<IO, S, T>
@@ -70,21 +101,32 @@ where
 
             select! {
                 _ = self.tok.cancelled() => {
+                    self.disconnect(Status::Normal, "agent is shutting down").await?;
                     break;
                 }
 
                 frame = self.codec.read_frame() => {
-                    match state.handle_frame(frame?).await {
+                    let handled = match frame {
+                        Ok(frame) => state.handle_frame(frame).await,
+                        Err(status) => Err(status.into()),
+                    };
+
+                    match handled {
                         Ok((next, reply)) => {
                             if let Some(frame) = reply {
-                                self.codec.write_frame(frame).await?;
+                                match self.codec.write_frame(frame).await {
+                                    // nothing was sent, HAProxy has to know why
+                                    Err(Status::TooBig) => {
+                                        self.fail(Status::TooBig.into()).await?;
+                                        break;
+                                    }
+                                    res => res?,
+                                };
                             }
                             self.state = next;
                         }
                         Err(err) => {
-                            let frame = Frame::AgentDisconnect(err.into());
-                            self.codec.write_frame(frame).await?;
-                            self.tok.cancel();
+                            self.fail(err).await?;
                             break;
                         }
                     }
-- 
2.43.0


From 770c5c25743a1cc0079c64a6fcacb2c91453d021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 18/20] fix: apply the negotiated maximum frame size to the
 connection

---
 spoa/src/conn.rs        | 7 +++++++
 spop/src/frame/codec.rs | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index 8bc4e19..68bf1ee 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -114,6 +114,10 @@ where
                     match handled {
                         Ok((next, reply)) => {
                             if let Some(frame) = reply {
+                                let negotiated = match frame {
+                                    Frame::AgentHello(ref hello) => Some(hello.max_frame_size),
+                                    _ => None,
+                                };
                                 match self.codec.write_frame(frame).await {
                                     // nothing was sent, HAProxy has to know why
                                     Err(Status::TooBig) => {
@@ -122,6 +126,9 @@ where
                                     }
                                     res => res?,
                                 };
+                                if let Some(sz) = negotiated {
+                                    self.codec.set_max_frame_size(sz as usize);
+                                }
                             }
                             self.state = next;
                         }
diff --git a/spop/src/frame/codec.rs b/spop/src/frame/codec.rs
index 7d2ae10..ff278f9 100644
--- a/spop/src/frame/codec.rs
+++ b/spop/src/frame/codec.rs
@@ -34,6 +34,11 @@ where
         Self { stream, framer }
     }
 
+    /// Limits the size of the frames, after it was negotiated.
+    pub fn set_max_frame_size(&mut self, max_frame_size: usize) {
+        self.framer = Framer::new(max_frame_size);
+    }
+
     #[instrument(skip(self), ret, err, level = "trace")]
     pub async fn read_frame(&mut self) -> Result<Frame> {
         self.framer.read_frame(&mut self.stream).await
-- 
2.43.0


From add5e402e9a4c2453075bb1015ffb920e617f260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 19/20] fix: keep the status a peer disconnected with

---
 spop/src/frame/fragment.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spop/src/frame/fragment.rs b/spop/src/frame/fragment.rs
index 771450a..04516c8 100644
--- a/spop/src/frame/fragment.rs
+++ b/spop/src/frame/fragment.rs
@@ -2,7 +2,7 @@ use dashmap::{DashMap, Entry};
 
 use crate::{
     error::{Error, Result},
-    frame::{agent::Ack, haproxy::Notify, Frame, FrameId, Message, StreamId},
+    frame::{agent::Ack, haproxy::Notify, Disconnect, Frame, FrameId, Message, StreamId},
     Action, AsyncHandler,
 };
 
@@ -40,7 +40,9 @@ impl AsyncHandler<Option<Vec<Message>>> for Reassembly<Message> {
             }) => self
                 .0
                 .reassemble(fragmented, (stream_id, frame_id), messages),
-            Frame::HaproxyDisconnect(_) => Err(Error::Normal),
+            Frame::HaproxyDisconnect(Disconnect { status_code, .. }) => {
+                Err(Error::try_from(status_code).unwrap_or(Error::Unknown))
+            }
             _ => Err(Error::Invalid),
         }
     }
@@ -60,7 +62,9 @@ impl AsyncHandler<Option<Vec<Action>>> for Reassembly<Action> {
             }) => self
                 .0
                 .reassemble(fragmented, (stream_id, frame_id), actions),
-            Frame::AgentDisconnect(_) => Err(Error::Normal),
+            Frame::AgentDisconnect(Disconnect { status_code, .. }) => {
+                Err(Error::try_from(status_code).unwrap_or(Error::Unknown))
+            }
             _ => Err(Error::Invalid),
         }
     }
-- 
2.43.0


From 510b6ceb28b30898641d57683518020bd3a6b640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:00 +0000
Subject: [PATCH 20/20] fix: wait for the connections of every accept loop at
 shutdown

When serve runs more than once on an agent, only the call that closed the
tracker waited for the connections; the others returned at once while
connections they had accepted were still being served.
---
 spoa/src/agent.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index d0a04dd..6a07a77 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -85,7 +85,9 @@ where
             }
         }
 
-        if self.shutdown.tracker.close() && !self.shutdown.tracker.is_empty() {
+        self.shutdown.tracker.close();
+
+        if !self.shutdown.tracker.is_empty() {
             debug!(
                 conns = self.shutdown.tracker.len(),
                 "waiting for shutting down"
-- 
2.43.0

