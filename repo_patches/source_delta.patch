From 972f82fb24e5cb39efb134829dcb2ca2b6aa485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 01/24] verification hook: re-export private items under
 cfg(raknet_verif)

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1292fef..7d5d855 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -53,6 +53,17 @@ pub use crate::log::enable_raknet_log;
 pub use crate::server::*;
 pub use crate::socket::*;
 
+/// Verification hook: the crate's private items, compiled only under `--cfg raknet_verif`.
+#[cfg(raknet_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::arq::*;
+    pub use crate::datatype::*;
+    pub use crate::fragment::*;
+    pub use crate::packet::*;
+    pub use crate::utils::*;
+}
+
 // #[tokio::test]
 // async fn test_ping_pong() {
 //     let s = tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap();
-- 
2.43.0


From d1be713867b10234e2c68d5aff9187c5a7d15b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 02/24] fix: read_u8 returns an error instead of panicking at
 the end of the buffer

---
 src/datatype.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/datatype.rs b/src/datatype.rs
index fe9d08b..fab27ff 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -193,6 +193,10 @@ impl RaknetReader {
         }
     }
     pub fn read_u8(&mut self) -> Result<u8> {
+        if self.buf.remaining() < 1 {
+            return Err(RaknetError::ReadPacketBufferError);
+        }
+
         Ok(self.buf.get_u8())
     }
 
-- 
2.43.0


From f03da48748ef1e1e309d9c758114d35c881220c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 03/24] fix: read_string returns an error instead of panicking
 on invalid UTF-8

---
 src/datatype.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datatype.rs b/src/datatype.rs
index fab27ff..9d984e2 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -281,7 +281,7 @@ impl RaknetReader {
         }
 
         self.read(&mut buf)?;
-        Ok(String::from_utf8(buf.to_vec()).unwrap())
+        String::from_utf8(buf.to_vec()).map_err(|_| RaknetError::PacketParseError)
     }
 
     pub fn read_magic(&mut self) -> Result<bool> {
-- 
2.43.0


From 3c4aee35fabc1380710cb08829e3969e9089d12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 04/24] fix: IPv6 addresses carry their version byte and are
 read back at their real length

---
 src/datatype.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datatype.rs b/src/datatype.rs
index 9d984e2..a06003b 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -154,6 +154,7 @@ impl RaknetWriter {
             self.write_u16(address.port(), Endian::Big)?;
             Ok(())
         } else {
+            self.write_u8(0x6)?;
             self.write_i16(23, Endian::Little)?;
             self.write_u16(address.port(), Endian::Big)?;
             self.write_i32(0, Endian::Big)?;
@@ -315,7 +316,7 @@ impl RaknetReader {
             let port = self.read_u16(Endian::Big)?;
             Ok(SocketAddr::new(IpAddr::V4(ip), port))
         } else {
-            if self.buf.remaining() < 44 {
+            if self.buf.remaining() < 28 {
                 return Err(RaknetError::ReadPacketBufferError);
             }
 
-- 
2.43.0


From 728df70b844bc890a91e7f437646734043d749e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 05/24] fix: parsing a truncated data datagram is an error, not
 a panic

---
 src/arq.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 026cbbf..18ecd90 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -277,8 +277,8 @@ impl FrameVec {
 
         let mut reader = RaknetReader::new(buf);
 
-        ret.id = reader.read_u8().unwrap();
-        ret.sequence_number = reader.read_u24(Endian::Little).unwrap();
+        ret.id = reader.read_u8()?;
+        ret.sequence_number = reader.read_u24(Endian::Little)?;
 
         while reader.pos() < size.try_into().unwrap() {
             let mut frame = FrameSetPacket {
@@ -298,32 +298,32 @@ impl FrameVec {
 
             //Top 3 bits are reliability type
             //224 = 1110 0000(b)
-            frame.flags = reader.read_u8().unwrap();
+            frame.flags = reader.read_u8()?;
 
-            frame.length_in_bytes = reader.read_u16(Endian::Big).unwrap() / 8;
+            frame.length_in_bytes = reader.read_u16(Endian::Big)? / 8;
 
             if frame.is_reliable()? {
-                frame.reliable_frame_index = reader.read_u24(Endian::Little).unwrap();
+                frame.reliable_frame_index = reader.read_u24(Endian::Little)?;
             }
 
             if frame.is_sequenced()? {
-                frame.sequenced_frame_index = reader.read_u24(Endian::Little).unwrap();
+                frame.sequenced_frame_index = reader.read_u24(Endian::Little)?;
             }
             if frame.is_ordered()? {
-                frame.ordered_frame_index = reader.read_u24(Endian::Little).unwrap();
-                frame.order_channel = reader.read_u8().unwrap();
+                frame.ordered_frame_index = reader.read_u24(Endian::Little)?;
+                frame.order_channel = reader.read_u8()?;
             }
 
             //fourth bit is 1 when the frame is fragmented and part of a compound.
             //flags and 16 [0001 0000(b)] == if fragmented
             if (frame.flags & 16) != 0 {
-                frame.compound_size = reader.read_u32(Endian::Big).unwrap();
-                frame.compound_id = reader.read_u16(Endian::Big).unwrap();
-                frame.fragment_index = reader.read_u32(Endian::Big).unwrap();
+                frame.compound_size = reader.read_u32(Endian::Big)?;
+                frame.compound_id = reader.read_u16(Endian::Big)?;
+                frame.fragment_index = reader.read_u32(Endian::Big)?;
             }
 
             let mut buf = vec![0u8; frame.length_in_bytes as usize].into_boxed_slice();
-            reader.read(&mut buf).unwrap();
+            reader.read(&mut buf)?;
             frame.data.append(&mut buf.to_vec());
             ret.frames.push(frame);
         }
-- 
2.43.0


From d2f66d506ad705421cfa202b5117fa51a1467e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:23 +0000
Subject: [PATCH 06/24] fix: fragments with a zero or contradictory compound
 size no longer panic or corrupt reassembly

---
 src/fragment.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fragment.rs b/src/fragment.rs
index 64baea3..ef19a9b 100644
--- a/src/fragment.rs
+++ b/src/fragment.rs
@@ -24,7 +24,7 @@ impl Fragment {
     }
 
     pub fn insert(&mut self, frame: FrameSetPacket) {
-        if self.full() {
+        if self.full() || frame.compound_size != self.compound_size {
             return;
         }
 
@@ -68,6 +68,11 @@ impl FragmentQ {
     }
 
     pub fn insert(&mut self, frame: FrameSetPacket) {
+        // a compound of no fragments can never be a message
+        if frame.compound_size == 0 {
+            return;
+        }
+
         if self.fragments.contains_key(&frame.compound_id) {
             self.fragments
                 .get_mut(&frame.compound_id)
-- 
2.43.0


From 8cbe9213a8c31eb77e736948fe0f9ff8973df392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:23 +0000
Subject: [PATCH 07/24] fix: a late duplicate fragment of a completed message
 no longer leaves a stale compound behind

---
 src/arq.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/arq.rs b/src/arq.rs
index 18ecd90..75d1d57 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -488,7 +488,13 @@ impl RecvQ {
             // RELIABLE_ORDERED - 1, 2, 3, 4, 5, 6
             Reliability::ReliableOrdered => {
                 // if remote host not received ack , and local program has flush ordered packet. recvq will insert old packet caused memory leak.
-                if frame.ordered_frame_index < self.last_ordered_index {
+                // the same goes for a message that is complete and only waits for its turn: a late duplicate of one of
+                // its fragments must not start a new compound.
+                if frame.ordered_frame_index < self.last_ordered_index
+                    || self
+                        .ordered_packets
+                        .contains_key(&frame.ordered_frame_index)
+                {
                     return Ok(());
                 }
 
-- 
2.43.0


From e1c0097e86524143be8f4a61b5e722ef91857dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:23 +0000
Subject: [PATCH 08/24] fix: an absurd mtu announced by the peer no longer
 makes send panic or corrupt frame lengths

---
 src/arq.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arq.rs b/src/arq.rs
index 75d1d57..41397c8 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -601,9 +601,13 @@ impl SendQ {
     const RTO_UBOUND: i64 = 12000;
     const RTO_LBOUND: i64 = 50;
 
+    // the mtu is chosen by the remote peer, keep it in the range raknet allows.
+    const MTU_LBOUND: u16 = 400;
+    const MTU_UBOUND: u16 = 1500;
+
     pub fn new(mtu: u16) -> Self {
         Self {
-            mtu,
+            mtu: mtu.clamp(SendQ::MTU_LBOUND, SendQ::MTU_UBOUND),
             ack_sequence_number: 0,
             sequence_number: 0,
             packets: vec![],
-- 
2.43.0


From 796bc322fc2b1d0eee861ce10b8a4f4fbea44c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:23 +0000
Subject: [PATCH 09/24] fix: the 16-bit compound id wraps instead of
 overflowing after 65536 fragmented messages

---
 src/arq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arq.rs b/src/arq.rs
index 41397c8..3cc93fb 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -694,7 +694,7 @@ impl SendQ {
                         self.packets.push(frame);
                         self.reliable_frame_index += 1;
                     }
-                    self.compound_id += 1;
+                    self.compound_id = self.compound_id.wrapping_add(1);
                     self.ordered_frame_index += 1;
                 }
             }
-- 
2.43.0


From d57019d5e3fc4c015ddab651fbd116c7eb824c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 10/24] fix: a datagram reported missing is retransmitted by
 the next flush instead of being renumbered and delayed

---
 src/arq.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arq.rs b/src/arq.rs
index 3cc93fb..fab3f5c 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -754,6 +754,7 @@ impl SendQ {
                 );
                 item.0.sequence_number = self.sequence_number;
                 self.sequence_number += 1;
+                item.1 = false;
                 item.2 = tick;
                 item.3 += 1;
                 item.4.push(item.0.sequence_number);
-- 
2.43.0


From b49a6a529458fb230fbec534810a9ba5ea1e2356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 11/24] fix: a malformed datagram no longer kills the session's
 receive worker

---
 src/socket.rs | 48 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index ac90cf9..6082190 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -83,6 +83,10 @@ impl RaknetSocket {
         user_data_sender: &Sender<Vec<u8>>,
         incomming_notify: &Notify,
     ) -> Result<bool> {
+        if frame.data.is_empty() {
+            return Err(RaknetError::PacketParseError);
+        }
+
         match PacketID::from(frame.data[0])? {
             PacketID::ConnectionRequest => {
                 let packet = read_packet_connection_request(frame.data.as_slice())?;
@@ -446,7 +450,7 @@ impl RaknetSocket {
                             &incomming_notify,
                         )
                         .await
-                        .unwrap();
+                        .ok();
                     }
                     break;
                 }
@@ -460,9 +464,14 @@ impl RaknetSocket {
                     }
                 };
 
+                // a malformed datagram must not end the session, drop it.
+                if buf.is_empty() {
+                    continue;
+                }
+
                 last_heartbeat_time.store(cur_timestamp_millis(), Ordering::Relaxed);
 
-                if PacketID::from(buf[0]).unwrap() == PacketID::Disconnect {
+                if buf[0] == PacketID::Disconnect.to_u8() {
                     connected.close();
                     break;
                 }
@@ -470,7 +479,13 @@ impl RaknetSocket {
                 if buf[0] == PacketID::Ack.to_u8() {
                     //handle ack
                     let mut sendq = sendq.write().await;
-                    let ack = read_packet_ack(&buf).unwrap();
+                    let ack = match read_packet_ack(&buf) {
+                        Ok(p) => p,
+                        Err(e) => {
+                            raknet_log_debug!("parse ack faild : {:?}", e);
+                            continue;
+                        }
+                    };
                     for i in 0..ack.record_count {
                         if ack.sequences[i as usize].0 == ack.sequences[i as usize].1 {
                             sendq.ack(ack.sequences[i as usize].0, cur_timestamp_millis());
@@ -485,7 +500,13 @@ impl RaknetSocket {
 
                 if buf[0] == PacketID::Nack.to_u8() {
                     //handle nack
-                    let nack = read_packet_nack(&buf).unwrap();
+                    let nack = match read_packet_nack(&buf) {
+                        Ok(p) => p,
+                        Err(e) => {
+                            raknet_log_debug!("parse nack faild : {:?}", e);
+                            continue;
+                        }
+                    };
 
                     let mut sendq = sendq.write().await;
 
@@ -506,12 +527,21 @@ impl RaknetSocket {
                 if buf[0] >= PacketID::FrameSetPacketBegin.to_u8()
                     && buf[0] <= PacketID::FrameSetPacketEnd.to_u8()
                 {
-                    let frames = FrameVec::new(buf.clone()).unwrap();
+                    let frames = match FrameVec::new(buf.clone()) {
+                        Ok(p) => p,
+                        Err(e) => {
+                            raknet_log_debug!("parse frames faild : {:?}", e);
+                            continue;
+                        }
+                    };
 
                     let mut recvq = recvq.lock().await;
                     let mut is_break = false;
                     for frame in frames.frames {
-                        recvq.insert(frame).unwrap();
+                        if let Err(e) = recvq.insert(frame) {
+                            raknet_log_debug!("insert frame faild : {:?}", e);
+                            continue;
+                        }
 
                         for f in recvq.flush(&peer_addr) {
                             if !RaknetSocket::handle(
@@ -523,8 +553,10 @@ impl RaknetSocket {
                                 &incomming_notify,
                             )
                             .await
-                            .unwrap()
-                            {
+                            .unwrap_or_else(|e| {
+                                raknet_log_debug!("handle frame faild : {:?}", e);
+                                true
+                            }) {
                                 raknet_log_info!("handle over");
                                 connected.close();
                                 is_break = true;
-- 
2.43.0


From 614d53cafb9978d77c27b4020fb4b530bf145231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 12/24] fix: connect parses the incompatible-version reply it
 received, not its own request

---
 src/socket.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index 6082190..81fba78 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -252,7 +252,9 @@ impl RaknetSocket {
 
             if reply1_buf[0] != PacketID::OpenConnectionReply1.to_u8() {
                 if reply1_buf[0] == PacketID::IncompatibleProtocolVersion.to_u8() {
-                    let _packet = match read_packet_incompatible_protocol_version(&buf[..size]) {
+                    let _packet = match read_packet_incompatible_protocol_version(
+                        &reply1_buf[..size],
+                    ) {
                         Ok(p) => p,
                         Err(_) => return Err(RaknetError::NotSupportVersion),
                     };
-- 
2.43.0


From c651bd168c095aaac09303c083cae462f1eac07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 13/24] fix: an empty datagram or a disconnect from a finished
 session no longer disturbs the listener

---
 src/server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 4ac5256..2c44781 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -265,6 +265,10 @@ impl RaknetListener {
                     }
                 }
 
+                if size == 0 {
+                    continue;
+                }
+
                 let cur_status = match PacketID::from(buf[0]) {
                     Ok(p) => p,
                     Err(e) => {
@@ -450,7 +454,7 @@ impl RaknetListener {
                     PacketID::Disconnect => {
                         let mut sessions = sessions.lock().await;
                         if sessions.contains_key(&addr) {
-                            sessions[&addr].1.send(buf[..size].to_vec()).await.unwrap();
+                            sessions[&addr].1.send(buf[..size].to_vec()).await.ok();
                             sessions.remove(&addr);
                         }
                     }
-- 
2.43.0


From 49df39fd31f8d79a34515812c4c8ae1888ed6bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:38 +0000
Subject: [PATCH 14/24] fix: send returns ConnectionClosed instead of panicking
 when the connection closes while it runs

---
 src/socket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index 81fba78..365e279 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -858,7 +858,7 @@ impl RaknetSocket {
                     self.loss_rate.load(Ordering::Relaxed),
                 ))
                 .await
-                .unwrap();
+                .map_err(|_| RaknetError::ConnectionClosed)?;
         }
         Ok(())
     }
-- 
2.43.0


From b2b8262a373aa9914e696a83c87fcf24dc3a0435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:40 +0000
Subject: [PATCH 15/24] fix: an ack of a number that was never sent released
 the message just renumbered to it

---
 src/arq.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arq.rs b/src/arq.rs
index fab3f5c..d4a857c 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -763,6 +763,11 @@ impl SendQ {
     }
 
     pub fn ack(&mut self, sequence: u32, tick: i64) {
+        // no datagram with that number was ever sent, the peer can not have received it.
+        if sequence >= self.sequence_number {
+            return;
+        }
+
         if sequence != 0 && sequence != self.ack_sequence_number + 1 {
             for i in self.ack_sequence_number + 1..sequence {
                 self.nack(i, tick);
-- 
2.43.0


From e3ca23536cbf403c6c97354a43d7c6af12365b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:50 +0000
Subject: [PATCH 16/24] fix: an acknowledgement list that names numbers never
 sent no longer stalls the session for seconds

---
 src/arq.rs    |  5 +++++
 src/socket.rs | 10 ++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index d4a857c..bd710fb 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -872,6 +872,11 @@ impl SendQ {
         self.packets.len()
     }
 
+    /// the number the next frame will get, no datagram with this number or a greater one was sent.
+    pub fn next_sequence_number(&self) -> u32 {
+        self.sequence_number
+    }
+
     pub fn get_sent_queue_size(&self) -> usize {
         self.sent_packet.len()
     }
diff --git a/src/socket.rs b/src/socket.rs
index 365e279..e675d6d 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -488,11 +488,15 @@ impl RaknetSocket {
                             continue;
                         }
                     };
+                    // a range may name any number up to 2^24, only those that were sent matter.
+                    let next = sendq.next_sequence_number();
                     for i in 0..ack.record_count {
                         if ack.sequences[i as usize].0 == ack.sequences[i as usize].1 {
                             sendq.ack(ack.sequences[i as usize].0, cur_timestamp_millis());
                         } else {
-                            for i in ack.sequences[i as usize].0..ack.sequences[i as usize].1 + 1 {
+                            for i in ack.sequences[i as usize].0
+                                ..(ack.sequences[i as usize].1 + 1).min(next)
+                            {
                                 sendq.ack(i, cur_timestamp_millis());
                             }
                         }
@@ -512,11 +516,13 @@ impl RaknetSocket {
 
                     let mut sendq = sendq.write().await;
 
+                    let next = sendq.next_sequence_number();
                     for i in 0..nack.record_count {
                         if nack.sequences[i as usize].0 == nack.sequences[i as usize].1 {
                             sendq.nack(nack.sequences[i as usize].0, cur_timestamp_millis());
                         } else {
-                            for i in nack.sequences[i as usize].0..nack.sequences[i as usize].1 + 1
+                            for i in nack.sequences[i as usize].0
+                                ..(nack.sequences[i as usize].1 + 1).min(next)
                             {
                                 sendq.nack(i, cur_timestamp_millis());
                             }
-- 
2.43.0


From d7f46904e589bb12d07a0fbedb1392087af028fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:18 +0000
Subject: [PATCH 17/24] fix: bind, connect and accepting a session could hang:
 the drop watcher took the notification meant for its creator

---
 src/server.rs | 5 +----
 src/socket.rs | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 2c44781..a4d9495 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -609,8 +609,7 @@ impl RaknetListener {
         let drop_notifier = self.drop_notifier.clone();
         tokio::spawn(async move {
             raknet_log_debug!("listener drop watcher start");
-            drop_notifier.notify_one();
-
+            // the notification is kept if it comes before this.
             drop_notifier.notified().await;
 
             if close_notifier.is_closed() {
@@ -622,8 +621,6 @@ impl RaknetListener {
 
             raknet_log_debug!("listener drop watcher closed");
         });
-
-        self.drop_notifier.notified().await;
     }
 }
 
diff --git a/src/socket.rs b/src/socket.rs
index e675d6d..19acf03 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -960,8 +960,7 @@ impl RaknetSocket {
         let drop_notifier = self.drop_notifier.clone();
         tokio::spawn(async move {
             raknet_log_debug!("socket drop watcher start");
-            drop_notifier.notify_one();
-
+            // the notification is kept if it comes before this.
             drop_notifier.notified().await;
 
             if close_notifier.is_closed() {
@@ -973,8 +972,6 @@ impl RaknetSocket {
 
             raknet_log_debug!("socket drop watcher closed");
         });
-
-        self.drop_notifier.notified().await;
     }
 }
 
-- 
2.43.0


From 77b5185cfa3f0789fc02ddf25135a5ef2aa80b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:30 +0000
Subject: [PATCH 18/24] fix: the end of a session closed by its peer no longer
 removes a new session of the same address

---
 src/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index a4d9495..1d2b5e0 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -452,10 +452,10 @@ impl RaknetListener {
                         let _ = connection_sender.send(s).await;
                     }
                     PacketID::Disconnect => {
-                        let mut sessions = sessions.lock().await;
+                        // the session collecter removes the session when it has finished.
+                        let sessions = sessions.lock().await;
                         if sessions.contains_key(&addr) {
                             sessions[&addr].1.send(buf[..size].to_vec()).await.ok();
-                            sessions.remove(&addr);
                         }
                     }
                     _ => {
@@ -464,7 +464,7 @@ impl RaknetListener {
                             match sessions[&addr].1.send(buf[..size].to_vec()).await {
                                 Ok(_) => {}
                                 Err(_) => {
-                                    sessions.remove(&addr);
+                                    // the session is closed, the session collecter removes it.
                                     continue;
                                 }
                             };
-- 
2.43.0


From 2c52aa877fe2d99be4f0d606487cccdb9c803fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:34 +0000
Subject: [PATCH 19/24] fix: ping panicked on a pong whose time is far from the
 local clock

p.time comes from whoever answers; subtracting it could overflow and
panic in a build with overflow checks.
---
 src/socket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index 19acf03..431a0fc 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -819,7 +819,7 @@ impl RaknetSocket {
             };
 
             if let Ok(p) = read_packet_pong(&buf) {
-                return Ok((p.time - packet.time, p.motd));
+                return Ok((p.time.wrapping_sub(packet.time), p.motd));
             };
 
             tokio::time::sleep(std::time::Duration::from_secs(2)).await;
-- 
2.43.0


From d3ef7e38191d1d8a45767f364a7ca52e805b2ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:00 +0000
Subject: [PATCH 20/24] fix: closing a listener that never listened does not
 wait for ever

---
 src/server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 1d2b5e0..fece2b3 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -572,7 +572,11 @@ impl RaknetListener {
             return Ok(());
         }
         self.close_notifier.close();
-        self.all_session_closed_notifier.notified().await;
+
+        // nobody notifies if the listener has never listened.
+        if self.listened {
+            self.all_session_closed_notifier.notified().await;
+        }
 
         // wait all thread exit and drop socket pointer.
         while Arc::strong_count(self.socket.as_ref().unwrap()) != 1 {
-- 
2.43.0


From e147e7895312e49fef989e16c40fa5deb99e7b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:00 +0000
Subject: [PATCH 21/24] fix: local_addr of a closed listener is an error, not a
 panic

---
 src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index fece2b3..3466e07 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -557,7 +557,10 @@ impl RaknetListener {
     /// assert_eq!(socket.local_addr().unwrap().ip(), IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1)));
     /// ```
     pub fn local_addr(&self) -> Result<SocketAddr> {
-        Ok(self.socket.as_ref().unwrap().local_addr().unwrap())
+        match &self.socket {
+            Some(s) => Ok(s.local_addr().unwrap()),
+            None => Err(RaknetError::NotListen),
+        }
     }
 
     /// Close Raknet Server and all connections.
-- 
2.43.0


From 49885701ebe3b9608ce4988b043ead62a944fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:45 +0000
Subject: [PATCH 22/24] fix: a message of the day set after listen reaches the
 pongs

---
 src/server.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 3466e07..d17ceb1 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -17,7 +17,7 @@ type SessionSender = (i64, Sender<Vec<u8>>);
 
 /// Implementation of Raknet Server.
 pub struct RaknetListener {
-    motd: String,
+    motd: Arc<std::sync::RwLock<String>>,
     socket: Option<Arc<UdpSocket>>,
     guid: u64,
     listened: bool,
@@ -50,7 +50,7 @@ impl RaknetListener {
         let (connection_sender, connection_receiver) = channel::<RaknetSocket>(10);
 
         let ret = Self {
-            motd: String::new(),
+            motd: Arc::new(std::sync::RwLock::new(String::new())),
             socket: Some(Arc::new(s)),
             guid: rand::random(),
             listened: false,
@@ -88,7 +88,7 @@ impl RaknetListener {
         let (connection_sender, connection_receiver) = channel::<RaknetSocket>(10);
 
         let ret = Self {
-            motd: String::new(),
+            motd: Arc::new(std::sync::RwLock::new(String::new())),
             socket: Some(Arc::new(s)),
             guid: rand::random(),
             listened: false,
@@ -208,7 +208,7 @@ impl RaknetListener {
             return;
         }
 
-        if self.motd.is_empty() {
+        if self.get_motd().await.is_empty() {
             self.set_motd(
                 SERVER_NAME,
                 MAX_CONNECTION,
@@ -224,7 +224,7 @@ impl RaknetListener {
         let guid = self.guid;
         let sessions = self.sessions.clone();
         let connection_sender = self.connection_sender.clone();
-        let motd = self.get_motd().await;
+        let motd = self.motd.clone();
 
         self.listened = true;
 
@@ -242,7 +242,6 @@ impl RaknetListener {
             raknet_log_debug!("start listen worker : {}", local_addr);
 
             loop {
-                let motd = motd.clone();
                 let size: usize;
                 let addr: SocketAddr;
 
@@ -288,7 +287,7 @@ impl RaknetListener {
                             time: cur_timestamp_millis(),
                             guid,
                             magic: true,
-                            motd,
+                            motd: motd.read().unwrap().clone(),
                         };
 
                         let pong = match write_packet_pong(&packet) {
@@ -314,7 +313,7 @@ impl RaknetListener {
                             time: cur_timestamp_millis(),
                             guid,
                             magic: true,
-                            motd,
+                            motd: motd.read().unwrap().clone(),
                         };
 
                         let pong = match write_packet_pong(&packet) {
@@ -526,7 +525,7 @@ impl RaknetListener {
         game_type: &str,
         port: u16,
     ) {
-        self.motd = format!(
+        let motd = format!(
             "MCPE;{};{};{};0;{};{};Bedrock level;{};1;{};",
             server_name,
             mc_protocol_version,
@@ -536,6 +535,7 @@ impl RaknetListener {
             game_type,
             port
         );
+        *self.motd.write().unwrap() = motd;
     }
 
     /// Get the current motd, this motd will be provided to the client in the unconnected pong.
@@ -546,7 +546,7 @@ impl RaknetListener {
     /// let motd = listener.get_motd().await;
     /// ```
     pub async fn get_motd(&self) -> String {
-        self.motd.clone()
+        self.motd.read().unwrap().clone()
     }
 
     /// Returns the socket address of the local half of this Raknet connection.
@@ -601,7 +601,7 @@ impl RaknetListener {
     /// socket.set_full_motd("motd").await;
     /// ```
     pub fn set_full_motd(&mut self, motd: String) -> Result<()> {
-        self.motd = motd;
+        *self.motd.write().unwrap() = motd;
         Ok(())
     }
 
-- 
2.43.0


From 2105877128c8e0d88b52ea02f79b6555e1274dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:37 +0000
Subject: [PATCH 23/24] fix: close of a listener waits for ever on sessions
 that nobody accepted

---
 src/server.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index d17ceb1..fe689a7 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -576,6 +576,10 @@ impl RaknetListener {
         }
         self.close_notifier.close();
 
+        // nobody accepts these sessions any more, and the listen worker may be waiting to hand over another.
+        self.connection_receiver.close();
+        while self.connection_receiver.recv().await.is_some() {}
+
         // nobody notifies if the listener has never listened.
         if self.listened {
             self.all_session_closed_notifier.notified().await;
-- 
2.43.0


From f30734515b1b4864c7b961b7b0ad5b4fd772e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:39 +0000
Subject: [PATCH 24/24] fix: an application that does not accept no longer
 stops the listener

With ten sessions waiting to be accepted the listen worker waited on the accept
channel, holding the session table: pings and all other sessions went unserved.
A request for which there is no room is now left unanswered; its sender repeats it.
---
 src/server.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index fe689a7..7727e7f 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -419,6 +419,13 @@ impl RaknetListener {
                             continue;
                         }
 
+                        // no room for another session until the application accepts one :
+                        // the request is not answered, its sender repeats it.
+                        if connection_sender.capacity() == 0 {
+                            raknet_log_debug!("too many unaccepted connections : {}", addr);
+                            continue;
+                        }
+
                         match socket.send_to(&reply, addr).await {
                             Ok(_) => {}
                             Err(e) => {
-- 
2.43.0

