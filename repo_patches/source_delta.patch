From 6d94fa466219643c52829e079a111cbd5f4b2eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:34 +0000
Subject: [PATCH 01/42] fix: drop watcher start-up handshake could consume its
 own notification

On a multi-threaded runtime the watcher task could take the permit it had
just stored to announce its start: the connection or listener was then
closed at once and bind()/connect()/accept handling waited for ever.
---
 src/server.rs | 4 +---
 src/socket.rs | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 4ac5256..7386f9e 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -605,8 +605,8 @@ impl RaknetListener {
         let drop_notifier = self.drop_notifier.clone();
         tokio::spawn(async move {
             raknet_log_debug!("listener drop watcher start");
-            drop_notifier.notify_one();
 
+            // a notification sent before this point is kept by the Notify
             drop_notifier.notified().await;
 
             if close_notifier.is_closed() {
@@ -618,8 +618,6 @@ impl RaknetListener {
 
             raknet_log_debug!("listener drop watcher closed");
         });
-
-        self.drop_notifier.notified().await;
     }
 }
 
diff --git a/src/socket.rs b/src/socket.rs
index ac90cf9..e5a865e 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -920,8 +920,8 @@ impl RaknetSocket {
         let drop_notifier = self.drop_notifier.clone();
         tokio::spawn(async move {
             raknet_log_debug!("socket drop watcher start");
-            drop_notifier.notify_one();
 
+            // a notification sent before this point is kept by the Notify
             drop_notifier.notified().await;
 
             if close_notifier.is_closed() {
@@ -933,8 +933,6 @@ impl RaknetSocket {
 
             raknet_log_debug!("socket drop watcher closed");
         });
-
-        self.drop_notifier.notified().await;
     }
 }
 
-- 
2.43.0


From fc5b0104b91803c24d2e8be74e29ec2eaba8c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:25 +0000
Subject: [PATCH 02/42] fix: a short or late datagram could kill the listen
 task

---
 src/datatype.rs | 4 ++++
 src/server.rs   | 9 ++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/datatype.rs b/src/datatype.rs
index fe9d08b..fab27ff 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -193,6 +193,10 @@ impl RaknetReader {
         }
     }
     pub fn read_u8(&mut self) -> Result<u8> {
+        if self.buf.remaining() < 1 {
+            return Err(RaknetError::ReadPacketBufferError);
+        }
+
         Ok(self.buf.get_u8())
     }
 
diff --git a/src/server.rs b/src/server.rs
index 7386f9e..0d052dd 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -265,6 +265,11 @@ impl RaknetListener {
                     }
                 }
 
+                if size == 0 {
+                    raknet_log_debug!("empty datagram from {}", addr);
+                    continue;
+                }
+
                 let cur_status = match PacketID::from(buf[0]) {
                     Ok(p) => p,
                     Err(e) => {
@@ -450,7 +455,9 @@ impl RaknetListener {
                     PacketID::Disconnect => {
                         let mut sessions = sessions.lock().await;
                         if sessions.contains_key(&addr) {
-                            sessions[&addr].1.send(buf[..size].to_vec()).await.unwrap();
+                            if sessions[&addr].1.send(buf[..size].to_vec()).await.is_err() {
+                                raknet_log_debug!("session {} already finished", addr);
+                            }
                             sessions.remove(&addr);
                         }
                     }
-- 
2.43.0


From 8ad4764b55de9c5c220b0a9372a8424294dd3248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:41 +0000
Subject: [PATCH 03/42] fix: ping mishandled a long motd or a malformed answer

---
 src/datatype.rs |  2 +-
 src/socket.rs   | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/datatype.rs b/src/datatype.rs
index fab27ff..9d984e2 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -281,7 +281,7 @@ impl RaknetReader {
         }
 
         self.read(&mut buf)?;
-        Ok(String::from_utf8(buf.to_vec()).unwrap())
+        String::from_utf8(buf.to_vec()).map_err(|_| RaknetError::PacketParseError)
     }
 
     pub fn read_magic(&mut self) -> Result<bool> {
diff --git a/src/socket.rs b/src/socket.rs
index e5a865e..53abf2a 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -761,9 +761,9 @@ impl RaknetSocket {
                 }
             };
 
-            let mut buf = [0u8; 1024];
+            let mut buf = [0u8; 65536];
 
-            match match tokio::time::timeout(
+            let (size, _) = match match tokio::time::timeout(
                 std::time::Duration::from_secs(5),
                 s.recv_from(&mut buf),
             )
@@ -778,9 +778,11 @@ impl RaknetSocket {
                 Err(_) => return Err(RaknetError::SocketError),
             };
 
-            if let Ok(p) = read_packet_pong(&buf) {
-                return Ok((p.time - packet.time, p.motd));
-            };
+            if size != 0 && buf[0] == PacketID::UnconnectedPong.to_u8() {
+                if let Ok(p) = read_packet_pong(&buf[..size]) {
+                    return Ok((p.time - packet.time, p.motd));
+                };
+            }
 
             tokio::time::sleep(std::time::Duration::from_secs(2)).await;
         }
-- 
2.43.0


From 12896c4ba7a6c265b8936f54d1d8957d6f7059f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:19 +0000
Subject: [PATCH 04/42] fix: pong did not echo the ping time

---
 src/server.rs |  8 ++++----
 src/socket.rs | 12 +++++++++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 0d052dd..17c0e43 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -280,13 +280,13 @@ impl RaknetListener {
 
                 match cur_status {
                     PacketID::UnconnectedPing1 => {
-                        let _ping = match read_packet_ping(&buf[..size]) {
+                        let ping = match read_packet_ping(&buf[..size]) {
                             Ok(p) => p,
                             Err(_) => continue,
                         };
 
                         let packet = crate::packet::PacketUnconnectedPong {
-                            time: cur_timestamp_millis(),
+                            time: ping.time,
                             guid,
                             magic: true,
                             motd,
@@ -306,13 +306,13 @@ impl RaknetListener {
                         continue;
                     }
                     PacketID::UnconnectedPing2 => {
-                        match read_packet_ping(&buf[..size]) {
+                        let ping = match read_packet_ping(&buf[..size]) {
                             Ok(p) => p,
                             Err(_) => continue,
                         };
 
                         let packet = crate::packet::PacketUnconnectedPong {
-                            time: cur_timestamp_millis(),
+                            time: ping.time,
                             guid,
                             magic: true,
                             motd,
diff --git a/src/socket.rs b/src/socket.rs
index 53abf2a..842eaf6 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -744,12 +744,16 @@ impl RaknetSocket {
             Err(_) => return Err(RaknetError::BindAdressError),
         };
 
+        // send time of every ping of this call, a late pong answers an earlier one
+        let mut sent_times: Vec<i64> = vec![];
+
         loop {
             let packet = PacketUnconnectedPing {
                 time: cur_timestamp_millis(),
                 magic: true,
                 guid: rand::random(),
             };
+            sent_times.push(packet.time);
 
             let buf = write_packet_ping(&packet)?;
 
@@ -780,7 +784,13 @@ impl RaknetSocket {
 
             if size != 0 && buf[0] == PacketID::UnconnectedPong.to_u8() {
                 if let Ok(p) = read_packet_pong(&buf[..size]) {
-                    return Ok((p.time - packet.time, p.motd));
+                    // the pong echoes the time of the ping it answers
+                    let sent_time = if sent_times.contains(&p.time) {
+                        p.time
+                    } else {
+                        packet.time
+                    };
+                    return Ok((cur_timestamp_millis() - sent_time, p.motd));
                 };
             }
 
-- 
2.43.0


From 593ea90fcb1beb693a387eeae6aa819c05c31856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:27 +0000
Subject: [PATCH 05/42] fix: client took datagrams of any sender for its
 server's

---
 src/socket.rs | 85 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 57 insertions(+), 28 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 842eaf6..34aa476 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -178,6 +178,23 @@ impl RaknetSocket {
         }
     }
 
+    /// Receive the next datagram which comes from `peer` , anything other is ignored.
+    async fn recv_from_peer(
+        s: &UdpSocket,
+        buf: &mut [u8],
+        peer: &SocketAddr,
+    ) -> tokio::io::Result<usize> {
+        loop {
+            let (size, src) = s.recv_from(buf).await?;
+
+            // an answer to an unspecified address comes from a specified one
+            if src.port() == peer.port() && (src.ip() == peer.ip() || peer.ip().is_unspecified()) {
+                return Ok(size);
+            }
+            raknet_log_debug!("ignore {} bytes from {}", size, src);
+        }
+    }
+
     /// Connect to a Raknet server and return a Raknet socket
     ///
     /// # Example
@@ -210,7 +227,6 @@ impl RaknetSocket {
 
         let buf = write_packet_connection_open_request_1(&packet).unwrap();
 
-        let mut remote_addr: SocketAddr;
         let mut reply1_size: usize;
 
         let mut reply1_buf = [0u8; 2048];
@@ -224,9 +240,9 @@ impl RaknetSocket {
                     continue;
                 }
             };
-            let (size, src) = match match timeout(
+            let size = match match timeout(
                 std::time::Duration::from_secs(2),
-                s.recv_from(&mut reply1_buf),
+                RaknetSocket::recv_from_peer(&s, &mut reply1_buf, addr),
             )
             .await
             {
@@ -243,15 +259,20 @@ impl RaknetSocket {
                 }
             };
 
-            remote_addr = src;
+            if size == 0 {
+                raknet_log_debug!("empty reply1");
+                continue;
+            }
+
             reply1_size = size;
 
             if reply1_buf[0] != PacketID::OpenConnectionReply1.to_u8() {
                 if reply1_buf[0] == PacketID::IncompatibleProtocolVersion.to_u8() {
-                    let _packet = match read_packet_incompatible_protocol_version(&buf[..size]) {
-                        Ok(p) => p,
-                        Err(_) => return Err(RaknetError::NotSupportVersion),
-                    };
+                    let _packet =
+                        match read_packet_incompatible_protocol_version(&reply1_buf[..size]) {
+                            Ok(p) => p,
+                            Err(_) => return Err(RaknetError::NotSupportVersion),
+                        };
 
                     return Err(RaknetError::NotSupportVersion);
                 } else {
@@ -270,7 +291,7 @@ impl RaknetSocket {
 
         let packet = OpenConnectionRequest2 {
             magic: true,
-            address: remote_addr,
+            address: *addr,
             mtu: reply1.mtu_size,
             guid,
         };
@@ -288,21 +309,29 @@ impl RaknetSocket {
             };
 
             let mut buf = [0u8; 2048];
-            let (size, _) =
-                match match timeout(std::time::Duration::from_secs(2), s.recv_from(&mut buf)).await
-                {
-                    Ok(p) => p,
-                    Err(_) => {
-                        raknet_log_debug!("wait reply2 timeout");
-                        continue;
-                    }
-                } {
-                    Ok(p) => p,
-                    Err(e) => {
-                        raknet_log_error!("recvfrom error : {}", e);
-                        continue;
-                    }
-                };
+            let size = match match timeout(
+                std::time::Duration::from_secs(2),
+                RaknetSocket::recv_from_peer(&s, &mut buf, addr),
+            )
+            .await
+            {
+                Ok(p) => p,
+                Err(_) => {
+                    raknet_log_debug!("wait reply2 timeout");
+                    continue;
+                }
+            } {
+                Ok(p) => p,
+                Err(e) => {
+                    raknet_log_error!("recvfrom error : {}", e);
+                    continue;
+                }
+            };
+
+            if size == 0 {
+                raknet_log_debug!("empty reply2");
+                continue;
+            }
 
             if buf[0] == PacketID::OpenConnectionReply1.to_u8() {
                 raknet_log_debug!("repeat receive reply1");
@@ -352,9 +381,9 @@ impl RaknetSocket {
                 if connected_s.is_closed() {
                     break;
                 }
-                let (size, _) = match match timeout(
+                let size = match match timeout(
                     std::time::Duration::from_secs(10),
-                    recv_s.recv_from(&mut buf),
+                    RaknetSocket::recv_from_peer(&recv_s, &mut buf, &peer_addr),
                 )
                 .await
                 {
@@ -767,9 +796,9 @@ impl RaknetSocket {
 
             let mut buf = [0u8; 65536];
 
-            let (size, _) = match match tokio::time::timeout(
+            let size = match match tokio::time::timeout(
                 std::time::Duration::from_secs(5),
-                s.recv_from(&mut buf),
+                RaknetSocket::recv_from_peer(&s, &mut buf, addr),
             )
             .await
             {
-- 
2.43.0


From 4c4f3a760ef984f98218b6551c71668857ffd313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:49 +0000
Subject: [PATCH 06/42] fix: a motd set after listen() was never advertised

---
 src/server.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 17c0e43..9e3f508 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -17,7 +17,7 @@ type SessionSender = (i64, Sender<Vec<u8>>);
 
 /// Implementation of Raknet Server.
 pub struct RaknetListener {
-    motd: String,
+    motd: Arc<std::sync::Mutex<String>>,
     socket: Option<Arc<UdpSocket>>,
     guid: u64,
     listened: bool,
@@ -50,7 +50,7 @@ impl RaknetListener {
         let (connection_sender, connection_receiver) = channel::<RaknetSocket>(10);
 
         let ret = Self {
-            motd: String::new(),
+            motd: Arc::new(std::sync::Mutex::new(String::new())),
             socket: Some(Arc::new(s)),
             guid: rand::random(),
             listened: false,
@@ -88,7 +88,7 @@ impl RaknetListener {
         let (connection_sender, connection_receiver) = channel::<RaknetSocket>(10);
 
         let ret = Self {
-            motd: String::new(),
+            motd: Arc::new(std::sync::Mutex::new(String::new())),
             socket: Some(Arc::new(s)),
             guid: rand::random(),
             listened: false,
@@ -208,7 +208,7 @@ impl RaknetListener {
             return;
         }
 
-        if self.motd.is_empty() {
+        if self.get_motd().await.is_empty() {
             self.set_motd(
                 SERVER_NAME,
                 MAX_CONNECTION,
@@ -224,7 +224,7 @@ impl RaknetListener {
         let guid = self.guid;
         let sessions = self.sessions.clone();
         let connection_sender = self.connection_sender.clone();
-        let motd = self.get_motd().await;
+        let current_motd = self.motd.clone();
 
         self.listened = true;
 
@@ -242,7 +242,6 @@ impl RaknetListener {
             raknet_log_debug!("start listen worker : {}", local_addr);
 
             loop {
-                let motd = motd.clone();
                 let size: usize;
                 let addr: SocketAddr;
 
@@ -270,6 +269,8 @@ impl RaknetListener {
                     continue;
                 }
 
+                let motd = current_motd.lock().unwrap().clone();
+
                 let cur_status = match PacketID::from(buf[0]) {
                     Ok(p) => p,
                     Err(e) => {
@@ -529,7 +530,7 @@ impl RaknetListener {
         game_type: &str,
         port: u16,
     ) {
-        self.motd = format!(
+        *self.motd.lock().unwrap() = format!(
             "MCPE;{};{};{};0;{};{};Bedrock level;{};1;{};",
             server_name,
             mc_protocol_version,
@@ -549,7 +550,7 @@ impl RaknetListener {
     /// let motd = listener.get_motd().await;
     /// ```
     pub async fn get_motd(&self) -> String {
-        self.motd.clone()
+        self.motd.lock().unwrap().clone()
     }
 
     /// Returns the socket address of the local half of this Raknet connection.
@@ -597,7 +598,7 @@ impl RaknetListener {
     /// socket.set_full_motd("motd").await;
     /// ```
     pub fn set_full_motd(&mut self, motd: String) -> Result<()> {
-        self.motd = motd;
+        *self.motd.lock().unwrap() = motd;
         Ok(())
     }
 
-- 
2.43.0


From a86cf68bd8b239782f464447287c5b11f8c28420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:57 +0000
Subject: [PATCH 07/42] fix: IPv6 peers could not be reached

---
 src/datatype.rs |  4 +++-
 src/socket.rs   | 13 +++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/datatype.rs b/src/datatype.rs
index 9d984e2..b99e733 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -154,6 +154,7 @@ impl RaknetWriter {
             self.write_u16(address.port(), Endian::Big)?;
             Ok(())
         } else {
+            self.write_u8(0x6)?;
             self.write_i16(23, Endian::Little)?;
             self.write_u16(address.port(), Endian::Big)?;
             self.write_i32(0, Endian::Big)?;
@@ -315,7 +316,8 @@ impl RaknetReader {
             let port = self.read_u16(Endian::Big)?;
             Ok(SocketAddr::new(IpAddr::V4(ip), port))
         } else {
-            if self.buf.remaining() < 44 {
+            // family(2) port(2) flow info(4) ip(16) scope id(4)
+            if self.buf.remaining() < 28 {
                 return Err(RaknetError::ReadPacketBufferError);
             }
 
diff --git a/src/socket.rs b/src/socket.rs
index 34aa476..861e712 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -178,6 +178,15 @@ impl RaknetSocket {
         }
     }
 
+    /// Local address to bind to in order to reach `peer`
+    fn any_addr(peer: &SocketAddr) -> &'static str {
+        if peer.is_ipv4() {
+            "0.0.0.0:0"
+        } else {
+            "[::]:0"
+        }
+    }
+
     /// Receive the next datagram which comes from `peer` , anything other is ignored.
     async fn recv_from_peer(
         s: &UdpSocket,
@@ -214,7 +223,7 @@ impl RaknetSocket {
     pub async fn connect_with_version(addr: &SocketAddr, raknet_version: u8) -> Result<Self> {
         let guid: u64 = rand::random();
 
-        let s = match UdpSocket::bind("0.0.0.0:0").await {
+        let s = match UdpSocket::bind(RaknetSocket::any_addr(addr)).await {
             Ok(p) => p,
             Err(_) => return Err(RaknetError::BindAdressError),
         };
@@ -768,7 +777,7 @@ impl RaknetSocket {
     /// assert!((0..10).contains(&latency));
     /// ```
     pub async fn ping(addr: &SocketAddr) -> Result<(i64, String)> {
-        let s = match UdpSocket::bind("0.0.0.0:0").await {
+        let s = match UdpSocket::bind(RaknetSocket::any_addr(addr)).await {
             Ok(p) => p,
             Err(_) => return Err(RaknetError::BindAdressError),
         };
-- 
2.43.0


From 6d28118a86c506371ba223c0c9b4b0f712f08263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:18 +0000
Subject: [PATCH 08/42] fix: closing a listener which never listened hung

---
 src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 9e3f508..568a5de 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -576,7 +576,10 @@ impl RaknetListener {
             return Ok(());
         }
         self.close_notifier.close();
-        self.all_session_closed_notifier.notified().await;
+        // without listen() there is no session collecter to wait for
+        if self.listened {
+            self.all_session_closed_notifier.notified().await;
+        }
 
         // wait all thread exit and drop socket pointer.
         while Arc::strong_count(self.socket.as_ref().unwrap()) != 1 {
-- 
2.43.0


From 886b6e64feaf68a472480fb3bc4d4e5d8e02bb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 09/42] fix: local_addr() panicked on a closed listener

---
 src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 568a5de..44f68f1 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -561,7 +561,10 @@ impl RaknetListener {
     /// assert_eq!(socket.local_addr().unwrap().ip(), IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1)));
     /// ```
     pub fn local_addr(&self) -> Result<SocketAddr> {
-        Ok(self.socket.as_ref().unwrap().local_addr().unwrap())
+        match &self.socket {
+            Some(s) => Ok(s.local_addr().unwrap()),
+            None => Err(RaknetError::NotListen),
+        }
     }
 
     /// Close Raknet Server and all connections.
-- 
2.43.0


From 3bf808280524fdf72e6ed09722ab347f7e08dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 10/42] fix: send() panicked when the connection was closed
 meanwhile

---
 src/socket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index 861e712..bdc4807 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -874,7 +874,7 @@ impl RaknetSocket {
                     self.loss_rate.load(Ordering::Relaxed),
                 ))
                 .await
-                .unwrap();
+                .map_err(|_| RaknetError::ConnectionClosed)?;
         }
         Ok(())
     }
-- 
2.43.0


From f44be57293ef8fae3a52f37d899d7002a15c5869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:04 +0000
Subject: [PATCH 11/42] fix: a malformed datagram killed the connection's
 receiver

---
 src/arq.rs    | 24 ++++++++++++------------
 src/socket.rs | 40 ++++++++++++++++++++++++++++++++--------
 2 files changed, 44 insertions(+), 20 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 026cbbf..18ecd90 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -277,8 +277,8 @@ impl FrameVec {
 
         let mut reader = RaknetReader::new(buf);
 
-        ret.id = reader.read_u8().unwrap();
-        ret.sequence_number = reader.read_u24(Endian::Little).unwrap();
+        ret.id = reader.read_u8()?;
+        ret.sequence_number = reader.read_u24(Endian::Little)?;
 
         while reader.pos() < size.try_into().unwrap() {
             let mut frame = FrameSetPacket {
@@ -298,32 +298,32 @@ impl FrameVec {
 
             //Top 3 bits are reliability type
             //224 = 1110 0000(b)
-            frame.flags = reader.read_u8().unwrap();
+            frame.flags = reader.read_u8()?;
 
-            frame.length_in_bytes = reader.read_u16(Endian::Big).unwrap() / 8;
+            frame.length_in_bytes = reader.read_u16(Endian::Big)? / 8;
 
             if frame.is_reliable()? {
-                frame.reliable_frame_index = reader.read_u24(Endian::Little).unwrap();
+                frame.reliable_frame_index = reader.read_u24(Endian::Little)?;
             }
 
             if frame.is_sequenced()? {
-                frame.sequenced_frame_index = reader.read_u24(Endian::Little).unwrap();
+                frame.sequenced_frame_index = reader.read_u24(Endian::Little)?;
             }
             if frame.is_ordered()? {
-                frame.ordered_frame_index = reader.read_u24(Endian::Little).unwrap();
-                frame.order_channel = reader.read_u8().unwrap();
+                frame.ordered_frame_index = reader.read_u24(Endian::Little)?;
+                frame.order_channel = reader.read_u8()?;
             }
 
             //fourth bit is 1 when the frame is fragmented and part of a compound.
             //flags and 16 [0001 0000(b)] == if fragmented
             if (frame.flags & 16) != 0 {
-                frame.compound_size = reader.read_u32(Endian::Big).unwrap();
-                frame.compound_id = reader.read_u16(Endian::Big).unwrap();
-                frame.fragment_index = reader.read_u32(Endian::Big).unwrap();
+                frame.compound_size = reader.read_u32(Endian::Big)?;
+                frame.compound_id = reader.read_u16(Endian::Big)?;
+                frame.fragment_index = reader.read_u32(Endian::Big)?;
             }
 
             let mut buf = vec![0u8; frame.length_in_bytes as usize].into_boxed_slice();
-            reader.read(&mut buf).unwrap();
+            reader.read(&mut buf)?;
             frame.data.append(&mut buf.to_vec());
             ret.frames.push(frame);
         }
diff --git a/src/socket.rs b/src/socket.rs
index bdc4807..3e196e6 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -83,6 +83,10 @@ impl RaknetSocket {
         user_data_sender: &Sender<Vec<u8>>,
         incomming_notify: &Notify,
     ) -> Result<bool> {
+        if frame.data.is_empty() {
+            return Err(RaknetError::PacketParseError);
+        }
+
         match PacketID::from(frame.data[0])? {
             PacketID::ConnectionRequest => {
                 let packet = read_packet_connection_request(frame.data.as_slice())?;
@@ -475,7 +479,7 @@ impl RaknetSocket {
                 if connected.is_closed() {
                     let mut recvq = recvq.lock().await;
                     for f in recvq.flush(&peer_addr) {
-                        RaknetSocket::handle(
+                        if RaknetSocket::handle(
                             &f,
                             &peer_addr,
                             &local_addr,
@@ -484,7 +488,10 @@ impl RaknetSocket {
                             &incomming_notify,
                         )
                         .await
-                        .unwrap();
+                        .is_err()
+                        {
+                            raknet_log_debug!("ignore invalid frame from {}", peer_addr);
+                        }
                     }
                     break;
                 }
@@ -500,7 +507,12 @@ impl RaknetSocket {
 
                 last_heartbeat_time.store(cur_timestamp_millis(), Ordering::Relaxed);
 
-                if PacketID::from(buf[0]).unwrap() == PacketID::Disconnect {
+                if buf.is_empty() {
+                    raknet_log_debug!("empty datagram from {}", peer_addr);
+                    continue;
+                }
+
+                if buf[0] == PacketID::Disconnect.to_u8() {
                     connected.close();
                     break;
                 }
@@ -508,7 +520,10 @@ impl RaknetSocket {
                 if buf[0] == PacketID::Ack.to_u8() {
                     //handle ack
                     let mut sendq = sendq.write().await;
-                    let ack = read_packet_ack(&buf).unwrap();
+                    let ack = match read_packet_ack(&buf) {
+                        Ok(p) => p,
+                        Err(_) => continue,
+                    };
                     for i in 0..ack.record_count {
                         if ack.sequences[i as usize].0 == ack.sequences[i as usize].1 {
                             sendq.ack(ack.sequences[i as usize].0, cur_timestamp_millis());
@@ -523,7 +538,10 @@ impl RaknetSocket {
 
                 if buf[0] == PacketID::Nack.to_u8() {
                     //handle nack
-                    let nack = read_packet_nack(&buf).unwrap();
+                    let nack = match read_packet_nack(&buf) {
+                        Ok(p) => p,
+                        Err(_) => continue,
+                    };
 
                     let mut sendq = sendq.write().await;
 
@@ -544,14 +562,20 @@ impl RaknetSocket {
                 if buf[0] >= PacketID::FrameSetPacketBegin.to_u8()
                     && buf[0] <= PacketID::FrameSetPacketEnd.to_u8()
                 {
-                    let frames = FrameVec::new(buf.clone()).unwrap();
+                    let frames = match FrameVec::new(buf.clone()) {
+                        Ok(p) => p,
+                        Err(_) => continue,
+                    };
 
                     let mut recvq = recvq.lock().await;
                     let mut is_break = false;
                     for frame in frames.frames {
-                        recvq.insert(frame).unwrap();
+                        if recvq.insert(frame).is_err() {
+                            continue;
+                        }
 
                         for f in recvq.flush(&peer_addr) {
+                            // an invalid frame is ignored
                             if !RaknetSocket::handle(
                                 &f,
                                 &peer_addr,
@@ -561,7 +585,7 @@ impl RaknetSocket {
                                 &incomming_notify,
                             )
                             .await
-                            .unwrap()
+                            .unwrap_or(true)
                             {
                                 raknet_log_info!("handle over");
                                 connected.close();
-- 
2.43.0


From c193e3bd9bdcd1b93fb2a05957a0d653fa84936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:10 +0000
Subject: [PATCH 12/42] fix: a fragment of a compound of size 0 killed the
 receiver

---
 src/fragment.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fragment.rs b/src/fragment.rs
index 64baea3..ca39a3e 100644
--- a/src/fragment.rs
+++ b/src/fragment.rs
@@ -68,6 +68,11 @@ impl FragmentQ {
     }
 
     pub fn insert(&mut self, frame: FrameSetPacket) {
+        // a compound of no fragments would be full before its first fragment
+        if frame.compound_size == 0 {
+            return;
+        }
+
         if self.fragments.contains_key(&frame.compound_id) {
             self.fragments
                 .get_mut(&frame.compound_id)
-- 
2.43.0


From dcaa1d8c9c010bbd935aad1868890fc121ed436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:47 +0000
Subject: [PATCH 13/42] fix: a NACK delayed the retransmission it asks for

---
 src/arq.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 18ecd90..9607999 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -744,8 +744,9 @@ impl SendQ {
                 );
                 item.0.sequence_number = self.sequence_number;
                 self.sequence_number += 1;
+                // resend it with the next flush
+                item.1 = false;
                 item.2 = tick;
-                item.3 += 1;
                 item.4.push(item.0.sequence_number);
             }
         }
@@ -786,12 +787,18 @@ impl SendQ {
             // while rust-raknet it is not x2, but x1.5 (Experimental results show that the value of 1.5 is relatively good), which has improved the transmission speed.
             for _ in 0..p.3 {
                 cur_rto = (cur_rto as f64 * 1.5) as i64;
+                if cur_rto >= SendQ::RTO_UBOUND {
+                    cur_rto = SendQ::RTO_UBOUND;
+                    break;
+                }
             }
 
             if p.1 && tick - p.2 >= cur_rto {
                 p.0.sequence_number = self.sequence_number;
                 self.sequence_number += 1;
                 p.1 = false;
+                // only a timeout backs off, not a retransmission the peer asked for
+                p.3 += 1;
                 p.4.push(p.0.sequence_number);
             }
         }
@@ -820,7 +827,6 @@ impl SendQ {
                     ret.push(p.0.clone());
                     p.1 = true;
                     p.2 = tick;
-                    p.3 += 1;
                 }
             }
             return ret;
-- 
2.43.0


From 810f302a7f185ea368837128e3feee004ae1fd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:24 +0000
Subject: [PATCH 14/42] fix: an ACK or NACK of a huge range stalled the
 connection

---
 src/arq.rs    | 49 +++++++++++++++++++++++++++++++++++++++++++++----
 src/socket.rs | 19 ++++---------------
 2 files changed, 49 insertions(+), 19 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 9607999..66805f0 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -753,10 +753,16 @@ impl SendQ {
     }
 
     pub fn ack(&mut self, sequence: u32, tick: i64) {
-        if sequence != 0 && sequence != self.ack_sequence_number + 1 {
-            for i in self.ack_sequence_number + 1..sequence {
-                self.nack(i, tick);
-            }
+        // only what is outstanding can be resent, however wide the gap is
+        let gap: Vec<u32> = self
+            .sent_packet
+            .iter()
+            .map(|x| x.0.sequence_number)
+            .filter(|x| *x > self.ack_sequence_number && *x < sequence)
+            .collect();
+
+        for i in gap {
+            self.nack(i, tick);
         }
 
         self.ack_sequence_number = sequence;
@@ -777,6 +783,41 @@ impl SendQ {
         }
     }
 
+    /// The peer received all of first..=last
+    pub fn ack_range(&mut self, first: u32, last: u32, tick: i64) {
+        // nobody can receive what was not sent yet
+        if first > last || last >= self.sequence_number {
+            return;
+        }
+
+        let mut outstanding: Vec<u32> = self
+            .sent_packet
+            .iter()
+            .flat_map(|x| x.4.iter().cloned())
+            .filter(|x| *x >= first && *x < last)
+            .collect();
+        outstanding.sort_unstable();
+
+        for i in outstanding {
+            self.ack(i, tick);
+        }
+        self.ack(last, tick);
+    }
+
+    /// The peer misses all of first..=last
+    pub fn nack_range(&mut self, first: u32, last: u32, tick: i64) {
+        let outstanding: Vec<u32> = self
+            .sent_packet
+            .iter()
+            .map(|x| x.0.sequence_number)
+            .filter(|x| *x >= first && *x <= last)
+            .collect();
+
+        for i in outstanding {
+            self.nack(i, tick);
+        }
+    }
+
     fn tick(&mut self, tick: i64) {
         for i in 0..self.sent_packet.len() {
             let p = &mut self.sent_packet[i];
diff --git a/src/socket.rs b/src/socket.rs
index 3e196e6..bec6682 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -525,13 +525,8 @@ impl RaknetSocket {
                         Err(_) => continue,
                     };
                     for i in 0..ack.record_count {
-                        if ack.sequences[i as usize].0 == ack.sequences[i as usize].1 {
-                            sendq.ack(ack.sequences[i as usize].0, cur_timestamp_millis());
-                        } else {
-                            for i in ack.sequences[i as usize].0..ack.sequences[i as usize].1 + 1 {
-                                sendq.ack(i, cur_timestamp_millis());
-                            }
-                        }
+                        let (first, last) = ack.sequences[i as usize];
+                        sendq.ack_range(first, last, cur_timestamp_millis());
                     }
                     continue;
                 }
@@ -546,14 +541,8 @@ impl RaknetSocket {
                     let mut sendq = sendq.write().await;
 
                     for i in 0..nack.record_count {
-                        if nack.sequences[i as usize].0 == nack.sequences[i as usize].1 {
-                            sendq.nack(nack.sequences[i as usize].0, cur_timestamp_millis());
-                        } else {
-                            for i in nack.sequences[i as usize].0..nack.sequences[i as usize].1 + 1
-                            {
-                                sendq.nack(i, cur_timestamp_millis());
-                            }
-                        }
+                        let (first, last) = nack.sequences[i as usize];
+                        sendq.nack_range(first, last, cur_timestamp_millis());
                     }
                     continue;
                 }
-- 
2.43.0


From fac9c7149b428b6a09b4ad6c59024f6e02a8de64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:29 +0000
Subject: [PATCH 15/42] fix: the 65536th fragmented message could not be sent

---
 src/arq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arq.rs b/src/arq.rs
index 66805f0..9472c3a 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -684,7 +684,7 @@ impl SendQ {
                         self.packets.push(frame);
                         self.reliable_frame_index += 1;
                     }
-                    self.compound_id += 1;
+                    self.compound_id = self.compound_id.wrapping_add(1);
                     self.ordered_frame_index += 1;
                 }
             }
-- 
2.43.0


From 45c55a8fa581acb26c9262cbcc9199efa54692d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:16 +0000
Subject: [PATCH 16/42] fix: a connection stalled when a 24-bit number wrapped

---
 src/arq.rs   | 77 ++++++++++++++++++++++++++--------------------------
 src/utils.rs | 13 +++++++++
 2 files changed, 52 insertions(+), 38 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 9472c3a..eb392a6 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -396,14 +396,19 @@ impl ACKSet {
         }
     }
     pub fn insert(&mut self, s: u32) {
-        if s != 0 {
-            if s > self.last_max && s != self.last_max + 1 {
-                self.nack.push((self.last_max + 1, s - 1));
+        if u24_before(self.last_max, s) {
+            if u24_distance(self.last_max, s) != 1 {
+                let first = (self.last_max + 1) & U24_MASK;
+                let last = s.wrapping_sub(1) & U24_MASK;
+                if first <= last {
+                    self.nack.push((first, last));
+                } else {
+                    self.nack.push((first, U24_MASK));
+                    self.nack.push((0, last));
+                }
             }
 
-            if s > self.last_max {
-                self.last_max = s;
-            }
+            self.last_max = s;
         }
 
         for i in 0..self.ack.len() {
@@ -472,12 +477,12 @@ impl RecvQ {
             // because the new packet represents the new state, and the new state can be used directly, without waiting for the old packet to arrive.
             Reliability::UnreliableSequenced => {
                 let sequenced_frame_index = frame.sequenced_frame_index;
-                if sequenced_frame_index >= self.sequenced_frame_index {
+                if !u24_before(sequenced_frame_index, self.sequenced_frame_index) {
                     if let std::collections::hash_map::Entry::Vacant(e) =
                         self.packets.entry(frame.sequence_number)
                     {
                         e.insert(frame);
-                        self.sequenced_frame_index = sequenced_frame_index + 1;
+                        self.sequenced_frame_index = (sequenced_frame_index + 1) & U24_MASK;
                     }
                 }
             }
@@ -488,7 +493,7 @@ impl RecvQ {
             // RELIABLE_ORDERED - 1, 2, 3, 4, 5, 6
             Reliability::ReliableOrdered => {
                 // if remote host not received ack , and local program has flush ordered packet. recvq will insert old packet caused memory leak.
-                if frame.ordered_frame_index < self.last_ordered_index {
+                if u24_before(frame.ordered_frame_index, self.last_ordered_index) {
                     return Ok(());
                 }
 
@@ -509,12 +514,12 @@ impl RecvQ {
             // RELIABLE_SEQUENCED - 5, 6 (1,2,3,4 arrived later than 5)
             Reliability::ReliableSequenced => {
                 let sequenced_frame_index = frame.sequenced_frame_index;
-                if sequenced_frame_index >= self.sequenced_frame_index {
+                if !u24_before(sequenced_frame_index, self.sequenced_frame_index) {
                     if let std::collections::hash_map::Entry::Vacant(e) =
                         self.packets.entry(frame.sequence_number)
                     {
                         e.insert(frame);
-                        self.sequenced_frame_index = sequenced_frame_index + 1;
+                        self.sequenced_frame_index = (sequenced_frame_index + 1) & U24_MASK;
                     }
                 }
             }
@@ -532,18 +537,10 @@ impl RecvQ {
 
     pub fn flush(&mut self, _peer_addr: &SocketAddr) -> Vec<FrameSetPacket> {
         let mut ret = vec![];
-        let mut ordered_keys: Vec<u32> = self.ordered_packets.keys().cloned().collect();
-
-        ordered_keys.sort_unstable();
-
-        for i in ordered_keys {
-            if i == self.last_ordered_index {
-                let frame = self.ordered_packets[&i].clone();
-                ret.push(frame);
-                self.ordered_packets.remove(&i);
-                //raknet_log!("{} : received ordered [{}]" , peer_addr ,self.last_ordered_index);
-                self.last_ordered_index = i + 1;
-            }
+        while let Some(frame) = self.ordered_packets.remove(&self.last_ordered_index) {
+            ret.push(frame);
+            //raknet_log!("{} : received ordered [{}]" , peer_addr ,self.last_ordered_index);
+            self.last_ordered_index = (self.last_ordered_index + 1) & U24_MASK;
         }
 
         let mut packets_keys: Vec<u32> = self.packets.keys().cloned().collect();
@@ -635,7 +632,7 @@ impl SendQ {
                 frame.ordered_frame_index = self.ordered_frame_index;
                 frame.sequenced_frame_index = self.sequenced_frame_index;
                 self.packets.push(frame);
-                self.sequenced_frame_index += 1;
+                self.sequenced_frame_index = (self.sequenced_frame_index + 1) & U24_MASK;
             }
             Reliability::Reliable => {
                 // 60 = max framesetpacket length(27) + udp overhead(28) + 5 ext
@@ -646,7 +643,7 @@ impl SendQ {
                 let mut frame = FrameSetPacket::new(reliability, buf.to_vec());
                 frame.reliable_frame_index = self.reliable_frame_index;
                 self.packets.push(frame);
-                self.reliable_frame_index += 1;
+                self.reliable_frame_index = (self.reliable_frame_index + 1) & U24_MASK;
             }
             Reliability::ReliableOrdered => {
                 // 60 = max framesetpacket length(27) + udp overhead(28) + 5 ext
@@ -655,8 +652,8 @@ impl SendQ {
                     frame.reliable_frame_index = self.reliable_frame_index;
                     frame.ordered_frame_index = self.ordered_frame_index;
                     self.packets.push(frame);
-                    self.reliable_frame_index += 1;
-                    self.ordered_frame_index += 1;
+                    self.reliable_frame_index = (self.reliable_frame_index + 1) & U24_MASK;
+                    self.ordered_frame_index = (self.ordered_frame_index + 1) & U24_MASK;
                 } else {
                     let max = (self.mtu - 60) as usize;
                     let mut compound_size = buf.len() / max;
@@ -682,10 +679,10 @@ impl SendQ {
                         frame.reliable_frame_index = self.reliable_frame_index;
                         frame.ordered_frame_index = self.ordered_frame_index;
                         self.packets.push(frame);
-                        self.reliable_frame_index += 1;
+                        self.reliable_frame_index = (self.reliable_frame_index + 1) & U24_MASK;
                     }
                     self.compound_id = self.compound_id.wrapping_add(1);
-                    self.ordered_frame_index += 1;
+                    self.ordered_frame_index = (self.ordered_frame_index + 1) & U24_MASK;
                 }
             }
             Reliability::ReliableSequenced => {
@@ -701,8 +698,8 @@ impl SendQ {
                 // https://wiki.vg/Raknet_Protocol
                 frame.ordered_frame_index = self.ordered_frame_index;
                 self.packets.push(frame);
-                self.reliable_frame_index += 1;
-                self.sequenced_frame_index += 1;
+                self.reliable_frame_index = (self.reliable_frame_index + 1) & U24_MASK;
+                self.sequenced_frame_index = (self.sequenced_frame_index + 1) & U24_MASK;
             }
         };
         Ok(())
@@ -743,7 +740,7 @@ impl SendQ {
                     item.3 + 1
                 );
                 item.0.sequence_number = self.sequence_number;
-                self.sequence_number += 1;
+                self.sequence_number = (self.sequence_number + 1) & U24_MASK;
                 // resend it with the next flush
                 item.1 = false;
                 item.2 = tick;
@@ -758,14 +755,16 @@ impl SendQ {
             .sent_packet
             .iter()
             .map(|x| x.0.sequence_number)
-            .filter(|x| *x > self.ack_sequence_number && *x < sequence)
+            .filter(|x| u24_before(self.ack_sequence_number, *x) && u24_before(*x, sequence))
             .collect();
 
         for i in gap {
             self.nack(i, tick);
         }
 
-        self.ack_sequence_number = sequence;
+        if u24_before(self.ack_sequence_number, sequence) {
+            self.ack_sequence_number = sequence;
+        }
 
         let mut rtts = vec![];
 
@@ -786,7 +785,7 @@ impl SendQ {
     /// The peer received all of first..=last
     pub fn ack_range(&mut self, first: u32, last: u32, tick: i64) {
         // nobody can receive what was not sent yet
-        if first > last || last >= self.sequence_number {
+        if first > last || !u24_before(last, self.sequence_number) {
             return;
         }
 
@@ -836,7 +835,7 @@ impl SendQ {
 
             if p.1 && tick - p.2 >= cur_rto {
                 p.0.sequence_number = self.sequence_number;
-                self.sequence_number += 1;
+                self.sequence_number = (self.sequence_number + 1) & U24_MASK;
                 p.1 = false;
                 // only a timeout backs off, not a retransmission the peer asked for
                 p.3 += 1;
@@ -851,8 +850,10 @@ impl SendQ {
         let mut ret = vec![];
 
         if !self.sent_packet.is_empty() {
+            // oldest first
+            let next = self.sequence_number;
             self.sent_packet
-                .sort_by(|x, y| x.0.sequence_number.cmp(&y.0.sequence_number));
+                .sort_by_key(|x| std::cmp::Reverse(u24_distance(x.0.sequence_number, next)));
 
             for i in 0..self.sent_packet.len() {
                 let p = &mut self.sent_packet[i];
@@ -876,7 +877,7 @@ impl SendQ {
         if !self.packets.is_empty() {
             for i in 0..self.packets.len() {
                 self.packets[i].sequence_number = self.sequence_number;
-                self.sequence_number += 1;
+                self.sequence_number = (self.sequence_number + 1) & U24_MASK;
                 ret.push(self.packets[i].clone());
                 if self.packets[i].is_reliable().unwrap() {
                     self.sent_packet.push((
diff --git a/src/utils.rs b/src/utils.rs
index 07d349e..600991b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -5,6 +5,19 @@ pub const RAKNET_CLIENT_MTU: u16 = 1400;
 
 pub const RECEIVE_TIMEOUT: i64 = 60000;
 
+/// Sequence numbers and frame indexes are 24 bits wide and wrap around
+pub const U24_MASK: u32 = 0xff_ffff;
+
+/// How far `b` lies ahead of `a`
+pub fn u24_distance(a: u32, b: u32) -> u32 {
+    b.wrapping_sub(a) & U24_MASK
+}
+
+/// Whether `a` comes before `b`
+pub fn u24_before(a: u32, b: u32) -> bool {
+    a != b && u24_distance(a, b) <= U24_MASK / 2
+}
+
 pub enum Endian {
     Big,
     Little,
-- 
2.43.0


From da83f3968a31385c0feb9fff550e04cd44c9d6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:39 +0000
Subject: [PATCH 17/42] fix: NACKs of many gaps exceeded the MTU

---
 src/arq.rs    |  6 ++++++
 src/socket.rs | 11 +++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index eb392a6..ce95e73 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -609,6 +609,12 @@ impl SendQ {
         }
     }
 
+    /// How many ranges an ACK or NACK datagram can carry
+    pub fn max_ack_ranges(&self) -> usize {
+        // 28 = udp overhead , 3 = packet id and record count , 7 = single range
+        ((self.mtu as usize).saturating_sub(28 + 3) / 7).max(1)
+    }
+
     pub fn insert(&mut self, reliability: Reliability, buf: &[u8]) -> Result<()> {
         match reliability {
             Reliability::Unreliable => {
diff --git a/src/socket.rs b/src/socket.rs
index bec6682..4a7fbeb 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -590,10 +590,12 @@ impl RaknetSocket {
                     //flush ack
                     let acks = recvq.get_ack();
 
-                    if !acks.is_empty() {
+                    let max_ranges = sendq.read().await.max_ack_ranges();
+
+                    for acks in acks.chunks(max_ranges) {
                         let packet = Ack {
                             record_count: acks.len() as u16,
-                            sequences: acks,
+                            sequences: acks.to_vec(),
                         };
 
                         let buf = write_packet_ack(&packet).unwrap();
@@ -674,10 +676,11 @@ impl RaknetSocket {
                 // flush nack
                 let mut recvq = recvq.lock().await;
                 let nacks = recvq.get_nack();
-                if !nacks.is_empty() {
+                let max_ranges = sendq.read().await.max_ack_ranges();
+                for nacks in nacks.chunks(max_ranges) {
                     let nack = Nack {
                         record_count: nacks.len() as u16,
-                        sequences: nacks,
+                        sequences: nacks.to_vec(),
                     };
 
                     let buf = write_packet_nack(&nack).unwrap();
-- 
2.43.0


From 6ef8c62299ea9d1c0b9878e79f12907831ca5821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:01 +0000
Subject: [PATCH 18/42] fix: an absurd MTU from the peer broke the connection

---
 src/server.rs |  5 +++--
 src/socket.rs | 10 +++++++---
 src/utils.rs  |  4 ++++
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 44f68f1..39713cf 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -389,12 +389,13 @@ impl RaknetListener {
                             Ok(p) => p,
                             Err(_) => continue,
                         };
+                        let mtu = req.mtu.clamp(RAKNET_MIN_MTU, RAKNET_MAX_MTU);
 
                         let packet = crate::packet::OpenConnectionReply2 {
                             magic: true,
                             guid,
                             address: addr,
-                            mtu: req.mtu,
+                            mtu,
                             encryption_enabled: 0x00,
                         };
 
@@ -443,7 +444,7 @@ impl RaknetListener {
                             &addr,
                             &socket,
                             receiver,
-                            req.mtu,
+                            mtu,
                             collect_sender.clone(),
                             raknet_version,
                         )
diff --git a/src/socket.rs b/src/socket.rs
index 4a7fbeb..b247a4e 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -302,10 +302,12 @@ impl RaknetSocket {
             Err(_) => return Err(RaknetError::PacketParseError),
         };
 
+        let mut mtu = reply1.mtu_size.clamp(RAKNET_MIN_MTU, RAKNET_MAX_MTU);
+
         let packet = OpenConnectionRequest2 {
             magic: true,
             address: *addr,
-            mtu: reply1.mtu_size,
+            mtu,
             guid,
         };
 
@@ -356,15 +358,17 @@ impl RaknetSocket {
                 continue;
             }
 
-            let _reply2 = match read_packet_connection_open_reply_2(&buf[..size]) {
+            let reply2 = match read_packet_connection_open_reply_2(&buf[..size]) {
                 Ok(p) => p,
                 Err(_) => return Err(RaknetError::PacketParseError),
             };
 
+            // the server has the last word, within what was asked for
+            mtu = reply2.mtu.clamp(RAKNET_MIN_MTU, mtu);
             break;
         }
 
-        let sendq = Arc::new(RwLock::new(SendQ::new(reply1.mtu_size)));
+        let sendq = Arc::new(RwLock::new(SendQ::new(mtu)));
 
         let packet = ConnectionRequest {
             guid,
diff --git a/src/utils.rs b/src/utils.rs
index 600991b..0e26673 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -3,6 +3,10 @@ pub const RAKNET_PROTOCOL_VERSION_LIST: [u8; 2] = [10, 11];
 //the MTU is minecraft bedrock 1.18.2 give me
 pub const RAKNET_CLIENT_MTU: u16 = 1400;
 
+// what a peer asks for or offers is kept within these bounds
+pub const RAKNET_MIN_MTU: u16 = 400;
+pub const RAKNET_MAX_MTU: u16 = 1492;
+
 pub const RECEIVE_TIMEOUT: i64 = 60000;
 
 /// Sequence numbers and frame indexes are 24 bits wide and wrap around
-- 
2.43.0


From f1e7926512c6c75e0c2abe88c4a9121ecb5a2cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:43 +0000
Subject: [PATCH 19/42] fix: fragments of unordered messages were delivered as
 messages

---
 src/arq.rs      | 37 ++++++++++++++++++++++++-------------
 src/fragment.rs |  5 ++++-
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index ce95e73..9fbf308 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -466,6 +466,27 @@ impl RecvQ {
 
         self.sequence_number_ackset.insert(frame.sequence_number);
 
+        // a message of any reliability can be split
+        if frame.is_fragment() {
+            // fragments of an already delivered ordered message are never completed again
+            if matches!(frame.reliability()?, Reliability::ReliableOrdered)
+                && u24_before(frame.ordered_frame_index, self.last_ordered_index)
+            {
+                return Ok(());
+            }
+
+            self.fragment_queue.insert(frame);
+
+            for i in self.fragment_queue.flush()? {
+                self.insert_message(i)?;
+            }
+            return Ok(());
+        }
+
+        self.insert_message(frame)
+    }
+
+    fn insert_message(&mut self, frame: FrameSetPacket) -> Result<()> {
         //The fourth parameter takes one of five major values. Lets say you send data 1,2,3,4,5,6. Here's the order and substance of what you might get back:
         match frame.reliability()? {
             // UNRELIABLE - 5, 1, 6
@@ -497,19 +518,9 @@ impl RecvQ {
                     return Ok(());
                 }
 
-                if frame.is_fragment() {
-                    self.fragment_queue.insert(frame);
-
-                    for i in self.fragment_queue.flush()? {
-                        self.ordered_packets
-                            .entry(i.ordered_frame_index)
-                            .or_insert(i);
-                    }
-                } else {
-                    self.ordered_packets
-                        .entry(frame.ordered_frame_index)
-                        .or_insert(frame);
-                }
+                self.ordered_packets
+                    .entry(frame.ordered_frame_index)
+                    .or_insert(frame);
             }
             // RELIABLE_SEQUENCED - 5, 6 (1,2,3,4 arrived later than 5)
             Reliability::ReliableSequenced => {
diff --git a/src/fragment.rs b/src/fragment.rs
index ca39a3e..4464455 100644
--- a/src/fragment.rs
+++ b/src/fragment.rs
@@ -42,7 +42,9 @@ impl Fragment {
 
         keys.sort_unstable();
 
-        let sequence_number = self.frames[keys.last().unwrap()].sequence_number;
+        let last_frame = &self.frames[keys.last().unwrap()];
+        let sequence_number = last_frame.sequence_number;
+        let sequenced_frame_index = last_frame.sequenced_frame_index;
 
         for i in keys {
             buf.append(&mut self.frames[&i].data.clone());
@@ -52,6 +54,7 @@ impl Fragment {
 
         ret.ordered_frame_index = self.ordered_frame_index;
         ret.sequence_number = sequence_number;
+        ret.sequenced_frame_index = sequenced_frame_index;
         Ok(ret)
     }
 }
-- 
2.43.0


From fcc57df3e0ff138dbb9046c4791948d88f09fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:53 +0000
Subject: [PATCH 20/42] fix: retransmitted reliable messages were delivered
 twice

---
 src/arq.rs    | 46 +++++++++++++++++++++++++++++++++++++++++++++-
 src/socket.rs |  4 ++++
 2 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/arq.rs b/src/arq.rs
index 9fbf308..c5e7a43 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -1,4 +1,7 @@
-use std::{collections::HashMap, net::SocketAddr};
+use std::{
+    collections::{HashMap, HashSet},
+    net::SocketAddr,
+};
 
 use crate::{datatype::*, error::*, fragment::FragmentQ, raknet_log_debug, utils::*};
 
@@ -438,7 +441,37 @@ impl ACKSet {
     }
 }
 
+/// Remembers which reliable frames were received
+struct ReliableWindow {
+    // everything before was received
+    next: u32,
+    // received ahead of next
+    ahead: HashSet<u32>,
+}
+
+impl ReliableWindow {
+    fn new() -> Self {
+        Self {
+            next: 0,
+            ahead: HashSet::new(),
+        }
+    }
+
+    // false if the frame was received before
+    fn insert(&mut self, index: u32) -> bool {
+        if u24_before(index, self.next) || !self.ahead.insert(index) {
+            return false;
+        }
+
+        while self.ahead.remove(&self.next) {
+            self.next = (self.next + 1) & U24_MASK;
+        }
+        true
+    }
+}
+
 pub struct RecvQ {
+    reliable_window: ReliableWindow,
     sequenced_frame_index: u32,
     last_ordered_index: u32,
     sequence_number_ackset: ACKSet,
@@ -450,6 +483,7 @@ pub struct RecvQ {
 impl RecvQ {
     pub fn new() -> Self {
         Self {
+            reliable_window: ReliableWindow::new(),
             sequence_number_ackset: ACKSet::new(),
             packets: HashMap::new(),
             fragment_queue: FragmentQ::new(),
@@ -459,6 +493,16 @@ impl RecvQ {
         }
     }
 
+    /// Whether a reliable frame was received before, a repeated frame is only acked again.
+    pub fn is_repeated(&mut self, frame: &FrameSetPacket) -> Result<bool> {
+        if !frame.is_reliable()? || self.reliable_window.insert(frame.reliable_frame_index) {
+            return Ok(false);
+        }
+
+        self.sequence_number_ackset.insert(frame.sequence_number);
+        Ok(true)
+    }
+
     pub fn insert(&mut self, frame: FrameSetPacket) -> Result<()> {
         if self.packets.contains_key(&frame.sequence_number) {
             return Ok(());
diff --git a/src/socket.rs b/src/socket.rs
index b247a4e..a83c44d 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -563,6 +563,10 @@ impl RaknetSocket {
                     let mut recvq = recvq.lock().await;
                     let mut is_break = false;
                     for frame in frames.frames {
+                        if recvq.is_repeated(&frame).unwrap_or(true) {
+                            continue;
+                        }
+
                         if recvq.insert(frame).is_err() {
                             continue;
                         }
-- 
2.43.0


From 4414d276cd75b37c431524f5d0ccc258fca461d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:57 +0000
Subject: [PATCH 21/42] fix: an application which does not read stalled the
 whole server

---
 src/socket.rs | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index a83c44d..5bed9d6 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -2,13 +2,16 @@ use rand::Rng;
 use std::{
     net::SocketAddr,
     sync::{
-        atomic::{AtomicI64, AtomicU8},
+        atomic::{AtomicI64, AtomicU8, AtomicUsize},
         Arc,
     },
 };
 use tokio::{
     net::UdpSocket,
-    sync::{mpsc::channel, Mutex, Notify, RwLock},
+    sync::{
+        mpsc::{channel, unbounded_channel, UnboundedReceiver, UnboundedSender},
+        Mutex, Notify, RwLock,
+    },
     time::{sleep, timeout},
 };
 
@@ -21,11 +24,15 @@ use tokio::sync::mpsc::{Receiver, Sender};
 
 use crate::{arq::*, packet::*, raknet_log_debug, utils::*};
 
+/// How many received messages wait for the application at most
+const MAX_UNREAD_MESSAGES: usize = 1000;
+
 /// Raknet socket wrapper with local and remote.
 pub struct RaknetSocket {
     local_addr: SocketAddr,
     peer_addr: SocketAddr,
-    user_data_receiver: Arc<Mutex<Receiver<Vec<u8>>>>,
+    user_data_receiver: Arc<Mutex<UnboundedReceiver<Vec<u8>>>>,
+    unread_messages: Arc<AtomicUsize>,
     recvq: Arc<Mutex<RecvQ>>,
     sendq: Arc<RwLock<SendQ>>,
     close_notifier: Arc<tokio::sync::Semaphore>,
@@ -50,13 +57,14 @@ impl RaknetSocket {
         collecter: Arc<Mutex<Sender<SocketAddr>>>,
         raknet_version: u8,
     ) -> Self {
-        let (user_data_sender, user_data_receiver) = channel::<Vec<u8>>(100);
+        let (user_data_sender, user_data_receiver) = unbounded_channel::<Vec<u8>>();
         let (sender_sender, sender_receiver) = channel::<(Vec<u8>, SocketAddr, bool, u8)>(10);
 
         let ret = RaknetSocket {
             peer_addr: *addr,
             local_addr: s.local_addr().unwrap(),
             user_data_receiver: Arc::new(Mutex::new(user_data_receiver)),
+            unread_messages: Arc::new(AtomicUsize::new(0)),
             recvq: Arc::new(Mutex::new(RecvQ::new())),
             sendq: Arc::new(RwLock::new(SendQ::new(mtu))),
             close_notifier: Arc::new(tokio::sync::Semaphore::new(0)),
@@ -80,7 +88,8 @@ impl RaknetSocket {
         peer_addr: &SocketAddr,
         local_addr: &SocketAddr,
         sendq: &RwLock<SendQ>,
-        user_data_sender: &Sender<Vec<u8>>,
+        user_data_sender: &UnboundedSender<Vec<u8>>,
+        unread_messages: &AtomicUsize,
         incomming_notify: &Notify,
     ) -> Result<bool> {
         if frame.data.is_empty() {
@@ -147,7 +156,8 @@ impl RaknetSocket {
                 return Ok(false);
             }
             _ => {
-                match user_data_sender.send(frame.data.clone()).await {
+                unread_messages.fetch_add(1, Ordering::Relaxed);
+                match user_data_sender.send(frame.data.clone()) {
                     Ok(_) => {}
                     Err(_) => {
                         return Ok(false);
@@ -382,7 +392,7 @@ impl RaknetSocket {
         sendq1.insert(Reliability::ReliableOrdered, &buf)?;
         std::mem::drop(sendq1);
 
-        let (user_data_sender, user_data_receiver) = channel::<Vec<u8>>(100);
+        let (user_data_sender, user_data_receiver) = unbounded_channel::<Vec<u8>>();
 
         let (sender, receiver) = channel::<Vec<u8>>(100);
 
@@ -439,6 +449,7 @@ impl RaknetSocket {
             peer_addr: *addr,
             local_addr: s.local_addr().unwrap(),
             user_data_receiver: Arc::new(Mutex::new(user_data_receiver)),
+            unread_messages: Arc::new(AtomicUsize::new(0)),
             recvq: Arc::new(Mutex::new(RecvQ::new())),
             sendq,
             close_notifier: connected,
@@ -466,7 +477,7 @@ impl RaknetSocket {
         &self,
         s: &Arc<UdpSocket>,
         mut receiver: Receiver<Vec<u8>>,
-        user_data_sender: Sender<Vec<u8>>,
+        user_data_sender: UnboundedSender<Vec<u8>>,
     ) {
         let connected = self.close_notifier.clone();
         let peer_addr = self.peer_addr;
@@ -475,6 +486,7 @@ impl RaknetSocket {
         let recvq = self.recvq.clone();
         let last_heartbeat_time = self.last_heartbeat_time.clone();
         let incomming_notify = self.incomming_notifier.clone();
+        let unread_messages = self.unread_messages.clone();
         let s = s.clone();
         let enable_loss = self.enable_loss.clone();
         let loss_rate = self.loss_rate.clone();
@@ -489,6 +501,7 @@ impl RaknetSocket {
                             &local_addr,
                             &sendq,
                             &user_data_sender,
+                            &unread_messages,
                             &incomming_notify,
                         )
                         .await
@@ -551,6 +564,13 @@ impl RaknetSocket {
                     continue;
                 }
 
+                // an application which does not read must not stop the acks and the heartbeat ,
+                // so the peer has to resend what there is no room for.
+                if unread_messages.load(Ordering::Relaxed) >= MAX_UNREAD_MESSAGES {
+                    raknet_log_debug!("{} , too many unread messages", peer_addr);
+                    continue;
+                }
+
                 // handle packet in here
                 if buf[0] >= PacketID::FrameSetPacketBegin.to_u8()
                     && buf[0] <= PacketID::FrameSetPacketEnd.to_u8()
@@ -579,6 +599,7 @@ impl RaknetSocket {
                                 &local_addr,
                                 &sendq,
                                 &user_data_sender,
+                                &unread_messages,
                                 &incomming_notify,
                             )
                             .await
@@ -938,7 +959,10 @@ impl RaknetSocket {
     /// ```
     pub async fn recv(&self) -> Result<Vec<u8>> {
         match self.user_data_receiver.lock().await.recv().await {
-            Some(p) => Ok(p),
+            Some(p) => {
+                self.unread_messages.fetch_sub(1, Ordering::Relaxed);
+                Ok(p)
+            }
             None => {
                 if self.close_notifier.is_closed() {
                     return Err(RaknetError::ConnectionClosed);
-- 
2.43.0


From 94672a2f503274b881bd198f5dbf4a62459f9991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:04 +0000
Subject: [PATCH 22/42] fix: recv() hung after close() until the next datagram

---
 src/socket.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 5bed9d6..5e3c8a5 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -513,12 +513,21 @@ impl RaknetSocket {
                     break;
                 }
 
-                let buf = match receiver.recv().await {
-                    Some(buf) => buf,
-                    None => {
-                        raknet_log_debug!("channel receiver finished");
-                        connected.close();
-                        break;
+                let buf = tokio::select! {
+                    biased;
+                    a = receiver.recv() => {
+                        match a {
+                            Some(buf) => buf,
+                            None => {
+                                raknet_log_debug!("channel receiver finished");
+                                connected.close();
+                                break;
+                            }
+                        }
+                    },
+                    _ = connected.acquire() => {
+                        raknet_log_debug!("receiver close notified");
+                        continue;
                     }
                 };
 
-- 
2.43.0


From 2f6f394606d51c27d074a488f72ac855aadefb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:11 +0000
Subject: [PATCH 23/42] fix: connect() hung when the connection died in the
 handshake

---
 src/socket.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index 5e3c8a5..bcf6178 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -468,7 +468,13 @@ impl RaknetSocket {
         ret.drop_watcher().await;
 
         raknet_log_debug!("wait incomming notify");
-        ret.incomming_notifier.notified().await;
+        tokio::select! {
+            _ = ret.incomming_notifier.notified() => {},
+            _ = ret.close_notifier.acquire() => {
+                raknet_log_debug!("connection closed before it was established");
+                return Err(RaknetError::ConnectionClosed);
+            }
+        }
 
         Ok(ret)
     }
-- 
2.43.0


From 6e8160878abb53d0b88bdd393ca7bef0e397b946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:50 +0000
Subject: [PATCH 24/42] fix: unaccepted connections stalled the whole server

---
 src/server.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 39713cf..bbc2cf9 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -423,6 +423,15 @@ impl RaknetListener {
                             continue;
                         }
 
+                        // the client asks again , maybe there is room by then.
+                        let permit = match connection_sender.try_reserve() {
+                            Ok(p) => p,
+                            Err(_) => {
+                                raknet_log_debug!("too many unaccepted connections");
+                                continue;
+                            }
+                        };
+
                         match socket.send_to(&reply, addr).await {
                             Ok(_) => {}
                             Err(e) => {
@@ -452,7 +461,7 @@ impl RaknetListener {
 
                         raknet_log_debug!("accept connection : {}", addr);
                         sessions.insert(addr, (cur_timestamp_millis(), sender));
-                        let _ = connection_sender.send(s).await;
+                        permit.send(s);
                     }
                     PacketID::Disconnect => {
                         let mut sessions = sessions.lock().await;
-- 
2.43.0


From 2bf673a3940811132eb2bcd8c400a52f1aabc7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:58 +0000
Subject: [PATCH 25/42] fix: a lost OpenConnectionReply2 made connect() hang

---
 src/server.rs | 22 +++++++++++++++++-----
 src/socket.rs |  5 +++++
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index bbc2cf9..f2fcfe5 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -13,7 +13,8 @@ use crate::{raknet_log_debug, raknet_log_error, socket::*};
 const SERVER_NAME: &str = "Rust Raknet Server";
 const MAX_CONNECTION: u32 = 99999;
 
-type SessionSender = (i64, Sender<Vec<u8>>);
+// last receive time , datagram sender , guid of the client , mtu
+type SessionSender = (i64, Sender<Vec<u8>>, u64, u16);
 
 /// Implementation of Raknet Server.
 pub struct RaknetListener {
@@ -391,11 +392,13 @@ impl RaknetListener {
                         };
                         let mtu = req.mtu.clamp(RAKNET_MIN_MTU, RAKNET_MAX_MTU);
 
+                        let mut sessions = sessions.lock().await;
+
                         let packet = crate::packet::OpenConnectionReply2 {
                             magic: true,
                             guid,
                             address: addr,
-                            mtu,
+                            mtu: sessions.get(&addr).map_or(mtu, |s| s.3),
                             encryption_enabled: 0x00,
                         };
 
@@ -404,9 +407,18 @@ impl RaknetListener {
                             Err(_) => continue,
                         };
 
-                        let mut sessions = sessions.lock().await;
-
                         if sessions.contains_key(&addr) {
+                            // the same client asks again if the reply was lost
+                            if sessions[&addr].2 == req.guid {
+                                match socket.send_to(&reply, addr).await {
+                                    Ok(_) => {}
+                                    Err(e) => {
+                                        raknet_log_error!("udp socket send_to error : {}", e);
+                                    }
+                                };
+                                continue;
+                            }
+
                             let packet = write_packet_already_connected(&AlreadyConnected {
                                 magic: true,
                                 guid,
@@ -460,7 +472,7 @@ impl RaknetListener {
                         .await;
 
                         raknet_log_debug!("accept connection : {}", addr);
-                        sessions.insert(addr, (cur_timestamp_millis(), sender));
+                        sessions.insert(addr, (cur_timestamp_millis(), sender, req.guid, mtu));
                         permit.send(s);
                     }
                     PacketID::Disconnect => {
diff --git a/src/socket.rs b/src/socket.rs
index bcf6178..b30a5c7 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -363,6 +363,11 @@ impl RaknetSocket {
                 continue;
             }
 
+            if buf[0] == PacketID::AlreadyConnected.to_u8() {
+                raknet_log_debug!("refused , already connected");
+                return Err(RaknetError::IncorrectReply);
+            }
+
             if buf[0] != PacketID::OpenConnectionReply2.to_u8() {
                 raknet_log_debug!("incorrect reply2");
                 continue;
-- 
2.43.0


From f94d012e81132ee88d0266032cfe185d9c5b6c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:05 +0000
Subject: [PATCH 26/42] fix: the end of a connection could kill the next one
 from its address

---
 src/server.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index f2fcfe5..69d309e 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -407,6 +407,11 @@ impl RaknetListener {
                             Err(_) => continue,
                         };
 
+                        // an ended session is not collected yet , the client asks again.
+                        if sessions.get(&addr).map_or(false, |s| s.1.is_closed()) {
+                            continue;
+                        }
+
                         if sessions.contains_key(&addr) {
                             // the same client asks again if the reply was lost
                             if sessions[&addr].2 == req.guid {
@@ -476,12 +481,13 @@ impl RaknetListener {
                         permit.send(s);
                     }
                     PacketID::Disconnect => {
-                        let mut sessions = sessions.lock().await;
-                        if sessions.contains_key(&addr) {
-                            if sessions[&addr].1.send(buf[..size].to_vec()).await.is_err() {
-                                raknet_log_debug!("session {} already finished", addr);
-                            }
-                            sessions.remove(&addr);
+                        // only the session collecter removes a session , it can not tell a new
+                        // session from the ended one of the same address.
+                        let sessions = sessions.lock().await;
+                        if sessions.contains_key(&addr)
+                            && sessions[&addr].1.send(buf[..size].to_vec()).await.is_err()
+                        {
+                            raknet_log_debug!("session {} already finished", addr);
                         }
                     }
                     _ => {
@@ -489,10 +495,7 @@ impl RaknetListener {
                         if sessions.contains_key(&addr) {
                             match sessions[&addr].1.send(buf[..size].to_vec()).await {
                                 Ok(_) => {}
-                                Err(_) => {
-                                    sessions.remove(&addr);
-                                    continue;
-                                }
+                                Err(_) => continue,
                             };
                             sessions.get_mut(&addr).unwrap().0 = cur_timestamp_millis();
                         }
-- 
2.43.0


From ad0dcfb4c8bf65d416e3b480b8dfb6e852ad76ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 27/42] fix: a stray OpenConnectionRequest1 changed the version
 of a live connection

---
 src/server.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 69d309e..702f75a 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -238,6 +238,8 @@ impl RaknetListener {
         let close_notify = self.close_notifier.clone();
         let version_map = self.version_map.clone();
         tokio::spawn(async move {
+            // becomes the version of the peer once it has a session
+            let mut requested_versions: HashMap<SocketAddr, u8> = HashMap::new();
             let mut buf = [0u8; 2048];
 
             raknet_log_debug!("start listen worker : {}", local_addr);
@@ -358,10 +360,7 @@ impl RaknetListener {
                             };
                             continue;
                         }
-                        {
-                            let mut version_map = version_map.lock().await;
-                            version_map.insert(addr.to_string(), req.protocol_version);
-                        }
+                        requested_versions.insert(addr, req.protocol_version);
 
                         let packet = crate::packet::OpenConnectionReply1 {
                             magic: true,
@@ -458,12 +457,12 @@ impl RaknetListener {
 
                         let (sender, receiver) = channel::<Vec<u8>>(10);
 
-                        let raknet_version: u8;
+                        let raknet_version = requested_versions
+                            .remove(&addr)
+                            .unwrap_or(RAKNET_PROTOCOL_VERSION);
                         {
-                            let version_map = version_map.lock().await;
-                            raknet_version = *version_map
-                                .get(&addr.to_string())
-                                .unwrap_or(&RAKNET_PROTOCOL_VERSION);
+                            let mut version_map = version_map.lock().await;
+                            version_map.insert(addr.to_string(), raknet_version);
                         }
 
                         let s = RaknetSocket::from(
-- 
2.43.0


From 50d14d46c474ad90c3cd65c464421547f26e6707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:19 +0000
Subject: [PATCH 28/42] fix: a connection made while the listener closed was
 never closed

---
 src/server.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 702f75a..28387e3 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -393,6 +393,11 @@ impl RaknetListener {
 
                         let mut sessions = sessions.lock().await;
 
+                        // nobody collects a session any more
+                        if close_notify.is_closed() {
+                            break;
+                        }
+
                         let packet = crate::packet::OpenConnectionReply2 {
                             magic: true,
                             guid,
-- 
2.43.0


From cad4e1c94fb88e77d44973033502e58534262f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:05 +0000
Subject: [PATCH 29/42] fix: a busy peer missed the close

---
 src/socket.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/socket.rs b/src/socket.rs
index b30a5c7..2e7846f 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -784,6 +784,9 @@ impl RaknetSocket {
                 }
 
                 if connected.is_closed() {
+                    std::mem::drop(sendq);
+                    std::mem::drop(recvq);
+
                     for _ in 0..10 {
                         RaknetSocket::sendto(
                             &s,
@@ -794,6 +797,9 @@ impl RaknetSocket {
                         )
                         .await
                         .unwrap();
+
+                        // a peer with a full receive buffer would lose all of a burst
+                        sleep(std::time::Duration::from_millis(10)).await;
                     }
                     break;
                 }
-- 
2.43.0


From 78edaf7168711b9535df802fbb72a34828fef2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:33 +0000
Subject: [PATCH 30/42] fix: an ACK gap or NACK took a pass over the send queue
 per missing number

---
 src/arq.rs    | 60 +++++++++++++++++++--------------------------------
 src/socket.rs |  4 +++-
 2 files changed, 25 insertions(+), 39 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index c5e7a43..e195075 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -789,10 +789,12 @@ impl SendQ {
         self.rto
     }
 
-    pub fn nack(&mut self, sequence: u32, tick: i64) {
+    /// The peer misses all of first..=last
+    pub fn nack_range(&mut self, first: u32, last: u32, tick: i64) {
+        let distance = u24_distance(first, last);
         for i in 0..self.sent_packet.len() {
             let item = &mut self.sent_packet[i];
-            if item.1 && item.0.sequence_number == sequence {
+            if item.1 && u24_distance(first, item.0.sequence_number) <= distance {
                 raknet_log_debug!(
                     "packet {}-{}-{} nack {} times",
                     item.0.sequence_number,
@@ -811,19 +813,12 @@ impl SendQ {
     }
 
     pub fn ack(&mut self, sequence: u32, tick: i64) {
-        // only what is outstanding can be resent, however wide the gap is
-        let gap: Vec<u32> = self
-            .sent_packet
-            .iter()
-            .map(|x| x.0.sequence_number)
-            .filter(|x| u24_before(self.ack_sequence_number, *x) && u24_before(*x, sequence))
-            .collect();
-
-        for i in gap {
-            self.nack(i, tick);
-        }
-
         if u24_before(self.ack_sequence_number, sequence) {
+            if u24_distance(self.ack_sequence_number, sequence) != 1 {
+                let first = (self.ack_sequence_number + 1) & U24_MASK;
+                self.nack_range(first, sequence.wrapping_sub(1) & U24_MASK, tick);
+            }
+
             self.ack_sequence_number = sequence;
         }
 
@@ -850,34 +845,23 @@ impl SendQ {
             return;
         }
 
-        let mut outstanding: Vec<u32> = self
-            .sent_packet
-            .iter()
-            .flat_map(|x| x.4.iter().cloned())
-            .filter(|x| *x >= first && *x < last)
-            .collect();
-        outstanding.sort_unstable();
-
-        for i in outstanding {
-            self.ack(i, tick);
+        if first != last {
+            // only what is outstanding can be acked , however wide the range is
+            let mut outstanding: Vec<u32> = self
+                .sent_packet
+                .iter()
+                .flat_map(|x| x.4.iter().cloned())
+                .filter(|x| *x >= first && *x < last)
+                .collect();
+            outstanding.sort_unstable();
+
+            for i in outstanding {
+                self.ack(i, tick);
+            }
         }
         self.ack(last, tick);
     }
 
-    /// The peer misses all of first..=last
-    pub fn nack_range(&mut self, first: u32, last: u32, tick: i64) {
-        let outstanding: Vec<u32> = self
-            .sent_packet
-            .iter()
-            .map(|x| x.0.sequence_number)
-            .filter(|x| *x >= first && *x <= last)
-            .collect();
-
-        for i in outstanding {
-            self.nack(i, tick);
-        }
-    }
-
     fn tick(&mut self, tick: i64) {
         for i in 0..self.sent_packet.len() {
             let p = &mut self.sent_packet[i];
diff --git a/src/socket.rs b/src/socket.rs
index 2e7846f..79918af 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -579,7 +579,9 @@ impl RaknetSocket {
 
                     for i in 0..nack.record_count {
                         let (first, last) = nack.sequences[i as usize];
-                        sendq.nack_range(first, last, cur_timestamp_millis());
+                        if first <= last {
+                            sendq.nack_range(first, last, cur_timestamp_millis());
+                        }
                     }
                     continue;
                 }
-- 
2.43.0


From b2e60c97b86182a3bb4c09f9c961580797522c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:10 +0000
Subject: [PATCH 31/42] fix: a busy session stalled the listener

---
 src/server.rs | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 28387e3..1fc5c1e 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -13,8 +13,8 @@ use crate::{raknet_log_debug, raknet_log_error, socket::*};
 const SERVER_NAME: &str = "Rust Raknet Server";
 const MAX_CONNECTION: u32 = 99999;
 
-// last receive time , datagram sender , guid of the client , mtu
-type SessionSender = (i64, Sender<Vec<u8>>, u64, u16);
+// last receive time , datagram sender (None once the session was disconnected) , guid of the client , mtu
+type SessionSender = (i64, Option<Sender<Vec<u8>>>, u64, u16);
 
 /// Implementation of Raknet Server.
 pub struct RaknetListener {
@@ -151,13 +151,9 @@ impl RaknetListener {
 
             let mut sessions = sessions.lock().await;
 
-            for i in sessions.iter() {
-                if i.1
-                     .1
-                    .send(vec![PacketID::Disconnect.to_u8()])
-                    .await
-                    .is_ok()
-                {}
+            for i in sessions.iter_mut() {
+                // the session closes when its sender is gone
+                i.1 .1 = None;
 
                 match socket.send_to(&[PacketID::Disconnect.to_u8()], i.0).await {
                     Ok(_) => {}
@@ -412,8 +408,10 @@ impl RaknetListener {
                         };
 
                         // an ended session is not collected yet , the client asks again.
-                        if sessions.get(&addr).map_or(false, |s| s.1.is_closed()) {
-                            continue;
+                        if let Some(session) = sessions.get(&addr) {
+                            if session.1.as_ref().map_or(true, |s| s.is_closed()) {
+                                continue;
+                            }
                         }
 
                         if sessions.contains_key(&addr) {
@@ -460,7 +458,7 @@ impl RaknetListener {
                             }
                         };
 
-                        let (sender, receiver) = channel::<Vec<u8>>(10);
+                        let (sender, receiver) = channel::<Vec<u8>>(1000);
 
                         let raknet_version = requested_versions
                             .remove(&addr)
@@ -481,27 +479,29 @@ impl RaknetListener {
                         .await;
 
                         raknet_log_debug!("accept connection : {}", addr);
-                        sessions.insert(addr, (cur_timestamp_millis(), sender, req.guid, mtu));
+                        sessions
+                            .insert(addr, (cur_timestamp_millis(), Some(sender), req.guid, mtu));
                         permit.send(s);
                     }
                     PacketID::Disconnect => {
                         // only the session collecter removes a session , it can not tell a new
                         // session from the ended one of the same address.
-                        let sessions = sessions.lock().await;
-                        if sessions.contains_key(&addr)
-                            && sessions[&addr].1.send(buf[..size].to_vec()).await.is_err()
-                        {
-                            raknet_log_debug!("session {} already finished", addr);
+                        let mut sessions = sessions.lock().await;
+                        if let Some(session) = sessions.get_mut(&addr) {
+                            // the session closes when its sender is gone
+                            session.1 = None;
                         }
                     }
                     _ => {
                         let mut sessions = sessions.lock().await;
-                        if sessions.contains_key(&addr) {
-                            match sessions[&addr].1.send(buf[..size].to_vec()).await {
-                                Ok(_) => {}
-                                Err(_) => continue,
+                        if let Some(session) = sessions.get_mut(&addr) {
+                            // a session which can not keep up loses datagrams , it must not
+                            // stall the others.
+                            match session.1.as_ref().map(|s| s.try_send(buf[..size].to_vec())) {
+                                Some(Ok(_)) => {}
+                                _ => continue,
                             };
-                            sessions.get_mut(&addr).unwrap().0 = cur_timestamp_millis();
+                            session.0 = cur_timestamp_millis();
                         }
                     }
                 }
-- 
2.43.0


From a2e17ef8cfbfa80cf812cd168dc7c56354a8d0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:15 +0000
Subject: [PATCH 32/42] hooks: counters of new connections can start near their
 wrap-around (cfg rkv_hooks)

---
 src/arq.rs       | 34 +++++++++++++++++++++++++++++++---
 src/lib.rs       |  3 +++
 src/rkv_hooks.rs | 42 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 76 insertions(+), 3 deletions(-)
 create mode 100644 src/rkv_hooks.rs

diff --git a/src/arq.rs b/src/arq.rs
index e195075..1186dfa 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -392,11 +392,18 @@ pub struct ACKSet {
 
 impl ACKSet {
     pub fn new() -> Self {
-        ACKSet {
+        #[allow(unused_mut)]
+        let mut ret = ACKSet {
             ack: vec![],
             nack: vec![],
             last_max: 0,
+        };
+        #[allow(unexpected_cfgs)]
+        #[cfg(rkv_hooks)]
+        {
+            ret.last_max = crate::rkv_hooks::sequence_number();
         }
+        ret
     }
     pub fn insert(&mut self, s: u32) {
         if u24_before(self.last_max, s) {
@@ -482,7 +489,8 @@ pub struct RecvQ {
 
 impl RecvQ {
     pub fn new() -> Self {
-        Self {
+        #[allow(unused_mut)]
+        let mut ret = Self {
             reliable_window: ReliableWindow::new(),
             sequence_number_ackset: ACKSet::new(),
             packets: HashMap::new(),
@@ -490,7 +498,15 @@ impl RecvQ {
             ordered_packets: HashMap::new(),
             sequenced_frame_index: 0,
             last_ordered_index: 0,
+        };
+        #[allow(unexpected_cfgs)]
+        #[cfg(rkv_hooks)]
+        {
+            ret.reliable_window.next = crate::rkv_hooks::reliable();
+            ret.sequenced_frame_index = crate::rkv_hooks::sequenced();
+            ret.last_ordered_index = crate::rkv_hooks::ordered();
         }
+        ret
     }
 
     /// Whether a reliable frame was received before, a repeated frame is only acked again.
@@ -648,7 +664,8 @@ impl SendQ {
     const RTO_LBOUND: i64 = 50;
 
     pub fn new(mtu: u16) -> Self {
-        Self {
+        #[allow(unused_mut)]
+        let mut ret = Self {
             mtu,
             ack_sequence_number: 0,
             sequence_number: 0,
@@ -661,7 +678,18 @@ impl SendQ {
 
             rto: SendQ::DEFAULT_TIMEOUT_MILLS,
             srtt: SendQ::DEFAULT_TIMEOUT_MILLS,
+        };
+        #[allow(unexpected_cfgs)]
+        #[cfg(rkv_hooks)]
+        {
+            ret.ack_sequence_number = crate::rkv_hooks::sequence_number();
+            ret.sequence_number = crate::rkv_hooks::sequence_number();
+            ret.reliable_frame_index = crate::rkv_hooks::reliable();
+            ret.sequenced_frame_index = crate::rkv_hooks::sequenced();
+            ret.ordered_frame_index = crate::rkv_hooks::ordered();
+            ret.compound_id = crate::rkv_hooks::compound_id();
         }
+        ret
     }
 
     /// How many ranges an ACK or NACK datagram can carry
diff --git a/src/lib.rs b/src/lib.rs
index 1292fef..aeb6de4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -44,6 +44,9 @@ pub mod error;
 mod fragment;
 mod log;
 mod packet;
+#[allow(unexpected_cfgs)]
+#[cfg(rkv_hooks)]
+pub mod rkv_hooks;
 mod server;
 mod socket;
 mod utils;
diff --git a/src/rkv_hooks.rs b/src/rkv_hooks.rs
new file mode 100644
index 0000000..cc1b4b4
--- /dev/null
+++ b/src/rkv_hooks.rs
@@ -0,0 +1,42 @@
+//! Verification hooks, built with `--cfg rkv_hooks` only: let connections created from now on
+//! start their counters elsewhere than at zero, so that a test reaches their wrap-around.
+use std::sync::atomic::{AtomicU16, AtomicU32, Ordering};
+
+use crate::utils::U24_MASK;
+
+static SEQUENCE_NUMBER: AtomicU32 = AtomicU32::new(0);
+static RELIABLE_FRAME_INDEX: AtomicU32 = AtomicU32::new(0);
+static SEQUENCED_FRAME_INDEX: AtomicU32 = AtomicU32::new(0);
+static ORDERED_FRAME_INDEX: AtomicU32 = AtomicU32::new(0);
+static COMPOUND_ID: AtomicU16 = AtomicU16::new(0);
+
+/// First value of each counter of the connections created from now on, at both ends.
+pub fn start_counters_at(
+    sequence_number: u32,
+    reliable: u32,
+    sequenced: u32,
+    ordered: u32,
+    compound_id: u16,
+) {
+    SEQUENCE_NUMBER.store(sequence_number & U24_MASK, Ordering::SeqCst);
+    RELIABLE_FRAME_INDEX.store(reliable & U24_MASK, Ordering::SeqCst);
+    SEQUENCED_FRAME_INDEX.store(sequenced & U24_MASK, Ordering::SeqCst);
+    ORDERED_FRAME_INDEX.store(ordered & U24_MASK, Ordering::SeqCst);
+    COMPOUND_ID.store(compound_id, Ordering::SeqCst);
+}
+
+pub(crate) fn sequence_number() -> u32 {
+    SEQUENCE_NUMBER.load(Ordering::SeqCst)
+}
+pub(crate) fn reliable() -> u32 {
+    RELIABLE_FRAME_INDEX.load(Ordering::SeqCst)
+}
+pub(crate) fn sequenced() -> u32 {
+    SEQUENCED_FRAME_INDEX.load(Ordering::SeqCst)
+}
+pub(crate) fn ordered() -> u32 {
+    ORDERED_FRAME_INDEX.load(Ordering::SeqCst)
+}
+pub(crate) fn compound_id() -> u16 {
+    COMPOUND_ID.load(Ordering::SeqCst)
+}
-- 
2.43.0


From 20a97523aff25a045858564bbbfe575afc694a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:09 +0000
Subject: [PATCH 33/42] fix: name the server in NewIncomingConnection

---
 src/socket.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 79918af..fd3ab84 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -86,7 +86,6 @@ impl RaknetSocket {
     async fn handle(
         frame: &FrameSetPacket,
         peer_addr: &SocketAddr,
-        local_addr: &SocketAddr,
         sendq: &RwLock<SendQ>,
         user_data_sender: &UnboundedSender<Vec<u8>>,
         unread_messages: &AtomicUsize,
@@ -117,7 +116,7 @@ impl RaknetSocket {
                 let packet = read_packet_connection_request_accepted(frame.data.as_slice())?;
 
                 let packet_reply = NewIncomingConnection {
-                    server_address: *local_addr,
+                    server_address: *peer_addr,
                     request_timestamp: packet.request_timestamp,
                     accepted_timestamp: cur_timestamp_millis(),
                 };
@@ -492,7 +491,6 @@ impl RaknetSocket {
     ) {
         let connected = self.close_notifier.clone();
         let peer_addr = self.peer_addr;
-        let local_addr = self.local_addr;
         let sendq = self.sendq.clone();
         let recvq = self.recvq.clone();
         let last_heartbeat_time = self.last_heartbeat_time.clone();
@@ -509,7 +507,6 @@ impl RaknetSocket {
                         if RaknetSocket::handle(
                             &f,
                             &peer_addr,
-                            &local_addr,
                             &sendq,
                             &user_data_sender,
                             &unread_messages,
@@ -618,7 +615,6 @@ impl RaknetSocket {
                             if !RaknetSocket::handle(
                                 &f,
                                 &peer_addr,
-                                &local_addr,
                                 &sendq,
                                 &user_data_sender,
                                 &unread_messages,
-- 
2.43.0


From a89be79c0535ef91f51fa9799a8b3999e189ef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:00 +0000
Subject: [PATCH 34/42] fix: a step of the wall clock closed connections or
 stopped retransmission

---
 src/utils.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 0e26673..0d7af7e 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,3 +1,6 @@
+use std::sync::OnceLock;
+use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};
+
 pub const RAKNET_PROTOCOL_VERSION: u8 = 10;
 pub const RAKNET_PROTOCOL_VERSION_LIST: [u8; 2] = [10, 11];
 //the MTU is minecraft bedrock 1.18.2 give me
@@ -27,10 +30,17 @@ pub enum Endian {
     Little,
 }
 
+/// Milliseconds since the unix epoch , by the clock of when it was first called : timers must not
+/// follow when the clock is set.
 pub fn cur_timestamp_millis() -> i64 {
-    std::time::SystemTime::now()
-        .duration_since(std::time::UNIX_EPOCH)
-        .unwrap()
+    static START: OnceLock<(Instant, Duration)> = OnceLock::new();
+
+    let (start, epoch) = START.get_or_init(|| {
+        let epoch = SystemTime::now().duration_since(UNIX_EPOCH);
+        (Instant::now(), epoch.unwrap_or_default())
+    });
+
+    (*epoch + start.elapsed())
         .as_millis()
         .try_into()
         .unwrap_or(0)
-- 
2.43.0


From 666f4722021b21623feb30bbd99ebe16442c14e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:09 +0000
Subject: [PATCH 35/42] fix: one failed receive ended the listen worker for
 ever

---
 src/server.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 1fc5c1e..1e342ec 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -252,8 +252,11 @@ impl RaknetListener {
                                 addr = p.1;
                             },
                             Err(e) => {
-                                raknet_log_debug!("server recv_from error {}" , e);
-                                break;
+                                // it concerns one datagram or one peer at most , the others
+                                // must be served on.
+                                raknet_log_error!("server recv_from error {}" , e);
+                                tokio::time::sleep(std::time::Duration::from_millis(10)).await;
+                                continue;
                             },
                         };
                     },
-- 
2.43.0


From fdab5a5967cf5e4a6b9955bca4dc44896e1d9b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:17 +0000
Subject: [PATCH 36/42] fix: connect() sent requests without pause while
 receiving failed

---
 src/socket.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/socket.rs b/src/socket.rs
index fd3ab84..1e88722 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -277,6 +277,7 @@ impl RaknetSocket {
                 Ok(p) => p,
                 Err(e) => {
                     raknet_log_error!("recvfrom error : {}", e);
+                    tokio::time::sleep(std::time::Duration::from_secs(2)).await;
                     continue;
                 }
             };
@@ -348,6 +349,7 @@ impl RaknetSocket {
                 Ok(p) => p,
                 Err(e) => {
                     raknet_log_error!("recvfrom error : {}", e);
+                    tokio::time::sleep(std::time::Duration::from_secs(2)).await;
                     continue;
                 }
             };
-- 
2.43.0


From 8886773358ee565c852dd43f88e0b35efdef3c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:16 +0000
Subject: [PATCH 37/42] fix: every address that ever asked for a connection was
 remembered for ever

---
 src/server.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 1e342ec..6b9ddfa 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -13,6 +13,9 @@ use crate::{raknet_log_debug, raknet_log_error, socket::*};
 const SERVER_NAME: &str = "Rust Raknet Server";
 const MAX_CONNECTION: u32 = 99999;
 
+// how many addresses that asked for a connection are remembered , twice as many at most
+const MAX_REQUESTED_VERSIONS: usize = 16384;
+
 // last receive time , datagram sender (None once the session was disconnected) , guid of the client , mtu
 type SessionSender = (i64, Option<Sender<Vec<u8>>>, u64, u16);
 
@@ -236,6 +239,8 @@ impl RaknetListener {
         tokio::spawn(async move {
             // becomes the version of the peer once it has a session
             let mut requested_versions: HashMap<SocketAddr, u8> = HashMap::new();
+            // those which asked earlier , not all of them ever come back
+            let mut earlier_versions: HashMap<SocketAddr, u8> = HashMap::new();
             let mut buf = [0u8; 2048];
 
             raknet_log_debug!("start listen worker : {}", local_addr);
@@ -359,6 +364,9 @@ impl RaknetListener {
                             };
                             continue;
                         }
+                        if requested_versions.len() >= MAX_REQUESTED_VERSIONS {
+                            earlier_versions = std::mem::take(&mut requested_versions);
+                        }
                         requested_versions.insert(addr, req.protocol_version);
 
                         let packet = crate::packet::OpenConnectionReply1 {
@@ -463,8 +471,10 @@ impl RaknetListener {
 
                         let (sender, receiver) = channel::<Vec<u8>>(1000);
 
+                        let earlier_version = earlier_versions.remove(&addr);
                         let raknet_version = requested_versions
                             .remove(&addr)
+                            .or(earlier_version)
                             .unwrap_or(RAKNET_PROTOCOL_VERSION);
                         {
                             let mut version_map = version_map.lock().await;
-- 
2.43.0


From 9a74f9e6cf9f41db499e8a7cf5bbf8c514750185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:23 +0000
Subject: [PATCH 38/42] fix: the version of every peer that ever connected was
 kept for ever

---
 src/server.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 6b9ddfa..b4495fa 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -119,6 +119,7 @@ impl RaknetListener {
         let socket = socket.clone();
         let close_notifier = self.close_notifier.clone();
         let all_session_closed_notifier = self.all_session_closed_notifier.clone();
+        let version_map = self.version_map.clone();
         tokio::spawn(async move {
             loop {
                 let addr: SocketAddr;
@@ -148,6 +149,7 @@ impl RaknetListener {
                         }
                     };
                     sessions.remove(&addr);
+                    version_map.lock().await.remove(&addr.to_string());
                     raknet_log_debug!("collect socket : {}", addr);
                 }
             }
@@ -183,6 +185,7 @@ impl RaknetListener {
                         }
                     };
                     sessions.remove(&addr);
+                    version_map.lock().await.remove(&addr.to_string());
                     raknet_log_debug!("collect socket : {}", addr);
                 }
             }
-- 
2.43.0


From f39b2deca5851d236db12852d7a741b98ffa2b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:26 +0000
Subject: [PATCH 39/42] fix: close() of a listener given up halfway can be
 called again

---
 src/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index b4495fa..208b856 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -620,13 +620,15 @@ impl RaknetListener {
     /// socket.close().await;
     /// ```
     pub async fn close(&mut self) -> Result<()> {
-        if self.close_notifier.is_closed() {
+        // a close() which was given up halfway is carried on
+        if self.socket.is_none() {
             return Ok(());
         }
         self.close_notifier.close();
         // without listen() there is no session collecter to wait for
         if self.listened {
             self.all_session_closed_notifier.notified().await;
+            self.listened = false;
         }
 
         // wait all thread exit and drop socket pointer.
@@ -636,7 +638,6 @@ impl RaknetListener {
 
         // drop socket and free bind port
         self.socket = None;
-        self.listened = false;
 
         Ok(())
     }
-- 
2.43.0


From 850e57a8991a91935500b89cbd72e10c22bd9d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:33 +0000
Subject: [PATCH 40/42] fix: logging does not panic when standard output cannot
 be written

---
 src/log.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/log.rs b/src/log.rs
index f22963c..fbf8756 100644
--- a/src/log.rs
+++ b/src/log.rs
@@ -19,7 +19,9 @@ macro_rules! raknet_log_debug {
         if $crate::log::ENABLE_RAKNET_LOG.load(std::sync::atomic::Ordering::Relaxed) & 1 != 0 {
             let now = $crate::utils::cur_timestamp_millis();
             let msg = format!($($arg)*);
-            println!("debug - {} - {} - {}" , now , "raknet" , msg);
+            // the output may be closed or full , println would panic
+            use std::io::Write;
+            let _ = writeln!(std::io::stdout(), "debug - {} - {} - {}" , now , "raknet" , msg);
         }
     })
 }
@@ -31,7 +33,9 @@ macro_rules! raknet_log_error {
         if $crate::log::ENABLE_RAKNET_LOG.load(std::sync::atomic::Ordering::Relaxed) & 2 != 0 {
             let now = $crate::utils::cur_timestamp_millis();
             let msg = format!($($arg)*);
-            println!("error - {} - {} - {}" , now , "raknet" , msg);
+            // the output may be closed or full , println would panic
+            use std::io::Write;
+            let _ = writeln!(std::io::stdout(), "error - {} - {} - {}" , now , "raknet" , msg);
         }
     })
 }
@@ -43,7 +47,9 @@ macro_rules! raknet_log_info {
         if $crate::log::ENABLE_RAKNET_LOG.load(std::sync::atomic::Ordering::Relaxed) & 4 != 0 {
             let now = $crate::utils::cur_timestamp_millis();
             let msg = format!($($arg)*);
-            println!("info - {} - {} - {}" , now , "raknet" , msg);
+            // the output may be closed or full , println would panic
+            use std::io::Write;
+            let _ = writeln!(std::io::stdout(), "info - {} - {} - {}" , now , "raknet" , msg);
         }
     })
 }
-- 
2.43.0


From 142b5d387e11628cad64903cbe408721c73b5951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:39 +0000
Subject: [PATCH 41/42] fix: read_magic() refuses sixteen bytes that are not
 the magic

---
 src/datatype.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/datatype.rs b/src/datatype.rs
index b99e733..9fb1ad4 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -296,7 +296,11 @@ impl RaknetReader {
             0x00, 0xff, 0xff, 0x00, 0xfe, 0xfe, 0xfe, 0xfe, 0xfd, 0xfd, 0xfd, 0xfd, 0x12, 0x34,
             0x56, 0x78,
         ];
-        Ok(magic == offline_magic)
+        // not a raknet offline message
+        if magic != offline_magic {
+            return Err(RaknetError::PacketParseError);
+        }
+        Ok(true)
     }
 
     pub fn read_address(&mut self) -> Result<SocketAddr> {
-- 
2.43.0


From fbdf5182169da489afda2443b7e7db1b8649eea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:40 +0000
Subject: [PATCH 42/42] fix: a client busy with a backlog learns of its peer's
 disconnect

---
 src/socket.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 1e88722..fcb9813 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -400,7 +400,7 @@ impl RaknetSocket {
 
         let (user_data_sender, user_data_receiver) = unbounded_channel::<Vec<u8>>();
 
-        let (sender, receiver) = channel::<Vec<u8>>(100);
+        let (sender, receiver) = channel::<Vec<u8>>(1000);
 
         let s = Arc::new(s);
 
@@ -437,14 +437,22 @@ impl RaknetSocket {
                     }
                 };
 
-                match sender.send(buf[..size].to_vec()).await {
-                    Ok(_) => {}
-                    Err(e) => {
-                        raknet_log_debug!("channel send error : {}", e);
-                        connected_s.close();
-                        break;
-                    }
+                // a session which can not keep up loses datagrams , were they left to the socket's
+                // buffer the peer's disconnect would be lost as well.
+                let sent = if size != 0 && buf[0] == PacketID::Disconnect.to_u8() {
+                    sender.send(buf[..size].to_vec()).await.is_ok()
+                } else {
+                    !matches!(
+                        sender.try_send(buf[..size].to_vec()),
+                        Err(tokio::sync::mpsc::error::TrySendError::Closed(_))
+                    )
                 };
+
+                if !sent {
+                    raknet_log_debug!("channel receiver closed");
+                    connected_s.close();
+                    break;
+                }
             }
             raknet_log_debug!("{} , recv_from finished", peer_addr);
         });
-- 
2.43.0

