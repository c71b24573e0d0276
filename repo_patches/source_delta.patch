From cb5c6e8ffae4d16cc443b091cf26829d01ae4b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:50 +0000
Subject: [PATCH 01/15] fix: read TCP replies that arrived together with
 another reply

The socket is polled edge-triggered and only one message was read per event,
so a reply that came in the same segment as another one was never seen and the
call waiting for it hung.
---
 src/network.rs | 126 +++++++++++++++++++++++++------------------------
 1 file changed, 64 insertions(+), 62 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index ec999ea..86af821 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -55,6 +55,7 @@ pub struct Network {
     pending_response_offset: usize,
     pending_response_len: usize,
     pending_command_id: u32,
+    unread_tcp_data: bool,
     received_responses: HashMap<u32, Vec<u8>>,
     poll_read: Poll,
     events: Events,
@@ -112,6 +113,7 @@ impl Network {
             pending_response_offset,
             pending_command_id,
             pending_response_len: 0,
+            unread_tcp_data: false,
             received_responses,
             poll_read,
             events,
@@ -315,73 +317,73 @@ impl Network {
         Ok(())
     }
 
+    /// Reads at most one complete message. Data that has arrived together with that message stays in
+    /// the socket for the next call.
     fn tcp_read_from_buffer(&mut self, timeout: Duration) {
-        self.poll_read
-            .poll(&mut self.events, Some(timeout))
-            .unwrap();
-        for event in self.events.iter() {
-            match event.token() {
-                CLIENT => {
-                    if event.is_readable() {
-                        let mut buffer = [0_u8; 70000];
-                        let available_bytes = self.tcp_socket.peek(&mut buffer);
-                        let available_bytes = match available_bytes {
-                            Ok(a) => a,
-                            Err(e) => {
-                                eprintln!("{}", e);
-                                return;
-                            }
-                        };
+        // The socket is polled edge-triggered. Hence, there will be no further event for the data
+        // that was left over by the last call.
+        if !self.unread_tcp_data {
+            self.poll_read
+                .poll(&mut self.events, Some(timeout))
+                .unwrap();
+            if !self.events.iter().any(|event| event.is_readable()) {
+                return;
+            }
+        }
+        self.unread_tcp_data = false;
+        let mut buffer = [0_u8; 70000];
+        let mut available_bytes = match self.tcp_socket.peek(&mut buffer) {
+            Ok(a) => a,
+            Err(e) => {
+                eprintln!("{}", e);
+                return;
+            }
+        };
 
-                        if self.pending_response.is_empty() {
-                            let header_mem_size = match self.network_type {
-                                NetworkType::Gripper => size_of::<CommandHeader>(),
-                                NetworkType::Robot => size_of::<RobotCommandHeader>(),
-                            };
-                            if available_bytes >= header_mem_size {
-                                let mut header_bytes: Vec<u8> = vec![0; header_mem_size];
-                                self.tcp_socket.read_exact(&mut header_bytes).unwrap();
-                                self.pending_response.append(&mut header_bytes.clone());
-                                self.pending_response_offset = header_mem_size as usize;
-                                match self.network_type {
-                                    NetworkType::Gripper => {
-                                        let header: CommandHeader = deserialize(&header_bytes);
-                                        self.pending_response_len = header.size as usize;
-                                        self.pending_command_id = header.command_id;
-                                    }
-                                    NetworkType::Robot => {
-                                        let header: RobotCommandHeader = deserialize(&header_bytes);
-                                        self.pending_response_len = header.size as usize;
-                                        self.pending_command_id = header.command_id;
-                                    }
-                                };
-                            }
-                        }
-                        if !self.pending_response.is_empty() && available_bytes > 0 {
-                            let number_of_bytes_to_read = usize::min(
-                                available_bytes,
-                                self.pending_response_len - self.pending_response_offset as usize,
-                            );
-                            let mut response_buffer: Vec<u8> = vec![0; number_of_bytes_to_read];
-                            self.tcp_socket.read_exact(&mut response_buffer).unwrap();
-                            self.pending_response.append(&mut response_buffer);
-                            self.pending_response_offset += number_of_bytes_to_read;
-                            if self.pending_response_offset == self.pending_response_len as usize {
-                                self.received_responses
-                                    .insert(self.pending_command_id, self.pending_response.clone());
-                                self.pending_response.clear();
-                                self.pending_response_offset = 0;
-                                self.pending_command_id = 0;
-                                self.pending_response_len = 0;
-                            }
-                        }
+        if self.pending_response.is_empty() {
+            let header_mem_size = match self.network_type {
+                NetworkType::Gripper => size_of::<CommandHeader>(),
+                NetworkType::Robot => size_of::<RobotCommandHeader>(),
+            };
+            if available_bytes >= header_mem_size {
+                let mut header_bytes: Vec<u8> = vec![0; header_mem_size];
+                self.tcp_socket.read_exact(&mut header_bytes).unwrap();
+                available_bytes -= header_mem_size;
+                self.pending_response.append(&mut header_bytes.clone());
+                self.pending_response_offset = header_mem_size as usize;
+                match self.network_type {
+                    NetworkType::Gripper => {
+                        let header: CommandHeader = deserialize(&header_bytes);
+                        self.pending_response_len = header.size as usize;
+                        self.pending_command_id = header.command_id;
                     }
-                    if event.is_writable() {
-                        eprintln!("There should not be any writable events")
+                    NetworkType::Robot => {
+                        let header: RobotCommandHeader = deserialize(&header_bytes);
+                        self.pending_response_len = header.size as usize;
+                        self.pending_command_id = header.command_id;
                     }
-                }
-                _ => unreachable!(),
+                };
+            }
+        }
+        if !self.pending_response.is_empty() {
+            let number_of_bytes_to_read = usize::min(
+                available_bytes,
+                self.pending_response_len - self.pending_response_offset as usize,
+            );
+            let mut response_buffer: Vec<u8> = vec![0; number_of_bytes_to_read];
+            self.tcp_socket.read_exact(&mut response_buffer).unwrap();
+            available_bytes -= number_of_bytes_to_read;
+            self.pending_response.append(&mut response_buffer);
+            self.pending_response_offset += number_of_bytes_to_read;
+            if self.pending_response_offset == self.pending_response_len as usize {
+                self.received_responses
+                    .insert(self.pending_command_id, self.pending_response.clone());
+                self.pending_response.clear();
+                self.pending_response_offset = 0;
+                self.pending_command_id = 0;
+                self.pending_response_len = 0;
             }
+            self.unread_tcp_data = available_bytes > 0;
         }
     }
     pub fn get_udp_port(&self) -> u16 {
-- 
2.43.0


From 439d949063e3f0ddd0a62a90db75173f4b6677a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:17 +0000
Subject: [PATCH 02/15] fix: receive one UDP datagram per call

udp_blocking_receive read all waiting datagrams into the same buffer and
returned the last one that arrived under the length of the first one. With
reordered datagrams the newest state was thrown away.
---
 src/network.rs | 60 +++++++++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index 86af821..573487d 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -8,7 +8,7 @@ extern crate nix;
 use std::collections::HashMap;
 use std::error::Error;
 use std::fmt::Debug;
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 use std::mem::size_of;
 use std::net::TcpStream as StdTcpStream;
 use std::net::{IpAddr, SocketAddr, ToSocketAddrs};
@@ -265,39 +265,35 @@ impl Network {
     pub fn udp_blocking_receive<T: Debug + Serialize + DeserializeOwned + 'static>(
         &mut self,
     ) -> FrankaResult<T> {
-        self.poll_read_udp
-            .poll(&mut self.events_udp, Some(self.udp_timeout))
-            .unwrap();
-        for event in self.events_udp.iter() {
-            match event.token() {
-                CLIENT => {
-                    if event.is_readable() {
-                        let mut buffer: Vec<u8> = vec![0; size_of::<T>()];
-                        let read_bytes_and_address = self.udp_socket.recv_from(&mut buffer);
-                        while self.udp_socket.recv_from(&mut buffer).is_ok() {}
-                        let read_bytes = match read_bytes_and_address {
-                            Ok(res) => {
-                                self.udp_server_address = res.1;
-                                res.0
-                            }
-                            Err(e) => {
-                                return Err(FrankaException::NetworkException {
-                                    message: e.to_string(),
-                                });
-                            }
-                        };
-                        if read_bytes != size_of::<T>() {
-                            return Err(FrankaException::NetworkException { message: format!("UDP object could not be received: object has {} bytes but it should have {} bytes", read_bytes, size_of::<T>()) });
-                        }
-                        return Ok(deserialize(&buffer));
-                    }
-                }
-                _ => unreachable!(),
+        let mut buffer: Vec<u8> = vec![0; size_of::<T>()];
+        // Datagrams that are already waiting do not cause another (edge-triggered) event.
+        let mut read_bytes_and_address = self.udp_socket.recv_from(&mut buffer);
+        if matches!(&read_bytes_and_address, Err(e) if e.kind() == ErrorKind::WouldBlock) {
+            self.poll_read_udp
+                .poll(&mut self.events_udp, Some(self.udp_timeout))
+                .unwrap();
+            if self.events_udp.is_empty() {
+                return Err(FrankaException::NetworkException {
+                    message: "libfranka-rs: UDP receive: timeout".to_string(),
+                });
             }
+            read_bytes_and_address = self.udp_socket.recv_from(&mut buffer);
         }
-        Err(FrankaException::NetworkException {
-            message: "libfranka-rs: UDP receive: timeout".to_string(),
-        })
+        let read_bytes = match read_bytes_and_address {
+            Ok(res) => {
+                self.udp_server_address = res.1;
+                res.0
+            }
+            Err(e) => {
+                return Err(FrankaException::NetworkException {
+                    message: e.to_string(),
+                });
+            }
+        };
+        if read_bytes != size_of::<T>() {
+            return Err(FrankaException::NetworkException { message: format!("UDP object could not be received: object has {} bytes but it should have {} bytes", read_bytes, size_of::<T>()) });
+        }
+        Ok(deserialize(&buffer))
     }
     pub fn udp_send<T: Debug + Serialize + DeserializeOwned>(
         &mut self,
-- 
2.43.0


From 31a1cc62965f5989f73184ac94eb526c64ec5c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:12 +0000
Subject: [PATCH 03/15] fix: error log in order and limited to the current
 motion

The ring index was applied to a queue that already drops its oldest entry, so a
wrapped log came out rotated; flush() left the old entries in the queues, so the
next log held records of an earlier motion; a log size of 0 panicked.
---
 src/robot/logger.rs | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/robot/logger.rs b/src/robot/logger.rs
index db4fb76..4d83cec 100644
--- a/src/robot/logger.rs
+++ b/src/robot/logger.rs
@@ -49,8 +49,6 @@ impl Record {
 pub(crate) struct Logger {
     states: VecDeque<RobotState>,
     commands: VecDeque<RobotCommand>,
-    ring_front: usize,
-    ring_size: usize,
     log_size: usize,
 }
 
@@ -59,26 +57,23 @@ impl Logger {
         Logger {
             states: VecDeque::with_capacity(log_size),
             commands: VecDeque::with_capacity(log_size),
-            ring_front: 0,
-            ring_size: 0,
             log_size,
         }
     }
     pub fn log(&mut self, state: &RobotState, command: &RobotCommand) {
-        self.states.push_back(state.clone());
-        self.commands.push_back(*command);
-        self.ring_front = (self.ring_front + 1) % self.log_size;
-        if self.ring_size == self.log_size {
+        if self.log_size == 0 {
+            return;
+        }
+        if self.states.len() == self.log_size {
             self.states.pop_front();
             self.commands.pop_front();
         }
-        self.ring_size = usize::min(self.log_size, self.ring_size + 1);
+        self.states.push_back(state.clone());
+        self.commands.push_back(*command);
     }
     pub fn flush(&mut self) -> Vec<Record> {
         let mut out: Vec<Record> = Vec::new();
-        for i in 0..self.ring_size {
-            let index = (self.ring_front + i) % self.ring_size;
-            let cmd = self.commands.get(index).unwrap();
+        for (state, cmd) in self.states.drain(..).zip(self.commands.drain(..)) {
             let command = RobotCommandLog {
                 joint_positions: JointPositions::new(cmd.motion.q_c),
                 joint_velocities: JointVelocities::new(cmd.motion.dq_c),
@@ -86,14 +81,8 @@ impl Logger {
                 cartesian_velocities: CartesianVelocities::new(cmd.motion.O_dP_EE_c, None),
                 torques: Torques::new(cmd.control.tau_J_d),
             };
-            let record = Record {
-                state: self.states.get(index).unwrap().clone(),
-                command,
-            };
-            out.push(record);
+            out.push(Record { state, command });
         }
-        self.ring_front = 0;
-        self.ring_size = 0;
         out
     }
 }
-- 
2.43.0


From 2b0ab75e08f0fde303d2fbd01704440ef9de4206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:49 +0000
Subject: [PATCH 04/15] fix: print the closing bracket of an empty error list

---
 src/robot/errors.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robot/errors.rs b/src/robot/errors.rs
index 8b2d077..f45b9cd 100644
--- a/src/robot/errors.rs
+++ b/src/robot/errors.rs
@@ -56,10 +56,10 @@ impl fmt::Display for FrankaErrors {
                     write!(f, "\"{}\", ", error)?;
                 }
                 None => {
-                    return write!(f, "\"{}\"]", error);
+                    write!(f, "\"{}\"", error)?;
                 }
             }
         }
-        Ok(())
+        write!(f, "]")
     }
 }
-- 
2.43.0


From 10044f5137574a616c7be15510cb9ff5018d9044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:18 +0000
Subject: [PATCH 05/15] fix: report a lost TCP connection instead of waiting or
 panicking

---
 src/gripper.rs                  | 20 ++++++------
 src/model/library_downloader.rs |  2 +-
 src/network.rs                  | 58 +++++++++++++++++++++++----------
 src/robot.rs                    | 44 ++++++++++++-------------
 src/robot/robot_impl.rs         | 20 +++++-------
 5 files changed, 83 insertions(+), 61 deletions(-)

diff --git a/src/gripper.rs b/src/gripper.rs
index ae99df1..22117d4 100644
--- a/src/gripper.rs
+++ b/src/gripper.rs
@@ -51,9 +51,9 @@ impl Gripper {
                 .create_header_for_gripper(Command::Connect, size_of::<ConnectRequestWithHeader>()),
             request: ConnectRequest::new(self.network.get_udp_port()),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
         let connect_response: ConnectResponse =
-            self.network.tcp_blocking_receive_response(command_id);
+            self.network.tcp_blocking_receive_response(command_id)?;
         match connect_response.status {
             Status::Success => {
                 self.ri_version = Some(connect_response.version);
@@ -81,8 +81,8 @@ impl Gripper {
                 .create_header_for_gripper(Command::Move, size_of::<MoveRequestWithHeader>()),
             request: MoveRequest::new(width, speed),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
     /// Performs homing of the gripper.
@@ -99,8 +99,8 @@ impl Gripper {
         let command: HomingRequestWithHeader = self
             .network
             .create_header_for_gripper(Command::Homing, size_of::<HomingRequestWithHeader>());
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: HomingResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: HomingResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
 
@@ -114,8 +114,8 @@ impl Gripper {
         let command: StopRequestWithHeader = self
             .network
             .create_header_for_gripper(Command::Stop, size_of::<StopRequestWithHeader>());
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: StopResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: StopResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
 
@@ -152,8 +152,8 @@ impl Gripper {
                 .create_header_for_gripper(Command::Grasp, size_of::<GraspRequestWithHeader>()),
             request: GraspRequest::new(width, speed, force, epsilon_inner, epsilon_outer),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: GraspResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: GraspResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
     /// Waits for a gripper state update and returns it.
diff --git a/src/model/library_downloader.rs b/src/model/library_downloader.rs
index 5a7b99d..89f3f6e 100644
--- a/src/model/library_downloader.rs
+++ b/src/model/library_downloader.rs
@@ -30,7 +30,7 @@ impl LibraryDownloader {
                     system: LoadModelLibrarySystem::Linux,
                 },
             };
-            let command_id: u32 = network.tcp_send_request(command);
+            let command_id: u32 = network.tcp_send_request(command)?;
             let mut buffer = Vec::<u8>::new();
             let _response: LoadModelLibraryResponse =
                 network.tcp_blocking_receive_load_library_response(command_id, &mut buffer)?;
diff --git a/src/network.rs b/src/network.rs
index 573487d..3cb15a9 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -56,6 +56,7 @@ pub struct Network {
     pending_response_len: usize,
     pending_command_id: u32,
     unread_tcp_data: bool,
+    tcp_closed: bool,
     received_responses: HashMap<u32, Vec<u8>>,
     poll_read: Poll,
     events: Events,
@@ -114,6 +115,7 @@ impl Network {
             pending_command_id,
             pending_response_len: 0,
             unread_tcp_data: false,
+            tcp_closed: false,
             received_responses,
             poll_read,
             events,
@@ -143,22 +145,30 @@ impl Network {
     pub fn tcp_send_request<T: Serialize + DeserializeOwned + MessageCommand + Debug>(
         &mut self,
         request: T,
-    ) -> u32 {
+    ) -> FrankaResult<u32> {
         let encoded_request = serialize(&request);
-        self.tcp_socket.write_all(&encoded_request).unwrap();
-        request.get_command_message_id()
+        self.tcp_socket
+            .write_all(&encoded_request)
+            .map_err(|e| FrankaException::NetworkException {
+                message: format!("libfranka-rs: TCP send: {}", e),
+            })?;
+        Ok(request.get_command_message_id())
     }
     /// Blocks until a Response message with the given command ID has been received and returns this
     /// response.
     ///
     /// # Arguments
     /// * `command_id` - Expected command ID of the Response.
+    ///
+    /// # Error
+    /// * [`NetworkException`](`crate::exception::FrankaException::NetworkException`) - if the
+    /// connection is lost.
     pub fn tcp_blocking_receive_response<T: DeserializeOwned + Debug + 'static>(
         &mut self,
         command_id: u32,
-    ) -> T {
-        let response_bytes = self.wait_for_response_to_arrive(&command_id);
-        deserialize(&response_bytes)
+    ) -> FrankaResult<T> {
+        let response_bytes = self.wait_for_response_to_arrive(&command_id)?;
+        Ok(deserialize(&response_bytes))
     }
     /// Blocks until a LoadModelLibraryResponse message with the given command ID has been received
     /// and returns this LoadModelLibraryResponse.
@@ -176,7 +186,7 @@ impl Network {
         command_id: u32,
         buffer: &mut Vec<u8>,
     ) -> FrankaResult<LoadModelLibraryResponse> {
-        let response_bytes = self.wait_for_response_to_arrive(&command_id);
+        let response_bytes = self.wait_for_response_to_arrive(&command_id)?;
         let lib_response: LoadModelLibraryResponse =
             deserialize(&response_bytes[0..size_of::<LoadModelLibraryResponse>()]);
         match lib_response.status {
@@ -218,7 +228,7 @@ impl Network {
         F: FnOnce(T) -> Result<(), FrankaException>,
         T: DeserializeOwned + Debug + 'static,
     {
-        self.tcp_read_from_buffer(Duration::from_micros(0));
+        self.tcp_read_from_buffer(Duration::from_micros(0))?;
         let message = self.received_responses.get(&command_id);
         if message.is_none() {
             return Ok(false);
@@ -237,16 +247,16 @@ impl Network {
         }
     }
 
-    fn wait_for_response_to_arrive(&mut self, command_id: &u32) -> Vec<u8> {
+    fn wait_for_response_to_arrive(&mut self, command_id: &u32) -> FrankaResult<Vec<u8>> {
         let mut response_bytes: Option<Vec<u8>> = None;
         while response_bytes == None {
             {
-                self.tcp_read_from_buffer(Duration::from_millis(10));
+                self.tcp_read_from_buffer(Duration::from_millis(10))?;
                 response_bytes = self.received_responses.remove(command_id);
             }
             std::thread::yield_now();
         }
-        response_bytes.unwrap()
+        Ok(response_bytes.unwrap())
     }
     pub fn udp_receive<T: Debug + Serialize + DeserializeOwned + 'static>(&mut self) -> Option<T> {
         // TODO replace Vec<u8> with array when https://github.com/rust-lang/rust/issues/43408
@@ -315,7 +325,7 @@ impl Network {
 
     /// Reads at most one complete message. Data that has arrived together with that message stays in
     /// the socket for the next call.
-    fn tcp_read_from_buffer(&mut self, timeout: Duration) {
+    fn tcp_read_from_buffer(&mut self, timeout: Duration) -> FrankaResult<()> {
         // The socket is polled edge-triggered. Hence, there will be no further event for the data
         // that was left over by the last call.
         if !self.unread_tcp_data {
@@ -323,18 +333,27 @@ impl Network {
                 .poll(&mut self.events, Some(timeout))
                 .unwrap();
             if !self.events.iter().any(|event| event.is_readable()) {
-                return;
+                return Ok(());
             }
+            self.tcp_closed |= self.events.iter().any(|event| event.is_read_closed());
         }
-        self.unread_tcp_data = false;
+        // There are no further events after the connection is lost.
+        self.unread_tcp_data = true;
         let mut buffer = [0_u8; 70000];
         let mut available_bytes = match self.tcp_socket.peek(&mut buffer) {
+            Ok(0) => {
+                return Err(FrankaException::NetworkException {
+                    message: "libfranka-rs: TCP connection got closed".to_string(),
+                });
+            }
             Ok(a) => a,
             Err(e) => {
-                eprintln!("{}", e);
-                return;
+                return Err(FrankaException::NetworkException {
+                    message: format!("libfranka-rs: TCP receive: {}", e),
+                });
             }
         };
+        self.unread_tcp_data = self.tcp_closed;
 
         if self.pending_response.is_empty() {
             let header_mem_size = match self.network_type {
@@ -359,6 +378,10 @@ impl Network {
                         self.pending_command_id = header.command_id;
                     }
                 };
+            } else if self.tcp_closed {
+                return Err(FrankaException::NetworkException {
+                    message: "libfranka-rs: TCP connection got closed".to_string(),
+                });
             }
         }
         if !self.pending_response.is_empty() {
@@ -379,8 +402,9 @@ impl Network {
                 self.pending_command_id = 0;
                 self.pending_response_len = 0;
             }
-            self.unread_tcp_data = available_bytes > 0;
+            self.unread_tcp_data |= available_bytes > 0;
         }
+        Ok(())
     }
     pub fn get_udp_port(&self) -> u16 {
         self.udp_port
diff --git a/src/robot.rs b/src/robot.rs
index 05986bf..de89a1e 100644
--- a/src/robot.rs
+++ b/src/robot.rs
@@ -256,11 +256,11 @@ impl Robot {
                 upper_force_thresholds_nominal,
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetCollisionBehaviorResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -281,11 +281,11 @@ impl Robot {
             ),
             request: SetJointImpedanceRequest::new(K_theta),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetJointImpedanceResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -308,11 +308,11 @@ impl Robot {
             ),
             request: SetCartesianImpedanceRequest::new(K_x),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetCartesianImpedanceResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Locks or unlocks guiding mode movement in (x, y, z, roll, pitch, yaw).
@@ -334,11 +334,11 @@ impl Robot {
             ),
             request: SetGuidingModeRequest::new(guiding_mode, elbow),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetGuidingModeResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -361,11 +361,11 @@ impl Robot {
             ),
             request: SetEeToKRequest::new(EE_T_K),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetEeToKResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -392,11 +392,11 @@ impl Robot {
             ),
             request: SetNeToEeRequest::new(NE_T_EE),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetNeToEeResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Sets dynamic parameters of a payload.
@@ -427,11 +427,11 @@ impl Robot {
             ),
             request: SetLoadRequest::new(load_mass, F_x_Cload, load_inertia),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetLoadResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Sets the cut off frequency for the given motion generator or controller.
@@ -473,11 +473,11 @@ impl Robot {
                 controller_filter_frequency,
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetFiltersResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -492,11 +492,11 @@ impl Robot {
             RobotCommandEnum::AutomaticErrorRecovery,
             size_of::<AutomaticErrorRecoveryRequestWithHeader>(),
         );
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: AutomaticErrorRecoveryResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match &response.status {
             AutomaticErrorRecoveryStatus::Success => Ok(()),
             AutomaticErrorRecoveryStatus::EmergencyAborted => Err(create_command_exception(
@@ -535,11 +535,11 @@ impl Robot {
                 size_of::<StopMoveRequestWithHeader>(),
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: StopMoveResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match response.status {
             StopMoveStatus::Success => Ok(()),
             StopMoveStatus::CommandNotPossibleRejected | StopMoveStatus::Aborted => {
@@ -571,11 +571,11 @@ impl Robot {
             ),
             request: GetCartesianLimitRequest::new(id),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: GetCartesianLimitResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match &response.status {
             GetterSetterStatus::Success => Ok(VirtualWallCuboid::new(id, response)),
             GetterSetterStatus::CommandNotPossibleRejected => Err(create_command_exception(
diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 1db48ad..2171bbe 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -125,9 +125,9 @@ impl RobotImpl {
             ),
             request: ConnectRequest::new(self.network.get_udp_port()),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
         let connect_response: ConnectResponse =
-            self.network.tcp_blocking_receive_response(command_id);
+            self.network.tcp_blocking_receive_response(command_id)?;
         match connect_response.status {
             ConnectStatus::Success => {
                 self.ri_version = Some(connect_response.version);
@@ -264,8 +264,8 @@ impl RobotImpl {
                 *maximum_goal_deviation,
             ),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_command_response_move(&response)?;
         Ok(command_id)
     }
@@ -276,8 +276,8 @@ impl RobotImpl {
                 size_of::<StopMoveRequestWithHeader>(),
             ),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: StopMoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: StopMoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_command_response_stop(&response)?;
         Ok(command_id)
     }
@@ -330,9 +330,7 @@ impl RobotControl for RobotImpl {
                         error: message,
                     });
                 }
-                _ => {
-                    panic!("this should be an command exception but it is not")
-                }
+                Err(error) => return Err(error),
             }
 
             let _robot_state = self.update(None, None)?;
@@ -365,7 +363,7 @@ impl RobotControl for RobotImpl {
             robot_state = Some(self.update(Some(&motion_finished_command), control_command)?);
         }
         let robot_state = robot_state.unwrap();
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(motion_id);
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(motion_id)?;
         if response.status == MoveStatus::ReflexAborted {
             return Err(create_control_exception(
                 String::from("Motion finished commanded, but the robot is still moving!"),
@@ -439,7 +437,7 @@ impl RobotControl for RobotImpl {
             || self.motion_generator_mode.unwrap() != self.current_move_motion_generator_mode
             || self.controller_mode != self.current_move_controller_mode.unwrap()
         {
-            let response = self.network.tcp_blocking_receive_response(motion_id);
+            let response = self.network.tcp_blocking_receive_response(motion_id)?;
             let result = handle_command_response_move(&response);
             return match result {
                 Err(error) => Err(create_control_exception(
-- 
2.43.0


From 4d4dec370cfc7d9a06b8ab307b5ce515b20d0f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:24 +0000
Subject: [PATCH 06/15] fix: report an unknown host and a missing first state
 instead of panicking

---
 src/network.rs          | 5 ++++-
 src/robot/robot_impl.rs | 3 +--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index 3cb15a9..85e2bfe 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -71,7 +71,10 @@ impl Network {
         franka_port: u16,
     ) -> Result<Network, Box<dyn Error>> {
         let address_str: String = format!("{}:{}", franka_address, franka_port);
-        let sock_address = address_str.to_socket_addrs().unwrap().next().unwrap();
+        let sock_address = address_str
+            .to_socket_addrs()?
+            .next()
+            .ok_or("libfranka-rs: could not resolve the address")?;
         let mut tcp_socket = TcpStream::from_std(StdTcpStream::connect(sock_address)?);
         let fd = tcp_socket.as_raw_fd();
 
diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 2171bbe..223c3d3 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -112,8 +112,7 @@ impl RobotImpl {
         robot_impl.connect_robot()?;
         let state = robot_impl
             .network
-            .udp_blocking_receive::<RobotStateIntern>()
-            .unwrap();
+            .udp_blocking_receive::<RobotStateIntern>()?;
         robot_impl.update_state_with(&state);
         Ok(robot_impl)
     }
-- 
2.43.0


From c85a0d192bc56f45c90b8866476254675326582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:21 +0000
Subject: [PATCH 07/15] fix: return the original error if stopping a failed
 motion fails as well

---
 src/network.rs          |  8 ++++----
 src/robot/robot_impl.rs | 18 +++++++++---------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index 85e2bfe..2855f76 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -150,11 +150,11 @@ impl Network {
         request: T,
     ) -> FrankaResult<u32> {
         let encoded_request = serialize(&request);
-        self.tcp_socket
-            .write_all(&encoded_request)
-            .map_err(|e| FrankaException::NetworkException {
+        self.tcp_socket.write_all(&encoded_request).map_err(|e| {
+            FrankaException::NetworkException {
                 message: format!("libfranka-rs: TCP send: {}", e),
-            })?;
+            }
+        })?;
         Ok(request.get_command_message_id())
     }
     /// Blocks until a Response message with the given command ID has been received and returns this
diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 223c3d3..c6012d2 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -390,22 +390,22 @@ impl RobotControl for RobotImpl {
         Ok(())
     }
 
-    // TODO exception handling
     fn cancel_motion(&mut self, motion_id: u32) {
-        self.execute_stop_command()
-            .expect("error while canceling motion"); //todo handle Network exception. But it is not that important since we already have an error anyways
-        let mut _robot_state = self.receive_robot_state();
-        while self.motion_generator_running() || self.controller_running() {
-            _robot_state = self.receive_robot_state();
+        // The caller already has an error to report. It is more important than a failing stop command.
+        let _ = self.execute_stop_command();
+        let mut robot_state = self.receive_robot_state();
+        while robot_state.is_ok() && (self.motion_generator_running() || self.controller_running())
+        {
+            robot_state = self.receive_robot_state();
         }
 
         // comment from libfranka devs:
         // Ignore Move response.
         // TODO (FWA): It is not guaranteed that the Move response won't come later
 
-        self.network
-            .tcp_receive_response(motion_id, |_x: MoveResponse| Ok(()))
-            .expect("This should be impossible as the handler always returns Ok(())");
+        let _ = self
+            .network
+            .tcp_receive_response(motion_id, |_x: MoveResponse| Ok(()));
         self.current_move_motion_generator_mode = MotionGeneratorMode::Idle;
         self.current_move_controller_mode = Some(ControllerMode::Other);
     }
-- 
2.43.0


From bd2f1ef974771ae6ada205e55498b8cbc5d3081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:37 +0000
Subject: [PATCH 08/15] fix: use the total inertia for the Coriolis vector of a
 state

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index 191fc13..b561c95 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -347,7 +347,7 @@ impl Model {
         self.coriolis(
             &robot_state.q,
             &robot_state.dq,
-            &robot_state.I_load,
+            &robot_state.I_total,
             robot_state.m_total,
             &robot_state.F_x_Ctotal,
         )
-- 
2.43.0


From 31b374efdad9a2439b3558ec44ac4e57949309dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:43 +0000
Subject: [PATCH 09/15] fix: receive TCP data that does not fit into the
 receive buffer

---
 src/network.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/network.rs b/src/network.rs
index 2855f76..23f2b38 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -357,6 +357,14 @@ impl Network {
             }
         };
         self.unread_tcp_data = self.tcp_closed;
+        if available_bytes == buffer.len() {
+            // There may be more data than the buffer can hold. Registering the socket again
+            // causes another event for it.
+            self.poll_read
+                .registry()
+                .reregister(&mut self.tcp_socket, CLIENT, Interest::READABLE)
+                .unwrap();
+        }
 
         if self.pending_response.is_empty() {
             let header_mem_size = match self.network_type {
-- 
2.43.0


From e2abc84d88276bc6579628349bb885b1e2559aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:43 +0000
Subject: [PATCH 10/15] fix: write the complete model library

---
 src/model/library_downloader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/library_downloader.rs b/src/model/library_downloader.rs
index 89f3f6e..3e8c971 100644
--- a/src/model/library_downloader.rs
+++ b/src/model/library_downloader.rs
@@ -37,7 +37,7 @@ impl LibraryDownloader {
             let mut file = File::create(download_path).map_err(|_| ModelException {
                 message: "Error writing model to disk:".to_string(),
             })?;
-            file.write(&buffer).map_err(|_| ModelException {
+            file.write_all(&buffer).map_err(|_| ModelException {
                 message: "Error writing model to disk:".to_string(),
             })?;
             Ok(())
-- 
2.43.0


From 9499982f5f7eea7cf49ba453c0c1b9d804c0b66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:43 +0000
Subject: [PATCH 11/15] fix: keep the downloaded model only if it should be
 persistent

---
 src/robot/robot_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index c6012d2..0fcb1ad 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -236,7 +236,7 @@ impl RobotImpl {
             LibraryDownloader::download(&mut self.network, model_file)?;
         }
         let model = Model::new(model_file, None)?;
-        if !persistent && model_already_downloaded {
+        if !persistent {
             remove_file(model_file).expect("Could not delete file");
         }
         Ok(model)
-- 
2.43.0


From 759379b08fbdf0b6d16e94fbdbba607806cb47a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:23 +0000
Subject: [PATCH 12/15] fix: convert poses that are rotated by 180 degrees

---
 src/utils.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index a6136ae..683e4be 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -9,11 +9,14 @@ use std::time::Duration;
 
 /// converts a 4x4 column-major homogenous matrix to an Isometry
 pub fn array_to_isometry(array: &[f64; 16]) -> Isometry3<f64> {
-    let rot = Rotation3::from_matrix(
-        &Matrix4::from_column_slice(array)
+    // Rotation3::from_matrix starts its search for the closest rotation at the identity and hence
+    // does not find rotations by 180 degrees.
+    let mut rot = Rotation3::from_matrix_unchecked(
+        Matrix4::from_column_slice(array)
             .remove_column(3)
             .remove_row(3),
     );
+    rot.renormalize();
     Isometry3::from_parts(
         Vector3::new(array[12], array[13], array[14]).into(),
         rot.into(),
-- 
2.43.0


From d1b37b9a173360345817008e9b200c24da2a4487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:05 +0000
Subject: [PATCH 13/15] fix: refuse a cutoff frequency of zero in the low-pass
 filter

---
 src/robot/low_pass_filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robot/low_pass_filter.rs b/src/robot/low_pass_filter.rs
index 8c3ab5f..88b3b11 100644
--- a/src/robot/low_pass_filter.rs
+++ b/src/robot/low_pass_filter.rs
@@ -28,7 +28,7 @@ pub static DEFAULT_CUTOFF_FREQUENCY: f64 = 100.0;
 /// Filtered value.
 pub fn low_pass_filter(sample_time: f64, y: f64, y_last: f64, cutoff_frequency: f64) -> f64 {
     assert!(sample_time.is_sign_positive() && sample_time.is_finite());
-    assert!(cutoff_frequency.is_sign_positive() && cutoff_frequency.is_finite());
+    assert!(cutoff_frequency > 0. && cutoff_frequency.is_finite());
     assert!(y.is_finite() && y_last.is_finite());
     let gain = sample_time / (sample_time + (1.0 / (2.0 * PI * cutoff_frequency)));
     gain * y + (1. - gain) * y_last
@@ -57,7 +57,7 @@ pub fn cartesian_low_pass_filter(
     cutoff_frequency: f64,
 ) -> [f64; 16] {
     assert!(sample_time.is_sign_positive() && sample_time.is_finite());
-    assert!(cutoff_frequency.is_sign_positive() && cutoff_frequency.is_finite());
+    assert!(cutoff_frequency > 0. && cutoff_frequency.is_finite());
     y.iter()
         .zip(y_last.iter())
         .for_each(|(i, j)| assert!(i.is_finite() && j.is_finite()));
-- 
2.43.0


From 2c5ebe5bab7a3403998e12e6290e32d36c577068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:34 +0000
Subject: [PATCH 14/15] fix: keep orientations that are rotated by 180 degrees
 in the pose rate limiter

---
 src/robot/rate_limiting.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/robot/rate_limiting.rs b/src/robot/rate_limiting.rs
index a621576..844b272 100644
--- a/src/robot/rate_limiting.rs
+++ b/src/robot/rate_limiting.rs
@@ -356,8 +356,14 @@ pub fn limit_rate_cartesian_pose(
         let R = Matrix3::identity()
             + f64::sin(theta) * omega_skew
             + (1. - f64::cos(theta)) * (omega_skew * omega_skew);
-        limited_commanded_pose.rotation =
-            UnitQuaternion::from_matrix(&(R * last_commanded_pose.rotation.to_rotation_matrix()));
+        let mut rotation = Rotation3::from_matrix_unchecked(
+            R * last_commanded_pose
+                .rotation
+                .to_rotation_matrix()
+                .into_inner(),
+        );
+        rotation.renormalize();
+        limited_commanded_pose.rotation = UnitQuaternion::from_rotation_matrix(&rotation);
     }
     let mut limited_values = [0.; 16];
     for (i, &x) in limited_commanded_pose.to_homogeneous().iter().enumerate() {
-- 
2.43.0


From 76f6129d7b677e1f4feb91e93218887a2dd3a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:29 +0000
Subject: [PATCH 15/15] fix: do not return a state older than one already
 received in read_once

---
 src/robot/robot_impl.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 0fcb1ad..8bca6da 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -144,7 +144,11 @@ impl RobotImpl {
         self.message_id = robot_state.message_id;
     }
     pub fn read_once(&mut self) -> FrankaResult<RobotState> {
-        while self.network.udp_receive::<RobotStateIntern>().is_some() {}
+        while let Some(state) = self.network.udp_receive::<RobotStateIntern>() {
+            if state.message_id > self.message_id {
+                self.update_state_with(&state);
+            }
+        }
         Ok(RobotState::from(self.receive_robot_state()?))
     }
     fn receive_robot_state(&mut self) -> FrankaResult<RobotStateIntern> {
-- 
2.43.0

