From 3757af8bcf68e14d3e7e5f4e105b655b27cad614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 01/41] fix: register a spawned process before it can run

The task was spawned before its registration was inserted, so when spawn was
called off a worker thread the process could run (or even finish) while it
was not in the process registry, losing flags, exits and its own cleanup.
---
 hydra/src/process.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 5c3e855..c0b2962 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -10,6 +10,8 @@ use std::time::Duration;
 use flume::Receiver;
 use flume::Sender;
 
+use tokio::sync::oneshot;
+
 use crate::alias_create;
 use crate::alias_destroy;
 use crate::alias_destroy_all;
@@ -481,8 +483,13 @@ where
         result = SpawnResult::PidMonitor(pid, monitor);
     }
 
+    // The process must not run before it has been registered, it may be polled on another thread immediately.
+    let (registered, wait_registered) = oneshot::channel::<()>();
+
     // Spawn the process with the newly created process object in scope.
     let handle = tokio::spawn(PROCESS.scope(process, async move {
+        let _ = wait_registered.await;
+
         if let Err(e) = AsyncCatchUnwind::new(AssertUnwindSafe(function)).await {
             process_set_exit_reason(Process::current(), e.into());
         }
@@ -491,5 +498,7 @@ where
     // Register the process under it's new id.
     process_insert(next_id, ProcessRegistration::new(handle, tx));
 
+    let _ = registered.send(());
+
     result
 }
-- 
2.43.0


From 493199c038a415a06460f7d83fae7094415b5088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 02/41] fix: hold the process entry while installing links and
 monitors

process_exists_lock dropped its guard before running the callback, so the
process could terminate between the check and the installation and the link
or monitor was lost.
---
 hydra/src/node_remote.rs      | 19 ++++++++++++-------
 hydra/src/process_registry.rs |  8 +++-----
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index f5edec7..9ee58a1 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -169,7 +169,7 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                     if let Some(id) = monitor.process_id {
                         let process = Pid::local(id);
 
-                        process_exists_lock(process, |exists| {
+                        let created = process_exists_lock(process, |exists| {
                             if exists {
                                 monitor_create(process, reference, from, None);
                                 node_process_monitor_cleanup(
@@ -177,14 +177,19 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                                     reference,
                                     process,
                                 );
-                            } else {
-                                let mut monitor_down = MonitorDown::new(ExitReason::from("noproc"));
-
-                                monitor_down.monitors.push(reference.id());
-
-                                node_send_frame(monitor_down.into(), node);
                             }
+
+                            exists
                         });
+
+                        // The frame must be sent after the process lock has been released.
+                        if !created {
+                            let mut monitor_down = MonitorDown::new(ExitReason::from("noproc"));
+
+                            monitor_down.monitors.push(reference.id());
+
+                            node_send_frame(monitor_down.into(), node);
+                        }
                     } else if let Some(name) = monitor.process_name {
                         if let Some(id) = process_name_lookup(&name) {
                             monitor_create(id, reference, from, None);
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 38929fe..f6f4630 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -30,11 +30,9 @@ static PROCESS_TIMERS: Lazy<DashMap<u64, (Instant, JoinHandle<()>)>> = Lazy::new
 ///
 /// The process will exist for the duration of `callback`.
 pub fn process_exists_lock<C: FnOnce(bool) -> R, R>(pid: Pid, callback: C) -> R {
-    if PROCESS_REGISTRY.get(&pid.id()).is_some() {
-        callback(true)
-    } else {
-        callback(false)
-    }
+    let process = PROCESS_REGISTRY.get(&pid.id());
+
+    callback(process.is_some())
 }
 
 /// Drops a process from the registry.
-- 
2.43.0


From 2a14cf333b2b6414b985607ef5cc33345a39e260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 03/41] fix: unlink both directions of a link

unlink only removed the entry of the other process, so the exit of the
unlinking process still terminated the process it had unlinked from. Also
drop the half-installed entry when linking fails.
---
 hydra/src/link.rs    | 4 ++++
 hydra/src/process.rs | 1 +
 2 files changed, 5 insertions(+)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 7ee1e19..22bce2a 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -49,6 +49,8 @@ pub fn link_install(process: Pid, from: Pid) {
 
     if process.is_local() {
         if !link_create(process, from, false) {
+            link_destroy(from, process);
+
             process_exit_signal_linked(from, process, ExitReason::from("noproc"));
         }
     } else {
@@ -64,6 +66,8 @@ pub fn link_install(process: Pid, from: Pid) {
                 node_send_frame(link.into(), node);
             }
             None => {
+                link_destroy(from, process);
+
                 process_exit_signal_linked(from, process, ExitReason::from("noconnection"));
             }
         }
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index c0b2962..be197aa 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -315,6 +315,7 @@ impl Process {
             return;
         }
 
+        link_destroy(current, pid);
         link_destroy(pid, current);
     }
 
-- 
2.43.0


From 1e8191284623f78098d2f392d8769cf203b0f2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 04/41] fix: check that a named process still exists when a
 remote node monitors it

The name may resolve to a process that terminates before the monitor is
installed, in which case the remote node was never told.
---
 hydra/src/node_remote.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 9ee58a1..f85f9d2 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -191,14 +191,26 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                             node_send_frame(monitor_down.into(), node);
                         }
                     } else if let Some(name) = monitor.process_name {
-                        if let Some(id) = process_name_lookup(&name) {
-                            monitor_create(id, reference, from, None);
+                        let process = process_name_lookup(&name).filter(|process| {
+                            process_exists_lock(*process, |exists| {
+                                if exists {
+                                    monitor_create(*process, reference, from, None);
+                                    node_process_monitor_cleanup(
+                                        supervisor.node.clone(),
+                                        reference,
+                                        *process,
+                                    );
+                                }
+
+                                exists
+                            })
+                        });
 
+                        if let Some(id) = process {
                             let monitor_update =
                                 MonitorUpdate::new(from_id, id.id(), reference.id());
 
                             node_send_frame(monitor_update.into(), node);
-                            node_process_monitor_cleanup(supervisor.node.clone(), reference, id);
                         } else {
                             let mut monitor_down = MonitorDown::new(ExitReason::from("noproc"));
 
-- 
2.43.0


From 1a7f97806b9c7a10dc9474f039c36c6fe4636f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 05/41] fix: demonitor remote processes on the node they live
 on

The demonitor frame was addressed to the node of the (always local)
reference, so it was queued forever and the remote node kept the monitor, and
a received demonitor frame tore down the connection because it carries no
from_id. The alias of a monitor on a remote name is deactivated as well.
---
 hydra/src/monitor.rs     | 19 ++++---------------
 hydra/src/node_remote.rs | 11 ++++++-----
 hydra/src/process.rs     |  8 +++-----
 3 files changed, 13 insertions(+), 25 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index 5bcb11a..ef6dee2 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -51,9 +51,9 @@ pub fn monitor_destroy(process: Pid, reference: Reference) {
     } else {
         let monitor = Monitor::new(false, Some(process.id()), None, None, reference.id());
 
-        node_send_frame(monitor.into(), reference.node());
+        node_send_frame(monitor.into(), process.node());
 
-        if let Some((name, address)) = node_lookup_remote(reference.node()) {
+        if let Some((name, address)) = node_lookup_remote(process.node()) {
             node_process_monitor_destroy(Node::from((name, address)), reference);
         }
     }
@@ -66,19 +66,8 @@ pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a Proces
     for (reference, monitor) in monitors {
         match monitor {
             ProcessMonitor::ForProcess(pid) => {
-                let Some(pid) = pid else {
-                    continue;
-                };
-
-                if pid.is_local() {
-                    MONITORS.alter(&pid.id(), |_, mut value| {
-                        value.remove(reference);
-                        value
-                    });
-                } else {
-                    let monitor = Monitor::new(false, Some(pid.id()), None, None, reference.id());
-
-                    node_send_frame(monitor.into(), reference.node());
+                if let Some(pid) = pid {
+                    monitor_destroy(*pid, *reference);
                 }
             }
             ProcessMonitor::ForNode(node) => {
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index f85f9d2..d9c368f 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -158,14 +158,15 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
             Frame::Monitor(monitor) => {
                 let node = node_register(supervisor.node.clone(), false);
 
-                let from_id = monitor
-                    .from_id
-                    .expect("Must have a from_id for remote monitors!");
-
-                let from = Pid::remote(from_id, node);
                 let reference = Reference::remote(monitor.reference_id, node);
 
                 if monitor.install {
+                    let from_id = monitor
+                        .from_id
+                        .expect("Must have a from_id for remote monitors!");
+
+                    let from = Pid::remote(from_id, node);
+
                     if let Some(id) = monitor.process_id {
                         let process = Pid::local(id);
 
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index be197aa..931be4e 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -367,11 +367,9 @@ impl Process {
             panic!("Invalid process monitor reference!");
         };
 
-        let Some(pid) = pid else {
-            return;
-        };
-
-        monitor_destroy(pid, monitor);
+        if let Some(pid) = pid {
+            monitor_destroy(pid, monitor);
+        }
 
         alias_destroy(monitor);
     }
-- 
2.43.0


From acbc9780323d320cb95ed43e7e9f714a8fed7bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 06/41] fix: keep a skipped remote message available to
 receivers of other types

A serialized message was replaced by whatever type first managed to
deserialize it, even when the filter rejected it, so a later receive of its
real type no longer saw it.
---
 hydra/src/process_item.rs     |  6 +++++-
 hydra/src/process_receiver.rs | 27 +++++++++++++++++++++------
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/hydra/src/process_item.rs b/hydra/src/process_item.rs
index 8094360..cb7523d 100644
--- a/hydra/src/process_item.rs
+++ b/hydra/src/process_item.rs
@@ -12,6 +12,8 @@ use crate::SystemMessage;
 pub enum ProcessItem {
     /// Sent from a remote process in a different userspace.
     UserRemoteMessage(Vec<u8>),
+    /// Sent from a remote process in a different userspace, with the value it was last deserialized to.
+    UserRemoteMessageDecoded(Vec<u8>, Box<dyn std::any::Any + Send>),
     /// Sent from a process in the same userspace.
     UserLocalMessage(Box<dyn std::any::Any + Send>),
     /// Sent from the system.
@@ -47,7 +49,9 @@ where
 impl Debug for ProcessItem {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-            Self::UserRemoteMessage(_) => write!(f, "UserRemoteMessage(..)"),
+            Self::UserRemoteMessage(_) | Self::UserRemoteMessageDecoded(_, _) => {
+                write!(f, "UserRemoteMessage(..)")
+            }
             Self::UserLocalMessage(_) => write!(f, "UserLocalMessage(..)"),
             Self::SystemMessage(system) => write!(f, "SystemMessage({:?})", system),
             Self::MonitorProcessDown(dest, reference, exit_reason) => write!(
diff --git a/hydra/src/process_receiver.rs b/hydra/src/process_receiver.rs
index 93029f9..5e40ef0 100644
--- a/hydra/src/process_receiver.rs
+++ b/hydra/src/process_receiver.rs
@@ -158,7 +158,8 @@ fn convert_item<T: Receivable>(item: ProcessItem) -> Message<T> {
     match item {
         // If we got here, the deserialization has already taken place.
         ProcessItem::UserRemoteMessage(_) => unreachable!(),
-        ProcessItem::UserLocalMessage(deserialized) => {
+        ProcessItem::UserRemoteMessageDecoded(_, deserialized)
+        | ProcessItem::UserLocalMessage(deserialized) => {
             deserialized.downcast().map(|x| Message::User(*x)).unwrap()
         }
         ProcessItem::SystemMessage(system) => Message::System(system),
@@ -173,13 +174,26 @@ fn convert_item<T: Receivable>(item: ProcessItem) -> Message<T> {
 /// Processes a process item, which could be a command, or a message, or anything.
 #[inline(always)]
 fn process_item<T: Receivable>(item: &mut ProcessItem) -> Result<Option<Message<&T>>, ()> {
-    // Special case for serialized messages, we'll convert them to deserialized one time to prevent
-    // deserializing the value more than once, then convert to a reference.
-    if let ProcessItem::UserRemoteMessage(serialized) = item {
+    // Special case for serialized messages, we'll keep the deserialized value to prevent deserializing
+    // it more than once, then convert to a reference. The serialized value is kept as well, because the
+    // message may be skipped, and then has to be available to a receiver of a different type.
+    let serialized = match item {
+        ProcessItem::UserRemoteMessage(serialized) => Some(serialized),
+        ProcessItem::UserRemoteMessageDecoded(serialized, deserialized)
+            if !deserialized.is::<T>() =>
+        {
+            Some(serialized)
+        }
+        _ => None,
+    };
+
+    if let Some(serialized) = serialized {
         let result: Result<T, _> = deserialize_value(serialized);
 
         if let Ok(result) = result {
-            *item = ProcessItem::UserLocalMessage(Box::new(result));
+            let serialized = std::mem::take(serialized);
+
+            *item = ProcessItem::UserRemoteMessageDecoded(serialized, Box::new(result));
         } else {
             return Err(());
         }
@@ -188,7 +202,8 @@ fn process_item<T: Receivable>(item: &mut ProcessItem) -> Result<Option<Message<
     match item {
         // Explicitly handled first, so that we can process the other values later.
         ProcessItem::UserRemoteMessage(_) => unreachable!(),
-        ProcessItem::UserLocalMessage(deserialized) => deserialized
+        ProcessItem::UserRemoteMessageDecoded(_, deserialized)
+        | ProcessItem::UserLocalMessage(deserialized) => deserialized
             .downcast_ref()
             .map(Message::User)
             .ok_or(())
-- 
2.43.0


From 2b5d0d02601cbd6e9bc1e8612e68163991c9f356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 07/41] fix: discard a down message on demonitor even if a
 receive skipped over it

---
 hydra/src/node.rs    | 12 ++++++++++++
 hydra/src/process.rs | 11 +++++++++++
 2 files changed, 23 insertions(+)

diff --git a/hydra/src/node.rs b/hydra/src/node.rs
index 1f47476..8fb3fd7 100644
--- a/hydra/src/node.rs
+++ b/hydra/src/node.rs
@@ -20,8 +20,10 @@ use crate::NodeOptions;
 use crate::NodeState;
 use crate::Pid;
 use crate::Process;
+use crate::ProcessItem;
 use crate::ProcessMonitor;
 use crate::Reference;
+use crate::SystemMessage;
 use crate::PROCESS;
 
 /// Represents a [Node] serialized for the wire.
@@ -171,6 +173,16 @@ impl Node {
         let Some(process_monitor) =
             PROCESS.with(|process| process.monitors.borrow_mut().remove(&monitor))
         else {
+            // The message may have been skipped by a selective receive already.
+            PROCESS.with(|process| {
+                process.items.borrow_mut().retain(|item| {
+                    !matches!(
+                        item,
+                        ProcessItem::SystemMessage(SystemMessage::NodeDown(_, reference))
+                            if *reference == monitor
+                    )
+                })
+            });
             return;
         };
 
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 931be4e..1adc4df 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -60,6 +60,7 @@ use crate::ProcessReceiver;
 use crate::ProcessRegistration;
 use crate::Receivable;
 use crate::Reference;
+use crate::SystemMessage;
 use crate::Timeout;
 
 /// The send type for a process.
@@ -360,6 +361,16 @@ impl Process {
         let Some(process_monitor) =
             PROCESS.with(|process| process.monitors.borrow_mut().remove(&monitor))
         else {
+            // The message may have been skipped by a selective receive already.
+            PROCESS.with(|process| {
+                process.items.borrow_mut().retain(|item| {
+                    !matches!(
+                        item,
+                        ProcessItem::SystemMessage(SystemMessage::ProcessDown(_, reference, _))
+                            if *reference == monitor
+                    )
+                })
+            });
             return;
         };
 
-- 
2.43.0


From f9701a389fe77a6f7b9d98ad1e81f4ac4f4563de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 08/41] fix: keep the identity of serialized pids, references
 and nodes

While the node is not distributed a serialized local pid or reference came
back as an unreachable remote one (every copy but one of a send to several
processes is serialized) and a remote node came back as the local one. A node
without an address panicked the deserializing process.
---
 hydra/src/node.rs      | 9 +++++++--
 hydra/src/pid.rs       | 4 +++-
 hydra/src/reference.rs | 4 +++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/hydra/src/node.rs b/hydra/src/node.rs
index 8fb3fd7..6f8be2f 100644
--- a/hydra/src/node.rs
+++ b/hydra/src/node.rs
@@ -334,11 +334,16 @@ impl<'de> Deserialize<'de> for Node {
                     && (node.address.is_none() || node.address.is_some_and(|node| node == address))
                 {
                     Ok(Node::Local)
+                } else if let Some(node_address) = node.address {
+                    Ok(Node::Remote(node.name, node_address))
                 } else {
-                    Ok(Node::Remote(node.name, node.address.unwrap()))
+                    Err(serde::de::Error::custom("Missing address for a remote node!"))
                 }
             }
-            None => Ok(Node::Local),
+            None => match node.address {
+                Some(node_address) => Ok(Node::Remote(node.name, node_address)),
+                None => Ok(Node::Local),
+            },
         }
     }
 }
diff --git a/hydra/src/pid.rs b/hydra/src/pid.rs
index 76016d7..bd13175 100644
--- a/hydra/src/pid.rs
+++ b/hydra/src/pid.rs
@@ -17,6 +17,7 @@ use crate::LOCAL_NODE_ID;
 enum PidWire {
     WithNode(NonZeroU64, String, SocketAddr),
     NodeUnavailable(NonZeroU64),
+    LocalOnly(NonZeroU64),
 }
 
 /// A unique identifier of a process in hydra.
@@ -81,7 +82,7 @@ impl Serialize for Pid {
         let pid: PidWire = match self {
             Self::Local(id) => match node_lookup_local() {
                 Some((name, address)) => PidWire::WithNode(*id, name, address),
-                None => PidWire::NodeUnavailable(*id),
+                None => PidWire::LocalOnly(*id),
             },
             Self::Remote(id, node) => match node_lookup_remote(*node) {
                 Some((name, address)) => PidWire::WithNode(*id, name, address),
@@ -114,6 +115,7 @@ impl<'de> Deserialize<'de> for Pid {
                 None => Ok(Pid::Remote(id, INVALID_NODE_ID)),
             },
             PidWire::NodeUnavailable(id) => Ok(Self::Remote(id, INVALID_NODE_ID)),
+            PidWire::LocalOnly(id) => Ok(Self::Local(id)),
         }
     }
 }
diff --git a/hydra/src/reference.rs b/hydra/src/reference.rs
index 5d1b338..fd2a862 100644
--- a/hydra/src/reference.rs
+++ b/hydra/src/reference.rs
@@ -20,6 +20,7 @@ use crate::LOCAL_NODE_ID;
 enum ReferenceWire {
     WithNode(NonZeroU64, String, SocketAddr),
     NodeUnavailable(NonZeroU64),
+    LocalOnly(NonZeroU64),
 }
 
 /// A unique id that pertains to a specific node.
@@ -97,7 +98,7 @@ impl Serialize for Reference {
         let reference: ReferenceWire = match self {
             Self::Local(id) => match node_lookup_local() {
                 Some((name, address)) => ReferenceWire::WithNode(*id, name, address),
-                None => ReferenceWire::NodeUnavailable(*id),
+                None => ReferenceWire::LocalOnly(*id),
             },
             Self::Remote(id, node) => match node_lookup_remote(*node) {
                 Some((name, address)) => ReferenceWire::WithNode(*id, name, address),
@@ -130,6 +131,7 @@ impl<'de> Deserialize<'de> for Reference {
                 None => Ok(Reference::Remote(id, INVALID_NODE_ID)),
             },
             ReferenceWire::NodeUnavailable(id) => Ok(Self::Remote(id, INVALID_NODE_ID)),
+            ReferenceWire::LocalOnly(id) => Ok(Self::Local(id)),
         }
     }
 }
-- 
2.43.0


From ef3ce95d109235fd157e1f411dd4ef81fdfa71d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 09/41] fix: unalias must only deactivate aliases of the
 current process

---
 hydra/src/alias.rs   | 10 ++++++++++
 hydra/src/process.rs | 11 +++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/hydra/src/alias.rs b/hydra/src/alias.rs
index 7353c76..68af7a6 100644
--- a/hydra/src/alias.rs
+++ b/hydra/src/alias.rs
@@ -28,6 +28,16 @@ pub fn alias_destroy(reference: Reference) -> bool {
     ALIASES.remove(&reference.id()).is_some()
 }
 
+/// Destroys an alias for the given reference if it belongs to the process with the given sender,
+/// returning `true` if the alias existed.
+pub fn alias_destroy_owned(reference: Reference, sender: &ProcessSend) -> bool {
+    ALIASES
+        .remove_if(&reference.id(), |_, alias| {
+            alias.sender.same_channel(sender)
+        })
+        .is_some()
+}
+
 /// Destroys all of the alias for every given reference.
 pub fn alias_destroy_all<'a, A: IntoIterator<Item = &'a u64>>(ids: A) {
     for id in ids {
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 1adc4df..9a822b0 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -15,6 +15,7 @@ use tokio::sync::oneshot;
 use crate::alias_create;
 use crate::alias_destroy;
 use crate::alias_destroy_all;
+use crate::alias_destroy_owned;
 use crate::link_create;
 use crate::link_destroy;
 use crate::link_fill_info;
@@ -122,9 +123,15 @@ impl Process {
     ///
     /// Returns `true` if the alias was currently-active for the current process, or `false` otherwise.
     pub fn unalias(alias: Reference) -> bool {
-        PROCESS.with(|process| process.aliases.borrow_mut().remove(&alias.id()));
+        if alias.is_remote() {
+            return false;
+        }
+
+        PROCESS.with(|process| {
+            process.aliases.borrow_mut().remove(&alias.id());
 
-        alias_destroy(alias)
+            alias_destroy_owned(alias, &process.sender)
+        })
     }
 
     /// Returns the current [Pid].
-- 
2.43.0


From 37f756b284579998c4068aa25fcb730cdc346fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 10/41] fix: a terminating process must not remove a name
 registered by another one

---
 hydra/src/process.rs          | 2 +-
 hydra/src/process_registry.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 9a822b0..d9904a1 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -438,7 +438,7 @@ impl Drop for Process {
         let process = process_drop(self.pid).unwrap();
 
         if let Some(name) = process.name {
-            process_name_remove(&name);
+            process_name_remove(&name, self.pid);
         }
 
         let exit_reason = process.exit_reason.unwrap_or_default();
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index f6f4630..cccd171 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -61,9 +61,9 @@ pub fn process_insert(id: u64, registration: ProcessRegistration) {
     PROCESS_REGISTRY.insert(id, registration);
 }
 
-/// Removes a registered name.
-pub fn process_name_remove(name: &str) {
-    PROCESS_NAMES.remove(name);
+/// Removes a registered name, if it's still registered to the given process.
+pub fn process_name_remove(name: &str, pid: Pid) {
+    PROCESS_NAMES.remove_if(name, |_, process_id| *process_id == pid.id());
 }
 
 /// Checks if the process is alive.
-- 
2.43.0


From 897cf1a040ff0cb43b0d3f46024fac470c433642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 11/41] fix: register a timer before it can fire

A short timer could fire on another thread before it was registered, leaving
a timer that never expires for read_timer.
---
 hydra/src/process.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index d9904a1..118dfee 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -184,7 +184,12 @@ impl Process {
 
         let reference = Reference::new();
 
+        // The timer must not fire before it has been registered.
+        let (registered, wait_registered) = oneshot::channel::<()>();
+
         let handle = tokio::spawn(async move {
+            let _ = wait_registered.await;
+
             Process::sleep(duration).await;
             Process::send(dest, message);
 
@@ -193,6 +198,8 @@ impl Process {
 
         process_register_timer(reference, duration, handle);
 
+        let _ = registered.send(());
+
         reference
     }
 
-- 
2.43.0


From 7b393742e9d46ebf00084217859e4514d60dfb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 12/41] fix: link remote node supervisors to the local node
 supervisor

The supervisor of an accepted connection linked itself to itself, so
stopping the local node left accepted connections running.
---
 hydra/src/node_local.rs  | 1 -
 hydra/src/node_remote.rs | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/hydra/src/node_local.rs b/hydra/src/node_local.rs
index 3449f11..8ded40d 100644
--- a/hydra/src/node_local.rs
+++ b/hydra/src/node_local.rs
@@ -25,7 +25,6 @@ pub enum NodeLocalSupervisorMessage {
 pub struct NodeLocalSupervisor {
     pub name: String,
     pub options: NodeOptions,
-    #[allow(dead_code)]
     pub process: Pid,
 }
 
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index d9c368f..898f3dc 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -309,7 +309,7 @@ async fn node_remote_supervisor(
         local_supervisor: supervisor,
     });
 
-    Process::link(supervisor.process);
+    Process::link(supervisor.local_supervisor.process);
 
     if !node_accept(node.clone(), Process::current()) {
         panic!("Not accepting node supervisor!");
-- 
2.43.0


From 4eda3ada7554e9c49f152308670abb36dc48418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 13/41] fix: bound frame decoding to the received frame

A malformed frame could abort the process by declaring a huge length for one
of its fields, and a complete frame with a truncated body was waited on
forever, or decoded using the bytes of the following frame.
---
 hydra/src/frame/mod.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/hydra/src/frame/mod.rs b/hydra/src/frame/mod.rs
index 1a95b71..b9475c3 100644
--- a/hydra/src/frame/mod.rs
+++ b/hydra/src/frame/mod.rs
@@ -7,8 +7,8 @@ use bincode::Encode;
 use bincode::config;
 use bincode::config::Configuration;
 use bincode::config::Fixint;
+use bincode::config::Limit;
 use bincode::config::LittleEndian;
-use bincode::error::DecodeError;
 
 use bytes::Buf;
 use bytes::BufMut;
@@ -40,9 +40,16 @@ pub use pong::*;
 pub use send::*;
 
 /// Bincode configuration for the frame codec.
-const FRAME_CONFIG: Configuration<LittleEndian, Fixint> = config::standard()
+const FRAME_CONFIG: Configuration<LittleEndian, Fixint, Limit<FRAME_LIMIT>> = config::standard()
     .with_fixed_int_encoding()
-    .with_little_endian();
+    .with_little_endian()
+    .with_limit::<FRAME_LIMIT>();
+
+/// The maximum size of a frame, which is limited by the size of the marker.
+const FRAME_LIMIT: usize = u32::MAX as usize;
+
+/// The maximum number of bytes to reserve up front for a frame that has not been received yet.
+const FRAME_RESERVE: usize = 64 * 1024;
 
 /// The size of the marker.
 const MARKER_LENGTH: usize = std::mem::size_of::<u32>();
@@ -166,21 +173,20 @@ impl Decoder for Codec {
         let length = u32::from_le_bytes(length_marker) as usize;
 
         if src.len() < MARKER_LENGTH + length {
-            src.reserve(MARKER_LENGTH + length - src.len());
+            // The length has not been earned yet, so don't allocate all of it based on the marker alone.
+            src.reserve((MARKER_LENGTH + length - src.len()).min(FRAME_RESERVE));
             return Ok(None);
         }
 
-        let result = bincode::decode_from_slice(&src[4..], FRAME_CONFIG);
+        // The frame is complete, it must never decode using the bytes of the next frame.
+        let result =
+            bincode::decode_from_slice(&src[MARKER_LENGTH..MARKER_LENGTH + length], FRAME_CONFIG);
 
         match result {
             Ok((frame, _)) => {
                 src.advance(MARKER_LENGTH + length);
                 Ok(Some(frame))
             }
-            Err(DecodeError::UnexpectedEnd { additional }) => {
-                src.reserve(additional);
-                Ok(None)
-            }
             Err(e) => Err(Error::new(ErrorKind::InvalidData, e)),
         }
     }
-- 
2.43.0


From 0495d49ca7168e3655de1639b0a280b06aef3fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 14/41] fix: heartbeat_timeout must set the heartbeat timeout

---
 hydra/src/node_options.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/node_options.rs b/hydra/src/node_options.rs
index cffa824..9a99132 100644
--- a/hydra/src/node_options.rs
+++ b/hydra/src/node_options.rs
@@ -51,7 +51,7 @@ impl NodeOptions {
 
     /// Sets the time it takes to consider a remote node down when not receiving any data.
     pub fn heartbeat_timeout(mut self, duration: Duration) -> Self {
-        self.handshake_timeout = duration;
+        self.heartbeat_timeout = duration;
         self
     }
 }
-- 
2.43.0


From 8a7ca1eb9cbfa4bb9ed251246f3b2788771be122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 15/41] fix: a stopped local node must not tear down the one
 started after it

The distribution information was cleared again whenever the last user of the
stopped node went away, even if the node had been started again by then.
---
 hydra/src/node_local.rs    | 2 +-
 hydra/src/node_registry.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/hydra/src/node_local.rs b/hydra/src/node_local.rs
index 8ded40d..263c8f9 100644
--- a/hydra/src/node_local.rs
+++ b/hydra/src/node_local.rs
@@ -30,7 +30,7 @@ pub struct NodeLocalSupervisor {
 
 impl Drop for NodeLocalSupervisor {
     fn drop(&mut self) {
-        node_local_panic();
+        node_local_panic(self.process);
     }
 }
 
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index ec64274..2615fde 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -120,7 +120,12 @@ pub fn node_local_stop() {
 }
 
 /// Cleans up distribution information when the local node goes down unexpectedly.
-pub fn node_local_panic() {
+pub fn node_local_panic(process: Pid) {
+    // The node may have been stopped, and started again already.
+    if !node_alive() || node_local_process() != Some(process) {
+        return;
+    }
+
     NODE_MAP.clear();
     NODE_REGISTRATIONS.clear();
     NODE_PENDING_MESSAGES.clear();
-- 
2.43.0


From d32db317dbc3440ae156ab4fb9b601b0d1c537b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 16/41] fix: report the lost connection on disconnect, forget
 and stop

The links and monitors of a node were only handled when its supervisor went
down, by which time forget and stop had removed the node, and a new connection
could have replaced a disconnected one, so nobody was ever notified.
---
 hydra/src/node_registry.rs | 103 +++++++++++++++++++++++--------------
 1 file changed, 63 insertions(+), 40 deletions(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 2615fde..37565ad 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -117,6 +117,8 @@ pub fn node_local_stop() {
 
     NODE_REGISTRATIONS.clear();
     NODE_PENDING_MESSAGES.clear();
+
+    node_connection_down_all();
 }
 
 /// Cleans up distribution information when the local node goes down unexpectedly.
@@ -129,6 +131,8 @@ pub fn node_local_panic(process: Pid) {
     NODE_MAP.clear();
     NODE_REGISTRATIONS.clear();
     NODE_PENDING_MESSAGES.clear();
+
+    node_connection_down_all();
 }
 
 /// Returns the process responsible for the local node.
@@ -290,10 +294,8 @@ pub fn node_remote_supervisor_down(node: Node, process: Pid) {
     };
 
     NODE_REGISTRATIONS.alter(&id, |_, mut value| {
-        if value
-            .supervisor
-            .is_some_and(|supervisor| supervisor != process)
-        {
+        // The connection may have been disconnected, or replaced already.
+        if value.supervisor != Some(process) {
             return value;
         }
 
@@ -302,48 +304,66 @@ pub fn node_remote_supervisor_down(node: Node, process: Pid) {
         value.receiver = None;
         value.state = NodeState::Known;
 
-        if let Some((_, links)) = NODE_LINKS.remove(&node) {
-            for (from, process_id) in links {
-                let process = Pid::local(process_id);
+        node_connection_down(&node);
+
+        value
+    });
+}
+
+/// Notifies the local processes that have links and monitors installed that the connection to the node was lost.
+fn node_connection_down(node: &Node) {
+    if let Some((_, links)) = NODE_LINKS.remove(node) {
+        for (from, process_id) in links {
+            let process = Pid::local(process_id);
 
-                link_destroy(process, from);
+            link_destroy(process, from);
 
-                process_exit_signal_linked(process, from, ExitReason::from("noconnection"));
-            }
+            process_exit_signal_linked(process, from, ExitReason::from("noconnection"));
         }
+    }
 
-        if let Some((_, monitors)) = NODE_MONITORS.remove(&node) {
-            for (reference, monitor) in monitors {
-                match monitor {
-                    NodeMonitor::Node(id) => {
-                        process_sender(Pid::local(id)).map(|sender| {
-                            sender.send(ProcessItem::MonitorNodeDown(node.clone(), reference))
-                        });
-                    }
-                    NodeMonitor::ProcessMonitor(id, dest) => {
-                        process_sender(Pid::local(id)).map(|sender| {
-                            sender.send(ProcessItem::MonitorProcessDown(
-                                dest,
-                                reference,
-                                ExitReason::from("noconnection"),
-                            ))
-                        });
-                    }
-                    NodeMonitor::ProcessMonitorCleanup(id) => {
-                        monitor_destroy(Pid::local(id), reference);
-                    }
+    if let Some((_, monitors)) = NODE_MONITORS.remove(node) {
+        for (reference, monitor) in monitors {
+            match monitor {
+                NodeMonitor::Node(id) => {
+                    process_sender(Pid::local(id)).map(|sender| {
+                        sender.send(ProcessItem::MonitorNodeDown(node.clone(), reference))
+                    });
                 }
-
-                if reference.is_local() {
-                    alias_destroy(reference);
+                NodeMonitor::ProcessMonitor(id, dest) => {
+                    process_sender(Pid::local(id)).map(|sender| {
+                        sender.send(ProcessItem::MonitorProcessDown(
+                            dest,
+                            reference,
+                            ExitReason::from("noconnection"),
+                        ))
+                    });
+                }
+                NodeMonitor::ProcessMonitorCleanup(id) => {
+                    monitor_destroy(Pid::local(id), reference);
                 }
             }
+
+            if reference.is_local() {
+                alias_destroy(reference);
+            }
         }
+    }
 
-        NODE_PENDING_MESSAGES.remove(&node);
+    NODE_PENDING_MESSAGES.remove(node);
+}
 
-        value
-    });
+/// Notifies the local processes that the connections to all nodes were lost.
+fn node_connection_down_all() {
+    let nodes: BTreeSet<Node> = NODE_LINKS
+        .iter()
+        .map(|entry| entry.key().clone())
+        .chain(NODE_MONITORS.iter().map(|entry| entry.key().clone()))
+        .collect();
+
+    for node in nodes {
+        node_connection_down(&node);
+    }
 }
 
 /// Returns the node list excluding the local node.
@@ -381,13 +401,16 @@ pub fn node_disconnect(node: Node) {
     };
 
     NODE_REGISTRATIONS.alter(&id, |_, mut value| {
-        NODE_PENDING_MESSAGES.remove(&node);
-
         if let Some(supervisor) = value.supervisor.take() {
             Process::exit(supervisor, ExitReason::Kill);
         }
 
+        value.sender = None;
+        value.receiver = None;
         value.state = NodeState::Known;
+
+        node_connection_down(&node);
+
         value
     });
 }
@@ -402,11 +425,11 @@ pub fn node_forget(node: Node) {
         return;
     };
 
-    NODE_PENDING_MESSAGES.remove(&node);
-
     if let Some(supervisor) = registration.supervisor {
         Process::exit(supervisor, ExitReason::Kill);
     }
+
+    node_connection_down(&node);
 }
 
 /// Looks up the node information for the local node.
-- 
2.43.0


From 8eebec8a05050121f21b523cd0be10e8460625f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 17/41] fix: forget the id of an ignored temporary child

Starting another child with the same id crashed the supervisor.
---
 hydra/src/supervisor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 479ff14..7d3d217 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -717,7 +717,7 @@ impl Supervisor {
                 child.restarting = false;
 
                 if child.is_temporary() && pid.is_none() {
-                    self.children.remove(index);
+                    self.remove_child(index);
                 }
 
                 Ok(pid)
-- 
2.43.0


From 1bcf6865ca11e073345964d863e5569a5975557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 18/41] fix: AllSignificant must wait for all significant
 children

The supervisor shut down while significant children were running, and kept
running once all of them had exited.
---
 hydra/src/supervisor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 7d3d217..1831ee7 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -740,7 +740,7 @@ impl Supervisor {
             return true;
         }
 
-        self.children.iter().any(|child| {
+        !self.children.iter().any(|child| {
             if child.pid.is_none() {
                 return false;
             }
-- 
2.43.0


From 74e865ed15b73beec8faff339f98ac087b2f2adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 19/41] fix: delete the specification of a terminated temporary
 child

---
 hydra/src/supervisor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 1831ee7..2289d00 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -385,6 +385,11 @@ impl Supervisor {
 
         if let Some(index) = index {
             self.terminate_child_by_index(index).await;
+
+            if self.children[index].is_temporary() {
+                self.remove_child(index);
+            }
+
             Ok(())
         } else {
             Err(SupervisorError::NotFound)
-- 
2.43.0


From 7ceffb3ee2ab30b27136a23ad234877fb98704f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 20/41] fix: never restart temporary children, regardless of
 the strategy

---
 hydra/src/supervisor.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 2289d00..5217d87 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -615,25 +615,28 @@ impl Supervisor {
         index: usize,
         all: bool,
     ) -> Option<(usize, ExitReason)> {
-        let mut indices = Vec::new();
+        let mut remove = Vec::new();
 
-        let range = if all {
-            0..self.children.len()
-        } else {
-            index..self.children.len()
-        };
-
-        for tindex in range {
-            indices.push(tindex);
+        let first = if all { 0 } else { index };
 
+        for tindex in first..self.children.len() {
             if index == tindex {
                 continue;
             }
 
             self.terminate_child_by_index(tindex).await;
+
+            // Temporary children are never restarted.
+            if self.children[tindex].is_temporary() {
+                remove.push(tindex);
+            }
+        }
+
+        for rindex in remove.into_iter().rev() {
+            self.remove_child(rindex);
         }
 
-        for sindex in indices {
+        for sindex in first..self.children.len() {
             match self.start_child_by_index(sindex).await {
                 Ok(pid) => {
                     let child = &mut self.children[sindex];
-- 
2.43.0


From 6ca9bc1c13b13d514177c1639017e5cf1b4ab1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 21/41] fix: a child waiting to be restarted is not running

It was reported with the pid of the process that died, terminating it did not
always cancel the restart, and a cancelled attempt counted as a restart.
---
 hydra/src/supervisor.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 5217d87..4520fa7 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -462,12 +462,12 @@ impl Supervisor {
     async fn terminate_child_by_index(&mut self, index: usize) {
         let child = &mut self.children[index];
 
+        child.restarting = false;
+
         let Some(pid) = child.pid.take() else {
             return;
         };
 
-        child.restarting = false;
-
         let _ = shutdown(pid, child.shutdown()).await;
     }
 
@@ -570,6 +570,7 @@ impl Supervisor {
                         #[cfg(not(feature = "tracing"))]
                         let _ = reason;
 
+                        self.children[index].pid = None;
                         self.children[index].restarting = true;
 
                         Supervisor::cast(Process::current(), TryAgainRestartId(id));
@@ -586,6 +587,7 @@ impl Supervisor {
                     #[cfg(not(feature = "tracing"))]
                     let _ = reason;
 
+                    self.children[index].pid = None;
                     self.children[index].restarting = true;
 
                     Supervisor::cast(Process::current(), TryAgainRestartId(id));
@@ -601,6 +603,7 @@ impl Supervisor {
                     #[cfg(not(feature = "tracing"))]
                     let _ = reason;
 
+                    self.children[index].pid = None;
                     self.children[index].restarting = true;
 
                     Supervisor::cast(Process::current(), TryAgainRestartId(id));
@@ -619,6 +622,9 @@ impl Supervisor {
 
         let first = if all { 0 } else { index };
 
+        // The process of this child has already exited.
+        self.children[index].pid = None;
+
         for tindex in first..self.children.len() {
             if index == tindex {
                 continue;
@@ -655,14 +661,14 @@ impl Supervisor {
 
     /// Tries to restart the given child again, returns if an error occured.
     async fn try_again_restart(&mut self, index: usize) -> Result<(), ExitReason> {
-        if self.add_restart() {
-            return Err(ExitReason::from("shutdown"));
-        }
-
         if !self.children[index].restarting {
             return Ok(());
         }
 
+        if self.add_restart() {
+            return Err(ExitReason::from("shutdown"));
+        }
+
         self.restart(index).await;
 
         Ok(())
@@ -749,7 +755,7 @@ impl Supervisor {
         }
 
         !self.children.iter().any(|child| {
-            if child.pid.is_none() {
+            if child.pid.is_none() && !child.restarting {
                 return false;
             }
 
-- 
2.43.0


From 9e142ac39f36b4c81a40ba2586c01a615d416057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 22/41] fix: a very long max_duration must not crash the
 supervisor

---
 hydra/src/supervisor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 4520fa7..d13985d 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -766,9 +766,12 @@ impl Supervisor {
     /// Adds another restart to the backlog and returns `true` if we've exceeded our quota of restarts.
     fn add_restart(&mut self) -> bool {
         let now = Instant::now();
-        let threshold = now - self.max_duration;
 
-        self.restarts.retain(|restart| *restart >= threshold);
+        // Every restart is recent enough when the duration reaches further back than the clock.
+        if let Some(threshold) = now.checked_sub(self.max_duration) {
+            self.restarts.retain(|restart| *restart >= threshold);
+        }
+
         self.restarts.push(now);
 
         if self.restarts.len() > self.max_restarts {
-- 
2.43.0


From 26cdb3cd8254153c2487d4a58321da5df59adce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 23/41] fix: clear the overrides of a hash ring

---
 hydra/src/hash_ring.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydra/src/hash_ring.rs b/hydra/src/hash_ring.rs
index d620e36..907eade 100644
--- a/hydra/src/hash_ring.rs
+++ b/hydra/src/hash_ring.rs
@@ -205,7 +205,8 @@ where
     pub fn clear(&self) {
         let _ring_lock = self.ring_lock.lock().unwrap();
 
-        self.ring.store(Arc::new(Vec::new()))
+        self.ring.store(Arc::new(Vec::new()));
+        self.overrides.clear();
     }
 
     /// Hashes the given key using the selected hasher.
-- 
2.43.0


From 65bdb1fbe3fcaff6f7a973e2df80cebfa908bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 24/41] fix: a registry without a start routine must report
 StartNotSupported

---
 hydra/src/registry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index 889c238..af56fa6 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -360,7 +360,11 @@ impl Registry {
             return Err(RegistryError::AlreadyStarted(process));
         }
 
-        let start_child = Pin::from(self.start.as_ref().unwrap()(key.clone())).await;
+        let Some(start) = self.start.as_ref() else {
+            return Err(RegistryError::StartNotSupported);
+        };
+
+        let start_child = Pin::from(start(key.clone())).await;
 
         match start_child {
             Ok(pid) => {
-- 
2.43.0


From 72b35b92280b3ded85b9cedcc16e4293a05ebc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 25/41] fix: dropping a registry that was not started must not
 affect the running one

---
 hydra/src/registry.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index af56fa6..4cd0e4d 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -94,7 +94,6 @@ pub enum RegistryError {
 /// Provides a centralized 'registry' of processes using any value as a key.
 ///
 /// A registry is designed to only support a single type of [Process] or [GenServer], you should use multiple if necessary.
-#[derive(Clone)]
 pub struct Registry {
     name: String,
     #[allow(clippy::type_complexity)]
@@ -107,6 +106,7 @@ pub struct Registry {
     >,
     shutdown: Shutdown,
     lookup: BTreeMap<Pid, RegistryKey>,
+    running: bool,
 }
 
 impl Registry {
@@ -120,6 +120,7 @@ impl Registry {
             start: None,
             shutdown: Shutdown::BrutalKill,
             lookup: BTreeMap::new(),
+            running: false,
         }
     }
 
@@ -471,8 +472,25 @@ impl Registry {
     }
 }
 
+impl Clone for Registry {
+    fn clone(&self) -> Self {
+        Self {
+            name: self.name.clone(),
+            start: self.start.clone(),
+            shutdown: self.shutdown,
+            lookup: BTreeMap::new(),
+            running: false,
+        }
+    }
+}
+
 impl Drop for Registry {
     fn drop(&mut self) {
+        // The registered processes belong to the registry that was started.
+        if !self.running {
+            return;
+        }
+
         REGISTRY.remove(&self.name);
 
         for process in self.lookup.keys() {
@@ -488,6 +506,8 @@ impl GenServer for Registry {
     async fn init(&mut self) -> Result<(), ExitReason> {
         Process::set_flags(ProcessFlags::TRAP_EXIT);
 
+        self.running = true;
+
         Ok(())
     }
 
-- 
2.43.0


From 0456d219791de5854bdf813ade1018c93b219ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 26/41] fix: Application::test must panic unless the exit was
 normal or shutdown

---
 hydra/src/application.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hydra/src/application.rs b/hydra/src/application.rs
index 47148d5..b2ca44f 100644
--- a/hydra/src/application.rs
+++ b/hydra/src/application.rs
@@ -185,10 +185,13 @@ pub trait Application: Sized + Send + 'static {
                 }
             });
 
-            if let Ok(Some(reason)) = rx.await {
-                if reason.is_custom() && reason != "shutdown" {
-                    panic!("Exited: {:?}", reason);
+            match rx.await {
+                Ok(Some(reason)) => {
+                    if !reason.is_normal() && reason != "shutdown" {
+                        panic!("Exited: {:?}", reason);
+                    }
                 }
+                _ => panic!("Exited before the application was started!"),
             }
         });
     }
-- 
2.43.0


From 4e7661f19e63fb19b719ea113ed8e419f83bd69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 27/41] fix: the first terminating signal decides the exit
 reason

---
 hydra/src/process_registry.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index cccd171..84e8b8c 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -145,6 +145,11 @@ pub fn process_unregister(name: &str) {
 /// Processes an exit signal for the given [Pid] with the `exit_reason`.
 pub fn process_exit(pid: Pid, from: Pid, exit_reason: ExitReason) {
     PROCESS_REGISTRY.alter(&pid.id(), |_, mut process| {
+        // The process is already terminating for another reason.
+        if process.exit_reason.is_some() {
+            return process;
+        }
+
         let trapping_exits = process.flags.contains(ProcessFlags::TRAP_EXIT);
 
         match exit_reason {
@@ -189,6 +194,11 @@ pub fn process_exit(pid: Pid, from: Pid, exit_reason: ExitReason) {
 /// Forwards an exit signal to the linked [Pid] from the given [Pid] with the `exit_reason`.
 pub fn process_exit_signal_linked(pid: Pid, from: Pid, exit_reason: ExitReason) {
     PROCESS_REGISTRY.alter(&pid.id(), |_, mut process| {
+        // The process is already terminating for another reason.
+        if process.exit_reason.is_some() {
+            return process;
+        }
+
         if process.flags.contains(ProcessFlags::TRAP_EXIT) {
             process
                 .sender
@@ -222,7 +232,7 @@ pub fn process_set_flags(pid: Pid, flags: ProcessFlags) {
 /// Sets the process exit reason.
 pub fn process_set_exit_reason(pid: Pid, exit_reason: ExitReason) {
     PROCESS_REGISTRY.alter(&pid.id(), |_, mut process| {
-        process.exit_reason = Some(exit_reason);
+        process.exit_reason.get_or_insert(exit_reason);
         process
     });
 }
-- 
2.43.0


From 76f5787a5c896b24ceb1e51c0ef1133a51b25b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 28/41] Add verification hooks behind cfg(hydra_verif)

---
 hydra/src/alias.rs            |  3 ++
 hydra/src/lib.rs              |  4 +++
 hydra/src/link.rs             |  6 ++++
 hydra/src/monitor.rs          |  6 ++++
 hydra/src/process.rs          | 27 +++++++++++++++
 hydra/src/process_registry.rs | 12 +++++++
 hydra/src/verif.rs            | 65 +++++++++++++++++++++++++++++++++++
 7 files changed, 123 insertions(+)
 create mode 100644 hydra/src/verif.rs

diff --git a/hydra/src/alias.rs b/hydra/src/alias.rs
index 68af7a6..660b599 100644
--- a/hydra/src/alias.rs
+++ b/hydra/src/alias.rs
@@ -58,6 +58,9 @@ pub fn alias_retrieve(reference: Reference) -> Option<Alias> {
         }
     });
 
+    #[cfg(hydra_verif)]
+    crate::verif::chaos();
+
     result
         .map(|(_, alias)| {
             let _ = alias
diff --git a/hydra/src/lib.rs b/hydra/src/lib.rs
index e8ebdd3..86b172c 100644
--- a/hydra/src/lib.rs
+++ b/hydra/src/lib.rs
@@ -48,6 +48,10 @@ mod system_message;
 mod task;
 mod timeout;
 
+#[cfg(hydra_verif)]
+#[doc(hidden)]
+pub mod verif;
+
 #[cfg(feature = "console")]
 mod console;
 #[cfg(feature = "console")]
diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 22bce2a..130a00e 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -47,6 +47,9 @@ pub fn link_install(process: Pid, from: Pid) {
         .then_some(())
         .expect("From process must exist at this point!");
 
+    #[cfg(hydra_verif)]
+    crate::verif::chaos();
+
     if process.is_local() {
         if !link_create(process, from, false) {
             link_destroy(from, process);
@@ -107,6 +110,9 @@ pub fn link_process_down(from: Pid, exit_reason: ExitReason) {
                 value
             });
 
+            #[cfg(hydra_verif)]
+            crate::verif::chaos();
+
             process_exit_signal_linked(pid, from, exit_reason.clone());
         } else {
             let remote = remote_links
diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index ef6dee2..02278fc 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -113,6 +113,9 @@ pub fn monitor_install(process: Dest, reference: Reference, from: Pid) {
                     .insert(reference, ProcessMonitor::ForProcess(Some(pid)))
             });
 
+            #[cfg(hydra_verif)]
+            crate::verif::chaos();
+
             if pid.is_local() {
                 process_exists_lock(pid, |exists| {
                     if exists {
@@ -209,6 +212,9 @@ pub fn monitor_process_down(from: Pid, exit_reason: ExitReason) {
     let mut remote_monitors: BTreeMap<u64, (MonitorDown, Vec<Reference>)> = BTreeMap::new();
 
     for (reference, (pid, dest)) in references {
+        #[cfg(hydra_verif)]
+        crate::verif::chaos();
+
         if pid.is_local() {
             process_sender(pid).map(|sender| {
                 sender.send(ProcessItem::MonitorProcessDown(
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 118dfee..25a2183 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -196,6 +196,9 @@ impl Process {
             process_destroy_timer(reference);
         });
 
+        #[cfg(hydra_verif)]
+        crate::verif::chaos();
+
         process_register_timer(reference, duration, handle);
 
         let _ = registered.send(());
@@ -331,6 +334,9 @@ impl Process {
         }
 
         link_destroy(current, pid);
+        #[cfg(hydra_verif)]
+        crate::verif::chaos();
+
         link_destroy(pid, current);
     }
 
@@ -392,6 +398,9 @@ impl Process {
             panic!("Invalid process monitor reference!");
         };
 
+        #[cfg(hydra_verif)]
+        crate::verif::chaos();
+
         if let Some(pid) = pid {
             monitor_destroy(pid, monitor);
         }
@@ -444,17 +453,29 @@ impl Drop for Process {
     fn drop(&mut self) {
         let process = process_drop(self.pid).unwrap();
 
+        #[cfg(hydra_verif)]
+        crate::verif::chaos();
+
         if let Some(name) = process.name {
             process_name_remove(&name, self.pid);
         }
 
         let exit_reason = process.exit_reason.unwrap_or_default();
 
+        #[cfg(hydra_verif)]
+        crate::verif::chaos();
+
         link_process_down(self.pid, exit_reason.clone());
 
+        #[cfg(hydra_verif)]
+        crate::verif::chaos();
+
         monitor_process_down(self.pid, exit_reason);
         monitor_destroy_all(self.monitors.borrow().iter());
 
+        #[cfg(hydra_verif)]
+        crate::verif::chaos();
+
         alias_destroy_all(self.aliases.borrow().iter());
     }
 }
@@ -507,6 +528,9 @@ where
         result = SpawnResult::PidMonitor(pid, monitor);
     }
 
+    #[cfg(hydra_verif)]
+    crate::verif::chaos();
+
     // The process must not run before it has been registered, it may be polled on another thread immediately.
     let (registered, wait_registered) = oneshot::channel::<()>();
 
@@ -519,6 +543,9 @@ where
         }
     }));
 
+    #[cfg(hydra_verif)]
+    crate::verif::chaos();
+
     // Register the process under it's new id.
     process_insert(next_id, ProcessRegistration::new(handle, tx));
 
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 84e8b8c..66253a8 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -32,6 +32,9 @@ static PROCESS_TIMERS: Lazy<DashMap<u64, (Instant, JoinHandle<()>)>> = Lazy::new
 pub fn process_exists_lock<C: FnOnce(bool) -> R, R>(pid: Pid, callback: C) -> R {
     let process = PROCESS_REGISTRY.get(&pid.id());
 
+    #[cfg(hydra_verif)]
+    crate::verif::chaos();
+
     callback(process.is_some())
 }
 
@@ -100,6 +103,9 @@ pub fn process_register(pid: Pid, name: String) -> Result<(), ArgumentError> {
         Entry::Vacant(entry) => entry,
     };
 
+    #[cfg(hydra_verif)]
+    crate::verif::chaos();
+
     let mut updated = false;
     let mut found = false;
 
@@ -125,6 +131,9 @@ pub fn process_register(pid: Pid, name: String) -> Result<(), ArgumentError> {
         )));
     }
 
+    #[cfg(hydra_verif)]
+    crate::verif::chaos();
+
     entry.insert(pid.id());
 
     Ok(())
@@ -136,6 +145,9 @@ pub fn process_unregister(name: &str) {
         panic!("Name {:?} was not registered!", name);
     };
 
+    #[cfg(hydra_verif)]
+    crate::verif::chaos();
+
     PROCESS_REGISTRY.alter(&pid, |_, mut process| {
         process.name = None;
         process
diff --git a/hydra/src/verif.rs b/hydra/src/verif.rs
new file mode 100644
index 0000000..826e8f1
--- /dev/null
+++ b/hydra/src/verif.rs
@@ -0,0 +1,65 @@
+//! Verification hooks, only compiled with `--cfg hydra_verif`.
+
+use std::cell::Cell;
+use std::sync::atomic::AtomicU64;
+use std::sync::atomic::Ordering;
+use std::time::Duration;
+
+/// The frames and codec used between nodes.
+pub mod frame {
+    pub use crate::frame::*;
+}
+
+/// The chance, in 1/1024, that a chaos point delays the calling thread, and the seed of the delays.
+static CHAOS_CHANCE: AtomicU64 = AtomicU64::new(0);
+static CHAOS_SEED: AtomicU64 = AtomicU64::new(1);
+
+thread_local! {
+    static CHAOS_STATE: Cell<u64> = const { Cell::new(0) };
+}
+
+/// Enables delays at chaos points with the given chance (in 1/1024), 0 disables them.
+pub fn set_chaos(chance: u64, seed: u64) {
+    CHAOS_SEED.store(seed | 1, Ordering::Relaxed);
+    CHAOS_CHANCE.store(chance, Ordering::Relaxed);
+}
+
+/// A point between two steps that other threads may interleave with.
+pub fn chaos() {
+    let chance = CHAOS_CHANCE.load(Ordering::Relaxed);
+
+    if chance == 0 {
+        return;
+    }
+
+    let random = CHAOS_STATE.with(|state| {
+        let mut value = state.get();
+
+        if value == 0 {
+            value = CHAOS_SEED
+                .fetch_add(0x9E3779B97F4A7C15, Ordering::Relaxed)
+                .wrapping_mul(0xBF58476D1CE4E5B9)
+                | 1;
+        }
+
+        value ^= value << 13;
+        value ^= value >> 7;
+        value ^= value << 17;
+
+        state.set(value);
+
+        value
+    });
+
+    if random % 1024 < chance {
+        match (random >> 32) % 4 {
+            0 => std::thread::yield_now(),
+            1 => {
+                for _ in 0..((random >> 40) % 2000) {
+                    std::hint::spin_loop();
+                }
+            }
+            _ => std::thread::sleep(Duration::from_micros((random >> 40) % 120)),
+        }
+    }
+}
-- 
2.43.0


From 09932421a88490356809a8c584b0d48c759b7c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 29/41] fix: set_overrides must not drop an override that is
 set again

---
 hydra/src/hash_ring.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hydra/src/hash_ring.rs b/hydra/src/hash_ring.rs
index 907eade..12b4190 100644
--- a/hydra/src/hash_ring.rs
+++ b/hydra/src/hash_ring.rs
@@ -1,3 +1,4 @@
+use std::collections::HashSet;
 use std::hash::BuildHasher;
 use std::hash::Hash;
 use std::hash::RandomState;
@@ -187,11 +188,20 @@ where
 
     /// Replaces the overrides in the ring with a new set of overrides.
     pub fn set_overrides<K: Hash, I: IntoIterator<Item = (K, T)>>(&self, overrides: I) {
-        self.overrides.clear();
+        let _ring_lock = self.ring_lock.lock().unwrap();
+
+        let mut keys: HashSet<u64> = HashSet::new();
 
         for (key, node) in overrides {
-            self.overrides.insert(self.hash_key(key), node);
+            let key = self.hash_key(key);
+
+            keys.insert(key);
+
+            self.overrides.insert(key, node);
         }
+
+        // Only remove the old overrides once the new ones are in place, a key in both must never lose its override.
+        self.overrides.retain(|key, _| keys.contains(key));
     }
 
     /// Removes an existing override from the ring.
-- 
2.43.0


From c9ae255d69187694bf14a063a171f54b2e4d57fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 30/41] fix: start_child must not keep a child that failed to
 start

---
 hydra/src/supervisor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index d13985d..c3b4028 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -736,7 +736,12 @@ impl Supervisor {
 
                 Ok(pid)
             }
-            Err(reason) => Err(SupervisorError::StartError(reason)),
+            Err(reason) => {
+                // A child that failed to start was never added.
+                self.remove_child(self.children.len() - 1);
+
+                Err(SupervisorError::StartError(reason))
+            }
         }
     }
 
-- 
2.43.0


From e4fca6c9afb8bed0a260b243b7a01195879b0108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 31/41] fix: change both directions of a link between local
 processes together

---
 hydra/src/link.rs    | 31 ++++++++++++++++++++++++++++++-
 hydra/src/process.rs |  8 ++------
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 130a00e..ae9336b 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -1,5 +1,7 @@
 use std::collections::BTreeMap;
 use std::collections::BTreeSet;
+use std::sync::Mutex;
+use std::sync::PoisonError;
 
 use dashmap::DashMap;
 
@@ -24,6 +26,9 @@ use crate::ProcessInfo;
 /// A collection of local processes linked to another process.
 static LINKS: Lazy<DashMap<u64, BTreeSet<Pid>>> = Lazy::new(DashMap::new);
 
+/// Held while both directions of a link between local processes are changed.
+static LINKS_LOCK: Mutex<()> = Mutex::new(());
+
 /// Creates a link for the given local process from the given process. Returns `true` if the link was created.
 pub fn link_create(process: Pid, from: Pid, ignore_errors: bool) -> bool {
     if ignore_errors {
@@ -43,6 +48,10 @@ pub fn link_create(process: Pid, from: Pid, ignore_errors: bool) -> bool {
 
 /// Installs a link for the given process.
 pub fn link_install(process: Pid, from: Pid) {
+    let lock = process
+        .is_local()
+        .then(|| LINKS_LOCK.lock().unwrap_or_else(PoisonError::into_inner));
+
     link_create(from, process, false)
         .then_some(())
         .expect("From process must exist at this point!");
@@ -51,9 +60,15 @@ pub fn link_install(process: Pid, from: Pid) {
     crate::verif::chaos();
 
     if process.is_local() {
-        if !link_create(process, from, false) {
+        let created = link_create(process, from, false);
+
+        if !created {
             link_destroy(from, process);
+        }
+
+        drop(lock);
 
+        if !created {
             process_exit_signal_linked(from, process, ExitReason::from("noproc"));
         }
     } else {
@@ -77,6 +92,20 @@ pub fn link_install(process: Pid, from: Pid) {
     }
 }
 
+/// Uninstalls a link between the given process and the given local process.
+pub fn link_uninstall(process: Pid, from: Pid) {
+    let _lock = process
+        .is_local()
+        .then(|| LINKS_LOCK.lock().unwrap_or_else(PoisonError::into_inner));
+
+    link_destroy(from, process);
+
+    #[cfg(hydra_verif)]
+    crate::verif::chaos();
+
+    link_destroy(process, from);
+}
+
 /// Destroys a link for the given local process.
 pub fn link_destroy(process: Pid, from: Pid) {
     if process.is_local() {
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 25a2183..9a85d40 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -17,10 +17,10 @@ use crate::alias_destroy;
 use crate::alias_destroy_all;
 use crate::alias_destroy_owned;
 use crate::link_create;
-use crate::link_destroy;
 use crate::link_fill_info;
 use crate::link_install;
 use crate::link_process_down;
+use crate::link_uninstall;
 use crate::monitor_create;
 use crate::monitor_destroy;
 use crate::monitor_destroy_all;
@@ -333,11 +333,7 @@ impl Process {
             return;
         }
 
-        link_destroy(current, pid);
-        #[cfg(hydra_verif)]
-        crate::verif::chaos();
-
-        link_destroy(pid, current);
+        link_uninstall(pid, current);
     }
 
     /// Starts monitoring the given process from the calling process. If the process is already dead a message is sent immediately.
-- 
2.43.0


From c8e13b25b9f594b351f64bc06a2786fa0051d030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:08 +0000
Subject: [PATCH 32/41] fix: unregister must release the name and the process
 together

---
 hydra/src/process_registry.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 66253a8..8e63ed9 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -141,17 +141,22 @@ pub fn process_register(pid: Pid, name: String) -> Result<(), ArgumentError> {
 
 /// Unregisters a process with the given name.
 pub fn process_unregister(name: &str) {
-    let Some((_, pid)) = PROCESS_NAMES.remove(name) else {
-        panic!("Name {:?} was not registered!", name);
-    };
+    // The name is only available again once the process can be registered again.
+    let removed = PROCESS_NAMES.remove_if(name, |_, pid| {
+        PROCESS_REGISTRY.alter(pid, |_, mut process| {
+            process.name = None;
+            process
+        });
 
-    #[cfg(hydra_verif)]
-    crate::verif::chaos();
+        #[cfg(hydra_verif)]
+        crate::verif::chaos();
 
-    PROCESS_REGISTRY.alter(&pid, |_, mut process| {
-        process.name = None;
-        process
+        true
     });
+
+    if removed.is_none() {
+        panic!("Name {:?} was not registered!", name);
+    }
 }
 
 /// Processes an exit signal for the given [Pid] with the `exit_reason`.
-- 
2.43.0


From fc7085fbf7f0eef386a27d0988a43d5888502f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 33/41] fix: remove the link of a process whose linked remote
 process went down

---
 hydra/src/node_registry.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 37565ad..1086888 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -563,6 +563,8 @@ pub fn node_process_link_down(node: Node, process: Pid, from: Pid, exit_reason:
     });
 
     if found {
+        link_destroy(process, from);
+
         process_exit_signal_linked(process, from, exit_reason);
     }
 }
-- 
2.43.0


From a709160eafb20547efb8d9a1be21a5f4a374f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:34 +0000
Subject: [PATCH 34/41] fix: remove the monitor of a named remote process when
 it is not known yet

---
 hydra/src/monitor.rs         | 23 +++++++++++++++++++----
 hydra/src/node_registry.rs   |  8 ++++++++
 hydra/src/node_remote.rs     | 11 ++++++++++-
 hydra/src/process.rs         | 15 +++++++++------
 hydra/src/process_monitor.rs |  2 ++
 5 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index 02278fc..f7e6a86 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -59,6 +59,17 @@ pub fn monitor_destroy(process: Pid, reference: Reference) {
     }
 }
 
+/// Destroys a monitor for a named process on the given remote node and reference.
+pub fn monitor_destroy_remote_name(node: u64, reference: Reference) {
+    let monitor = Monitor::new(false, None, None, None, reference.id());
+
+    node_send_frame(monitor.into(), node);
+
+    if let Some((name, address)) = node_lookup_remote(node) {
+        node_process_monitor_destroy(Node::from((name, address)), reference);
+    }
+}
+
 /// Destroys all monitors registered for the given reference, monitor combination.
 pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a ProcessMonitor)>>(
     monitors: M,
@@ -70,6 +81,9 @@ pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a Proces
                     monitor_destroy(*pid, *reference);
                 }
             }
+            ProcessMonitor::ForRemoteName(node) => {
+                monitor_destroy_remote_name(*node, *reference);
+            }
             ProcessMonitor::ForNode(node) => {
                 node_monitor_destroy(node.clone(), *reference);
             }
@@ -175,16 +189,17 @@ pub fn monitor_install(process: Dest, reference: Reference, from: Pid) {
                     }
                 });
             } else {
+                node_process_monitor_create(node.clone(), reference, dest, from);
+
+                let node = node_register(node.clone(), true);
+
                 PROCESS.with(|process| {
                     process
                         .monitors
                         .borrow_mut()
-                        .insert(reference, ProcessMonitor::ForProcess(None))
+                        .insert(reference, ProcessMonitor::ForRemoteName(node))
                 });
 
-                node_process_monitor_create(node.clone(), reference, dest, from);
-
-                let node = node_register(node.clone(), true);
                 let monitor = Monitor::new(
                     true,
                     None,
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 1086888..92ed6c5 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -470,6 +470,14 @@ pub fn node_process_monitor_cleanup(node: Node, reference: Reference, process: P
         .insert(reference, NodeMonitor::ProcessMonitorCleanup(process.id()));
 }
 
+/// Looks up the local process that is monitored by the given node with the given reference.
+pub fn node_process_monitor_lookup(node: Node, reference: Reference) -> Option<Pid> {
+    match NODE_MONITORS.get(&node)?.get(&reference) {
+        Some(NodeMonitor::ProcessMonitorCleanup(id)) => Some(Pid::local(*id)),
+        _ => None,
+    }
+}
+
 /// Destroys a node process monitor for the given node and reference.
 pub fn node_process_monitor_destroy(node: Node, reference: Reference) {
     NODE_MONITORS.alter(&node, |_, mut value| {
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 898f3dc..c4a7fab 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -35,6 +35,7 @@ use crate::node_process_link_down;
 use crate::node_process_monitor_cleanup;
 use crate::node_process_monitor_destroy;
 use crate::node_process_monitor_down;
+use crate::node_process_monitor_lookup;
 use crate::node_register;
 use crate::node_register_workers;
 use crate::node_remote_supervisor_down;
@@ -223,7 +224,15 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                         panic!("Must have either a process id or process name for monitor!");
                     };
                 } else {
-                    monitor_destroy(Pid::local(monitor.process_id.unwrap()), reference);
+                    // The remote may not know the process yet when it was monitored by name.
+                    let process = match monitor.process_id {
+                        Some(id) => Some(Pid::local(id)),
+                        None => node_process_monitor_lookup(supervisor.node.clone(), reference),
+                    };
+
+                    if let Some(process) = process {
+                        monitor_destroy(process, reference);
+                    }
 
                     node_process_monitor_destroy(supervisor.node.clone(), reference);
                 }
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 9a85d40..6bff8e3 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -24,6 +24,7 @@ use crate::link_uninstall;
 use crate::monitor_create;
 use crate::monitor_destroy;
 use crate::monitor_destroy_all;
+use crate::monitor_destroy_remote_name;
 use crate::monitor_fill_info;
 use crate::monitor_install;
 use crate::monitor_process_down;
@@ -390,15 +391,17 @@ impl Process {
             return;
         };
 
-        let ProcessMonitor::ForProcess(pid) = process_monitor else {
-            panic!("Invalid process monitor reference!");
-        };
-
         #[cfg(hydra_verif)]
         crate::verif::chaos();
 
-        if let Some(pid) = pid {
-            monitor_destroy(pid, monitor);
+        match process_monitor {
+            ProcessMonitor::ForProcess(pid) => {
+                if let Some(pid) = pid {
+                    monitor_destroy(pid, monitor);
+                }
+            }
+            ProcessMonitor::ForRemoteName(node) => monitor_destroy_remote_name(node, monitor),
+            ProcessMonitor::ForNode(_) => panic!("Invalid process monitor reference!"),
         }
 
         alias_destroy(monitor);
diff --git a/hydra/src/process_monitor.rs b/hydra/src/process_monitor.rs
index 8237c80..5f385e9 100644
--- a/hydra/src/process_monitor.rs
+++ b/hydra/src/process_monitor.rs
@@ -5,6 +5,8 @@ use crate::Pid;
 pub enum ProcessMonitor {
     /// A monitor installed to monitor the given process.
     ForProcess(Option<Pid>),
+    /// A monitor installed to monitor a named process on the given remote node, which hasn't told us its process yet.
+    ForRemoteName(u64),
     /// A monitor installed to monitor the given node.
     ForNode(Node),
 }
-- 
2.43.0


From 11341f7dde45bd8fe8214b9a64584690a5d2644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:33 +0000
Subject: [PATCH 35/41] fix: frames handled after a node was stopped, forgotten
 or disconnected register the node again

---
 hydra/src/node_registry.rs | 15 +++++++++++----
 hydra/src/node_remote.rs   | 25 +++++++++++++------------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 92ed6c5..408f846 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -190,8 +190,8 @@ pub fn node_send_frame(frame: Frame, id: u64) {
     }
 }
 
-/// Accepts a remote node's connection if one doesn't exist, returns `true` if accepted.
-pub fn node_accept(node: Node, supervisor: Pid) -> bool {
+/// Accepts a remote node's connection if one doesn't exist, returns the id of the node if accepted.
+pub fn node_accept(node: Node, supervisor: Pid) -> Option<u64> {
     let Node::Remote(name, address) = node else {
         panic!("Can't accept a local node!");
     };
@@ -209,7 +209,7 @@ pub fn node_accept(node: Node, supervisor: Pid) -> bool {
 
             entry.insert(next_id);
 
-            true
+            Some(next_id)
         }
         Entry::Occupied(entry) => {
             let mut accepted = false;
@@ -233,7 +233,7 @@ pub fn node_accept(node: Node, supervisor: Pid) -> bool {
                 value
             });
 
-            accepted
+            accepted.then_some(*entry.get())
         }
     }
 }
@@ -290,12 +290,19 @@ pub fn node_register(node: Node, connect: bool) -> u64 {
 /// Triggered when a remote node supervisor goes down unexpectedly.
 pub fn node_remote_supervisor_down(node: Node, process: Pid) {
     let Some(id) = NODE_MAP.get(&node) else {
+        // Frames may have been handled after the node was forgotten.
+        node_connection_down(&node);
         return;
     };
 
     NODE_REGISTRATIONS.alter(&id, |_, mut value| {
         // The connection may have been disconnected, or replaced already.
         if value.supervisor != Some(process) {
+            // Frames may have been handled after the node was disconnected.
+            if value.supervisor.is_none() {
+                node_connection_down(&node);
+            }
+
             return value;
         }
 
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index c4a7fab..994055a 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -36,7 +36,6 @@ use crate::node_process_monitor_cleanup;
 use crate::node_process_monitor_destroy;
 use crate::node_process_monitor_down;
 use crate::node_process_monitor_lookup;
-use crate::node_register;
 use crate::node_register_workers;
 use crate::node_remote_supervisor_down;
 use crate::node_send_frame;
@@ -80,6 +79,7 @@ enum NodeRemoteSupervisorMessage {
 
 struct NodeRemoteSupervisor {
     node: Node,
+    id: u64,
     process: Pid,
     local_supervisor: Arc<NodeLocalSupervisor>,
 }
@@ -157,7 +157,7 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                 node_forward_send(send);
             }
             Frame::Monitor(monitor) => {
-                let node = node_register(supervisor.node.clone(), false);
+                let node = supervisor.id;
 
                 let reference = Reference::remote(monitor.reference_id, node);
 
@@ -247,7 +247,7 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                 }
             }
             Frame::MonitorUpdate(monitor_update) => {
-                let node = node_register(supervisor.node.clone(), false);
+                let node = supervisor.id;
 
                 let reference = Reference::local(monitor_update.reference_id);
                 let from = Pid::remote(monitor_update.from_id, node);
@@ -256,7 +256,7 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                     .map(|sender| sender.send(ProcessItem::MonitorProcessUpdate(reference, from)));
             }
             Frame::Link(link) => {
-                let node = node_register(supervisor.node.clone(), false);
+                let node = supervisor.id;
 
                 let process = Pid::local(link.process_id);
                 let from = Pid::remote(link.from_id, node);
@@ -279,7 +279,7 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                 }
             }
             Frame::LinkDown(link_down) => {
-                let node = node_register(supervisor.node.clone(), false);
+                let node = supervisor.id;
 
                 let from = Pid::remote(link_down.from_id, node);
 
@@ -293,7 +293,7 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                 }
             }
             Frame::Exit(exit) => {
-                let node = node_register(supervisor.node.clone(), false);
+                let node = supervisor.id;
 
                 let process = Pid::local(exit.process_id);
                 let from = Pid::remote(exit.from_id, node);
@@ -312,18 +312,19 @@ async fn node_remote_supervisor(
 ) {
     let node = Node::from((hello.name, hello.broadcast_address));
 
+    Process::link(supervisor.process);
+
+    let Some(id) = node_accept(node.clone(), Process::current()) else {
+        panic!("Not accepting node supervisor!");
+    };
+
     let supervisor = Arc::new(NodeRemoteSupervisor {
         node: node.clone(),
+        id,
         process: Process::current(),
         local_supervisor: supervisor,
     });
 
-    Process::link(supervisor.local_supervisor.process);
-
-    if !node_accept(node.clone(), Process::current()) {
-        panic!("Not accepting node supervisor!");
-    }
-
     let sender = Process::spawn_link(node_remote_sender(writer, supervisor.clone()));
     let receiver = Process::spawn_link(node_remote_receiver(reader, supervisor.clone()));
 
-- 
2.43.0


From 509c028a32df4cd8391699431ea44fb0385077a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:54 +0000
Subject: [PATCH 36/41] fix: workers of a connection that was disconnected
 while it was set up are registered for the node

---
 hydra/src/node_registry.rs | 9 +++++++--
 hydra/src/node_remote.rs   | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 408f846..47137ff 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -142,13 +142,18 @@ pub fn node_local_process() -> Option<Pid> {
         .and_then(|process| process.supervisor)
 }
 
-/// Sets available worker processes for a node, then, drains any pending messages to them.
-pub fn node_register_workers(node: Node, sender: Pid, receiver: Pid) {
+/// Sets available worker processes for a node if it still has the given supervisor, then, drains any pending messages to them.
+pub fn node_register_workers(node: Node, supervisor: Pid, sender: Pid, receiver: Pid) {
     let Some(entry) = NODE_MAP.get(&node) else {
         return;
     };
 
     NODE_REGISTRATIONS.alter(&entry, |_, mut value| {
+        // The connection may have been disconnected, or replaced already.
+        if value.supervisor != Some(supervisor) {
+            return value;
+        }
+
         value.sender = Some(sender);
         value.receiver = Some(receiver);
 
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 994055a..3875fb6 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -328,7 +328,7 @@ async fn node_remote_supervisor(
     let sender = Process::spawn_link(node_remote_sender(writer, supervisor.clone()));
     let receiver = Process::spawn_link(node_remote_receiver(reader, supervisor.clone()));
 
-    node_register_workers(node, sender, receiver);
+    node_register_workers(node, supervisor.process, sender, receiver);
 
     loop {
         let message = Process::receive::<NodeRemoteSupervisorMessage>().await;
-- 
2.43.0


From c64b1bf748897f49aa0728e7134a34db9ae777cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:12 +0000
Subject: [PATCH 37/41] fix: a handshake completed after the node was stopped
 registers the peer in the stopped node

---
 hydra/src/node_registry.rs | 18 ++++++++++++------
 hydra/src/node_remote.rs   |  4 +++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 47137ff..7e7fabe 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -107,14 +107,14 @@ pub fn node_local_stop() {
         panic!("Local node not started!");
     };
 
-    NODE_MAP.clear();
-
-    if let Some(entry) = NODE_REGISTRATIONS.get(&LOCAL_NODE_ID) {
-        if let Some(supervisor) = entry.supervisor {
+    // The local node must be unregistered before the others so that no connection is accepted afterwards.
+    if let Some((_, registration)) = NODE_REGISTRATIONS.remove(&LOCAL_NODE_ID) {
+        if let Some(supervisor) = registration.supervisor {
             Process::exit(supervisor, ExitReason::Kill);
         }
     }
 
+    NODE_MAP.clear();
     NODE_REGISTRATIONS.clear();
     NODE_PENDING_MESSAGES.clear();
 
@@ -128,6 +128,7 @@ pub fn node_local_panic(process: Pid) {
         return;
     }
 
+    NODE_REGISTRATIONS.remove(&LOCAL_NODE_ID);
     NODE_MAP.clear();
     NODE_REGISTRATIONS.clear();
     NODE_PENDING_MESSAGES.clear();
@@ -195,14 +196,19 @@ pub fn node_send_frame(frame: Frame, id: u64) {
     }
 }
 
-/// Accepts a remote node's connection if one doesn't exist, returns the id of the node if accepted.
-pub fn node_accept(node: Node, supervisor: Pid) -> Option<u64> {
+/// Accepts a remote node's connection if one doesn't exist and the local node is still alive, returns the id of the node if accepted.
+pub fn node_accept(node: Node, supervisor: Pid, local: Pid) -> Option<u64> {
     let Node::Remote(name, address) = node else {
         panic!("Can't accept a local node!");
     };
 
     let entry = NODE_MAP.entry(Node::from((name.clone(), address)));
 
+    // The local node may have been stopped, and started again already.
+    if node_local_process() != Some(local) {
+        return None;
+    }
+
     match entry {
         Entry::Vacant(entry) => {
             let next_id = NODE_ID.fetch_add(1, Ordering::Relaxed);
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 3875fb6..d1d4042 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -314,7 +314,7 @@ async fn node_remote_supervisor(
 
     Process::link(supervisor.process);
 
-    let Some(id) = node_accept(node.clone(), Process::current()) else {
+    let Some(id) = node_accept(node.clone(), Process::current(), supervisor.process) else {
         panic!("Not accepting node supervisor!");
     };
 
@@ -346,6 +346,8 @@ async fn node_remote_supervisor(
 }
 
 pub async fn node_remote_accepter(socket: TcpStream, supervisor: Arc<NodeLocalSupervisor>) {
+    Process::link(supervisor.process);
+
     if let Err(error) = socket.set_nodelay(true) {
         #[cfg(feature = "tracing")]
         tracing::warn!(error = ?error, "Failed to set TCP_NODELAY on socket");
-- 
2.43.0


From 76621d76430144c2c9e241adcff1ff049675d570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:55 +0000
Subject: [PATCH 38/41] fix: a client whose websocket upgrade is rejected does
 not receive a response

---
 hydra-websockets/src/websocket_server.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hydra-websockets/src/websocket_server.rs b/hydra-websockets/src/websocket_server.rs
index bdb2b47..97b3672 100644
--- a/hydra-websockets/src/websocket_server.rs
+++ b/hydra-websockets/src/websocket_server.rs
@@ -13,6 +13,7 @@ use tokio_tungstenite::accept_hdr_async_with_config;
 use tokio_tungstenite::tungstenite;
 
 use tungstenite::handshake::server::ErrorResponse;
+use tungstenite::http::StatusCode;
 use tungstenite::protocol::WebSocketConfig;
 
 #[cfg(feature = "native-tls")]
@@ -125,7 +126,14 @@ where
             handler = Some(rhandler);
             Ok(response)
         }
-        Err(reason) => Err(ErrorResponse::new(Some(format!("{:?}", reason)))),
+        Err(reason) => {
+            let mut response = ErrorResponse::new(Some(format!("{:?}", reason)));
+
+            // A successful status is not allowed for a rejected upgrade.
+            *response.status_mut() = StatusCode::FORBIDDEN;
+
+            Err(response)
+        }
     };
 
     let ws_config = WebSocketConfig::default()
-- 
2.43.0


From 6b0b9e620bc0a7954015238204e6126221cbc6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:18 +0000
Subject: [PATCH 39/41] fix: the close frame of a websocket client is not
 answered

---
 hydra-websockets/src/websocket_handler.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index a9ca593..253fd6f 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -207,6 +207,9 @@ where
                         if should_close {
                             handler.terminate(ExitReason::from("connection_closed")).await;
 
+                            // The reply to the close frame is only queued when it was read.
+                            let _ = stream.flush().await;
+
                             return Process::exit(Process::current(), ExitReason::from("connection_closed"));
                         }
                     }
-- 
2.43.0


From 2bbd0f78b7964126e03c6047464a15c1a2ab5998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:53 +0000
Subject: [PATCH 40/41] fix: callbacks of a websocket handler are called after
 it has closed the connection or has been terminated

---
 hydra-websockets/src/websocket_handler.rs | 25 +++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index 253fd6f..4a9ca9f 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -83,12 +83,13 @@ where
     }
 }
 
-/// Internal routine to process commands from a [WebsocketHandler] callback.
+/// Internal routine to process commands from a [WebsocketHandler] callback. Returns `false` if the process is exiting.
 async fn websocket_process_commands<T, S>(
     commands: WebsocketCommands,
     handler: &mut T,
     stream: &mut WebSocketStream<S>,
-) where
+) -> bool
+where
     T: WebsocketHandler + Send + 'static,
     S: AsyncRead + AsyncWrite + Unpin + Send + 'static,
 {
@@ -113,7 +114,9 @@ async fn websocket_process_commands<T, S>(
     if let Err(error) = stream.send_all(&mut sends).await {
         handler.terminate(error_to_reason(&error)).await;
 
-        Process::exit(Process::current(), error_to_reason(&error))
+        Process::exit(Process::current(), error_to_reason(&error));
+
+        return false;
     }
 
     if let Some(WebsocketCommand::Close(code, reason)) = close_command {
@@ -130,7 +133,11 @@ async fn websocket_process_commands<T, S>(
         } else {
             Process::exit(Process::current(), ExitReason::Normal);
         }
+
+        return false;
     }
+
+    true
 }
 
 /// Internal [WebsocketHandler] start routine.
@@ -142,7 +149,9 @@ where
     match handler.websocket_init().await {
         Ok(commands) => {
             if let Some(commands) = commands {
-                websocket_process_commands(commands, &mut handler, &mut stream).await;
+                if !websocket_process_commands(commands, &mut handler, &mut stream).await {
+                    return;
+                }
             }
         }
         Err(reason) => {
@@ -156,7 +165,9 @@ where
                 match handler.websocket_info(message).await {
                     Ok(commands) => {
                         if let Some(commands) = commands {
-                            websocket_process_commands(commands, &mut handler, &mut stream).await;
+                            if !websocket_process_commands(commands, &mut handler, &mut stream).await {
+                                return;
+                            }
                         }
                     }
                     Err(reason) => {
@@ -194,7 +205,9 @@ where
                         match handler.websocket_handle(message).await {
                             Ok(commands) => {
                                 if let Some(commands) = commands {
-                                    websocket_process_commands(commands, &mut handler, &mut stream).await;
+                                    if !websocket_process_commands(commands, &mut handler, &mut stream).await {
+                                        return;
+                                    }
                                 }
                             }
                             Err(reason) => {
-- 
2.43.0


From 45fdd83a1d0cfee50453d11a9f80b1276a111c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:31 +0000
Subject: [PATCH 41/41] fix: terminate is not called when websocket_init of a
 websocket handler fails

---
 hydra-websockets/src/websocket_handler.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index 4a9ca9f..320d9cf 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -155,6 +155,8 @@ where
             }
         }
         Err(reason) => {
+            handler.terminate(reason.clone()).await;
+
             return Process::exit(Process::current(), reason);
         }
     }
-- 
2.43.0

