From 61cc369126621c85fc38743ef7c12cd5b428a5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:30 +0000
Subject: [PATCH 01/45] verif: re-export node internals under cfg(rawdio_verif)

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 445d3b6..e2e3c5f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -79,6 +79,16 @@ pub(crate) use parameter::Parameters;
 pub use utility::Level;
 pub use utility::Timestamp;
 
+/// What the verification harness needs to put probe nodes into the graph
+///
+/// Only present when compiled with `--cfg rawdio_verif`
+#[cfg(rawdio_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::commands::Id;
+    pub use crate::graph::{DspParameters, DspProcessor};
+}
+
 /// Module to re-export commonly used types
 pub mod prelude {
     pub use crate::{
-- 
2.43.0


From 1e23fb6bae010690af63dac28b0a4f68370abe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:29 +0000
Subject: [PATCH 02/45] fix: cancel the parameter changes ending after the
 given time, not those before it

---
 src/parameter/realtime_parameter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index cf94d35..9b0b686 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -173,7 +173,7 @@ impl RealtimeAudioParameter {
 
     pub fn cancel_scheduled_changes_ending_after(&mut self, time: &Timestamp) {
         self.parameter_changes
-            .retain(|change| change.end_time >= *time);
+            .retain(|change| change.end_time <= *time);
     }
 
     pub fn cancel_scheduled_changes(&mut self) {
-- 
2.43.0


From 6a5edc5ed86d39777a192fe0430d1630521276c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:30 +0000
Subject: [PATCH 03/45] fix: remove a node's connections along with the node
 instead of panicking

---
 src/realtime/graph.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index c4e5413..005db2c 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -74,22 +74,32 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
             .map(|(id, _)| *id)
     }
 
+    fn find_edge_touching_node(&self, node_id: Id) -> Option<Id> {
+        self.edges
+            .iter()
+            .find(|(_, edge)| edge.from_node_id == node_id || edge.to_node_id == node_id)
+            .map(|(id, _)| *id)
+    }
+
     pub fn remove_edge(&mut self, from_node_id: Id, to_node_id: Id) -> Option<EdgeData> {
-        let id = self.find_edge_between_nodes(from_node_id, to_node_id);
+        self.find_edge_between_nodes(from_node_id, to_node_id)
+            .and_then(|id| self.remove_edge_with_id(id))
+    }
 
-        if let Some(id) = id {
-            if let Some((_, edge)) = self.edges.remove_entry(&id) {
-                replace_connections(self, Direction::Outgoing, id, edge.next_out);
-                replace_connections(self, Direction::Incoming, id, edge.next_in);
+    fn remove_edge_with_id(&mut self, id: Id) -> Option<EdgeData> {
+        let (_, edge) = self.edges.remove_entry(&id)?;
 
-                return Some(edge.edge_data);
-            }
-        }
+        replace_connections(self, Direction::Outgoing, id, edge.next_out);
+        replace_connections(self, Direction::Incoming, id, edge.next_in);
 
-        None
+        Some(edge.edge_data)
     }
 
     pub fn remove_node(&mut self, id: Id) -> Option<NodeData> {
+        while let Some(edge_id) = self.find_edge_touching_node(id) {
+            self.remove_edge_with_id(edge_id);
+        }
+
         if let Some((_, node)) = self.nodes.remove_entry(&id) {
             assert!(node.incoming.is_none());
             assert!(node.outgoing.is_none());
-- 
2.43.0


From c8c908363a1a43b7a2678c024ad73151621525e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:46 +0000
Subject: [PATCH 04/45] fix: sort graphs holding several connections between
 the same two nodes

---
 src/realtime/graph.rs            |  5 -----
 src/realtime/topological_sort.rs | 10 ++++------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index 005db2c..4cbf6f5 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -118,11 +118,6 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
         self.nodes.insert(id, Node::new(node_data));
     }
 
-    pub fn is_connected_to(&self, from_node_id: Id, to_node_id: Id) -> bool {
-        NodeIterator::new(from_node_id, Direction::Outgoing, &self.nodes, &self.edges)
-            .any(|id| id == to_node_id)
-    }
-
     pub fn node_iter(&self, node_id: Id, direction: Direction) -> NodeIterator<NodeData, EdgeData> {
         NodeIterator::new(node_id, direction, &self.nodes, &self.edges)
     }
diff --git a/src/realtime/topological_sort.rs b/src/realtime/topological_sort.rs
index b334b5e..e399247 100644
--- a/src/realtime/topological_sort.rs
+++ b/src/realtime/topological_sort.rs
@@ -35,12 +35,10 @@ impl TopologicalSort {
             self.order.push(next_node_id);
             self.dependency_count.remove(&next_node_id);
 
-            for node_id in graph.all_node_ids() {
-                if graph.is_connected_to(next_node_id, *node_id) {
-                    let previous_value = self.dependency_count.get_mut(node_id).unwrap();
-                    assert!(*previous_value > 0);
-                    *previous_value -= 1;
-                }
+            for node_id in graph.node_iter(next_node_id, Direction::Outgoing) {
+                let previous_value = self.dependency_count.get_mut(&node_id).unwrap();
+                assert!(*previous_value > 0);
+                *previous_value -= 1;
             }
         }
 
-- 
2.43.0


From 181d893b2b3bcd8a47281d06073963528ab20fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:47 +0000
Subject: [PATCH 05/45] fix: disconnect every connection between the two nodes

---
 src/realtime/dsp_graph.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 5995716..59ae932 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -157,8 +157,11 @@ impl DspGraph {
     }
 
     pub fn remove_connection(&mut self, connection: Connection) {
-        self.graph
-            .remove_edge(connection.source.dsp_id, connection.destination.dsp_id);
+        while self
+            .graph
+            .remove_edge(connection.source.dsp_id, connection.destination.dsp_id)
+            .is_some()
+        {}
 
         self.mark_graph_needs_sort();
     }
-- 
2.43.0


From 2963dd117fc79e259c9e6a8afb033464f183ed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:21 +0000
Subject: [PATCH 06/45] fix: pass only the connected channels to a node with a
 single input connection

---
 src/realtime/dsp_graph.rs | 9 ++++++++-
 src/realtime/graph.rs     | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 59ae932..f6f5b53 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -373,7 +373,14 @@ fn prepare_single_input_node(
 
     let edge = graph.get_edge(edge_id).unwrap();
 
-    if edge.edge_data.destination_input_channel == 0 && edge.edge_data.source_output_channel == 0 {
+    let connects_all_channels = graph
+        .get_node(edge.from_node_id)
+        .is_some_and(|source| source.output_count() == edge.edge_data.channel_count);
+
+    if edge.edge_data.destination_input_channel == 0
+        && edge.edge_data.source_output_channel == 0
+        && connects_all_channels
+    {
         let input_endpoint = Endpoint::new(edge.from_node_id, EndpointType::Output);
 
         return (
diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index 4cbf6f5..e9ba8b1 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -109,6 +109,10 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
         None
     }
 
+    pub fn get_node(&self, id: Id) -> Option<&NodeData> {
+        self.nodes.get(&id).map(|node| &node.node_data)
+    }
+
     pub fn get_node_mut(&mut self, id: Id) -> Option<&mut NodeData> {
         self.nodes.get_mut(&id).map(|node| &mut node.node_data)
     }
-- 
2.43.0


From 802e569eed29c821a4e1ed63933040210344c871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:45 +0000
Subject: [PATCH 07/45] fix: mix the system input with the connections of the
 input node

---
 src/realtime/dsp_graph.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index f6f5b53..44ffeb5 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -292,8 +292,6 @@ fn copy_output_from_dependencies(
     destination_buffer: &mut dyn AudioBuffer,
     frame_count: usize,
 ) {
-    let mut mix_behaviour = MixBehaviour::Overwrite;
-
     for edge_id in graph.edge_iterator(dsp_id, Direction::Incoming) {
         let edge = graph.get_edge(edge_id).expect("Edge not found");
 
@@ -307,10 +305,8 @@ fn copy_output_from_dependencies(
             edge.edge_data.destination_input_channel,
             edge.edge_data.channel_count,
             frame_count,
-            mix_behaviour,
+            MixBehaviour::Mix,
         );
-
-        mix_behaviour = MixBehaviour::Mix;
     }
 }
 
@@ -398,9 +394,15 @@ fn prepare_input(
     dsp_id: Id,
     frame_count: usize,
 ) -> (OwnedAudioBuffer, Endpoint) {
+    let has_system_input = buffer_pools
+        .assigned
+        .has(&Endpoint::new(dsp_id, EndpointType::Input));
+
     match graph.connection_count(dsp_id, Direction::Incoming) {
         0 => prepare_zero_input_node(buffer_pools, dsp_id),
-        1 => prepare_single_input_node(buffer_pools, graph, dsp_id, frame_count),
+        1 if !has_system_input => {
+            prepare_single_input_node(buffer_pools, graph, dsp_id, frame_count)
+        }
         _ => prepare_n_input_node(buffer_pools, graph, dsp_id, frame_count),
     }
 }
-- 
2.43.0


From e4062e963aa4e9297b14e8cafba851a9c8fa0655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:29 +0000
Subject: [PATCH 08/45] fix: follow every input frame in the envelope node, at
 the notification rate

---
 src/effects/envelope/envelope_processor.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/effects/envelope/envelope_processor.rs b/src/effects/envelope/envelope_processor.rs
index cc86591..8d30a55 100644
--- a/src/effects/envelope/envelope_processor.rs
+++ b/src/effects/envelope/envelope_processor.rs
@@ -43,10 +43,11 @@ impl DspProcessor for EnvelopeProcessor {
     fn process_audio(&mut self, context: &mut crate::ProcessContext) {
         let mut position = 0;
         let channel_count = context.input_buffer.channel_count();
+        let total_frame_count = context.input_buffer.frame_count();
 
-        while position < channel_count {
+        while position < total_frame_count {
             let frame_count = std::cmp::min(
-                context.input_buffer.frame_count(),
+                total_frame_count - position,
                 self.notification.samples_until_next_notification(),
             );
 
@@ -71,10 +72,7 @@ impl DspProcessor for EnvelopeProcessor {
                 }
             }
 
-            if self
-                .notification
-                .advance(context.input_buffer.frame_count())
-            {
+            if self.notification.advance(frame_count) {
                 self.send_notifications(channel_count);
             }
 
-- 
2.43.0


From ebff5e13682d09f1bb6cc5dbea9e4d2c8fc5ada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:29 +0000
Subject: [PATCH 09/45] fix: never block the audio process on unread envelope
 notifications

---
 src/effects/envelope/envelope_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/envelope/envelope_processor.rs b/src/effects/envelope/envelope_processor.rs
index 8d30a55..d7f5bc1 100644
--- a/src/effects/envelope/envelope_processor.rs
+++ b/src/effects/envelope/envelope_processor.rs
@@ -32,7 +32,7 @@ impl EnvelopeProcessor {
         for channel in 0..channel_count {
             let peak = self.peaks.get(channel).expect("Invalid channel index");
             let notification = EnvelopeNotification::new(channel, *peak);
-            let _ = self.transmitter.send(notification);
+            let _ = self.transmitter.try_send(notification);
         }
 
         self.peaks.fill_with(|| 0.0_f32);
-- 
2.43.0


From d338b5a26ce45cbcdb0c570ccb9e793537c350b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:25 +0000
Subject: [PATCH 10/45] fix: keep recording, without blocking or panicking,
 when recordings are not collected

---
 src/effects/recorder/recorder_node.rs      |  8 ++------
 src/effects/recorder/recorder_processor.rs | 13 +++++++++----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/effects/recorder/recorder_node.rs b/src/effects/recorder/recorder_node.rs
index 674afca..e185143 100644
--- a/src/effects/recorder/recorder_node.rs
+++ b/src/effects/recorder/recorder_node.rs
@@ -19,9 +19,6 @@ pub struct Recorder {
     is_recording: bool,
 }
 
-static EVENT_CHANNEL_CAPACITY: usize = 32;
-static NOTIFICATION_CHANNEL_CAPACITY: usize = 32;
-
 impl Recorder {
     /// Create a new recorder node
     pub fn new(
@@ -31,9 +28,8 @@ impl Recorder {
     ) -> Rc<RefCell<Self>> {
         let id = Id::generate();
 
-        let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
-        let (notification_transmitter, notification_receiver) =
-            Channel::bounded(NOTIFICATION_CHANNEL_CAPACITY);
+        let (event_transmitter, event_receiver) = Channel::unbounded();
+        let (notification_transmitter, notification_receiver) = Channel::unbounded();
 
         let processor = Box::new(RecorderProcessor::new(
             sample_rate,
diff --git a/src/effects/recorder/recorder_processor.rs b/src/effects/recorder/recorder_processor.rs
index e18be07..404ae2f 100644
--- a/src/effects/recorder/recorder_processor.rs
+++ b/src/effects/recorder/recorder_processor.rs
@@ -41,10 +41,15 @@ impl RecorderProcessor {
     }
 
     fn next_buffer(&mut self) {
-        let mut next_buffer = self
-            .buffer_pool
-            .remove()
-            .expect("Ran out of record buffers");
+        // If recordings aren't collected in time, a new buffer is the only way
+        // to avoid losing audio
+        let mut next_buffer = self.buffer_pool.remove().unwrap_or_else(|| {
+            OwnedAudioBuffer::new(
+                BUFFER_SIZE,
+                self.current_buffer.channel_count(),
+                self.sample_rate,
+            )
+        });
 
         let samples_used = self.current_position_in_buffer;
         self.current_position_in_buffer = 0;
-- 
2.43.0


From 7eeaaf2402715da75015bda3406e7cc31a4f84fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:26 +0000
Subject: [PATCH 11/45] fix: accept any number of ADSR and mixer changes
 between two audio blocks

---
 src/effects/adsr/adsr_node.rs   | 4 +---
 src/effects/mixer/mixer_node.rs | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/effects/adsr/adsr_node.rs b/src/effects/adsr/adsr_node.rs
index 08de08e..29256bb 100644
--- a/src/effects/adsr/adsr_node.rs
+++ b/src/effects/adsr/adsr_node.rs
@@ -12,14 +12,12 @@ pub struct Adsr {
     event_transmitter: Channel::Sender<AdsrEvent>,
 }
 
-static EVENT_CHANNEL_CAPACITY: usize = 32;
-
 impl Adsr {
     /// Create a new ADSR node
     pub fn new(context: &dyn Context, channel_count: usize, sample_rate: usize) -> Self {
         let id = Id::generate();
 
-        let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
+        let (event_transmitter, event_receiver) = Channel::unbounded();
 
         let processor = Box::new(AdsrProcessor::new(
             event_receiver,
diff --git a/src/effects/mixer/mixer_node.rs b/src/effects/mixer/mixer_node.rs
index 4a92d08..d21700c 100644
--- a/src/effects/mixer/mixer_node.rs
+++ b/src/effects/mixer/mixer_node.rs
@@ -23,8 +23,6 @@ pub struct Mixer {
     event_transmitter: EventTransmitter,
 }
 
-static EVENT_CHANNEL_CAPACITY: usize = 32;
-
 impl Mixer {
     /// Create a new mixer node for a given input to output channel combination
     pub fn new(context: &dyn Context, input_count: usize, output_count: usize) -> Self {
@@ -32,7 +30,7 @@ impl Mixer {
 
         let gain_matrix = MixerMatrix::new(input_count, output_count);
 
-        let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
+        let (event_transmitter, event_receiver) = Channel::unbounded();
 
         let processor = Box::new(MixerProcessor::new(event_receiver));
 
-- 
2.43.0


From 101562ba20e2b89fa0d820adbab9395e915ba3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 12/45] fix: release the ADSR envelope from its current level,
 over the release time

---
 src/effects/adsr/adsr_envelope.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/effects/adsr/adsr_envelope.rs b/src/effects/adsr/adsr_envelope.rs
index 99e6a0e..4f47298 100644
--- a/src/effects/adsr/adsr_envelope.rs
+++ b/src/effects/adsr/adsr_envelope.rs
@@ -44,7 +44,7 @@ impl AdsrEnvelope {
             sustain_level,
             release_coefficient: calculate_release_coefficient(
                 release_time,
-                sustain_level,
+                sustain_level.as_linear(),
                 sample_rate,
             ),
             decay_time,
@@ -57,10 +57,12 @@ impl AdsrEnvelope {
     }
 
     pub fn close(&mut self) {
-        self.phase = match self.phase {
-            Phase::Idle => Phase::Idle,
-            _ => Phase::Release,
-        };
+        if matches!(self.phase, Phase::Idle | Phase::Release) {
+            return;
+        }
+
+        self.phase = Phase::Release;
+        self.update_release_coefficient();
     }
 
     pub fn set_attack_time(&mut self, attack_time: Duration) {
@@ -76,15 +78,17 @@ impl AdsrEnvelope {
     pub fn set_sustain_level(&mut self, sustain_level: Level) {
         self.decay_coefficient =
             calculate_decay_coefficient(self.decay_time, sustain_level, self.sample_rate);
-        self.release_coefficient =
-            calculate_release_coefficient(self.release_time, sustain_level, self.sample_rate);
         self.sustain_level = sustain_level;
     }
 
     pub fn set_release_time(&mut self, release_time: Duration) {
-        self.release_coefficient =
-            calculate_release_coefficient(release_time, self.sustain_level, self.sample_rate);
         self.release_time = release_time;
+        self.update_release_coefficient();
+    }
+
+    fn update_release_coefficient(&mut self) {
+        self.release_coefficient =
+            calculate_release_coefficient(self.release_time, self.envelope, self.sample_rate);
     }
 
     pub fn process(&mut self) -> f64 {
@@ -164,11 +168,11 @@ fn calculate_decay_coefficient(
 
 fn calculate_release_coefficient(
     release_time: Duration,
-    sustain_level: Level,
+    start_level: f64,
     sample_rate: usize,
 ) -> f64 {
     calculate_coefficient(
-        (-RELEASE_TARGET) / (sustain_level.as_linear() - RELEASE_TARGET),
+        (-RELEASE_TARGET) / (start_level - RELEASE_TARGET),
         release_time,
         sample_rate,
     )
-- 
2.43.0


From ab5cfa08076dddbd7fd77326db674ae8a805346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:38 +0000
Subject: [PATCH 13/45] fix: ignore sampler loops that are shorter than a
 sample instead of hanging

---
 src/effects/sampler/sampler_processor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index c9ac864..1ae19f7 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -222,6 +222,11 @@ impl SamplerDspProcess {
     }
 
     fn set_loop_points(&mut self, loop_start: Timestamp, loop_end: Timestamp) {
+        // A loop of less than one sample could never advance
+        if (loop_end - loop_start).as_samples(self.sample_rate) < 1.0 {
+            return;
+        }
+
         self.loop_points = Some((loop_start, loop_end));
     }
 
-- 
2.43.0


From 4bb8b4c50939afb72d18379ec3e42f0424f8c633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:23 +0000
Subject: [PATCH 14/45] fix: never drop a sampler start when every voice is
 fading out

---
 src/effects/sampler/sampler_processor.rs | 4 +++-
 src/effects/sampler/sampler_voice.rs     | 9 +++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index 1ae19f7..d9df12c 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -250,11 +250,13 @@ impl SamplerDspProcess {
 
         self.stop();
 
+        // All voices are stopped or fading out, so take the one that is nearest
+        // to the end of its fade
         if let Some((index, free_voice)) = self
             .voices
             .iter_mut()
             .enumerate()
-            .find(|(_, voice)| voice.is_stopped())
+            .max_by_key(|(_, voice)| voice.fade_out_progress())
         {
             free_voice.start_from_position(sample_position);
             self.active_voice = Some(index);
diff --git a/src/effects/sampler/sampler_voice.rs b/src/effects/sampler/sampler_voice.rs
index 8ffa0db..fa99f0d 100644
--- a/src/effects/sampler/sampler_voice.rs
+++ b/src/effects/sampler/sampler_voice.rs
@@ -29,6 +29,15 @@ impl Voice {
         self.phase == Phase::Stopped
     }
 
+    /// How far through fading out the voice is, where `usize::MAX` is stopped
+    pub fn fade_out_progress(&self) -> usize {
+        match self.phase {
+            Phase::Stopped => usize::MAX,
+            Phase::FadingOut(fade_position) => fade_position,
+            Phase::FadingIn(_) | Phase::Playing => 0,
+        }
+    }
+
     pub fn start_from_position(&mut self, position: usize) {
         self.position = position;
         self.phase = match position {
-- 
2.43.0


From 0a32738427aefc02e1fdd28291aa67a41463db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:28 +0000
Subject: [PATCH 15/45] fix: only loop the sampler while it is playing, and
 play on to the end of the sample after a loop

---
 src/effects/sampler/sampler_processor.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index d9df12c..540edb7 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -160,7 +160,7 @@ impl SamplerDspProcess {
     }
 
     fn is_looping(&self) -> bool {
-        self.loop_points.is_some()
+        self.loop_points.is_some() && self.active_voice.is_some()
     }
 
     fn process_sample(&mut self, output_buffer: &mut dyn AudioBuffer) {
@@ -169,20 +169,20 @@ impl SamplerDspProcess {
         while frame_position < output_buffer.frame_count() {
             let samples_remaining = output_buffer.frame_count() - frame_position;
 
-            let render_interval = self.get_render_interval(samples_remaining);
-            let render_interval = render_interval.as_samples(self.sample_rate).round() as usize;
+            let render_frame_count = if self.is_looping() {
+                let render_interval = self.get_render_interval(samples_remaining);
+                let render_interval = render_interval.as_samples(self.sample_rate).round() as usize;
 
-            let render_frame_count = std::cmp::min(render_interval, samples_remaining);
+                std::cmp::min(render_interval, samples_remaining)
+            } else {
+                samples_remaining
+            };
 
-            if render_frame_count == 0 && self.is_looping() {
+            if render_frame_count == 0 {
                 self.finish_sample();
                 continue;
             }
 
-            if render_frame_count == 0 && !self.is_looping() {
-                break;
-            }
-
             self.process_voices(&mut MutableBorrowedAudioBuffer::slice_frames(
                 output_buffer,
                 frame_position,
-- 
2.43.0


From c30673b02cae6252b6af50cbc7608d93efbc2933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:03 +0000
Subject: [PATCH 16/45] fix: keep the sampler position when loop points change
 while playing

---
 src/effects/sampler/sampler_processor.rs | 44 +++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index 540edb7..352b838 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -195,6 +195,20 @@ impl SamplerDspProcess {
                 .position
                 .incremented_by_samples(render_frame_count, self.sample_rate);
         }
+
+        self.stop_at_end_of_sample();
+    }
+
+    fn stop_at_end_of_sample(&mut self) {
+        if self.is_looping() {
+            return;
+        }
+
+        if let Some(position) = self.get_active_voice_position() {
+            if position >= self.buffer.frame_count() {
+                self.stop();
+            }
+        }
     }
 
     fn process_voices(&mut self, output_buffer: &mut dyn AudioBuffer) {
@@ -227,10 +241,12 @@ impl SamplerDspProcess {
             return;
         }
 
+        self.rebase_position();
         self.loop_points = Some((loop_start, loop_end));
     }
 
     fn clear_loop_points(&mut self) {
+        self.rebase_position();
         self.loop_points = None
     }
 
@@ -283,10 +299,36 @@ impl SamplerDspProcess {
     }
 
     fn loop_back(&mut self, from_position: Timestamp) {
-        self.completed_loops += 1;
+        let overshoot = self.position - self.next_loop_position();
+
+        if overshoot.as_samples(self.sample_rate) < 1.0 {
+            self.completed_loops += 1;
+        } else {
+            // The loop ended before the current position when it was enabled
+            self.start_position_in_sample = from_position;
+            self.position = Timestamp::zero();
+            self.completed_loops = 0;
+        }
+
         self.assign_voice(from_position);
     }
 
+    /// Count the position from the start of the current loop, so that it stays
+    /// valid when the loop points change
+    fn rebase_position(&mut self) {
+        if self.completed_loops == 0 {
+            return;
+        }
+
+        if let Some((loop_start, loop_end)) = self.loop_points {
+            let last_loop_position = self.next_loop_position() - (loop_end - loop_start);
+
+            self.position = self.position - last_loop_position;
+            self.start_position_in_sample = loop_start;
+            self.completed_loops = 0;
+        }
+    }
+
     fn stop(&mut self) {
         self.voices.iter_mut().for_each(|voice| voice.stop());
         self.active_voice = None
-- 
2.43.0


From dc70f7f34c1b1b4a6091e37ce28038ea88f3938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:09 +0000
Subject: [PATCH 17/45] fix: fade the sampler out from its current level when
 stopped while fading in

---
 src/effects/sampler/sampler_processor.rs | 3 ++-
 src/effects/sampler/sampler_voice.rs     | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index 352b838..61c2f84 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -330,7 +330,8 @@ impl SamplerDspProcess {
     }
 
     fn stop(&mut self) {
-        self.voices.iter_mut().for_each(|voice| voice.stop());
+        let fade = &self.fade;
+        self.voices.iter_mut().for_each(|voice| voice.stop(fade));
         self.active_voice = None
     }
 }
diff --git a/src/effects/sampler/sampler_voice.rs b/src/effects/sampler/sampler_voice.rs
index fa99f0d..5ecf92d 100644
--- a/src/effects/sampler/sampler_voice.rs
+++ b/src/effects/sampler/sampler_voice.rs
@@ -50,10 +50,13 @@ impl Voice {
         self.position
     }
 
-    pub fn stop(&mut self) {
+    pub fn stop(&mut self, fade: &Fade) {
         match self.phase {
             Phase::Stopped => (),
-            Phase::FadingIn(_) => self.phase = Phase::FadingOut(0),
+            Phase::FadingIn(fade_position) => {
+                // Fade out from the level the fade in has reached
+                self.phase = Phase::FadingOut(fade.len() - fade_position)
+            }
             Phase::Playing => self.phase = Phase::FadingOut(0),
             Phase::FadingOut(_) => (),
         }
-- 
2.43.0


From 2c46a44d6aa123e76df6fdfc729aed34c283b5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:32 +0000
Subject: [PATCH 18/45] fix: slice the requested channels of a borrowed buffer

---
 src/buffer/borrowed_audio_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/borrowed_audio_buffer.rs b/src/buffer/borrowed_audio_buffer.rs
index 05b512d..d0a8e87 100644
--- a/src/buffer/borrowed_audio_buffer.rs
+++ b/src/buffer/borrowed_audio_buffer.rs
@@ -33,7 +33,7 @@ impl<'a> BorrowedAudioBuffer<'a> {
         let frame_count = buffer.frame_count();
         Self::slice(
             buffer,
-            SampleRange::new(channel_offset, 0, frame_count, channel_count),
+            SampleRange::new(channel_offset, 0, channel_count, frame_count),
         )
     }
 
-- 
2.43.0


From 8d219fed49440cd7c2c23ab5ba4261a8de594921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:36 +0000
Subject: [PATCH 19/45] fix: create every channel of a buffer made from a slice

---
 src/buffer/owned_audio_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/owned_audio_buffer.rs b/src/buffer/owned_audio_buffer.rs
index 8c3bbd0..7362a78 100644
--- a/src/buffer/owned_audio_buffer.rs
+++ b/src/buffer/owned_audio_buffer.rs
@@ -29,7 +29,7 @@ impl OwnedAudioBuffer {
     ///
     /// The audio from `data` represents a single channel and will be copied to all channels
     pub fn from_slice(data: &[f32], channel_count: usize, sample_rate: usize) -> Self {
-        let mut buffer = Self::new(data.len(), 1, sample_rate);
+        let mut buffer = Self::new(data.len(), channel_count, sample_rate);
 
         for channel in 0..channel_count {
             buffer.fill_from_slice(data, SampleLocation::channel(channel));
-- 
2.43.0


From c6a8a52e422e6dc1b07cfc7924c1ccf25d82449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:42 +0000
Subject: [PATCH 20/45] fix: keep the layout of interleaved audio with more
 channels than the buffer

---
 src/buffer/audio_buffer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/buffer/audio_buffer.rs b/src/buffer/audio_buffer.rs
index 0c94163..7f3125d 100644
--- a/src/buffer/audio_buffer.rs
+++ b/src/buffer/audio_buffer.rs
@@ -17,6 +17,7 @@ pub trait AudioBuffer {
     ) {
         debug_assert!(interleaved_data.len() >= channel_count * frame_count);
 
+        let interleaved_channel_count = channel_count;
         let frame_count = frame_count.min(self.frame_count());
         let channel_count = channel_count.min(self.channel_count());
 
@@ -24,7 +25,7 @@ pub trait AudioBuffer {
             let channel_data = self.get_channel_data_mut(SampleLocation::channel(channel));
 
             (0..frame_count).for_each(|frame| {
-                let source_offset = frame * channel_count + channel;
+                let source_offset = frame * interleaved_channel_count + channel;
                 let sample_value = interleaved_data[source_offset];
 
                 channel_data[frame] = sample_value;
@@ -43,6 +44,7 @@ pub trait AudioBuffer {
     ) {
         debug_assert!(interleaved_data.len() >= channel_count * frame_count);
 
+        let interleaved_channel_count = channel_count;
         let channel_count = channel_count.min(self.channel_count());
         let frame_count = frame_count.min(self.frame_count());
 
@@ -52,7 +54,7 @@ pub trait AudioBuffer {
             (0..frame_count).for_each(|frame| {
                 let sample_value = channel_data[frame];
 
-                let destination_offset = frame * channel_count + channel;
+                let destination_offset = frame * interleaved_channel_count + channel;
                 interleaved_data[destination_offset] = sample_value;
             });
         }
-- 
2.43.0


From 0bfa64268ba7d27cd6c6ba1619fd21cff0b831dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:11 +0000
Subject: [PATCH 21/45] fix: wrap the oscillator phase and wavetable around at
 the end of the table

---
 src/effects/oscillator/oscillator_processor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/oscillator/oscillator_processor.rs b/src/effects/oscillator/oscillator_processor.rs
index 5a9a029..df77e8a 100644
--- a/src/effects/oscillator/oscillator_processor.rs
+++ b/src/effects/oscillator/oscillator_processor.rs
@@ -17,7 +17,7 @@ impl OscillatorProcessor {
 
     fn increment_phase(&mut self, frequency: f32, sample_rate: usize) {
         self.phase += (frequency as f64) / (sample_rate as f64);
-        while self.phase > 1.0 {
+        while self.phase >= 1.0 {
             self.phase -= 1.0;
         }
     }
@@ -32,7 +32,7 @@ impl OscillatorProcessor {
         let value_after = if offset_after < self.wavetable.len() {
             self.wavetable[offset_after]
         } else {
-            0.0
+            self.wavetable[0]
         };
 
         let weighting = offset - offset.floor();
-- 
2.43.0


From 9313c9a0b378b9664b11e0afad1697c82f04c9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:16 +0000
Subject: [PATCH 22/45] fix: look up the biquad shelf gain parameter by its
 name

---
 src/effects/biquad/biquad_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/biquad/biquad_node.rs b/src/effects/biquad/biquad_node.rs
index f51dc96..1d6ee90 100644
--- a/src/effects/biquad/biquad_node.rs
+++ b/src/effects/biquad/biquad_node.rs
@@ -88,7 +88,7 @@ impl Biquad {
 
     /// Get the shelf gain parameter
     pub fn shelf_gain(&mut self) -> &mut AudioParameter {
-        self.get_parameter_mut("shelf_gain")
+        self.get_parameter_mut("shelf-gain")
     }
 
     /// Get the gain parameter
-- 
2.43.0


From 54bfb56ccc64a0c585e0c716f462c49db6e214f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:21 +0000
Subject: [PATCH 23/45] fix: apply the soft knee of the compressor around the
 threshold

---
 src/effects/compressor/compressor_processor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/compressor/compressor_processor.rs b/src/effects/compressor/compressor_processor.rs
index 544e300..5198d1b 100644
--- a/src/effects/compressor/compressor_processor.rs
+++ b/src/effects/compressor/compressor_processor.rs
@@ -80,9 +80,9 @@ impl CompressorProcessor {
         let envelope_db = envelope.as_db() as f32;
         let half_knee = 0.5 * knee;
 
-        let output = if envelope_db < threshold + half_knee {
+        let output = if envelope_db <= threshold - half_knee {
             envelope_db
-        } else if envelope_db > threshold + half_knee {
+        } else if envelope_db >= threshold + half_knee {
             threshold + (envelope_db - threshold) / ratio
         } else {
             let excess = envelope_db - threshold + half_knee;
-- 
2.43.0


From 63112ec0ca0236b09f86dd8251cdc93de9699334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:36 +0000
Subject: [PATCH 24/45] fix: don't divide by zero when soft saturating at a
 threshold of unity

---
 src/effects/waveshaper/waveshaper_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/waveshaper/waveshaper_node.rs b/src/effects/waveshaper/waveshaper_node.rs
index d88f561..64d5de8 100644
--- a/src/effects/waveshaper/waveshaper_node.rs
+++ b/src/effects/waveshaper/waveshaper_node.rs
@@ -43,7 +43,7 @@ impl Waveshaper {
         assert!(threshold <= 1.0);
 
         let shaper = move |input: f32| {
-            if input < threshold {
+            if input <= threshold {
                 input
             } else {
                 threshold
-- 
2.43.0


From d831ebcf8c231a3c0c67fb7f39fdfc5730a2cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:11 +0000
Subject: [PATCH 25/45] fix: don't overshoot the target of a ramp that ends
 between two samples

---
 src/parameter/realtime_parameter.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index 9b0b686..25ad81c 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -153,7 +153,15 @@ impl RealtimeAudioParameter {
             return self.current_change.value;
         }
 
-        (value * self.coefficient) + self.increment
+        let next_value = (value * self.coefficient) + self.increment;
+        let target_value = self.current_change.value;
+
+        // The end of a ramp isn't necessarily aligned to a sample
+        if (next_value - target_value) * (value - target_value) < 0.0 {
+            return target_value;
+        }
+
+        next_value
     }
 
     pub fn get_values(&self, frame_count: usize) -> &[f32] {
-- 
2.43.0


From 4bc61b947f41e78a5a2c6b0b05ad9b02e291c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:18 +0000
Subject: [PATCH 26/45] fix: don't let the frame of an event depend on the
 block

---
 src/effects/utility/event_processor.rs | 29 ++++++++++----------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/effects/utility/event_processor.rs b/src/effects/utility/event_processor.rs
index 2b722a4..48f033c 100644
--- a/src/effects/utility/event_processor.rs
+++ b/src/effects/utility/event_processor.rs
@@ -52,32 +52,25 @@ where
         }
     }
 
-    fn next_event_before(&mut self, end_time: &Timestamp) -> Option<Event> {
-        if let Some(next_event) = self.pending_events.first() {
-            if next_event.get_time() < *end_time {
-                return Some(self.pending_events.remove(0));
-            }
-        }
-
-        None
-    }
-
     pub fn next_event(
         &mut self,
         frame_start_time: &Timestamp,
         current_frame_position: &Timestamp,
         frame_count: usize,
     ) -> (usize, Option<Event>) {
-        let frame_end_time = frame_start_time.incremented_by_samples(frame_count, self.sample_rate);
+        let Some(next_event) = self.pending_events.first() else {
+            return (frame_count, None);
+        };
 
-        if let Some(next_event) = self.next_event_before(&frame_end_time) {
-            let event_time = std::cmp::max(next_event.get_time(), *current_frame_position);
-            let position_in_frame = event_time - *frame_start_time;
+        // Count in whole frames, as the difference of two timestamps isn't exact, and
+        // the frame of an event mustn't depend on where its block starts
+        let frame_start = frame_start_time.as_samples(self.sample_rate).round();
+        let current_frame = current_frame_position.as_samples(self.sample_rate).round();
+        let event_frame = next_event.get_time().as_samples(self.sample_rate).floor();
+        let position_in_frame = (event_frame.max(current_frame) - frame_start) as usize;
 
-            (
-                position_in_frame.as_samples(self.sample_rate).floor() as usize,
-                Some(next_event),
-            )
+        if position_in_frame < frame_count {
+            (position_in_frame, Some(self.pending_events.remove(0)))
         } else {
             (frame_count, None)
         }
-- 
2.43.0


From 7b3968f7127cc555628c4659f9a34799e55ea357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:23 +0000
Subject: [PATCH 27/45] fix: don't let the frame of a parameter change depend
 on the block

---
 src/parameter/realtime_parameter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index 25ad81c..ac11d0a 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -99,8 +99,11 @@ impl RealtimeAudioParameter {
         if self.is_static() {
             self.parameter_buffer.fill(value as f32, frame_count);
         } else {
+            // The time of a frame mustn't depend on where its block starts
+            let start_frame = time.as_samples(sample_rate).round();
+
             for frame in 0..frame_count {
-                let frame_time = time.incremented_by_samples(frame, sample_rate);
+                let frame_time = Timestamp::from_samples(start_frame + frame as f64, sample_rate);
                 value = self.value_at_time(&frame_time, sample_rate, value);
                 self.parameter_buffer.add_value(value as f32);
             }
-- 
2.43.0


From 4abd36cd4a7e623c43be6ab7030f0db0b9e95f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:09 +0000
Subject: [PATCH 28/45] fix: don't let the position in a looping sample drift

---
 src/effects/sampler/sampler_processor.rs | 69 +++++++++++-------------
 1 file changed, 30 insertions(+), 39 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index 61c2f84..e351c2a 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -24,10 +24,11 @@ pub struct SamplerDspProcess {
     event_processor: EventProcessor<SamplerEvent>,
     sample_rate: usize,
 
-    loop_points: Option<(Timestamp, Timestamp)>,
+    // In samples, as the sum of many small timestamps would drift
+    loop_points: Option<(f64, f64)>,
 
-    position: Timestamp,
-    start_position_in_sample: Timestamp,
+    position: f64,
+    start_position_in_sample: f64,
     completed_loops: usize,
 }
 
@@ -104,8 +105,8 @@ impl SamplerDspProcess {
                 sample_rate,
             ),
             loop_points: None,
-            position: Timestamp::zero(),
-            start_position_in_sample: Timestamp::zero(),
+            position: 0.0,
+            start_position_in_sample: 0.0,
             completed_loops: 0,
             sample_rate,
         }
@@ -120,37 +121,23 @@ impl SamplerDspProcess {
         Self::new_wth_fade(sample_rate, buffer, event_receiver, Fade::bypass())
     }
 
-    fn next_loop_position(&self) -> Timestamp {
+    fn next_loop_position(&self) -> f64 {
         let (loop_start, loop_end) = match self.loop_points {
             Some(loop_points) => loop_points,
-            None => {
-                return Timestamp::from_samples(self.buffer.frame_count() as f64, self.sample_rate)
-            }
+            None => return self.buffer.frame_count() as f64,
         };
 
         let first_loop_length = loop_end - self.start_position_in_sample;
         let subsequent_loop_length = loop_end - loop_start;
 
-        let sample_position = first_loop_length.as_samples(self.sample_rate)
-            + subsequent_loop_length.as_samples(self.sample_rate) * self.completed_loops as f64;
-
-        Timestamp::from_samples(sample_position, self.sample_rate)
+        first_loop_length + subsequent_loop_length * self.completed_loops as f64
     }
 
-    fn get_render_interval(&self, samples_remaining: usize) -> Timestamp {
-        let end_of_frame = self
-            .position
-            .incremented_by_samples(samples_remaining, self.sample_rate);
-
+    fn get_render_interval(&self, samples_remaining: usize) -> usize {
+        let end_of_frame = self.position + samples_remaining as f64;
         let end_of_sample = self.next_loop_position();
 
-        let end_point = if end_of_frame < end_of_sample {
-            end_of_frame
-        } else {
-            end_of_sample
-        };
-
-        end_point - self.position
+        (end_of_frame.min(end_of_sample) - self.position).round() as usize
     }
 
     fn finish_sample(&mut self) {
@@ -170,10 +157,10 @@ impl SamplerDspProcess {
             let samples_remaining = output_buffer.frame_count() - frame_position;
 
             let render_frame_count = if self.is_looping() {
-                let render_interval = self.get_render_interval(samples_remaining);
-                let render_interval = render_interval.as_samples(self.sample_rate).round() as usize;
-
-                std::cmp::min(render_interval, samples_remaining)
+                std::cmp::min(
+                    self.get_render_interval(samples_remaining),
+                    samples_remaining,
+                )
             } else {
                 samples_remaining
             };
@@ -191,9 +178,7 @@ impl SamplerDspProcess {
 
             frame_position += render_frame_count;
 
-            self.position = self
-                .position
-                .incremented_by_samples(render_frame_count, self.sample_rate);
+            self.position += render_frame_count as f64;
         }
 
         self.stop_at_end_of_sample();
@@ -236,8 +221,11 @@ impl SamplerDspProcess {
     }
 
     fn set_loop_points(&mut self, loop_start: Timestamp, loop_end: Timestamp) {
+        let loop_start = loop_start.as_samples(self.sample_rate);
+        let loop_end = loop_end.as_samples(self.sample_rate);
+
         // A loop of less than one sample could never advance
-        if (loop_end - loop_start).as_samples(self.sample_rate) < 1.0 {
+        if loop_end - loop_start < 1.0 {
             return;
         }
 
@@ -255,8 +243,8 @@ impl SamplerDspProcess {
         self.clear_loop_points();
     }
 
-    fn assign_voice(&mut self, start_position: Timestamp) {
-        let sample_position = start_position.as_samples(self.sample_rate).round() as usize;
+    fn assign_voice(&mut self, start_position: f64) {
+        let sample_position = start_position.round() as usize;
 
         if let Some(current_position) = self.get_active_voice_position() {
             if current_position == sample_position {
@@ -292,21 +280,24 @@ impl SamplerDspProcess {
     }
 
     fn start(&mut self, from_position: Timestamp, delay: Timestamp) {
+        let from_position = from_position.as_samples(self.sample_rate);
+        let delay = delay.as_samples(self.sample_rate);
+
         self.assign_voice(from_position + delay);
         self.completed_loops = 0;
         self.position = delay;
         self.start_position_in_sample = from_position;
     }
 
-    fn loop_back(&mut self, from_position: Timestamp) {
+    fn loop_back(&mut self, from_position: f64) {
         let overshoot = self.position - self.next_loop_position();
 
-        if overshoot.as_samples(self.sample_rate) < 1.0 {
+        if overshoot < 1.0 {
             self.completed_loops += 1;
         } else {
             // The loop ended before the current position when it was enabled
             self.start_position_in_sample = from_position;
-            self.position = Timestamp::zero();
+            self.position = 0.0;
             self.completed_loops = 0;
         }
 
@@ -323,7 +314,7 @@ impl SamplerDspProcess {
         if let Some((loop_start, loop_end)) = self.loop_points {
             let last_loop_position = self.next_loop_position() - (loop_end - loop_start);
 
-            self.position = self.position - last_loop_position;
+            self.position -= last_loop_position;
             self.start_position_in_sample = loop_start;
             self.completed_loops = 0;
         }
-- 
2.43.0


From c5b22d89f81cdfac2a910fc8c3b04dbe5980c038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:56 +0000
Subject: [PATCH 29/45] fix: tell the end of a loop from a loop enabled late at
 every sample rate

---
 src/effects/sampler/sampler_processor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index e351c2a..ec7a1d7 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -292,7 +292,8 @@ impl SamplerDspProcess {
     fn loop_back(&mut self, from_position: f64) {
         let overshoot = self.position - self.next_loop_position();
 
-        if overshoot < 1.0 {
+        // A loop ends within half a sample of its end point
+        if overshoot < 0.75 {
             self.completed_loops += 1;
         } else {
             // The loop ended before the current position when it was enabled
-- 
2.43.0


From 24d098be436419ccac2dc22a2e1e0eff22ce989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:20 +0000
Subject: [PATCH 30/45] fix: allow a loop of one sample at every sample rate

---
 src/effects/sampler/sampler_processor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index ec7a1d7..f3fd423 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -224,8 +224,8 @@ impl SamplerDspProcess {
         let loop_start = loop_start.as_samples(self.sample_rate);
         let loop_end = loop_end.as_samples(self.sample_rate);
 
-        // A loop of less than one sample could never advance
-        if loop_end - loop_start < 1.0 {
+        // A loop of no samples could never advance
+        if (loop_end - loop_start).round() < 1.0 {
             return;
         }
 
-- 
2.43.0


From 1d94381162df39f042a067e82b5ca3344bfa5107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:25 +0000
Subject: [PATCH 31/45] fix: don't let a sample that has ended take a voice
 from one that is fading

---
 src/effects/sampler/sampler_processor.rs | 13 ++++++++++---
 src/effects/sampler/sampler_voice.rs     |  4 ++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index f3fd423..07737ff 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -189,9 +189,16 @@ impl SamplerDspProcess {
             return;
         }
 
-        if let Some(position) = self.get_active_voice_position() {
-            if position >= self.buffer.frame_count() {
-                self.stop();
+        let frame_count = self.buffer.frame_count();
+
+        if let Some(voice) = self
+            .active_voice
+            .and_then(|index| self.voices.get_mut(index))
+        {
+            if voice.get_position() >= frame_count {
+                // There is nothing left to fade out
+                voice.reset();
+                self.active_voice = None;
             }
         }
     }
diff --git a/src/effects/sampler/sampler_voice.rs b/src/effects/sampler/sampler_voice.rs
index 5ecf92d..bd05e1f 100644
--- a/src/effects/sampler/sampler_voice.rs
+++ b/src/effects/sampler/sampler_voice.rs
@@ -46,6 +46,10 @@ impl Voice {
         };
     }
 
+    pub fn reset(&mut self) {
+        self.phase = Phase::Stopped;
+    }
+
     pub fn get_position(&self) -> usize {
         self.position
     }
-- 
2.43.0


From d7b4a3dce9204657c178a38ce2ae0cb6d7a0c2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:24 +0000
Subject: [PATCH 32/45] fix: never report only some of the channels of an
 envelope

---
 src/effects/envelope/envelope_node.rs      |  2 +-
 src/effects/envelope/envelope_processor.rs | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/effects/envelope/envelope_node.rs b/src/effects/envelope/envelope_node.rs
index 8288e28..8ea230e 100644
--- a/src/effects/envelope/envelope_node.rs
+++ b/src/effects/envelope/envelope_node.rs
@@ -32,7 +32,7 @@ impl Envelope {
         let id = Id::generate();
 
         let (notification_transmitter, notification_receiver) =
-            Channel::bounded(NOTIFICATION_CHANNEL_CAPACITY);
+            Channel::bounded(NOTIFICATION_CHANNEL_CAPACITY.max(channel_count));
 
         let processor = Box::new(EnvelopeProcessor::new(
             context.get_sample_rate(),
diff --git a/src/effects/envelope/envelope_processor.rs b/src/effects/envelope/envelope_processor.rs
index d7f5bc1..f1e5603 100644
--- a/src/effects/envelope/envelope_processor.rs
+++ b/src/effects/envelope/envelope_processor.rs
@@ -28,8 +28,22 @@ impl EnvelopeProcessor {
         }
     }
 
+    fn has_room_for(&self, notification_count: usize) -> bool {
+        match self.transmitter.capacity() {
+            Some(capacity) => self.transmitter.len() + notification_count <= capacity,
+            None => true,
+        }
+    }
+
     fn send_notifications(&mut self, channel_count: usize) {
-        for channel in 0..channel_count {
+        // Skip the notification of every channel, rather than only those of some
+        let channels_to_notify = if self.has_room_for(channel_count) {
+            channel_count
+        } else {
+            0
+        };
+
+        for channel in 0..channels_to_notify {
             let peak = self.peaks.get(channel).expect("Invalid channel index");
             let notification = EnvelopeNotification::new(channel, *peak);
             let _ = self.transmitter.try_send(notification);
-- 
2.43.0


From 18e2e7107db9092177f770f91077dd652310ab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:46 +0000
Subject: [PATCH 33/45] fix: a level never reads below minus infinity dB

A linear level between 1e-9 and -128 dB converted to less than
MINUS_INFINITY_DECIBELS, below what a smaller level converts to.
---
 src/utility/level.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/level.rs b/src/utility/level.rs
index 53168c5..9920474 100644
--- a/src/utility/level.rs
+++ b/src/utility/level.rs
@@ -38,7 +38,7 @@ impl Level {
         if self.linear <= 1e-9 {
             MINUS_INFINITY_DECIBELS
         } else {
-            20.0 * self.linear.log10()
+            (20.0 * self.linear.log10()).max(MINUS_INFINITY_DECIBELS)
         }
     }
 
-- 
2.43.0


From 051f481ba667bc14db3412c45e31e31e49275043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:53 +0000
Subject: [PATCH 34/45] fix: sample rate conversion keeps its position in
 double precision

The source position was computed in single precision, which is off by whole
samples some way into a long buffer.
---
 src/buffer/audio_buffer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buffer/audio_buffer.rs b/src/buffer/audio_buffer.rs
index 7f3125d..59626a1 100644
--- a/src/buffer/audio_buffer.rs
+++ b/src/buffer/audio_buffer.rs
@@ -312,7 +312,7 @@ pub trait AudioBuffer {
         destination_location: SampleLocation,
         channel_count: usize,
     ) {
-        let ratio = audio_buffer.sample_rate() as f32 / self.sample_rate() as f32;
+        let ratio = audio_buffer.sample_rate() as f64 / self.sample_rate() as f64;
 
         for channel_offset in 0..channel_count {
             let source_data =
@@ -324,7 +324,7 @@ pub trait AudioBuffer {
                 .iter_mut()
                 .enumerate()
                 .for_each(|(index, sample)| {
-                    let source_index = index as f32 * ratio;
+                    let source_index = index as f64 * ratio;
 
                     let sample_before = (source_index.floor() as usize).min(source_data.len() - 1);
                     let sample_after = (source_index.ceil() as usize).min(source_data.len() - 1);
@@ -336,7 +336,7 @@ pub trait AudioBuffer {
                     let sample_before = source_data[sample_before];
                     let sample_after = source_data[sample_after];
 
-                    let sample_after_amount = source_index - source_index.floor();
+                    let sample_after_amount = (source_index - source_index.floor()) as f32;
                     *sample = (1.0_f32 - sample_after_amount) * sample_before
                         + sample_after_amount * sample_after;
                 });
-- 
2.43.0


From cb2512bb6a6f0db7f57f1cc443acb20396d74350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:21 +0000
Subject: [PATCH 35/45] fix: keep biquad filters stable when the frequency
 reaches Nyquist

The frequency parameter goes up to 20 kHz whatever the sample rate. From half
the sample rate on, the filter was unstable and its output grew to infinity.
---
 src/effects/biquad/biquad_coefficients.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/effects/biquad/biquad_coefficients.rs b/src/effects/biquad/biquad_coefficients.rs
index 32cef0c..397c8ae 100644
--- a/src/effects/biquad/biquad_coefficients.rs
+++ b/src/effects/biquad/biquad_coefficients.rs
@@ -186,7 +186,8 @@ impl BiquadCoefficients {
 }
 
 fn omega(center_frequency: f64, sample_rate: f64) -> f64 {
-    2.0 * PI * center_frequency / sample_rate
+    // At and above the Nyquist frequency, the filters would be unstable
+    2.0 * PI * (center_frequency / sample_rate).min(0.499)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1e5974f50831f3952701a127e273216de044040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:26 +0000
Subject: [PATCH 36/45] fix: keep shelf filters stable with a shelf gain of
 zero

A shelf gain of zero put a double pole on the unit circle, so that whatever
the filter held when the gain reached zero grew without bound.
---
 src/effects/biquad/biquad_coefficients.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/effects/biquad/biquad_coefficients.rs b/src/effects/biquad/biquad_coefficients.rs
index 397c8ae..40284a7 100644
--- a/src/effects/biquad/biquad_coefficients.rs
+++ b/src/effects/biquad/biquad_coefficients.rs
@@ -2,6 +2,8 @@ use std::f64::consts::PI;
 
 use crate::Level;
 
+const MINIMUM_SHELF_GAIN: f64 = 1e-5;
+
 #[derive(Debug)]
 pub struct BiquadCoefficients {
     a1: f64,
@@ -105,7 +107,7 @@ impl BiquadCoefficients {
     }
 
     pub fn low_shelf(center_frequency: f64, sample_rate: f64, level: Level) -> Self {
-        let a = level.as_linear().sqrt();
+        let a = shelf_amplitude(level);
 
         let omega = omega(center_frequency, sample_rate);
         let beta = (2.0 * a).sqrt();
@@ -135,7 +137,7 @@ impl BiquadCoefficients {
     }
 
     pub fn high_shelf(center_frequency: f64, sample_rate: f64, level: Level) -> Self {
-        let a = level.as_linear().sqrt();
+        let a = shelf_amplitude(level);
 
         let omega = omega(center_frequency, sample_rate);
         let beta = (a + a).sqrt();
@@ -185,6 +187,11 @@ impl BiquadCoefficients {
     }
 }
 
+fn shelf_amplitude(level: Level) -> f64 {
+    // With a gain of zero, the poles would lie on the unit circle
+    level.as_linear().max(MINIMUM_SHELF_GAIN).sqrt()
+}
+
 fn omega(center_frequency: f64, sample_rate: f64) -> f64 {
     // At and above the Nyquist frequency, the filters would be unstable
     2.0 * PI * (center_frequency / sample_rate).min(0.499)
-- 
2.43.0


From cee5377698ff0a304df018702aedc793907a2765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:32 +0000
Subject: [PATCH 37/45] fix: where a sample starts does not depend on the
 blocks

A sample scheduled between two frames started one frame earlier or later
depending on how the timestamps of its block had been rounded.
---
 src/effects/sampler/sampler_processor.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index 07737ff..9199110 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -213,9 +213,12 @@ impl SamplerDspProcess {
 
     fn process_event(&mut self, event: &SamplerEvent, current_time: &Timestamp) {
         match event.get_event_type() {
-            SampleEventType::StartImmediate => self.start(Timestamp::zero(), Timestamp::zero()),
+            SampleEventType::StartImmediate => self.start(Timestamp::zero(), 0.0),
             SampleEventType::Start(position_in_sample) => {
-                let delay = *current_time - event.get_time();
+                // The sum of the timestamps isn't exact, and where the sample starts
+                // mustn't depend on where the block starts
+                let current_frame = current_time.as_samples(self.sample_rate).round();
+                let delay = current_frame - event.get_time().as_samples(self.sample_rate);
                 self.start(*position_in_sample, delay);
             }
             SampleEventType::Stop => self.stop(),
@@ -286,9 +289,8 @@ impl SamplerDspProcess {
         self.get_active_voice().map(|voice| voice.get_position())
     }
 
-    fn start(&mut self, from_position: Timestamp, delay: Timestamp) {
+    fn start(&mut self, from_position: Timestamp, delay: f64) {
         let from_position = from_position.as_samples(self.sample_rate);
-        let delay = delay.as_samples(self.sample_rate);
 
         self.assign_voice(from_position + delay);
         self.completed_loops = 0;
-- 
2.43.0


From d2e821672b70abadfd3ba2076ab140cc0ac951bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:23 +0000
Subject: [PATCH 38/45] fix: don't make the audio process wait for the garbage
 collector

---
 src/realtime/dsp_graph.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 44ffeb5..0f62049 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -21,7 +21,6 @@ pub struct DspGraph {
 static MAXIMUM_BUFFER_COUNT: usize = 1024;
 static MAXIMUM_GRAPH_NODE_COUNT: usize = 512;
 static MAXIMUM_GRAPH_EDGE_COUNT: usize = 512;
-static GARBAGE_COLLECTION_CHANNEL_CAPACITY: usize = 512;
 
 impl DspGraph {
     pub fn new(
@@ -29,8 +28,8 @@ impl DspGraph {
         maximum_channel_count: usize,
         sample_rate: usize,
     ) -> Self {
-        let (garbage_collection_tx, garbage_collection_rx) =
-            crossbeam::channel::bounded(GARBAGE_COLLECTION_CHANNEL_CAPACITY);
+        // This is unbounded so that removing nodes never waits for the garbage collector
+        let (garbage_collection_tx, garbage_collection_rx) = crossbeam::channel::unbounded();
         run_garbage_collector(garbage_collection_rx);
 
         Self {
-- 
2.43.0


From 07d6953e5ad69ceff084a1b4b345781401d72e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:43 +0000
Subject: [PATCH 39/45] fix: don't panic in the audio process when a graph
 needs more buffers than the pool has

---
 src/buffer/buffer_pool.rs | 13 +++++++++++--
 src/realtime/dsp_graph.rs | 27 ++++++++++++---------------
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/buffer/buffer_pool.rs b/src/buffer/buffer_pool.rs
index e2c9eac..cef42e8 100644
--- a/src/buffer/buffer_pool.rs
+++ b/src/buffer/buffer_pool.rs
@@ -2,6 +2,9 @@ use crate::prelude::*;
 
 pub struct BufferPool {
     free_buffers: Vec<OwnedAudioBuffer>,
+    frame_count: usize,
+    channel_count: usize,
+    sample_rate: usize,
 }
 
 impl BufferPool {
@@ -15,11 +18,17 @@ impl BufferPool {
             free_buffers: (0..buffer_count)
                 .map(|_| OwnedAudioBuffer::new(frame_count, channel_count, sample_rate))
                 .collect(),
+            frame_count,
+            channel_count,
+            sample_rate,
         }
     }
 
-    pub fn remove(&mut self) -> Option<OwnedAudioBuffer> {
-        self.free_buffers.pop()
+    /// Take a buffer from the pool, growing it if every buffer is in use
+    pub fn remove(&mut self) -> OwnedAudioBuffer {
+        self.free_buffers.pop().unwrap_or_else(|| {
+            OwnedAudioBuffer::new(self.frame_count, self.channel_count, self.sample_rate)
+        })
     }
 
     pub fn add(&mut self, mut buffer: OwnedAudioBuffer) {
diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 0f62049..cac9703 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -68,17 +68,17 @@ impl DspGraph {
         self.sort_graph();
 
         if let Some(input_endpoint) = self.input_endpoint {
-            if let Some(mut buffer) = self.buffer_pools.free.remove() {
-                buffer.copy_from(
-                    input_buffer,
-                    SampleLocation::origin(),
-                    SampleLocation::origin(),
-                    input_channel_count,
-                    frame_count,
-                );
-
-                self.buffer_pools.assigned.add(buffer, &input_endpoint);
-            }
+            let mut buffer = self.buffer_pools.free.remove();
+
+            buffer.copy_from(
+                input_buffer,
+                SampleLocation::origin(),
+                SampleLocation::origin(),
+                input_channel_count,
+                frame_count,
+            );
+
+            self.buffer_pools.assigned.add(buffer, &input_endpoint);
         }
 
         self.process_dsps(frame_count, start_time);
@@ -315,10 +315,7 @@ fn get_buffer_with_endpoint(
 ) -> OwnedAudioBuffer {
     match buffer_pools.assigned.remove(endpoint) {
         Some(buffer) => buffer,
-        None => buffer_pools
-            .free
-            .remove()
-            .expect("No buffers available for processing"),
+        None => buffer_pools.free.remove(),
     }
 }
 
-- 
2.43.0


From 82dc282f1d57bd631345790cdd02daaa1e7533e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:07 +0000
Subject: [PATCH 40/45] fix: don't panic in the audio process when a graph
 needs more buffers than the pool has

---
 src/effects/recorder/recorder_processor.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/effects/recorder/recorder_processor.rs b/src/effects/recorder/recorder_processor.rs
index 404ae2f..e491d11 100644
--- a/src/effects/recorder/recorder_processor.rs
+++ b/src/effects/recorder/recorder_processor.rs
@@ -43,13 +43,7 @@ impl RecorderProcessor {
     fn next_buffer(&mut self) {
         // If recordings aren't collected in time, a new buffer is the only way
         // to avoid losing audio
-        let mut next_buffer = self.buffer_pool.remove().unwrap_or_else(|| {
-            OwnedAudioBuffer::new(
-                BUFFER_SIZE,
-                self.current_buffer.channel_count(),
-                self.sample_rate,
-            )
-        });
+        let mut next_buffer = self.buffer_pool.remove();
 
         let samples_used = self.current_position_in_buffer;
         self.current_position_in_buffer = 0;
-- 
2.43.0


From 770cd094b2582d59a5e9059b147e8b41a037c601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:12 +0000
Subject: [PATCH 41/45] fix: don't silence quiet signals in low frequency
 filters

---
 src/effects/biquad/biquad_processor.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/effects/biquad/biquad_processor.rs b/src/effects/biquad/biquad_processor.rs
index 79b5fe0..ac2fd7e 100644
--- a/src/effects/biquad/biquad_processor.rs
+++ b/src/effects/biquad/biquad_processor.rs
@@ -130,9 +130,7 @@ impl DspProcessor for BiquadProcessor {
 }
 
 fn denormal(sample: f64) -> f64 {
-    let denormal_threshold = 1e-8;
-
-    if -denormal_threshold <= sample && sample <= denormal_threshold {
+    if sample.is_subnormal() {
         return 0.0;
     }
 
-- 
2.43.0


From 67e7e9ac196bc8f312207bfb9e2f4ed5b92efb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 42/45] fix: keep filters stable however fast their parameters
 are moved

---
 src/effects/biquad/biquad_processor.rs | 90 +++++++++++++++++++-------
 1 file changed, 65 insertions(+), 25 deletions(-)

diff --git a/src/effects/biquad/biquad_processor.rs b/src/effects/biquad/biquad_processor.rs
index ac2fd7e..53f23a5 100644
--- a/src/effects/biquad/biquad_processor.rs
+++ b/src/effects/biquad/biquad_processor.rs
@@ -5,9 +5,63 @@ use super::{biquad_coefficients::BiquadCoefficients, filter_type::BiquadFilterTy
 pub struct BiquadProcessor {
     filter_type: BiquadFilterType,
     sample_rate: usize,
-    coefficients: BiquadCoefficients,
+    coefficients: StateVariableCoefficients,
     last_parameters: Parameters,
-    delays: Vec<[f64; 4]>,
+    states: Vec<[f64; 2]>,
+}
+
+/// The coefficients of a state variable filter
+///
+/// A direct form filter is only stable while its coefficients don't change. The
+/// energy in the state of this one doesn't depend on the coefficients, so it
+/// stays stable however fast the parameters are moved.
+struct StateVariableCoefficients {
+    a1: f64,
+    a2: f64,
+    a3: f64,
+    m0: f64,
+    m1: f64,
+    m2: f64,
+}
+
+impl From<BiquadCoefficients> for StateVariableCoefficients {
+    fn from(biquad: BiquadCoefficients) -> Self {
+        let low = 1.0 + biquad.a1() + biquad.a2();
+        let high = 1.0 - biquad.a1() + biquad.a2();
+
+        let g = (low / high).sqrt();
+        let k = 2.0 * (1.0 - biquad.a2()) * g / low;
+
+        let low_pass = (biquad.b0() + biquad.b1() + biquad.b2()) / low;
+        let band_pass = 2.0 * (biquad.b0() - biquad.b2()) * g / low;
+        let high_pass = (biquad.b0() - biquad.b1() + biquad.b2()) / high;
+
+        let a1 = 1.0 / (1.0 + g * (g + k));
+        let a2 = g * a1;
+        let a3 = g * a2;
+
+        Self {
+            a1,
+            a2,
+            a3,
+            m0: high_pass,
+            m1: band_pass - k * high_pass,
+            m2: low_pass - high_pass,
+        }
+    }
+}
+
+impl StateVariableCoefficients {
+    fn process(&self, input: f64, state: &mut [f64; 2]) -> f64 {
+        let difference = input - state[1];
+        let band_pass = self.a1 * state[0] + self.a2 * difference;
+        let low_pass = state[1] + self.a2 * state[0] + self.a3 * difference;
+
+        state[0] = denormal(2.0 * band_pass - state[0]);
+        state[1] = denormal(2.0 * low_pass - state[1]);
+
+        self.m0 * input + self.m1 * band_pass + self.m2 * low_pass
+    }
 }
 
 #[derive(PartialEq)]
@@ -21,8 +75,8 @@ fn calculate_coefficients(
     filter_type: BiquadFilterType,
     parameters: &Parameters,
     sample_rate: usize,
-) -> BiquadCoefficients {
-    match filter_type {
+) -> StateVariableCoefficients {
+    let coefficients = match filter_type {
         BiquadFilterType::HighPass => {
             BiquadCoefficients::high_pass(parameters.frequency, sample_rate as f64, parameters.q)
         }
@@ -45,7 +99,9 @@ fn calculate_coefficients(
             sample_rate as f64,
             Level::from_linear(parameters.shelf_gain),
         ),
-    }
+    };
+
+    coefficients.into()
 }
 
 impl BiquadProcessor {
@@ -61,7 +117,7 @@ impl BiquadProcessor {
             filter_type,
             coefficients: calculate_coefficients(filter_type, &parameters, sample_rate),
             last_parameters: parameters,
-            delays: (0..channel_count).map(|_| [0.0, 0.0, 0.0, 0.0]).collect(),
+            states: (0..channel_count).map(|_| [0.0, 0.0]).collect(),
         }
     }
 }
@@ -101,25 +157,9 @@ impl DspProcessor for BiquadProcessor {
                 let location = SampleLocation::new(channel, frame);
                 let input_sample = context.input_buffer.get_sample(location) as f64;
 
-                let x1 = self.delays[channel][0];
-                let x2 = self.delays[channel][1];
-                let y1 = self.delays[channel][2];
-                let y2 = self.delays[channel][3];
-
-                let out = self.coefficients.b0() * input_sample
-                    + self.coefficients.b1() * x1
-                    + self.coefficients.b2() * x2
-                    - self.coefficients.a1() * y1
-                    - self.coefficients.a2() * y2;
-
-                self.delays[channel][1] = x1;
-                self.delays[channel][0] = input_sample;
-                self.delays[channel][3] = y1;
-                self.delays[channel][2] = out;
-
-                for delay in self.delays[channel].iter_mut() {
-                    *delay = denormal(*delay);
-                }
+                let out = self
+                    .coefficients
+                    .process(input_sample, &mut self.states[channel]);
 
                 context.output_buffer.set_sample(location, out as f32);
             }
-- 
2.43.0


From d7238b2b6ec319a37bd0c2d4354b3f6d09025be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:50 +0000
Subject: [PATCH 43/45] verif: re-export SampleRange under cfg(rawdio_verif)

---
 src/buffer/mod.rs | 2 ++
 src/lib.rs        | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index c7bf312..5f2172e 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -11,3 +11,5 @@ pub(crate) use buffer_pool::BufferPool;
 pub use mutable_borrowed_audio_buffer::MutableBorrowedAudioBuffer;
 pub use owned_audio_buffer::OwnedAudioBuffer;
 pub use sample_location::SampleLocation;
+#[cfg(rawdio_verif)]
+pub use sample_location::SampleRange;
diff --git a/src/lib.rs b/src/lib.rs
index e2e3c5f..b3e7770 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -85,6 +85,7 @@ pub use utility::Timestamp;
 #[cfg(rawdio_verif)]
 #[doc(hidden)]
 pub mod verif_hooks {
+    pub use crate::buffer::SampleRange;
     pub use crate::commands::Id;
     pub use crate::graph::{DspParameters, DspProcessor};
 }
-- 
2.43.0


From e354bfad3f2c3d327a55e4babef216d0f20ccaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:54 +0000
Subject: [PATCH 44/45] fix: applying a gain of zero to a range only cleared
 its first channel

---
 src/buffer/audio_buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer/audio_buffer.rs b/src/buffer/audio_buffer.rs
index 59626a1..26341db 100644
--- a/src/buffer/audio_buffer.rs
+++ b/src/buffer/audio_buffer.rs
@@ -275,11 +275,11 @@ pub trait AudioBuffer {
 
             if relative_eq!(gain, 0.0) {
                 channel_data.fill(0.0);
-                return;
+                continue;
             }
 
             if relative_eq!(gain, 1.0) {
-                return;
+                continue;
             }
 
             multiply_by_value(channel_data, gain);
-- 
2.43.0


From b440b1155379543a6c72724d89d5dbb00a50f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:52 +0000
Subject: [PATCH 45/45] fix: convolve without taking memory from the heap

The transforms made scratch space anew for every channel of every block,
on the audio thread.
---
 src/effects/convolution/convolution_processor.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/effects/convolution/convolution_processor.rs b/src/effects/convolution/convolution_processor.rs
index 7069983..c29b8fd 100644
--- a/src/effects/convolution/convolution_processor.rs
+++ b/src/effects/convolution/convolution_processor.rs
@@ -12,6 +12,7 @@ pub struct ConvolutionProcessor {
     input_fft: ComplexAudioBuffer,
     complex_input: ComplexAudioBuffer,
     complex_output: ComplexAudioBuffer,
+    fft_scratch: Vec<Complex<f32>>,
     output_scale: f32,
     maximum_frame_count: usize,
 }
@@ -24,14 +25,21 @@ impl ConvolutionProcessor {
 
         let mut planner = FftPlanner::new();
         let fft = planner.plan_fft_forward(convolution_length);
+        let ifft = planner.plan_fft_inverse(convolution_length);
+
+        let scratch_length = std::cmp::max(
+            fft.get_inplace_scratch_len(),
+            ifft.get_inplace_scratch_len(),
+        );
 
         Self {
             fft: fft.clone(),
-            ifft: planner.plan_fft_inverse(convolution_length),
+            ifft,
             impulse_fft: fft_impulse(impulse, fft.as_ref(), convolution_length),
             input_fft: create_complex_audio_buffer(output_channel_count, convolution_length),
             complex_input: create_complex_audio_buffer(output_channel_count, convolution_length),
             complex_output: create_complex_audio_buffer(output_channel_count, convolution_length),
+            fft_scratch: vec![Complex::zero(); scratch_length],
             output_scale: 1.0 / convolution_length as f32,
             maximum_frame_count,
         }
@@ -65,7 +73,8 @@ impl ConvolutionProcessor {
             izip!(self.complex_input.iter(), self.input_fft.iter_mut())
         {
             input_fft.copy_from_slice(complex_input);
-            self.fft.process(input_fft);
+            self.fft
+                .process_with_scratch(input_fft, &mut self.fft_scratch);
         }
     }
 
@@ -85,7 +94,8 @@ impl ConvolutionProcessor {
 
     fn ifft_output(&mut self) {
         for output_fft in self.complex_output.iter_mut() {
-            self.ifft.process(output_fft);
+            self.ifft
+                .process_with_scratch(output_fft, &mut self.fft_scratch);
         }
     }
 
-- 
2.43.0

