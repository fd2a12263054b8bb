From 9bf3e53b39c75c4070e0e2dce5ef64a1e9f62691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:09 +0000
Subject: [PATCH 01/23] fix: keep the terminal state of a job when it is
 cleaned up

---
 crates/sail-execution/src/driver/job_scheduler/core.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/sail-execution/src/driver/job_scheduler/core.rs b/crates/sail-execution/src/driver/job_scheduler/core.rs
index ecb324e..46eacf8 100644
--- a/crates/sail-execution/src/driver/job_scheduler/core.rs
+++ b/crates/sail-execution/src/driver/job_scheduler/core.rs
@@ -619,10 +619,11 @@ impl JobScheduler {
             stage: None,
             context: job.context.clone(),
         });
-        if matches!(job.state, JobState::Draining) {
-            job.state = JobState::Succeeded;
-        } else {
-            job.state = JobState::Canceled;
+        match job.state {
+            JobState::Running { .. } => job.state = JobState::Canceled,
+            JobState::Draining => job.state = JobState::Succeeded,
+            // The job has already reached a terminal state, which must not change.
+            JobState::Succeeded | JobState::Failed | JobState::Canceled => {}
         }
         event_reporter.report(SystemEvent::JobUpdated {
             session_id,
-- 
2.43.0


From e94ed3ace68b1b7a48328c697218b40acfe5bf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:25 +0000
Subject: [PATCH 02/23] fix: poll the job output receiver again after an item
 is received

---
 crates/sail-execution/src/driver/output.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/sail-execution/src/driver/output.rs b/crates/sail-execution/src/driver/output.rs
index 2df2be0..ece52b9 100644
--- a/crates/sail-execution/src/driver/output.rs
+++ b/crates/sail-execution/src/driver/output.rs
@@ -174,6 +174,9 @@ impl Stream for JobOutputStream {
                     inner.iter_mut().for_each(|s| s.mute_if_needed(&key));
                     inner.push(TaskStreamWrapper::new(key, stream));
                     self.state = JobOutputState::Active { receiver, inner };
+                    // The receiver has not returned pending, so it will not wake up the task
+                    // for the next item. We must make sure the receiver is polled again.
+                    cx.waker().wake_by_ref();
                 }
                 Poll::Ready(None) => {
                     self.state = JobOutputState::Draining { inner };
-- 
2.43.0


From b8cf41d1b960b3b08f9e43825c108b168b78224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:59 +0000
Subject: [PATCH 03/23] fix: depend on all partitions of a forward stage input
 with a different partition count

---
 .../src/driver/job_scheduler/topology.rs       | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/sail-execution/src/driver/job_scheduler/topology.rs b/crates/sail-execution/src/driver/job_scheduler/topology.rs
index fb9496a..b10115c 100644
--- a/crates/sail-execution/src/driver/job_scheduler/topology.rs
+++ b/crates/sail-execution/src/driver/job_scheduler/topology.rs
@@ -171,8 +171,18 @@ impl JobTopology {
         }
         for (r, region) in regions.iter_mut().enumerate() {
             for task in &region.tasks {
-                for input in &graph.stages()[task.stage].inputs {
-                    if matches!(input.mode, InputMode::Forward) {
+                let stage = &graph.stages()[task.stage];
+                for input in &stage.inputs {
+                    let partitions = graph.stages()[input.stage]
+                        .plan
+                        .output_partitioning()
+                        .partition_count();
+                    // A forward input is consumed partition by partition only if it has the same
+                    // number of partitions as the stage. Otherwise (e.g. below a union or as the
+                    // collected side of a join), any task may read any partition of the input.
+                    if matches!(input.mode, InputMode::Forward)
+                        && partitions == stage.plan.output_partitioning().partition_count()
+                    {
                         if let Some(&d) = task_to_region.get(&TaskTopology {
                             stage: input.stage,
                             partition: task.partition,
@@ -181,10 +191,6 @@ impl JobTopology {
                             region.dependencies.insert(d);
                         }
                     } else {
-                        let partitions = graph.stages()[input.stage]
-                            .plan
-                            .output_partitioning()
-                            .partition_count();
                         for p in 0..partitions {
                             if let Some(&d) = task_to_region.get(&TaskTopology {
                                 stage: input.stage,
-- 
2.43.0


From d55ec672ac1f33d94b4657a313c3a2cd1b62248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:00 +0000
Subject: [PATCH 04/23] fix: reject another attempt of a job output whose
 stream has already ended

---
 crates/sail-execution/src/driver/output.rs | 33 ++++++++++++++++++++--
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/crates/sail-execution/src/driver/output.rs b/crates/sail-execution/src/driver/output.rs
index ece52b9..e1e42e2 100644
--- a/crates/sail-execution/src/driver/output.rs
+++ b/crates/sail-execution/src/driver/output.rs
@@ -1,4 +1,5 @@
 use std::pin::Pin;
+use std::sync::{Arc, Mutex};
 use std::task::{Context, Poll};
 use std::{fmt, mem};
 
@@ -65,8 +66,13 @@ impl JobOutputItem {
 
 struct JobOutputStream {
     state: JobOutputState,
+    /// The keys of the task streams that ended after having produced job output.
+    /// Such streams are no longer present in the state.
+    ended: EndedTaskStreams,
 }
 
+type EndedTaskStreams = Arc<Mutex<Vec<TaskStreamKey>>>;
+
 impl JobOutputStream {
     fn new(receiver: mpsc::Receiver<JobOutputItem>) -> Self {
         Self {
@@ -74,6 +80,7 @@ impl JobOutputStream {
                 receiver,
                 inner: Box::pin(SelectAll::new()),
             },
+            ended: Arc::new(Mutex::new(vec![])),
         }
     }
 }
@@ -162,7 +169,11 @@ impl Stream for JobOutputStream {
                     )))));
                 }
                 Poll::Ready(Some(JobOutputItem::Stream { key, stream })) => {
-                    if inner.iter().any(|s| s.conflicts_with(&key)) {
+                    let ended = self
+                        .ended
+                        .lock()
+                        .map_or(true, |x| x.iter().any(|k| is_same_output(k, &key)));
+                    if ended || inner.iter().any(|s| s.conflicts_with(&key)) {
                         self.state = JobOutputState::Failed;
                         return Poll::Ready(Some(Err(DataFusionError::External(Box::new(
                             TaskStreamError::Unknown(format!(
@@ -172,7 +183,7 @@ impl Stream for JobOutputStream {
                         )))));
                     }
                     inner.iter_mut().for_each(|s| s.mute_if_needed(&key));
-                    inner.push(TaskStreamWrapper::new(key, stream));
+                    inner.push(TaskStreamWrapper::new(key, stream, self.ended.clone()));
                     self.state = JobOutputState::Active { receiver, inner };
                     // The receiver has not returned pending, so it will not wake up the task
                     // for the next item. We must make sure the receiver is polled again.
@@ -216,18 +227,28 @@ impl Stream for JobOutputStream {
     }
 }
 
+/// Whether the two keys refer to the same task output, possibly from different attempts.
+fn is_same_output(left: &TaskStreamKey, right: &TaskStreamKey) -> bool {
+    left.job_id == right.job_id
+        && left.stage == right.stage
+        && left.partition == right.partition
+        && left.channel == right.channel
+}
+
 struct TaskStreamWrapper {
     key: TaskStreamKey,
     inner: Option<TaskStreamSource>,
     count: usize,
+    ended: EndedTaskStreams,
 }
 
 impl TaskStreamWrapper {
-    fn new(key: TaskStreamKey, inner: TaskStreamSource) -> Self {
+    fn new(key: TaskStreamKey, inner: TaskStreamSource, ended: EndedTaskStreams) -> Self {
         Self {
             key,
             inner: Some(inner),
             count: 0,
+            ended,
         }
     }
 
@@ -261,6 +282,12 @@ impl Stream for TaskStreamWrapper {
         if let Poll::Ready(Some(Ok(ref batch))) = poll {
             self.count += batch.num_rows();
         }
+        if matches!(poll, Poll::Ready(None))
+            && self.count > 0
+            && let Ok(mut ended) = self.ended.lock()
+        {
+            ended.push(self.key.clone());
+        }
         poll
     }
 }
-- 
2.43.0


From d9c47a2a16ac7cb28b5987004c45303972120674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:38 +0000
Subject: [PATCH 05/23] fix: fail the readers of an in-memory task stream whose
 writer did not complete

---
 .../sail-execution/src/plan/shuffle_write.rs  |  7 ++-
 crates/sail-execution/src/stream/accessor.rs  |  5 ++-
 .../src/stream/celeborn/core.rs               |  5 ++-
 .../sail-execution/src/stream/local/memory.rs | 43 +++++++++++++++++--
 .../sail-execution/src/stream/storage/core.rs |  3 +-
 crates/sail-execution/src/stream/writer.rs    |  7 ++-
 6 files changed, 58 insertions(+), 12 deletions(-)

diff --git a/crates/sail-execution/src/plan/shuffle_write.rs b/crates/sail-execution/src/plan/shuffle_write.rs
index e2fc001..a3d4f3a 100644
--- a/crates/sail-execution/src/plan/shuffle_write.rs
+++ b/crates/sail-execution/src/plan/shuffle_write.rs
@@ -14,7 +14,9 @@ use datafusion::physical_plan::{
     DisplayAs, DisplayFormatType, ExecutionPlan, ExecutionPlanProperties, PlanProperties,
 };
 use futures::StreamExt;
+use sail_common_datafusion::error::CommonErrorCause;
 use sail_physical_plan::repartition::RowRoundRobinPartitioner;
+use sail_python_udf::error::PyErrExtractor;
 
 use crate::stream::writer::{TaskStreamWriteState, TaskStreamWriter};
 
@@ -246,10 +248,11 @@ async fn shuffle_write(
         Ok(true) => sink.commit().await,
         Ok(false) => {
             // TODO: model successful early-stop separately from error-triggered aborts
-            sink.abort().await
+            sink.abort(None).await
         }
         Err(error) => {
-            let _ = sink.abort().await;
+            let cause = CommonErrorCause::new::<PyErrExtractor>(&error);
+            let _ = sink.abort(Some(cause)).await;
             Err(error)
         }
     }
diff --git a/crates/sail-execution/src/stream/accessor.rs b/crates/sail-execution/src/stream/accessor.rs
index be43e42..9217bee 100644
--- a/crates/sail-execution/src/stream/accessor.rs
+++ b/crates/sail-execution/src/stream/accessor.rs
@@ -7,6 +7,7 @@ use datafusion::common::{DataFusionError, Result};
 use datafusion::execution::TaskContext;
 use futures::future::try_join_all;
 use sail_common::actor::ActorHandle;
+use sail_common_datafusion::error::CommonErrorCause;
 use tokio::sync::oneshot;
 
 use crate::error::ExecutionResult;
@@ -494,9 +495,9 @@ impl TaskStreamSink for MultiChannelTaskStreamSink {
         Ok(())
     }
 
-    async fn abort(self: Box<Self>) -> Result<()> {
+    async fn abort(self: Box<Self>, cause: Option<CommonErrorCause>) -> Result<()> {
         for sink in self.sinks.into_iter().flatten() {
-            sink.abort().await?;
+            sink.abort(cause.clone()).await?;
         }
         Ok(())
     }
diff --git a/crates/sail-execution/src/stream/celeborn/core.rs b/crates/sail-execution/src/stream/celeborn/core.rs
index 3d3f2b6..44e5184 100644
--- a/crates/sail-execution/src/stream/celeborn/core.rs
+++ b/crates/sail-execution/src/stream/celeborn/core.rs
@@ -9,6 +9,7 @@ use datafusion::arrow::ipc::writer::StreamWriter;
 use datafusion::common::{DataFusionError, Result};
 use futures::{StreamExt, TryStreamExt};
 use sail_celeborn::shuffle::ShuffleClient;
+use sail_common_datafusion::error::CommonErrorCause;
 
 use crate::id::{JobId, TaskKey};
 use crate::stream::error::TaskStreamError;
@@ -214,7 +215,7 @@ impl TaskStreamChannelSink for CelebornStreamSink {
         Ok(())
     }
 
-    async fn abort(self: Box<Self>) -> Result<()> {
+    async fn abort(self: Box<Self>, _cause: Option<CommonErrorCause>) -> Result<()> {
         Ok(())
     }
 }
@@ -259,7 +260,7 @@ impl TaskStreamSink for CelebornTaskStreamSink {
             .map_err(|error| DataFusionError::External(Box::new(error)))
     }
 
-    async fn abort(self: Box<Self>) -> Result<()> {
+    async fn abort(self: Box<Self>, _cause: Option<CommonErrorCause>) -> Result<()> {
         Ok(())
     }
 }
diff --git a/crates/sail-execution/src/stream/local/memory.rs b/crates/sail-execution/src/stream/local/memory.rs
index 87cd84d..8b4d7b2 100644
--- a/crates/sail-execution/src/stream/local/memory.rs
+++ b/crates/sail-execution/src/stream/local/memory.rs
@@ -3,11 +3,12 @@ use std::collections::VecDeque;
 use datafusion::arrow::array::RecordBatch;
 use datafusion::common::Result;
 use log::debug;
+use sail_common_datafusion::error::CommonErrorCause;
 use tokio::sync::mpsc;
 use tonic::codegen::tokio_stream::wrappers::ReceiverStream;
 
 use crate::error::{ExecutionError, ExecutionResult};
-use crate::stream::error::TaskStreamResult;
+use crate::stream::error::{TaskStreamError, TaskStreamResult};
 use crate::stream::reader::TaskStreamSource;
 use crate::stream::writer::{TaskStreamChannelSink, TaskStreamWriteState};
 
@@ -38,7 +39,12 @@ impl MemoryStream {
         }
         let overflow = vec![VecDeque::new(); senders.len()];
         Self {
-            sender: Some(MemoryStreamReplicaSender { senders, overflow }),
+            sender: Some(MemoryStreamReplicaSender {
+                senders,
+                overflow,
+                committed: false,
+                cause: None,
+            }),
             receivers,
         }
     }
@@ -65,6 +71,35 @@ struct MemoryStreamReplicaSender {
     // TODO: More investigation is needed to understand why deadlocks might happen among stages
     //   when the task stream buffer is of a limited size.
     overflow: Vec<VecDeque<TaskStreamResult<RecordBatch>>>,
+    /// Whether all the data has been sent.
+    committed: bool,
+    /// The cause of the failure if the data is incomplete.
+    cause: Option<CommonErrorCause>,
+}
+
+impl Drop for MemoryStreamReplicaSender {
+    /// When the task fails or is canceled, the receivers must not mistake the end of the channel
+    /// for the end of the data.
+    fn drop(&mut self) {
+        if self.committed {
+            return;
+        }
+        for tx in self.senders.drain(..).flatten() {
+            let error = match &self.cause {
+                Some(cause) => TaskStreamError::from(cause.clone()),
+                None => TaskStreamError::Unknown(
+                    "the task ended before its output stream was complete".to_string(),
+                ),
+            };
+            if let Err(mpsc::error::TrySendError::Full(item)) = tx.try_send(Err(error))
+                && let Ok(handle) = tokio::runtime::Handle::try_current()
+            {
+                handle.spawn(async move {
+                    let _ = tx.send(item).await;
+                });
+            }
+        }
+    }
 }
 
 #[tonic::async_trait]
@@ -161,10 +196,12 @@ impl TaskStreamChannelSink for MemoryStreamReplicaSender {
                 overflow.clear();
             }
         }
+        self.committed = true;
         Ok(())
     }
 
-    async fn abort(self: Box<Self>) -> Result<()> {
+    async fn abort(mut self: Box<Self>, cause: Option<CommonErrorCause>) -> Result<()> {
+        self.cause = cause;
         Ok(())
     }
 }
diff --git a/crates/sail-execution/src/stream/storage/core.rs b/crates/sail-execution/src/stream/storage/core.rs
index a431866..eaa30bc 100644
--- a/crates/sail-execution/src/stream/storage/core.rs
+++ b/crates/sail-execution/src/stream/storage/core.rs
@@ -12,6 +12,7 @@ use datafusion::execution::TaskContext;
 use futures::{StreamExt, TryStreamExt};
 use object_store::path::Path;
 use object_store::{ObjectStore, ObjectStoreExt, PutPayload};
+use sail_common_datafusion::error::CommonErrorCause;
 use url::Url;
 
 use crate::error::{ExecutionError, ExecutionResult};
@@ -300,7 +301,7 @@ impl TaskStreamChannelSink for StorageStreamSink {
         self.flush_file().await
     }
 
-    async fn abort(self: Box<Self>) -> Result<()> {
+    async fn abort(self: Box<Self>, _cause: Option<CommonErrorCause>) -> Result<()> {
         let locations = self
             .store
             .list(Some(&self.prefix))
diff --git a/crates/sail-execution/src/stream/writer.rs b/crates/sail-execution/src/stream/writer.rs
index 0d654da..3e97e8a 100644
--- a/crates/sail-execution/src/stream/writer.rs
+++ b/crates/sail-execution/src/stream/writer.rs
@@ -2,6 +2,7 @@ use std::fmt;
 
 use datafusion::arrow::array::RecordBatch;
 use datafusion::common::Result;
+use sail_common_datafusion::error::CommonErrorCause;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum TaskStreamWriteState {
@@ -19,7 +20,8 @@ pub trait TaskStreamWriter: fmt::Debug + Send + Sync {
 pub trait TaskStreamSink: Send {
     async fn write(&mut self, channel: usize, batch: RecordBatch) -> Result<TaskStreamWriteState>;
     async fn commit(self: Box<Self>) -> Result<()>;
-    async fn abort(self: Box<Self>) -> Result<()>;
+    /// Discards the output. The cause is set if the output is incomplete due to a failure.
+    async fn abort(self: Box<Self>, cause: Option<CommonErrorCause>) -> Result<()>;
 }
 
 /// A physical sink for exactly one channel of the task stream.
@@ -27,5 +29,6 @@ pub trait TaskStreamSink: Send {
 pub trait TaskStreamChannelSink: Send {
     async fn write(&mut self, batch: RecordBatch) -> Result<TaskStreamWriteState>;
     async fn commit(self: Box<Self>) -> Result<()>;
-    async fn abort(self: Box<Self>) -> Result<()>;
+    /// Discards the output. The cause is set if the output is incomplete due to a failure.
+    async fn abort(self: Box<Self>, cause: Option<CommonErrorCause>) -> Result<()>;
 }
-- 
2.43.0


From be00dba191c9e3199f1e1d0cd8b9b4a7d08b88c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:29 +0000
Subject: [PATCH 06/23] fix: register the built-in functions in the server
 session so that tasks placed on the driver can be decoded

---
 .../src/session_factory/server.rs             | 35 ++++++++++++-------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/crates/sail-session/src/session_factory/server.rs b/crates/sail-session/src/session_factory/server.rs
index 52cf382..f8ef499 100644
--- a/crates/sail-session/src/session_factory/server.rs
+++ b/crates/sail-session/src/session_factory/server.rs
@@ -4,8 +4,7 @@ use std::sync::Arc;
 use datafusion::common::parquet_config::DFParquetWriterVersion;
 use datafusion::common::{Result, internal_err};
 use datafusion::execution::runtime_env::RuntimeEnvBuilder;
-use datafusion::execution::{SessionState, SessionStateBuilder};
-use datafusion::functions_aggregate::first_last::first_value_udaf;
+use datafusion::execution::{SessionState, SessionStateBuilder, SessionStateDefaults};
 use datafusion::prelude::{SessionConfig, SessionContext};
 use datafusion_expr::registry::FunctionRegistry;
 use sail_cache::remote_checkpoint::RemoteCheckpointRegistry;
@@ -84,17 +83,27 @@ impl SessionFactory<ServerSessionInfo> for ServerSessionFactory {
         let state = self.create_session_state(&mut info)?;
         let context = SessionContext::new_with_state(state);
 
-        // Register the `first_value` UDAF since the `replace_distinct_aggregate` optimizer rule
-        // assumes that this UDAF is available in the function registry.
-        // This is a hidden assumption made by the optimizer rule.
-        // We have to do so because we do not add default features (including built-in functions)
-        // to the session state.
-        //
-        // See also: https://github.com/apache/datafusion/issues/10703
-        context
-            .state_ref()
-            .write()
-            .register_udaf(first_value_udaf())?;
+        // We do not add default features (including built-in functions) to the session state,
+        // but the built-in functions must be available in the function registry for two reasons.
+        //   1. The codec looks up built-in functions when the driver decodes the execution plan
+        //      for the tasks that are placed on the driver.
+        //   2. The `replace_distinct_aggregate` optimizer rule assumes that the `first_value` UDAF
+        //      is available in the function registry.
+        //      This is a hidden assumption made by the optimizer rule.
+        //      See also: https://github.com/apache/datafusion/issues/10703
+        {
+            let state = context.state_ref();
+            let mut state = state.write();
+            for function in SessionStateDefaults::default_scalar_functions() {
+                state.register_udf(function)?;
+            }
+            for function in SessionStateDefaults::default_aggregate_functions() {
+                state.register_udaf(function)?;
+            }
+            for function in SessionStateDefaults::default_window_functions() {
+                state.register_udwf(function)?;
+            }
+        }
 
         Ok(context)
     }
-- 
2.43.0


From 0cdf824d94f4aa6ff8951283d66cf67556963caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:02 +0000
Subject: [PATCH 07/23] fix: ignore the last checkpoint hint when it is newer
 than the requested Delta table version

Reading version N listed the log from min(hint, N) - 1, so a checkpoint older than N - 1
was not found and time travel failed with a missing commit.
---
 crates/sail-delta-lake/src/checkpoint/mod.rs          | 3 ++-
 crates/sail-delta-lake/src/delta_log/segment.rs       | 6 ++++--
 crates/sail-delta-lake/src/delta_log/segment_files.rs | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/sail-delta-lake/src/checkpoint/mod.rs b/crates/sail-delta-lake/src/checkpoint/mod.rs
index 533ed26..5b3d12e 100644
--- a/crates/sail-delta-lake/src/checkpoint/mod.rs
+++ b/crates/sail-delta-lake/src/checkpoint/mod.rs
@@ -542,7 +542,8 @@ impl<'a> CheckpointManager<'a> {
         let store = self.log_store.object_store(Some(self.operation_id));
         let offset_version = read_last_checkpoint_version_from_store(store.clone()).await;
         let offset_version = offset_version
-            .map(|v| v.min(version).saturating_sub(1))
+            .filter(|v| *v <= version)
+            .map(|v| v.saturating_sub(1))
             .unwrap_or(0);
         let log_entries = list_delta_log_entries_from(store.clone(), offset_version).await?;
         let mut commit_entries: Vec<(i64, ObjectMeta)> = Vec::new();
diff --git a/crates/sail-delta-lake/src/delta_log/segment.rs b/crates/sail-delta-lake/src/delta_log/segment.rs
index 431100d..5c227f9 100644
--- a/crates/sail-delta-lake/src/delta_log/segment.rs
+++ b/crates/sail-delta-lake/src/delta_log/segment.rs
@@ -135,7 +135,8 @@ impl<'a> LogSegmentResolver<'a> {
 
         let last_cp_hint_version = read_last_checkpoint_version_from_store(store.clone())
             .await
-            .map(|v| v.min(version).saturating_sub(1))
+            .filter(|v| *v <= version)
+            .map(|v| v.saturating_sub(1))
             .unwrap_or(0);
         let list_offset = lower_bound.min(last_cp_hint_version);
 
@@ -286,7 +287,8 @@ impl<'a> LogSegmentResolver<'a> {
 
         let last_cp_hint_version = read_last_checkpoint_version_from_store(store.clone())
             .await
-            .map(|v| v.min(version).saturating_sub(1))
+            .filter(|v| *v <= version)
+            .map(|v| v.saturating_sub(1))
             .unwrap_or(0);
 
         let (_, checkpoint, all_commits, all_compactions) =
diff --git a/crates/sail-delta-lake/src/delta_log/segment_files.rs b/crates/sail-delta-lake/src/delta_log/segment_files.rs
index a9f1610..13d66b4 100644
--- a/crates/sail-delta-lake/src/delta_log/segment_files.rs
+++ b/crates/sail-delta-lake/src/delta_log/segment_files.rs
@@ -52,7 +52,8 @@ pub async fn list_log_segment_files(
     let store = log_store.object_store(None);
     let offset_version = read_last_checkpoint_version_from_store(store.clone())
         .await
-        .map(|v| v.min(max_version).saturating_sub(1))
+        .filter(|v| *v <= max_version)
+        .map(|v| v.saturating_sub(1))
         .unwrap_or(0);
 
     let (_, checkpoint_meta, commit_metas, compaction_metas) =
-- 
2.43.0


From 90829b700f009a6083379300bfd65f3d14dbcfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:09 +0000
Subject: [PATCH 08/23] fix: replay Delta log compactions that start right
 after a checkpoint

The replay started at the first individual commit, which skipped compacted files in front
of it and lost the actions they contain.
---
 .../sail-delta-lake/src/delta_log/replay.rs   | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/crates/sail-delta-lake/src/delta_log/replay.rs b/crates/sail-delta-lake/src/delta_log/replay.rs
index 9de6bbe..52f44c6 100644
--- a/crates/sail-delta-lake/src/delta_log/replay.rs
+++ b/crates/sail-delta-lake/src/delta_log/replay.rs
@@ -74,6 +74,22 @@ fn is_json_checkpoint_location(meta: &ObjectMeta) -> bool {
         .is_some_and(is_json_checkpoint_filename)
 }
 
+/// The first version to replay on top of a checkpoint. Compacted files may precede
+/// the remaining individual commits.
+fn first_replay_version(
+    commit_files: &[(i64, ObjectMeta)],
+    compaction_files: &[((i64, i64), ObjectMeta)],
+    target_version: i64,
+) -> i64 {
+    let first_commit = commit_files.first().map(|(v, _)| *v);
+    let first_compaction = compaction_files.first().map(|((s, _), _)| *s);
+    first_commit
+        .into_iter()
+        .chain(first_compaction)
+        .min()
+        .unwrap_or(target_version.saturating_add(1))
+}
+
 pub(crate) async fn load_replayed_table_state(
     version: i64,
     log_store: &dyn LogStore,
@@ -108,11 +124,7 @@ pub(crate) async fn load_replayed_table_state(
         for row in rows {
             state.apply_checkpoint_row(row)?;
         }
-        commit_files
-            .first()
-            .map(|(v, _)| *v)
-            .or_else(|| compaction_files.first().map(|((s, _), _)| *s))
-            .unwrap_or(target_version.saturating_add(1))
+        first_replay_version(&commit_files, &compaction_files, target_version)
     } else {
         0
     };
@@ -195,11 +207,8 @@ pub(crate) async fn load_replayed_table_header(
                 Some(cp_meta) => {
                     let cp_state =
                         read_checkpoint_header_from_checkpoint_file(store.clone(), cp_meta).await?;
-                    let next_v = commit_files
-                        .first()
-                        .map(|(v, _)| *v)
-                        .or_else(|| compaction_files.first().map(|((s, _), _)| *s))
-                        .unwrap_or(target_version.saturating_add(1));
+                    let next_v =
+                        first_replay_version(&commit_files, &compaction_files, target_version);
                     (cp_state, next_v, BTreeMap::new())
                 }
                 None => {
-- 
2.43.0


From c43681127897851e2342919a1f06bd88d53a8528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:28 +0000
Subject: [PATCH 09/23] fix: keep tombstones in Delta log compactions

A compacted file replaces the commits of its range on top of earlier versions, so leaving
out expired removes or removed domains brought deleted files and domains back.
---
 crates/sail-delta-lake/src/checkpoint/mod.rs  | 33 +++++++++++--------
 crates/sail-delta-lake/src/transaction/mod.rs | 22 ++-----------
 2 files changed, 23 insertions(+), 32 deletions(-)

diff --git a/crates/sail-delta-lake/src/checkpoint/mod.rs b/crates/sail-delta-lake/src/checkpoint/mod.rs
index 5b3d12e..4554efa 100644
--- a/crates/sail-delta-lake/src/checkpoint/mod.rs
+++ b/crates/sail-delta-lake/src/checkpoint/mod.rs
@@ -1322,7 +1322,6 @@ pub(crate) async fn create_log_compaction_for(
     start_version: i64,
     end_version: i64,
     log_store: &dyn LogStore,
-    min_file_retention_timestamp_millis: i64,
 ) -> DeltaResult<()> {
     use crate::spec::compacted_json_path;
 
@@ -1336,6 +1335,7 @@ pub(crate) async fn create_log_compaction_for(
 
     // Replay the commit range to reconcile actions.
     let mut state = ReconciledCheckpointState::default();
+    let mut removed_domains: BTreeMap<String, DomainMetadata> = BTreeMap::new();
     let mut commit_count: i64 = 0;
     for version in start_version..=end_version {
         let bytes = match log_store.read_commit_entry(version).await? {
@@ -1348,6 +1348,13 @@ pub(crate) async fn create_log_compaction_for(
         };
         let actions = get_actions(version, &bytes)?;
         for action in actions {
+            if let Action::DomainMetadata(domain) = &action {
+                if domain.removed {
+                    removed_domains.insert(domain.domain.clone(), domain.clone());
+                } else {
+                    removed_domains.remove(&domain.domain);
+                }
+            }
             state.apply_action(action);
         }
         commit_count += 1;
@@ -1391,21 +1398,21 @@ pub(crate) async fn create_log_compaction_for(
             );
         }
     }
-    // Filter removes that are expired (tombstone retention).
-    // Removes with no deletion_timestamp are retained, matching checkpoint pruning semantics.
+    // Tombstones are kept regardless of their age, since they may hide files and domains
+    // that were added before the compacted range.
+    for domain in removed_domains.into_values() {
+        lines.push(
+            serde_json::to_string(&Action::DomainMetadata(domain))
+                .map_err(DeltaTableError::generic_err)?,
+        );
+    }
     let mut removes: Vec<_> = state.removes.values().collect();
     removes.sort_by(|a, b| a.path.cmp(&b.path));
     for remove in removes {
-        if remove
-            .deletion_timestamp
-            .map(|ts| ts >= min_file_retention_timestamp_millis)
-            .unwrap_or(true)
-        {
-            lines.push(
-                serde_json::to_string(&Action::Remove(remove.clone()))
-                    .map_err(DeltaTableError::generic_err)?,
-            );
-        }
+        lines.push(
+            serde_json::to_string(&Action::Remove(remove.clone()))
+                .map_err(DeltaTableError::generic_err)?,
+        );
     }
     let mut adds: Vec<_> = state.adds.values().collect();
     adds.sort_by(|a, b| a.path.cmp(&b.path));
diff --git a/crates/sail-delta-lake/src/transaction/mod.rs b/crates/sail-delta-lake/src/transaction/mod.rs
index 94286c2..67914bd 100644
--- a/crates/sail-delta-lake/src/transaction/mod.rs
+++ b/crates/sail-delta-lake/src/transaction/mod.rs
@@ -2205,25 +2205,9 @@ impl std::future::IntoFuture for PostCommit {
             // Log compaction
             if let Some(compaction_interval) = compaction_info {
                 let start_version = this.version + 1 - compaction_interval as i64;
-                let retention_millis = i64::try_from(
-                    state
-                        .as_ref()
-                        .map(|s| {
-                            s.table_properties()
-                                .deleted_file_retention_duration()
-                                .as_millis()
-                        })
-                        .unwrap_or_default(),
-                )
-                .unwrap_or(i64::MAX);
-                let min_file_retention_ts = Utc::now().timestamp_millis() - retention_millis;
-                if let Err(e) = create_log_compaction_for(
-                    start_version,
-                    this.version,
-                    this.log_store.as_ref(),
-                    min_file_retention_ts,
-                )
-                .await
+                if let Err(e) =
+                    create_log_compaction_for(start_version, this.version, this.log_store.as_ref())
+                        .await
                 {
                     warn!(
                         "Failed to create log compaction for versions {} to {}: {e}",
-- 
2.43.0


From b68f01949e6496ad1e15bb464d1389252f28ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:06 +0000
Subject: [PATCH 10/23] fix: do not read one part of a multi-part Delta
 checkpoint as the whole table

Only the first part was read, which lost the files recorded in the others. Such checkpoints
are left aside and the log is replayed instead.
---
 .../sail-delta-lake/src/delta_log/listing.rs  | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/sail-delta-lake/src/delta_log/listing.rs b/crates/sail-delta-lake/src/delta_log/listing.rs
index 2553ef1..2153be8 100644
--- a/crates/sail-delta-lake/src/delta_log/listing.rs
+++ b/crates/sail-delta-lake/src/delta_log/listing.rs
@@ -35,7 +35,25 @@ pub(crate) fn parse_commit_version_from_location(location: &Path) -> Option<i64>
 }
 
 pub(crate) fn parse_checkpoint_version_from_location(location: &Path) -> Option<i64> {
-    delta_log_top_level_filename(location).and_then(parse_checkpoint_version)
+    // A part of a multi-part checkpoint does not contain the complete table state,
+    // so it does not count as a checkpoint.
+    delta_log_top_level_filename(location)
+        .filter(|filename| !is_partial_checkpoint_filename(filename))
+        .and_then(parse_checkpoint_version)
+}
+
+/// Returns `true` for one of several parts of a multi-part checkpoint,
+/// `{version:020}.checkpoint.{part:010}.{total:010}.parquet`.
+fn is_partial_checkpoint_filename(filename: &str) -> bool {
+    let Some((part, total)) = filename
+        .get(20..)
+        .and_then(|rest| rest.strip_prefix(".checkpoint."))
+        .and_then(|rest| rest.strip_suffix(".parquet"))
+        .and_then(|rest| rest.split_once('.'))
+    else {
+        return false;
+    };
+    part.parse::<u64>().is_ok() && total.parse::<u64>().is_ok_and(|total| total != 1)
 }
 
 pub(crate) fn parse_compacted_json_versions_from_location(location: &Path) -> Option<(i64, i64)> {
@@ -60,6 +78,7 @@ pub(crate) async fn read_last_checkpoint_version_from_store(
 ) -> Option<i64> {
     read_last_checkpoint_hint_from_store(store)
         .await
+        .filter(|hint| hint.parts.is_none_or(|parts| parts == 1))
         .map(|hint| hint.version)
 }
 
-- 
2.43.0


From 89ef87b3801be2199be05dd8db0ad84a28e43494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:02 +0000
Subject: [PATCH 11/23] fix: keep the partition bounds of a range within 64
 bits

The bound past the last element of a range can exceed the 64-bit range, and
wrapped around to a bound that made the partition empty.
---
 crates/sail-logical-plan/src/range.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/sail-logical-plan/src/range.rs b/crates/sail-logical-plan/src/range.rs
index a05dece..b1ac098 100644
--- a/crates/sail-logical-plan/src/range.rs
+++ b/crates/sail-logical-plan/src/range.rs
@@ -32,10 +32,12 @@ impl Range {
         let partition = partition as i128;
         let partition_start = partition * num_elements / num_partitions * step + start;
         let partition_end = (partition + 1) * num_elements / num_partitions * step + start;
+        // The bound past the last element may not fit in 64 bits.
+        let bound = |value: i128| value.clamp(i64::MIN as i128, i64::MAX as i128) as i64;
         Range {
-            start: partition_start as i64,
-            end: partition_end as i64,
-            step: step as i64,
+            start: bound(partition_start),
+            end: bound(partition_end),
+            step: self.step,
         }
     }
 }
-- 
2.43.0


From 348bfa025a74da6fcd4d25d9ebf9a1a602be74b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:02 +0000
Subject: [PATCH 12/23] fix: keep a concurrent first Iceberg commit from
 overwriting the metadata of another

---
 .../sail-iceberg/src/operations/bootstrap.rs  | 19 ++++++++++++++++++-
 .../src/physical_plan/commit/commit_exec.rs   | 19 ++++++++++++++++---
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/crates/sail-iceberg/src/operations/bootstrap.rs b/crates/sail-iceberg/src/operations/bootstrap.rs
index 3b56d9f..0c5491c 100644
--- a/crates/sail-iceberg/src/operations/bootstrap.rs
+++ b/crates/sail-iceberg/src/operations/bootstrap.rs
@@ -20,6 +20,7 @@ use std::sync::Arc;
 
 use bytes::Bytes;
 use datafusion_common::{DataFusionError, Result};
+#[cfg(test)]
 use object_store::ObjectStoreExt;
 use url::Url;
 
@@ -69,6 +70,17 @@ fn initial_metadata_version(metadata_style: NewTableMetadataStyle) -> i32 {
     }
 }
 
+/// Whether the metadata version could not be written because another writer created it first.
+pub(crate) fn is_metadata_version_conflict(error: &DataFusionError) -> bool {
+    matches!(
+        error,
+        DataFusionError::External(error) if matches!(
+            error.downcast_ref::<object_store::Error>(),
+            Some(object_store::Error::AlreadyExists { .. })
+        )
+    )
+}
+
 async fn write_metadata_version(
     store_ctx: &StoreContext,
     table_metadata: TableMetadata,
@@ -94,9 +106,14 @@ async fn write_metadata_version(
     let metadata_path = object_store::path::Path::from(metadata_file.as_str());
     store_ctx
         .prefixed
-        .put(
+        .put_opts(
             &metadata_path,
             object_store::PutPayload::from(Bytes::from(metadata_bytes)),
+            object_store::PutOptions {
+                // Another writer may have created the same version in the meantime.
+                mode: object_store::PutMode::Create,
+                ..Default::default()
+            },
         )
         .await
         .map_err(|error| DataFusionError::External(Box::new(error)))?;
diff --git a/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs b/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs
index 41f5743..235c599 100644
--- a/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs
+++ b/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs
@@ -40,7 +40,7 @@ use crate::catalog_support::commit::{
 use crate::io::StoreContext;
 use crate::operations::bootstrap::{
     NewTableMetadataStyle, PersistStrategy, bootstrap_first_snapshot,
-    bootstrap_new_table_with_style, prepare_bootstrap_snapshot,
+    bootstrap_new_table_with_style, is_metadata_version_conflict, prepare_bootstrap_snapshot,
 };
 use crate::operations::helpers::format_version_for_schema;
 use crate::operations::{SnapshotProducer, SnapshotUpdateKind, Transaction};
@@ -879,7 +879,7 @@ impl ExecutionPlan for IcebergCommitExec {
                         .is_some()
                         .then_some(catalog_metadata_location.as_deref())
                         .flatten();
-                    let bootstrap_result = bootstrap_first_snapshot(
+                    let bootstrap_result = match bootstrap_first_snapshot(
                         &table_url,
                         &store_ctx,
                         &commit_info,
@@ -888,7 +888,20 @@ impl ExecutionPlan for IcebergCommitExec {
                         previous_metadata_file,
                         persist_strategy,
                     )
-                    .await?;
+                    .await
+                    {
+                        Ok(result) => result,
+                        Err(error) if is_metadata_version_conflict(&error) => {
+                            log::warn!(
+                                "Concurrent first Iceberg snapshot detected. Retrying attempt {attempt}"
+                            );
+                            if attempt >= MAX_COMMIT_RETRIES {
+                                return Err(commit_conflict_error());
+                            }
+                            continue;
+                        }
+                        Err(error) => return Err(error),
+                    };
                     task_files_may_be_committed = true;
                     if let (Some(catalog_table), Some(previous_metadata_location)) =
                         (catalog_fallback_table, catalog_metadata_location.as_deref())
-- 
2.43.0


From 535bd8e7a62f37e4a928ce97caf6e3396312dbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:33 +0000
Subject: [PATCH 13/23] fix: do not fail a committed Iceberg write when its
 metadata location cannot be recorded for display

---
 .../src/physical_plan/commit/commit_exec.rs   | 37 ++++++++++++++++---
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs b/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs
index 235c599..3278b9d 100644
--- a/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs
+++ b/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs
@@ -424,6 +424,31 @@ impl IcebergCommitExec {
             .await
     }
 
+    /// Records the metadata location of a path table in the catalog. The catalog is not
+    /// authoritative for such a table and its commit is visible already, so that the commit
+    /// does not fail when the location cannot be recorded.
+    async fn record_catalog_metadata_location(
+        context: &Arc<TaskContext>,
+        catalog_table: &[String],
+        existing_properties: &[(String, String)],
+        previous_metadata_location: Option<&str>,
+        new_metadata_location: &str,
+    ) {
+        if let Err(error) = Self::update_catalog_metadata_location(
+            context,
+            catalog_table,
+            existing_properties,
+            previous_metadata_location,
+            new_metadata_location,
+        )
+        .await
+        {
+            log::warn!(
+                "Failed to record Iceberg metadata location {new_metadata_location} in the catalog: {error}"
+            );
+        }
+    }
+
     fn table_metadata_location(table_url: &Url, metadata_file: &str) -> Result<String> {
         table_metadata_location(table_url, metadata_file)
     }
@@ -679,14 +704,14 @@ impl ExecutionPlan for IcebergCommitExec {
                             &table_url,
                             &bootstrap_result.metadata_file,
                         )?;
-                        Self::update_catalog_metadata_location(
+                        Self::record_catalog_metadata_location(
                             &context,
                             catalog_table,
                             &commit_info.table_properties,
                             catalog_recorded_metadata_location.as_deref(),
                             &new_metadata_location,
                         )
-                        .await?;
+                        .await;
                     }
                 }
 
@@ -923,14 +948,14 @@ impl ExecutionPlan for IcebergCommitExec {
                             &table_url,
                             &bootstrap_result.metadata_file,
                         )?;
-                        Self::update_catalog_metadata_location(
+                        Self::record_catalog_metadata_location(
                             &context,
                             catalog_table,
                             &commit_info.table_properties,
                             catalog_recorded_metadata_location.as_deref(),
                             &new_metadata_location,
                         )
-                        .await?;
+                        .await;
                     }
 
                     return commit_count_batch(schema, commit_info.row_count);
@@ -1222,14 +1247,14 @@ impl ExecutionPlan for IcebergCommitExec {
                     )
                     .await?;
                 } else if let Some(catalog_table) = catalog_registered_metadata_table {
-                    Self::update_catalog_metadata_location(
+                    Self::record_catalog_metadata_location(
                         &context,
                         catalog_table,
                         &commit_info.table_properties,
                         catalog_recorded_metadata_location.as_deref(),
                         &metadata_location,
                     )
-                    .await?;
+                    .await;
                 }
 
                 return commit_count_batch(schema, commit_info.row_count);
-- 
2.43.0


From b85c5f0e6aa276ed190f76fc95f527ab2478331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:48 +0000
Subject: [PATCH 14/23] fix: decode partial sort plans sent to workers

---
 .../proto/sail/plan/physical.proto            |  2 ++
 crates/sail-execution/src/proto/codec.rs      | 35 ++++++++++++++++++-
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/crates/sail-execution/proto/sail/plan/physical.proto b/crates/sail-execution/proto/sail/plan/physical.proto
index 984d514..0e44622 100644
--- a/crates/sail-execution/proto/sail/plan/physical.proto
+++ b/crates/sail-execution/proto/sail/plan/physical.proto
@@ -737,6 +737,8 @@ message PartialSortExecNode {
   LexOrdering expr = 1;
   bytes input = 2;
   uint64 common_prefix_length = 3;
+  bool preserve_partitioning = 4;
+  optional uint64 fetch = 5;
 }
 
 message PartitionedTopKExecNode {
diff --git a/crates/sail-execution/src/proto/codec.rs b/crates/sail-execution/src/proto/codec.rs
index 4c6d164..8f0d3d5 100644
--- a/crates/sail-execution/src/proto/codec.rs
+++ b/crates/sail-execution/src/proto/codec.rs
@@ -808,6 +808,38 @@ impl PhysicalExtensionCodec for RemoteExecutionCodec {
                     null_equality,
                 )?))
             }
+            NodeKind::PartialSort(r#gen::PartialSortExecNode {
+                expr,
+                input,
+                common_prefix_length,
+                preserve_partitioning,
+                fetch,
+            }) => {
+                let input = try_decode_physical_plan(ctx, self, &input)?;
+                let expr = expr.ok_or_else(|| {
+                    plan_datafusion_err!("PartialSortExec is missing its sort ordering")
+                })?;
+                let expr = self.try_decode_lex_ordering(&expr, input.schema().as_ref(), ctx)?;
+                let common_prefix_length = usize::try_from(common_prefix_length).map_err(|_| {
+                    plan_datafusion_err!(
+                        "PartialSortExec common prefix length is too large: {common_prefix_length}"
+                    )
+                })?;
+                if common_prefix_length == 0 {
+                    return plan_err!(
+                        "PartialSortExec common prefix length must be greater than zero"
+                    );
+                }
+                let fetch = fetch
+                    .map(usize::try_from)
+                    .transpose()
+                    .map_err(|_| plan_datafusion_err!("invalid fetch for PartialSortExec"))?;
+                Ok(Arc::new(
+                    PartialSortExec::new(expr, input, common_prefix_length)
+                        .with_preserve_partitioning(preserve_partitioning)
+                        .with_fetch(fetch),
+                ))
+            }
             NodeKind::PartitionedTopK(r#gen::PartitionedTopKExecNode {
                 expr,
                 partition_prefix_len,
@@ -1671,7 +1703,6 @@ impl PhysicalExtensionCodec for RemoteExecutionCodec {
                 let plan = try_decode_physical_plan(ctx, self, &plan)?;
                 Ok(Arc::new(BarrierExec::new(preconditions, plan)))
             }
-            _ => plan_err!("unsupported physical plan node: {node_kind:?}"),
         }
     }
 
@@ -1857,6 +1888,8 @@ impl PhysicalExtensionCodec for RemoteExecutionCodec {
                 expr,
                 input,
                 common_prefix_length,
+                preserve_partitioning: partial_sort.preserve_partitioning(),
+                fetch: partial_sort.fetch().map(|x| x as u64),
             })
         } else if let Some(top_k) = node.downcast_ref::<PartitionedTopKExec>() {
             let expr = Some(self.try_encode_lex_ordering(top_k.expr())?);
-- 
2.43.0


From cc5b5209354afbe299e0fc8368e16315512105fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:46 +0000
Subject: [PATCH 15/23] fix: keep the outputs of a completed operation for a
 client that reattaches

An operation that finished while its last responses were in flight dropped
them, so that reattaching failed instead of delivering the rest.
---
 crates/sail-spark-connect/src/executor.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/crates/sail-spark-connect/src/executor.rs b/crates/sail-spark-connect/src/executor.rs
index 0ebc2ad..4bf1453 100644
--- a/crates/sail-spark-connect/src/executor.rs
+++ b/crates/sail-spark-connect/src/executor.rs
@@ -12,8 +12,8 @@ use datafusion::arrow::ipc::writer::StreamWriter;
 use datafusion::execution::SendableRecordBatchStream;
 use fastrace::Span;
 use fastrace::future::FutureExt;
-use futures::Stream;
 use futures::stream::StreamExt;
+use futures::{Stream, stream};
 use tokio::sync::{mpsc, oneshot};
 use tokio::task::JoinHandle;
 use tonic::codegen::tokio_stream::wrappers::ReceiverStream;
@@ -122,6 +122,10 @@ enum ExecutorState {
         span: Span,
     },
     Pausing,
+    /// The task has finished, but the client may not have received all of its outputs.
+    Completed {
+        buffer: Arc<Mutex<ExecutorBuffer>>,
+    },
     Failed(SparkError),
 }
 
@@ -383,6 +387,11 @@ impl Executor {
         let mut state = self.state.lock()?;
         let (context, span) = match mem::replace(state.deref_mut(), ExecutorState::Idle) {
             ExecutorState::Pending { context, span } => (context, span),
+            ExecutorState::Completed { buffer } => {
+                let outputs = buffer.lock()?.iter().cloned().map(Ok).collect::<Vec<_>>();
+                *state = ExecutorState::Completed { buffer };
+                return Ok(Box::pin(stream::iter(outputs)));
+            }
             ExecutorState::Failed(e) => {
                 *state = ExecutorState::Failed(SparkError::internal(
                     "task failed due to a previous error",
@@ -439,10 +448,15 @@ impl Executor {
                 }
             }
         };
-        let _ = task.notifier.send(());
-        let state = match task.handle.await? {
+        let ExecutorTask {
+            notifier,
+            handle,
+            buffer,
+        } = task;
+        let _ = notifier.send(());
+        let state = match handle.await? {
             ExecutorTaskResult::Paused(context) => ExecutorState::Pending { context, span },
-            ExecutorTaskResult::Completed => ExecutorState::Idle,
+            ExecutorTaskResult::Completed => ExecutorState::Completed { buffer },
             ExecutorTaskResult::Failed(e) => ExecutorState::Failed(e),
         };
         *(self.state.lock()?) = state;
@@ -454,6 +468,7 @@ impl Executor {
         let buffer = match state.deref() {
             ExecutorState::Running { task, span: _ } => &task.buffer,
             ExecutorState::Pending { context, span: _ } => &context.buffer,
+            ExecutorState::Completed { buffer } => buffer,
             ExecutorState::Idle | ExecutorState::Failed(_) | ExecutorState::Pausing => {
                 return Ok(());
             }
-- 
2.43.0


From a532069ec0712ae96a55154fb61d9c0c1215b0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:27 +0000
Subject: [PATCH 16/23] fix: refuse to reattach to an operation whose
 unreceived outputs were dropped

The replay buffer drops its oldest output when it is full. A client that
reattached after that silently missed rows.
---
 crates/sail-spark-connect/src/executor.rs | 25 +++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/sail-spark-connect/src/executor.rs b/crates/sail-spark-connect/src/executor.rs
index 4bf1453..fdc0554 100644
--- a/crates/sail-spark-connect/src/executor.rs
+++ b/crates/sail-spark-connect/src/executor.rs
@@ -64,6 +64,8 @@ pub type ExecutorOutputStream = Pin<Box<dyn Stream<Item = SparkResult<ExecutorOu
 struct ExecutorBuffer {
     capacity: usize,
     inner: VecDeque<ExecutorOutput>,
+    /// The ID of the last output that was dropped before the client was known to have received it.
+    dropped: Option<String>,
 }
 
 // TODO: use "spark.connect.execute.reattachable.observerRetryBufferSize"
@@ -75,6 +77,7 @@ impl ExecutorBuffer {
         Self {
             capacity,
             inner: VecDeque::with_capacity(capacity),
+            dropped: None,
         }
     }
 
@@ -83,7 +86,7 @@ impl ExecutorBuffer {
             return;
         }
         if self.inner.len() >= self.capacity {
-            self.inner.pop_front();
+            self.dropped = self.inner.pop_front().map(|x| x.id);
         }
         self.inner.push_back(output);
     }
@@ -92,11 +95,21 @@ impl ExecutorBuffer {
         let index = self.inner.iter().position(|x| x.id == id);
         if let Some(index) = index {
             self.inner.drain(0..=index);
+            self.dropped = None;
+        } else if self.dropped.as_deref() == Some(id) {
+            self.dropped = None;
         }
     }
 
-    fn iter(&self) -> impl Iterator<Item = &ExecutorOutput> {
-        self.inner.iter()
+    /// Returns the outputs that the client has not released, in order.
+    /// This is an error if there are outputs that the client may have missed.
+    fn outputs(&self) -> SparkResult<Vec<ExecutorOutput>> {
+        if self.dropped.is_some() {
+            return Err(SparkError::invalid(
+                "responses of the operation are no longer available",
+            ));
+        }
+        Ok(self.inner.iter().cloned().collect())
     }
 }
 
@@ -256,7 +269,7 @@ impl Executor {
     ) -> SparkResult<()> {
         let outputs = {
             let buffer = context.buffer.lock()?;
-            buffer.iter().cloned().collect::<Vec<_>>()
+            buffer.outputs()?
         };
         for output in outputs {
             tx.send(Ok(output)).await?;
@@ -388,9 +401,9 @@ impl Executor {
         let (context, span) = match mem::replace(state.deref_mut(), ExecutorState::Idle) {
             ExecutorState::Pending { context, span } => (context, span),
             ExecutorState::Completed { buffer } => {
-                let outputs = buffer.lock()?.iter().cloned().map(Ok).collect::<Vec<_>>();
+                let outputs = buffer.lock()?.outputs();
                 *state = ExecutorState::Completed { buffer };
-                return Ok(Box::pin(stream::iter(outputs)));
+                return Ok(Box::pin(stream::iter(outputs?.into_iter().map(Ok))));
             }
             ExecutorState::Failed(e) => {
                 *state = ExecutorState::Failed(SparkError::internal(
-- 
2.43.0


From 586769b82fc75d150e9e78686573d1b7404daef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:17 +0000
Subject: [PATCH 17/23] fix: do not let LIMIT skip Iceberg data files when the
 snapshot has delete files

---
 .../sail-iceberg/src/datasource/provider.rs   | 31 +++++++++++--------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/provider.rs b/crates/sail-iceberg/src/datasource/provider.rs
index 1ec26cf..81265dc 100644
--- a/crates/sail-iceberg/src/datasource/provider.rs
+++ b/crates/sail-iceberg/src/datasource/provider.rs
@@ -857,10 +857,20 @@ impl TableProvider for IcebergTableProvider {
             .await?;
         log::trace!("Loaded {} data files", data_files_with_seq.len());
 
+        // Build the delete-file index for this snapshot. Rejects v3 deletion vectors.
+        log::trace!("Building delete file index...");
+        let delete_index = self
+            .build_delete_file_index(&store_ctx, &manifest_list)
+            .await?;
+
+        // The record counts of the data files include rows that are deleted, so they can
+        // only bound the files to read when the snapshot has no delete files.
+        let file_limit = limit.filter(|_| delete_index.is_empty());
+
         // Build filter conjunction and run DataFusion-based pruning on Iceberg metrics.
         // Preserve per-file sequence numbers through the prune.
         let filter_expr = conjunction(pruning_filters.iter().cloned());
-        if filter_expr.is_some() || limit.is_some() {
+        if filter_expr.is_some() || file_limit.is_some() {
             let (files_only, seqs_only): (Vec<DataFile>, Vec<i64>) =
                 data_files_with_seq.iter().cloned().unzip();
             let seq_by_path: HashMap<String, i64> = files_only
@@ -871,7 +881,7 @@ impl TableProvider for IcebergTableProvider {
             let (kept, _mask) = prune_files(
                 session,
                 &pruning_filters,
-                limit,
+                file_limit,
                 self.rebuild_logical_schema_for_filters(projection, filters),
                 files_only,
                 &self.schema,
@@ -889,12 +899,6 @@ impl TableProvider for IcebergTableProvider {
             );
         }
 
-        // Build the delete-file index for this snapshot. Rejects v3 deletion vectors.
-        log::trace!("Building delete file index...");
-        let delete_index = self
-            .build_delete_file_index(&store_ctx, &manifest_list)
-            .await?;
-
         // Partition each data file into "clean" (no matching deletes) vs "dirty"
         // (one or more matching deletes) buckets. We only pay the cost of
         // `IcebergDeleteApplyExec` for dirty files.
@@ -1104,8 +1108,12 @@ impl IcebergTableProvider {
             .load_data_files_with_seq(session, &pruning_filters, &store_ctx, &manifest_list)
             .await?;
 
+        let delete_index = self
+            .build_delete_file_index(&store_ctx, &manifest_list)
+            .await?;
+        let file_limit = limit.filter(|_| delete_index.is_empty());
         let filter_expr = conjunction(pruning_filters.iter().cloned());
-        if filter_expr.is_some() || limit.is_some() {
+        if filter_expr.is_some() || file_limit.is_some() {
             let (files_only, seqs_only): (Vec<DataFile>, Vec<i64>) =
                 data_files_with_seq.iter().cloned().unzip();
             let seq_by_path: HashMap<String, i64> = files_only
@@ -1116,7 +1124,7 @@ impl IcebergTableProvider {
             let (kept, _mask) = prune_files(
                 session,
                 &pruning_filters,
-                limit,
+                file_limit,
                 self.rebuild_logical_schema_for_filters(None, filters),
                 files_only,
                 &self.schema,
@@ -1136,9 +1144,6 @@ impl IcebergTableProvider {
             )));
         }
 
-        let delete_index = self
-            .build_delete_file_index(&store_ctx, &manifest_list)
-            .await?;
         let object_store_url = self.object_store_url()?;
         let file_column_name = self.file_column_name.as_ref().ok_or_else(|| {
             datafusion::common::DataFusionError::Internal(
-- 
2.43.0


From e9260206877d18ffa000b9cb0bedd4a31eaab2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:21 +0000
Subject: [PATCH 18/23] fix: Iceberg partition filters are exact only if every
 partition spec of the table uses the identity transform

---
 crates/sail-iceberg/src/datasource/provider.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sail-iceberg/src/datasource/provider.rs b/crates/sail-iceberg/src/datasource/provider.rs
index 81265dc..42b73b2 100644
--- a/crates/sail-iceberg/src/datasource/provider.rs
+++ b/crates/sail-iceberg/src/datasource/provider.rs
@@ -1411,6 +1411,7 @@ impl IcebergTableProvider {
         let mut found = false;
         let mut only_identity = true;
         for spec in &self.partition_specs {
+            let mut in_spec = false;
             for pf in spec.fields().iter() {
                 if matches!(pf.transform, Transform::Void | Transform::Unknown) {
                     continue;
@@ -1418,10 +1419,14 @@ impl IcebergTableProvider {
                 if let Some(field) = self.schema.field_by_id(pf.source_id)
                     && field.name == col_name
                 {
-                    found = true;
+                    in_spec = true;
                     only_identity &= matches!(pf.transform, Transform::Identity);
                 }
             }
+            found |= in_spec;
+            // A data file written with a spec that does not partition by the column
+            // can hold rows with different values of it.
+            only_identity &= in_spec;
         }
         found.then_some(only_identity)
     }
-- 
2.43.0


From 522f00fc6c3d66f1a35bfba3bea74e884b5db943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:17 +0000
Subject: [PATCH 19/23] fix: an Iceberg scan with an exact partition filter
 returns the projected columns only

---
 .../sail-iceberg/src/datasource/provider.rs   | 25 +------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/provider.rs b/crates/sail-iceberg/src/datasource/provider.rs
index 42b73b2..f165a58 100644
--- a/crates/sail-iceberg/src/datasource/provider.rs
+++ b/crates/sail-iceberg/src/datasource/provider.rs
@@ -630,28 +630,6 @@ impl IcebergTableProvider {
         Arc::new(ParquetSource::new(table_schema).with_table_parquet_options(parquet_options))
     }
 
-    fn expanded_projection(
-        &self,
-        projection: Option<&Vec<usize>>,
-        filters: &[Expr],
-    ) -> Option<Vec<usize>> {
-        if let Some(used) = projection {
-            let mut cols: Vec<usize> = used.clone();
-            if let Some(expr) = conjunction(filters.iter().cloned()) {
-                for c in expr.column_refs() {
-                    if let Ok(idx) = self.arrow_schema.index_of(c.name.as_str())
-                        && !cols.contains(&idx)
-                    {
-                        cols.push(idx);
-                    }
-                }
-            }
-            Some(cols)
-        } else {
-            None
-        }
-    }
-
     /// Aggregate table-level statistics from a list of Iceberg data files
     fn aggregate_statistics(&self, data_files: &[DataFile]) -> Statistics {
         if data_files.is_empty() {
@@ -940,7 +918,6 @@ impl TableProvider for IcebergTableProvider {
                 &parquet_pushdown_filters,
                 true,
             )?;
-            let expanded_projection = self.expanded_projection(projection, filters);
             let file_scan_config = FileScanConfigBuilder::new(object_store_url, parquet_source)
                 .with_file_groups(if file_groups.is_empty() {
                     vec![FileGroup::from(vec![])]
@@ -948,7 +925,7 @@ impl TableProvider for IcebergTableProvider {
                     file_groups
                 })
                 .with_statistics(table_stats)
-                .with_projection_indices(expanded_projection)?
+                .with_projection_indices(projection.cloned())?
                 .with_limit(limit)
                 .with_expr_adapter(Some(iceberg_schema_evolution_adapter()))
                 .build();
-- 
2.43.0


From 74571cb98b34c0bb0c80631160053294b0d081bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:14 +0000
Subject: [PATCH 20/23] fix: Iceberg statistics are those of the columns of the
 reordered schema, and unknown where a file lacks them

---
 .../sail-iceberg/src/datasource/provider.rs   | 49 ++++++++++++-------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/provider.rs b/crates/sail-iceberg/src/datasource/provider.rs
index f165a58..1e44431 100644
--- a/crates/sail-iceberg/src/datasource/provider.rs
+++ b/crates/sail-iceberg/src/datasource/provider.rs
@@ -630,6 +630,16 @@ impl IcebergTableProvider {
         Arc::new(ParquetSource::new(table_schema).with_table_parquet_options(parquet_options))
     }
 
+    /// The Iceberg field id of each column of the Arrow schema, whose order can differ from
+    /// the order of the fields in the table schema.
+    fn column_field_ids(&self) -> Vec<Option<i32>> {
+        self.arrow_schema
+            .fields()
+            .iter()
+            .map(|field| self.schema.field_by_name(field.name()).map(|f| f.id))
+            .collect()
+    }
+
     /// Aggregate table-level statistics from a list of Iceberg data files
     fn aggregate_statistics(&self, data_files: &[DataFile]) -> Statistics {
         if data_files.is_empty() {
@@ -640,24 +650,30 @@ impl IcebergTableProvider {
         let mut total_bytes: usize = 0;
 
         // Pre-compute field id per column index
-        let field_ids: Vec<i32> = self.schema.fields().iter().map(|f| f.id).collect();
+        let field_ids = self.column_field_ids();
 
         // Initialize accumulators per column
         let mut min_scalars: Vec<Option<ScalarValue>> =
             vec![None; self.arrow_schema.fields().len()];
         let mut max_scalars: Vec<Option<ScalarValue>> =
             vec![None; self.arrow_schema.fields().len()];
-        let mut null_counts: Vec<usize> = vec![0; self.arrow_schema.fields().len()];
+        let mut null_counts: Vec<Option<usize>> = vec![Some(0); self.arrow_schema.fields().len()];
 
         for df in data_files {
             total_rows = total_rows.saturating_add(df.record_count() as usize);
             total_bytes = total_bytes.saturating_add(df.file_size_in_bytes() as usize);
 
             for (col_idx, field_id) in field_ids.iter().enumerate() {
-                // null counts
-                if let Some(c) = df.null_value_counts().get(field_id) {
-                    null_counts[col_idx] = null_counts[col_idx].saturating_add(*c as usize);
-                }
+                let Some(field_id) = field_id else {
+                    null_counts[col_idx] = None;
+                    continue;
+                };
+
+                // null counts (unknown when any of the files does not have them)
+                null_counts[col_idx] = match df.null_value_counts().get(field_id) {
+                    Some(c) => null_counts[col_idx].map(|n| n.saturating_add(*c as usize)),
+                    None => None,
+                };
 
                 // min
                 if let Some(d) = df.lower_bounds().get(field_id) {
@@ -689,7 +705,9 @@ impl IcebergTableProvider {
 
         let column_statistics = (0..self.arrow_schema.fields().len())
             .map(|i| ColumnStatistics {
-                null_count: Precision::Exact(null_counts[i]),
+                null_count: null_counts[i]
+                    .map(Precision::Exact)
+                    .unwrap_or(Precision::Absent),
                 max_value: max_scalars[i]
                     .clone()
                     .map(Precision::Exact)
@@ -718,17 +736,12 @@ impl IcebergTableProvider {
 
         // Create column statistics from Iceberg metadata
         let column_statistics = self
-            .arrow_schema
-            .fields()
-            .iter()
-            .enumerate()
-            .map(|(i, _field)| {
-                let field_id = self
-                    .schema
-                    .fields()
-                    .get(i)
-                    .map(|f| f.id)
-                    .unwrap_or(i as i32 + 1);
+            .column_field_ids()
+            .into_iter()
+            .map(|field_id| {
+                let Some(field_id) = field_id else {
+                    return ColumnStatistics::new_unknown();
+                };
 
                 let null_count = data_file
                     .null_value_counts()
-- 
2.43.0


From 4bdb7fe86eee39c53ac916d315b2968eb99dd1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:14 +0000
Subject: [PATCH 21/23] fix: Iceberg partition filters compare values of the
 partition type, and neither prune nor count as exact where they cannot

---
 .../sail-iceberg/src/datasource/provider.rs   |  22 +++-
 crates/sail-iceberg/src/datasource/pruning.rs | 110 +++++++++++++-----
 2 files changed, 98 insertions(+), 34 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/provider.rs b/crates/sail-iceberg/src/datasource/provider.rs
index 1e44431..e538aa5 100644
--- a/crates/sail-iceberg/src/datasource/provider.rs
+++ b/crates/sail-iceberg/src/datasource/provider.rs
@@ -63,6 +63,7 @@ use crate::row_level_metadata::{
 };
 use crate::spec::delete_index::{DeleteFileIndex, DeleteFileRef};
 use crate::spec::transform::Transform;
+use crate::spec::types::PrimitiveType;
 use crate::spec::types::values::Literal;
 use crate::spec::{
     DataFile, ManifestContentType, ManifestList, ManifestStatus, PartitionSpec, Schema, Snapshot,
@@ -1363,7 +1364,6 @@ impl IcebergTableProvider {
 
     fn strip_expr(expr: &Expr) -> &Expr {
         match expr {
-            Expr::Cast(c) => Self::strip_expr(&c.expr),
             Expr::Alias(a) => Self::strip_expr(&a.expr),
             _ => expr,
         }
@@ -1385,13 +1385,31 @@ impl IcebergTableProvider {
         col_name: &str,
     ) -> Option<TableProviderFilterPushDown> {
         let only_identity = self.partition_source_col_only_uses_identity(col_name)?;
-        if only_identity {
+        if only_identity && self.has_exact_partition_values(col_name) {
             Some(TableProviderFilterPushDown::Exact)
         } else {
             Some(TableProviderFilterPushDown::Inexact)
         }
     }
 
+    /// Whether the partition values that manifests hold for the column can be compared with
+    /// literals exactly.
+    fn has_exact_partition_values(&self, col_name: &str) -> bool {
+        self.schema
+            .field_by_name(col_name)
+            .and_then(|field| field.field_type.as_primitive_type())
+            .is_some_and(|ty| {
+                matches!(
+                    ty,
+                    PrimitiveType::Boolean
+                        | PrimitiveType::Int
+                        | PrimitiveType::Long
+                        | PrimitiveType::Date
+                        | PrimitiveType::String
+                )
+            })
+    }
+
     fn is_partition_source_col(&self, col_name: &str) -> bool {
         self.partition_source_col_only_uses_identity(col_name)
             .is_some()
diff --git a/crates/sail-iceberg/src/datasource/pruning.rs b/crates/sail-iceberg/src/datasource/pruning.rs
index a0b54c0..d7bafd9 100644
--- a/crates/sail-iceberg/src/datasource/pruning.rs
+++ b/crates/sail-iceberg/src/datasource/pruning.rs
@@ -148,10 +148,11 @@ impl PruningStatistics for IcebergPruningStats {
         if let Some(arr) = self.nulls_cache.borrow().get(&field_id) {
             return Some(arr.clone());
         }
-        let counts: Vec<u64> = self
+        // Counts that are missing are not known.
+        let counts: Vec<Option<u64>> = self
             .files
             .iter()
-            .map(|f| f.null_value_counts().get(&field_id).copied().unwrap_or(0))
+            .map(|f| f.null_value_counts().get(&field_id).copied())
             .collect();
         let arr: ArrayRef = Arc::new(UInt64Array::from(counts));
         self.nulls_cache.borrow_mut().insert(field_id, arr.clone());
@@ -181,17 +182,17 @@ impl PruningStatistics for IcebergPruningStats {
             if let (Some(lb), Some(ub)) = (lower, upper) {
                 let lb_sv = self.datum_to_scalar_for_field(field_id, lb);
                 let ub_sv = self.datum_to_scalar_for_field(field_id, ub);
-                let mut any_match = false;
-                for v in _value.iter() {
-                    if &lb_sv == v && &ub_sv == v {
-                        any_match = true;
-                        break;
-                    }
+                if _value.iter().any(|v| &lb_sv == v && &ub_sv == v) {
+                    result.push(Some(true));
+                } else if _value.iter().all(|v| v < &lb_sv || v > &ub_sv) {
+                    result.push(Some(false));
+                } else {
+                    // The file may contain some of the values and others.
+                    result.push(None);
                 }
-                result.push(any_match);
             } else {
                 // If stats are missing, we cannot safely prune the file.
-                result.push(true);
+                result.push(None);
             }
         }
         Some(BooleanArray::from(result))
@@ -308,6 +309,9 @@ pub fn prune_data_files_by_partition_values(
     if predicates.is_empty() {
         return files;
     }
+    let Ok(part_type) = partition_spec.partition_type(table_schema) else {
+        return files;
+    };
 
     files
         .into_iter()
@@ -316,7 +320,20 @@ pub fn prune_data_files_by_partition_values(
                 let Some(value) = file.partition().get(predicate.field_index) else {
                     return true;
                 };
-                partition_predicate_may_match_value(predicate, value.as_ref())
+                let Some(Type::Primitive(prim_ty)) = part_type
+                    .fields()
+                    .get(predicate.field_index)
+                    .map(|nf| nf.field_type.as_ref())
+                else {
+                    return true;
+                };
+                let Some(Literal::Primitive(value)) = value else {
+                    return true;
+                };
+                let Some(value) = literal_of_type(value, prim_ty) else {
+                    return true;
+                };
+                partition_predicate_may_match_value(predicate, Some(&Literal::Primitive(value)))
             })
         })
         .collect()
@@ -346,7 +363,6 @@ pub fn prune_manifest_entries(
 fn collect_source_eq_filters(schema: &Schema, filters: &[Expr]) -> Vec<(i32, PrimitiveLiteral)> {
     fn strip(expr: &Expr) -> &Expr {
         match expr {
-            Expr::Cast(c) => strip(&c.expr),
             Expr::Alias(a) => strip(&a.expr),
             _ => expr,
         }
@@ -405,7 +421,6 @@ fn collect_source_in_filters(
 ) -> HashMap<i32, Vec<PrimitiveLiteral>> {
     fn strip(expr: &Expr) -> &Expr {
         match expr {
-            Expr::Cast(c) => strip(&c.expr),
             Expr::Alias(a) => strip(&a.expr),
             _ => expr,
         }
@@ -422,11 +437,18 @@ fn collect_source_in_filters(
                 {
                     let mut vals = Vec::new();
                     for item in &in_list.list {
-                        if let Expr::Literal(sv, _) = item
-                            && let Ok(pl) = scalar_to_primitive_literal(sv)
-                        {
-                            vals.push(pl);
+                        // The list can match values that are not known here.
+                        let Expr::Literal(sv, _) = item else {
+                            return;
+                        };
+                        // A NULL in the list matches no row.
+                        if sv.is_null() {
+                            continue;
                         }
+                        let Ok(pl) = scalar_to_primitive_literal(sv) else {
+                            return;
+                        };
+                        vals.push(pl);
                     }
                     if !vals.is_empty() {
                         acc.entry(field.id).or_default().extend(vals);
@@ -503,22 +525,20 @@ fn partition_predicates_for_spec(
         }
 
         if let Some(literals) = in_filters.get(&partition_field.source_id) {
-            let mut values = Vec::new();
-            let mut seen = HashSet::new();
-            for literal in literals {
-                if let Some(value) = transform_primitive_literal(
-                    partition_field.transform,
-                    source_type,
-                    literal.clone(),
-                ) && seen.insert(value.clone())
-                {
-                    values.push(value);
-                }
-            }
-            if !values.is_empty() {
+            let values = literals
+                .iter()
+                .map(|literal| {
+                    transform_primitive_literal(
+                        partition_field.transform,
+                        source_type,
+                        literal.clone(),
+                    )
+                })
+                .collect::<Option<HashSet<_>>>();
+            if let Some(values) = values {
                 predicates.push(PartitionPredicate {
                     field_index,
-                    constraint: PartitionConstraint::In(values),
+                    constraint: PartitionConstraint::In(values.into_iter().collect()),
                 });
             }
         }
@@ -542,12 +562,39 @@ fn transform_primitive_literal(
     source_type: &Type,
     literal: PrimitiveLiteral,
 ) -> Option<PrimitiveLiteral> {
+    let literal = literal_of_type(&literal, source_type.as_primitive_type()?)?;
     match apply_transform(transform, source_type, Some(Literal::Primitive(literal))) {
         Some(Literal::Primitive(value)) => Some(value),
         _ => None,
     }
 }
 
+/// The literal as a value of the type, or `None` if it may not be one exactly. The partition
+/// values in manifests are not tagged with their type: integers are read with the narrowest
+/// type, and floating-point numbers with single precision.
+fn literal_of_type(literal: &PrimitiveLiteral, ty: &PrimitiveType) -> Option<PrimitiveLiteral> {
+    match (ty, literal) {
+        (PrimitiveType::Boolean, PrimitiveLiteral::Boolean(_))
+        | (PrimitiveType::Int | PrimitiveType::Date, PrimitiveLiteral::Int(_))
+        | (PrimitiveType::Float, PrimitiveLiteral::Float(_))
+        | (PrimitiveType::Double, PrimitiveLiteral::Double(_))
+        | (PrimitiveType::String, PrimitiveLiteral::String(_)) => Some(literal.clone()),
+        (
+            PrimitiveType::Long
+            | PrimitiveType::Time
+            | PrimitiveType::Timestamp
+            | PrimitiveType::Timestamptz
+            | PrimitiveType::TimestampNs
+            | PrimitiveType::TimestamptzNs,
+            PrimitiveLiteral::Int(_) | PrimitiveLiteral::Long(_),
+        ) => match literal {
+            PrimitiveLiteral::Int(value) => Some(PrimitiveLiteral::Long(i64::from(*value))),
+            literal => Some(literal.clone()),
+        },
+        _ => None,
+    }
+}
+
 fn transform_range_constraint(
     transform: Transform,
     source_type: &Type,
@@ -712,7 +759,6 @@ fn collect_source_range_filters(
 ) -> HashMap<i32, RangeConstraint> {
     fn strip(expr: &Expr) -> &Expr {
         match expr {
-            Expr::Cast(c) => strip(&c.expr),
             Expr::Alias(a) => strip(&a.expr),
             _ => expr,
         }
-- 
2.43.0


From 4c466ce072dd10b79d1b8dcee630d073563757b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:46 +0000
Subject: [PATCH 22/23] fix: hand parts of multipart uploads to the object
 store in order

---
 .../sail-object-store/src/layers/runtime.rs   | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/crates/sail-object-store/src/layers/runtime.rs b/crates/sail-object-store/src/layers/runtime.rs
index a2318c3..23b2201 100644
--- a/crates/sail-object-store/src/layers/runtime.rs
+++ b/crates/sail-object-store/src/layers/runtime.rs
@@ -8,9 +8,9 @@ use futures::stream::BoxStream;
 use futures::{Stream, StreamExt};
 use object_store::path::Path;
 use object_store::{
-    CopyOptions, GetOptions, GetResult, GetResultPayload, ListResult, MultipartUpload, ObjectMeta,
-    ObjectStore, PutMultipartOptions, PutOptions, PutPayload, PutResult, RenameOptions, Result,
-    UploadPart,
+    CopyOptions, Error, GetOptions, GetResult, GetResultPayload, ListResult, MultipartUpload,
+    ObjectMeta, ObjectStore, PutMultipartOptions, PutOptions, PutPayload, PutResult, RenameOptions,
+    Result, UploadPart,
 };
 use tokio::runtime::Handle;
 use tokio::sync::{Mutex, mpsc};
@@ -204,11 +204,21 @@ impl RuntimeAwareMultipartUpload {
 #[async_trait::async_trait]
 impl MultipartUpload for RuntimeAwareMultipartUpload {
     fn put_part(&mut self, data: PutPayload) -> UploadPart {
-        let inner = self.inner.clone();
-        let task = self.handle.spawn(async move {
-            let mut inner = inner.lock().await;
-            inner.put_part(data).await
-        });
+        // The inner object store determines the position of the part in the upload
+        // when its `put_part` method is called, so this call must not be deferred to a task.
+        // Otherwise, parts that are uploaded concurrently could end up in the wrong order.
+        let _guard = self.handle.enter();
+        let part = match self.inner.try_lock() {
+            Ok(mut inner) => inner.put_part(data),
+            Err(e) => {
+                let error = Error::Generic {
+                    store: "RuntimeAwareObjectStore",
+                    source: Box::new(e),
+                };
+                return Box::pin(async move { Err(error) });
+            }
+        };
+        let task = self.handle.spawn(part);
         Box::pin(async move { task.await? })
     }
 
-- 
2.43.0


From e64811bdfee8e746c8885a740d45971ac70a9ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:46 +0000
Subject: [PATCH 23/23] fix: unset no table property if one of them does not
 exist

---
 crates/sail-catalog-memory/src/provider.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/sail-catalog-memory/src/provider.rs b/crates/sail-catalog-memory/src/provider.rs
index d7b8bcb..521c275 100644
--- a/crates/sail-catalog-memory/src/provider.rs
+++ b/crates/sail-catalog-memory/src/provider.rs
@@ -370,16 +370,18 @@ impl CatalogProvider for MemoryCatalogProvider {
                     Ok(())
                 }
                 AlterTableOptions::UnsetTableProperties { keys, if_exists } => {
-                    for key in &keys {
-                        let found = properties.iter().any(|(k, _)| k == key);
-                        if !found && !if_exists {
-                            return Err(CatalogError::NotFound(
-                                CatalogObject::Table,
-                                format!("property '{key}' not found on table '{table}'"),
-                            ));
-                        }
-                        properties.retain(|(k, _)| k != key);
+                    // All the keys are checked first, so that a failed statement changes nothing.
+                    if !if_exists
+                        && let Some(key) = keys
+                            .iter()
+                            .find(|key| !properties.iter().any(|(k, _)| k == *key))
+                    {
+                        return Err(CatalogError::NotFound(
+                            CatalogObject::Table,
+                            format!("property '{key}' not found on table '{table}'"),
+                        ));
                     }
+                    properties.retain(|(k, _)| !keys.contains(k));
                     Ok(())
                 }
                 AlterTableOptions::AlterColumnType { name, data_type } => {
-- 
2.43.0

