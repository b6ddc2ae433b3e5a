From d4d16a86cd211d100912f5b8eebe29879bc1a2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:00 +0000
Subject: [PATCH 01/20] fix: call after_run hooks after an execution

PluginCenter::after asked for the before hooks, so after_run was never called
and before_run was called twice.
---
 aj_core/src/plugin/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/plugin/mod.rs b/aj_core/src/plugin/mod.rs
index 710b33a..8231760 100644
--- a/aj_core/src/plugin/mod.rs
+++ b/aj_core/src/plugin/mod.rs
@@ -50,7 +50,7 @@ impl PluginCenter {
     {
         let msg: RunHook<M> = RunHook {
             job_id,
-            before: true,
+            before: false,
             phantom: PhantomData,
         };
         let _ = Self::from_registry().send(msg).await;
-- 
2.43.0


From 741e593c4d9c878f3c4b5e24d105df7597afd686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:02 +0000
Subject: [PATCH 02/20] fix: keep the engine alive when a job type is first
 used concurrently

Two submissions that both find no queue both ask for it; the second request
panicked in register and killed the AJ actor.
---
 aj_core/src/aj.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index fa47a65..85e8bed 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -278,7 +278,8 @@ where
     type Result = Addr<WorkQueue<M>>;
 
     fn handle(&mut self, msg: InitWorkQueue<M>, _: &mut Self::Context) -> Self::Result {
-        self.register(&msg.queue_name)
+        // Another submission may have registered this queue in the meantime
+        get_work_queue_address().unwrap_or_else(|| self.register(&msg.queue_name))
     }
 }
 
-- 
2.43.0


From e153cee601c18c591cf8949106fde52c49791c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:03 +0000
Subject: [PATCH 03/20] fix: end cron jobs that have no further occurrence

A cron job whose expression never matches again ran on every tick, and one
that had reached max_repeat or end_at was queued once more for an occurrence
it may not run, and waited forever.
---
 aj_core/src/job/mod.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/aj_core/src/job/mod.rs b/aj_core/src/job/mod.rs
index aa2aae3..9a2b7d4 100644
--- a/aj_core/src/job/mod.rs
+++ b/aj_core/src/job/mod.rs
@@ -161,7 +161,7 @@ where
                 }
 
                 if let Some(end_at) = context.end_at {
-                    if now > end_at {
+                    if *next_slot > end_at {
                         return false;
                     }
                 }
@@ -187,27 +187,28 @@ where
                 }
 
                 let schedule = schedule.unwrap();
-                if let Some(upcoming_event) = schedule.after(&get_now()).next() {
-                    job.context.job_type = JobType::Cron(
-                        cron_expression.clone(),
-                        upcoming_event,
-                        *total_repeat + 1,
-                        context.clone(),
-                    );
-                }
+                // No upcoming event: the expression will never match again
+                let upcoming_event = schedule.after(&now).next()?;
 
                 if let Some(max_repeat) = context.max_repeat {
-                    if max_repeat < *total_repeat {
+                    if max_repeat <= *total_repeat {
                         return None;
                     }
                 }
 
                 if let Some(end_at) = context.end_at {
-                    if end_at < now {
+                    if end_at < upcoming_event {
                         return None;
                     }
                 }
 
+                job.context.job_type = JobType::Cron(
+                    cron_expression.clone(),
+                    upcoming_event,
+                    *total_repeat + 1,
+                    context.clone(),
+                );
+
                 Some(job)
             }
             _ => None,
-- 
2.43.0


From 84068d72cc1e100dd597364db9d97c013b5c7ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:05 +0000
Subject: [PATCH 04/20] fix: keep the recurrence of a cron job when an
 execution is retried

An automatic retry replaced the cron schedule with a one-time schedule, so a
cron job with a retry policy stopped recurring after its first failure.
---
 aj_core/src/job/mod.rs | 14 ++++++++++++++
 aj_core/src/queue.rs   |  9 +++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/aj_core/src/job/mod.rs b/aj_core/src/job/mod.rs
index 9a2b7d4..8d88ee7 100644
--- a/aj_core/src/job/mod.rs
+++ b/aj_core/src/job/mod.rs
@@ -215,6 +215,20 @@ where
         }
     }
 
+    /// Schedule a retry. A cron job stays a cron job and is not retried after its end time.
+    pub(crate) fn retry_later(&mut self, retry_at: DateTime<Utc>) -> bool {
+        match &mut self.context.job_type {
+            JobType::Cron(_, next_slot, _, context) => {
+                if context.end_at.is_some_and(|end_at| end_at < retry_at) {
+                    return false;
+                }
+                *next_slot = retry_at;
+            }
+            job_type => *job_type = JobType::ScheduledAt(retry_at),
+        }
+        true
+    }
+
     pub fn is_queued(&self) -> bool {
         self.context.job_status == JobStatus::Queued
     }
diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index c2ddfb3..7eda248 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -10,7 +10,7 @@ use std::time::Duration;
 
 use crate::job::{Job, JobStatus};
 use crate::types::{get_from_storage, upsert_to_storage, Backend, QueueDirection};
-use crate::{Error, Executable, JobType};
+use crate::{Error, Executable};
 
 const DEFAULT_TICK_DURATION: Duration = Duration::from_millis(100);
 const MAX_PROCESSING_JOBS: usize = 20;
@@ -339,9 +339,10 @@ where
         );
         if let Some(retry_context) = job.context.retry.as_mut() {
             if let Some(next_retry_ms) = job.data.retry_at(retry_context, job_output).await {
-                info!("[WorkQueue] Retry this job. {}", job.id());
-                job.context.job_type = JobType::ScheduledAt(next_retry_ms);
-                return self.re_enqueue(job);
+                if job.retry_later(next_retry_ms) {
+                    info!("[WorkQueue] Retry this job. {}", job.id());
+                    return self.re_enqueue(job);
+                }
             }
         }
 
-- 
2.43.0


From a3a091d2abf521fa63a83331cd5e9496d4d11e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:07 +0000
Subject: [PATCH 05/20] fix: keep the status of an existing job when it is
 submitted again

Storing the new job as it came replaced the status too: a finished job that
was not to be re-run became queued without being in the queue, and a context
with another status wedged the job. Re-running left the id in the finished or
failed queue, and ran the new data even if it was not to override the old.
---
 aj_core/src/queue.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 7eda248..7c6bdb0 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -112,29 +112,29 @@ where
         })
     }
 
-    pub fn run_with_config(&self, job: Job<M>, config: EnqueueConfig) -> Result<(), Error> {
+    pub fn run_with_config(&self, mut job: Job<M>, config: EnqueueConfig) -> Result<(), Error> {
         let key = job.id();
         let existing_job = get_from_storage::<Job<M>>(self.backend.deref(), key)?;
         if let Some(existing_job) = existing_job {
-            if config.override_data && !existing_job.is_running() {
-                info!(
-                    "[WorkQueue] Update exising job with new job data: {}",
-                    job.id()
-                );
-                upsert_to_storage(self.backend.deref(), key, &job)?;
-            } else {
-                info!(
-                    "[WorkQueue] Job is running, skip update job data: {}",
-                    job.id()
-                );
+            let re_run = config.re_run && existing_job.is_done();
+            let override_data = config.override_data && !existing_job.is_running();
+            if !override_data {
+                info!("[WorkQueue] Skip update job data: {}", key);
+                if re_run {
+                    info!("[WorkQueue] Re run job {}", key);
+                    return self.re_enqueue(existing_job);
+                }
+                return Ok(());
             }
 
-            if config.re_run && existing_job.is_done() {
-                info!("[WorkQueue] Re run job {}", existing_job.id());
-                self.enqueue(job)?;
+            info!("[WorkQueue] Update exising job with new job data: {}", key);
+            // The job is still in the queue of its current status
+            job.context.job_status = existing_job.context.job_status;
+            if re_run {
+                info!("[WorkQueue] Re run job {}", job.id());
+                return self.re_enqueue(job);
             }
-
-            return Ok(());
+            return upsert_to_storage(self.backend.deref(), job.id(), &job);
         }
 
         self.enqueue(job)
-- 
2.43.0


From f4899f453c0e53df3d1eaad576c190c628a6593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:09 +0000
Subject: [PATCH 06/20] fix: start waiting jobs in the order they were queued

Once enough jobs were picked the rest of the batch was still moved to the
front of the queue, behind jobs that were queued later.
---
 aj_core/src/queue.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 7c6bdb0..c237141 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -267,10 +267,13 @@ where
             current_cursor -= job_ids.len() as i32;
 
             for job_id in job_ids {
+                if ready_jobs.len() >= total {
+                    break;
+                }
+
                 let job = get_from_storage::<Job<M>>(self.backend.deref(), &job_id)?;
                 if let Some(mut job) = job {
                     if job.is_ready()
-                        && ready_jobs.len() < total
                         && !ready_jobs
                             .iter()
                             .any(|ready_job: &Job<M>| ready_job.id() == job.id())
-- 
2.43.0


From a486b3f4cef24b08041902f141e5e33eb02e9738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:10 +0000
Subject: [PATCH 07/20] fix: start no job when the number of running jobs is
 unknown

A failed count was taken for zero running jobs, so the limit was exceeded.
---
 aj_core/src/queue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index c237141..9285b02 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -241,7 +241,7 @@ where
 
     pub fn pick_jobs_to_process(&self) -> Result<Vec<Job<M>>, Error> {
         let processing_queue = self.format_queue_name(JobStatus::Running);
-        let total_processing_jobs = self.backend.queue_count(&processing_queue).unwrap_or(0);
+        let total_processing_jobs = self.backend.queue_count(&processing_queue)?;
         if total_processing_jobs >= self.config.max_processing_jobs {
             return Ok(vec![]);
         }
-- 
2.43.0


From de65db713d7b0f1c12a00098d46599d06955d0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:12 +0000
Subject: [PATCH 08/20] fix: report a failed read of a job instead of treating
 it as missing

A submission under an existing id was queued a second time, and cancel, retry
and update reported success without effect.
---
 aj_core/src/backend/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/backend/types.rs b/aj_core/src/backend/types.rs
index 4a2886e..37660fe 100644
--- a/aj_core/src/backend/types.rs
+++ b/aj_core/src/backend/types.rs
@@ -61,7 +61,7 @@ pub fn get_from_storage<T: DeserializeOwned>(
     backend: &dyn Backend,
     key: &str,
 ) -> Result<Option<T>, Error> {
-    let value = backend.storage_get(STORAGE_HASH, key).ok().flatten();
+    let value = backend.storage_get(STORAGE_HASH, key)?;
     let item = match value {
         Some(value) => serde_json::from_str(&value).ok(),
         _ => None,
-- 
2.43.0


From 337098abbc819dc93692c3bae0aefa413d3c6ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:15 +0000
Subject: [PATCH 09/20] fix: reject a job whose data cannot be serialized

An empty string was stored instead and the submission reported success; the
job was lost.
---
 aj_core/src/backend/types.rs | 2 +-
 aj_core/src/error.rs         | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/backend/types.rs b/aj_core/src/backend/types.rs
index 37660fe..1878ba0 100644
--- a/aj_core/src/backend/types.rs
+++ b/aj_core/src/backend/types.rs
@@ -48,7 +48,7 @@ pub fn upsert_to_storage<T: Serialize>(
     key: &str,
     value: T,
 ) -> Result<(), Error> {
-    let value = serde_json::to_string(&value).unwrap_or("".into());
+    let value = serde_json::to_string(&value)?;
     let res = backend.storage_upsert(STORAGE_HASH, key, value);
     if let Err(e) = &res {
         warn!("[Storage] Upsert failed {key} Failed {:?}", e);
diff --git a/aj_core/src/error.rs b/aj_core/src/error.rs
index 5f25ffe..5c12b5a 100644
--- a/aj_core/src/error.rs
+++ b/aj_core/src/error.rs
@@ -7,6 +7,7 @@ pub enum Error {
     CronError(cron::error::Error),
     MailboxError(MailboxError),
     NoQueueRegister,
+    Serialize(serde_json::Error),
 }
 
 impl From<RedisError> for Error {
@@ -21,6 +22,12 @@ impl From<cron::error::Error> for Error {
     }
 }
 
+impl From<serde_json::Error> for Error {
+    fn from(value: serde_json::Error) -> Self {
+        Self::Serialize(value)
+    }
+}
+
 impl From<MailboxError> for Error {
     fn from(value: MailboxError) -> Self {
         Self::MailboxError(value)
-- 
2.43.0


From af4aaa85ff3e528c089b48e93b0cb326aaca0bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:17 +0000
Subject: [PATCH 10/20] fix: lose and duplicate no job when a request is
 interrupted

Re-enqueueing took the id out of its queue first and ignored a failed push, so
an error or a crash in between lost the job; an id left in the queue by an
interrupted submission was queued a second time when it was repeated, and a
canceled job whose id could not be removed was still executed.
---
 aj_core/src/queue.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 9285b02..2b39e7c 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -141,23 +141,33 @@ where
     }
 
     pub fn enqueue(&self, mut job: Job<M>) -> Result<(), Error> {
-        let key = job.id();
-        info!("[WorkQueue] New Job {}", key);
-        self.backend
-            .queue_push(&self.format_queue_name(JobStatus::Queued), key)?;
+        info!("[WorkQueue] New Job {}", job.id());
+        self.push_queued_job(job.id())?;
         job.enqueue(self.backend.deref())
     }
 
+    fn push_queued_job(&self, job_id: &str) -> Result<(), Error> {
+        let queued_queue = self.format_queue_name(JobStatus::Queued);
+        // An interrupted request may have left the id behind
+        self.backend.queue_remove(&queued_queue, job_id)?;
+        self.backend.queue_push(&queued_queue, job_id)
+    }
+
     pub fn re_enqueue(&self, mut job: Job<M>) -> Result<(), Error> {
         debug!("[WorkQueue] Re-run job {}", job.id());
 
         let current_queue = self.format_queue_name(job.context.job_status);
-        self.backend.queue_remove(&current_queue, job.id())?;
+        // Queue it before it leaves the current queue, so that it is never in none
+        self.push_queued_job(job.id())?;
         job.enqueue(self.backend.deref())?;
 
-        let queued_queue = self.format_queue_name(JobStatus::Queued);
-        if let Err(e) = self.backend.queue_push(&queued_queue, job.id()) {
-            error!("[WorkQueue] Cannot re enqueue {}: {:?}", job.id(), e);
+        if let Err(e) = self.backend.queue_remove(&current_queue, job.id()) {
+            error!(
+                "[WorkQueue] Cannot remove {} from {}: {:?}",
+                job.id(),
+                current_queue,
+                e
+            );
         };
         Ok(())
     }
@@ -273,7 +283,8 @@ where
 
                 let job = get_from_storage::<Job<M>>(self.backend.deref(), &job_id)?;
                 if let Some(mut job) = job {
-                    if job.is_ready()
+                    if !job.is_done()
+                        && job.is_ready()
                         && !ready_jobs
                             .iter()
                             .any(|ready_job: &Job<M>| ready_job.id() == job.id())
-- 
2.43.0


From 19506761a36b853b0d6238d27fdd49b546e432ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:33 +0000
Subject: [PATCH 11/20] fix: execute jobs picked before a backend error

An error while picking jobs dropped the ones already moved to the processing
queue: they stayed there as running and kept their slots forever.
---
 aj_core/src/queue.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 2b39e7c..62881be 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -260,12 +260,23 @@ where
     }
 
     pub fn try_pick_specific_ready_jobs(&self, total: usize) -> Result<Vec<Job<M>>, Error> {
+        let mut ready_jobs = vec![];
+        if let Err(err) = self.pick_ready_jobs(total, &mut ready_jobs) {
+            if ready_jobs.is_empty() {
+                return Err(err);
+            }
+            // The jobs picked so far are in the processing queue, they must be executed
+            error!("[WorkQueue]: Cannot pick more jobs to process {err:?}");
+        }
+        Ok(ready_jobs)
+    }
+
+    fn pick_ready_jobs(&self, total: usize, ready_jobs: &mut Vec<Job<M>>) -> Result<(), Error> {
         debug!("Try Picking {total} jobs in queue");
         let idle_queue_name = self.format_queue_name(JobStatus::Queued);
         let processing_queue_name = self.format_queue_name(JobStatus::Running);
 
         let idle_queue_length = self.backend.queue_count(&idle_queue_name)?;
-        let mut ready_jobs = vec![];
         let mut current_cursor = idle_queue_length as i32;
 
         loop {
@@ -291,7 +302,6 @@ where
                     {
                         // Job is read to process. Put it in the ready list
                         job.process(self.backend.deref())?;
-                        ready_jobs.push(job);
                         self.backend.queue_move(
                             &idle_queue_name,
                             &processing_queue_name,
@@ -299,6 +309,7 @@ where
                             QueueDirection::Back,
                             QueueDirection::Front,
                         )?;
+                        ready_jobs.push(job);
                         continue;
                     }
                 }
@@ -322,7 +333,7 @@ where
             }
         }
 
-        Ok(ready_jobs)
+        Ok(())
     }
 
     pub fn execute_job_task(&self, job: Job<M>, ctx: &mut Context<WorkQueue<M>>) {
-- 
2.43.0


From 46955d5b2f6aaee1568501c12c72d4952f31178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:36 +0000
Subject: [PATCH 12/20] fix: survive a panicking job

A panic in a job unwound through the queue actor: all jobs of the queue in
progress were dropped and no job of that type was executed any more.
---
 aj_core/src/queue.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 62881be..fc4ff8b 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -340,8 +340,15 @@ where
         let this = self.clone();
         let task = async move {
             // TODO: Consider Smart Pointer to wrap job instead of clone
-            if let Err(err) = this.execute_job(job.clone()).await {
-                error!("[WorkQueue] Execute job {} fail: {:?}", job.id(), err);
+            let (queue, running_job) = (this.clone(), job.clone());
+            // In its own task: a panicking job must not stop the queue
+            let execution = actix_rt::spawn(async move { queue.execute_job(running_job).await });
+            let result = match execution.await {
+                Ok(result) => result.map_err(|err| format!("{err:?}")),
+                Err(err) => Err(err.to_string()),
+            };
+            if let Err(err) = result {
+                error!("[WorkQueue] Execute job {} fail: {}", job.id(), err);
                 let _ = this.mark_job_is_failed(job);
             }
         };
-- 
2.43.0


From b61fac690fcb1c4ca6a900f02e9d78a68c285633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:38 +0000
Subject: [PATCH 13/20] fix: start one engine when AJ is started concurrently

Threads that start AJ at the same time each started one and replaced the
registered address, or found the lock taken and panicked or kept none.
---
 aj_core/src/aj.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index 85e8bed..31fe3f6 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -6,7 +6,7 @@ use serde::de::DeserializeOwned;
 use serde::Serialize;
 use std::any::{Any, TypeId};
 use std::marker::PhantomData;
-use std::sync::{Arc, RwLock};
+use std::sync::{Arc, PoisonError, RwLock};
 
 use crate::job::Job;
 use crate::mem::InMemory;
@@ -47,11 +47,8 @@ where
 }
 
 pub fn get_aj_address() -> Option<Addr<AJ>> {
-    if let Ok(addr) = AJ_ADDR.try_read() {
-        addr.clone()
-    } else {
-        None
-    }
+    let addr = AJ_ADDR.read().unwrap_or_else(PoisonError::into_inner);
+    addr.clone()
 }
 
 pub struct AJ {
@@ -91,14 +88,17 @@ impl AJ {
     }
 
     fn register_addr(backend: impl Backend + Send + Sync + 'static) -> Addr<Self> {
+        let mut aj_addr = AJ_ADDR.write().unwrap_or_else(PoisonError::into_inner);
+        if let Some(addr) = aj_addr.as_ref() {
+            // Another thread has started AJ in the meantime
+            return addr.clone();
+        }
+
         let arbiter: Arbiter = Arbiter::new();
         let addr = <Self as Actor>::start_in_arbiter(&arbiter.handle(), |_| Self {
             backend: Arc::new(backend),
         });
-
-        if let Ok(ref mut aj_addr) = AJ_ADDR.try_write() {
-            **aj_addr = Some(addr.clone());
-        }
+        *aj_addr = Some(addr.clone());
 
         addr
     }
-- 
2.43.0


From 5db92b5e8f6d03a2a96fb400ba12fd5864f69160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:40 +0000
Subject: [PATCH 14/20] fix: no overflow of the retry delay

The exponential backoff overflowed at the 31st retry, or earlier with a long
initial backoff: a panic, or a wrapped delay and immediate retries.
---
 aj_core/src/job/retry.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/aj_core/src/job/retry.rs b/aj_core/src/job/retry.rs
index f49f5fd..a3d7438 100644
--- a/aj_core/src/job/retry.rs
+++ b/aj_core/src/job/retry.rs
@@ -55,14 +55,16 @@ impl Retry {
     }
 
     pub fn retry_at(&mut self, now: Option<DateTime<Utc>>) -> DateTime<Utc> {
-        self.retried_times += 1;
+        self.retried_times = self.retried_times.saturating_add(1);
         let final_now = now.unwrap_or(get_now());
-        match &self.strategy {
-            RetryStrategy::Interval(internal_time) => final_now + *internal_time,
-            RetryStrategy::ExponentialBackoff(initial_backoff) => {
-                final_now + *initial_backoff * 2_i32.pow(self.retried_times as u32)
-            }
-        }
+        let delay = match &self.strategy {
+            RetryStrategy::Interval(internal_time) => Some(*internal_time),
+            RetryStrategy::ExponentialBackoff(initial_backoff) => (0..self.retried_times)
+                .try_fold(*initial_backoff, |backoff, _| backoff.checked_add(&backoff)),
+        };
+        delay
+            .and_then(|delay| final_now.checked_add_signed(delay))
+            .unwrap_or(DateTime::<Utc>::MAX_UTC)
     }
 }
 
-- 
2.43.0


From efe5086cded01467f4a31f18bff9af7c16bb460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:42 +0000
Subject: [PATCH 15/20] fix: get no items from a Redis queue when none are
 asked for

A count of 0 returned the whole queue, unlike the in-memory backend.
---
 aj_core/src/backend/redis.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aj_core/src/backend/redis.rs b/aj_core/src/backend/redis.rs
index 76e81cc..5cc82bc 100644
--- a/aj_core/src/backend/redis.rs
+++ b/aj_core/src/backend/redis.rs
@@ -57,6 +57,11 @@ impl Redis {
         count: usize,
         queue_direction: QueueDirection,
     ) -> RedisResult<Vec<String>> {
+        if count == 0 {
+            // As range bounds, 0 and -1 would mean the whole queue
+            return Ok(vec![]);
+        }
+
         let mut conn = self.client.get_connection()?;
         let items = match queue_direction {
             QueueDirection::Front => conn.lrange(queue, 0, count as isize - 1)?,
-- 
2.43.0


From d17cdcca4184d0fe837c01db3ea6e5faa83080d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:45 +0000
Subject: [PATCH 16/20] fix: update a job in one step and keep its id

The job was read and written back by two messages, so an execution in between
was undone: its run count, retries and next cron slot were set back. A context
with another id created another job.
---
 aj_core/src/aj.rs    | 17 +++++-------
 aj_core/src/queue.rs | 62 +++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 67 insertions(+), 12 deletions(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index 31fe3f6..c2da041 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -13,8 +13,8 @@ use crate::mem::InMemory;
 use crate::queue::{cancel_job, enqueue_job, WorkQueue};
 use crate::types::Backend;
 use crate::{
-    get_job, retry_job, update_work_queue_config, BackgroundJob, EnqueueConfig, Error, Executable,
-    JobContext, JobPlugin, JobPluginWrapper, PluginCenter, WorkQueueConfig,
+    get_job, retry_job, update_job, update_work_queue_config, BackgroundJob, EnqueueConfig, Error,
+    Executable, JobContext, JobPlugin, JobPluginWrapper, PluginCenter, WorkQueueConfig,
 };
 
 lazy_static! {
@@ -200,18 +200,13 @@ impl AJ {
             + 'static,
         WorkQueue<M>: Actor<Context = Context<WorkQueue<M>>>,
     {
-        let job = Self::get_job::<M>(job_id).await;
-        if let Some(mut job) = job {
-            job.data = data;
-            if let Some(context) = context {
-                job.context = context;
-            }
-            Self::add_job(job, M::queue_name()).await?;
+        let addr: Option<Addr<WorkQueue<M>>> = get_work_queue_address();
+        if let Some(queue_addr) = addr {
+            update_job(queue_addr, job_id, data, context).await
         } else {
             warn!("Cannot update non existing job {job_id}");
+            Ok(())
         }
-
-        Ok(())
     }
 
     pub async fn retry_job<M>(job_id: &str) -> Result<bool, Error>
diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index fc4ff8b..de3c00c 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -8,7 +8,7 @@ use std::ops::Deref;
 use std::sync::Arc;
 use std::time::Duration;
 
-use crate::job::{Job, JobStatus};
+use crate::job::{Job, JobContext, JobStatus};
 use crate::types::{get_from_storage, upsert_to_storage, Backend, QueueDirection};
 use crate::{Error, Executable};
 
@@ -405,6 +405,25 @@ where
         Ok(())
     }
 
+    pub fn update_job(
+        &self,
+        job_id: &str,
+        data: M,
+        context: Option<JobContext>,
+    ) -> Result<(), Error> {
+        if let Some(mut job) = get_from_storage::<Job<M>>(self.backend.deref(), job_id)? {
+            job.data = data;
+            if let Some(context) = context {
+                job.context = context;
+                job.context.job_id = job_id.to_string();
+            }
+            self.run_with_config(job, EnqueueConfig::new_re_run())
+        } else {
+            warn!("Cannot update non existing job {job_id}");
+            Ok(())
+        }
+    }
+
     pub fn get_job(&self, job_id: &str) -> Result<Option<Job<M>>, Error> {
         let job = get_from_storage::<Job<M>>(self.backend.deref(), job_id)?;
         Ok(job)
@@ -525,6 +544,47 @@ where
     addr.send::<GetJob<M>>(msg).await.ok().flatten()
 }
 
+#[derive(Message, Debug)]
+#[rtype(result = "Result<(), Error>")]
+pub struct UpdateJob<M>
+where
+    M: Executable + Send + Sync + Clone + Serialize + DeserializeOwned + 'static,
+{
+    pub job_id: String,
+    pub data: M,
+    pub context: Option<JobContext>,
+}
+
+impl<M> Handler<UpdateJob<M>> for WorkQueue<M>
+where
+    M: Executable + Send + Sync + Clone + Serialize + DeserializeOwned + 'static,
+    WorkQueue<M>: Actor<Context = Context<WorkQueue<M>>>,
+{
+    type Result = Result<(), Error>;
+
+    fn handle(&mut self, msg: UpdateJob<M>, _: &mut Self::Context) -> Self::Result {
+        self.update_job(&msg.job_id, msg.data, msg.context)
+    }
+}
+
+pub async fn update_job<M>(
+    addr: Addr<WorkQueue<M>>,
+    job_id: &str,
+    data: M,
+    context: Option<JobContext>,
+) -> Result<(), Error>
+where
+    M: Executable + Send + Sync + Clone + Serialize + DeserializeOwned + 'static,
+    WorkQueue<M>: Actor<Context = Context<WorkQueue<M>>>,
+{
+    let msg: UpdateJob<M> = UpdateJob {
+        job_id: job_id.to_string(),
+        data,
+        context,
+    };
+    addr.send::<UpdateJob<M>>(msg).await?
+}
+
 #[derive(Message, Debug)]
 #[rtype(result = "Result<bool, Error>")]
 pub struct RetryJob<M>
-- 
2.43.0


From 359a7d2cd32b21c442098d31bec56b2ddf43ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:35 +0000
Subject: [PATCH 17/20] fix: a job type whose queue name is taken is refused
 instead of stopping AJ

---
 aj_core/src/aj.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index c2da041..f6bd3d4 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -152,7 +152,7 @@ impl AJ {
                 _type: PhantomData,
             };
             let aj_addr = get_aj_address().expect("AJ is not start, please start it via AJ::start");
-            aj_addr.send(message).await?
+            aj_addr.send(message).await??
         };
         enqueue_job(addr, job, config).await
     }
@@ -255,7 +255,7 @@ impl AJ {
 }
 
 #[derive(Message)]
-#[rtype(result = "Addr<WorkQueue<M>>")]
+#[rtype(result = "Result<Addr<WorkQueue<M>>, Error>")]
 pub struct InitWorkQueue<M>
 where
     M: Executable + Send + Sync + Clone + Serialize + DeserializeOwned + 'static,
@@ -270,11 +270,22 @@ where
     M: Executable + Send + Sync + Clone + Serialize + DeserializeOwned + 'static,
     WorkQueue<M>: Actor<Context = Context<WorkQueue<M>>>,
 {
-    type Result = Addr<WorkQueue<M>>;
+    type Result = Result<Addr<WorkQueue<M>>, Error>;
 
     fn handle(&mut self, msg: InitWorkQueue<M>, _: &mut Self::Context) -> Self::Result {
         // Another submission may have registered this queue in the meantime
-        get_work_queue_address().unwrap_or_else(|| self.register(&msg.queue_name))
+        if let Some(addr) = get_work_queue_address() {
+            return Ok(addr);
+        }
+        // A panic here would stop AJ, and no other queue could be registered anymore
+        if QUEUE_REGISTRY
+            .registry_by_name
+            .contains_key(&msg.queue_name)
+        {
+            error!("Another job type uses the queue name {}", msg.queue_name);
+            return Err(Error::NoQueueRegister);
+        }
+        Ok(self.register(&msg.queue_name))
     }
 }
 
-- 
2.43.0


From dd0e324b4edbc12168efd1f7bbaf0fa3fdb0af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:19 +0000
Subject: [PATCH 18/20] fix: a panicking plugin stops all plugins for good

---
 aj_core/src/plugin/mod.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/aj_core/src/plugin/mod.rs b/aj_core/src/plugin/mod.rs
index 8231760..d107575 100644
--- a/aj_core/src/plugin/mod.rs
+++ b/aj_core/src/plugin/mod.rs
@@ -96,10 +96,17 @@ impl<M: Executable + Clone> Handler<RunHook<M>> for PluginCenter {
         let plugins = self.plugins.clone();
         Box::pin(async move {
             for plugin in plugins {
-                if msg.before {
-                    plugin.before_run::<M>(&msg.job_id).await;
-                } else {
-                    plugin.after_run::<M>(&msg.job_id).await;
+                let (before, job_id) = (msg.before, msg.job_id.clone());
+                // In its own task: a panicking plugin must not stop the others
+                let hook = actix_rt::spawn(async move {
+                    if before {
+                        plugin.before_run::<M>(&job_id).await;
+                    } else {
+                        plugin.after_run::<M>(&job_id).await;
+                    }
+                });
+                if let Err(err) = hook.await {
+                    error!("[PluginCenter] Hook of job {} fail: {}", msg.job_id, err);
                 }
             }
         })
@@ -124,7 +131,14 @@ impl<M: Executable + Clone> Handler<ChangeStatus<M>> for PluginCenter {
         let plugins = self.plugins.clone();
         Box::pin(async move {
             for plugin in plugins {
-                plugin.change_status::<M>(&msg.job_id, msg.status).await;
+                let (status, job_id) = (msg.status, msg.job_id.clone());
+                // In its own task: a panicking plugin must not stop the others
+                let hook = actix_rt::spawn(async move {
+                    plugin.change_status::<M>(&job_id, status).await;
+                });
+                if let Err(err) = hook.await {
+                    error!("[PluginCenter] Hook of job {} fail: {}", msg.job_id, err);
+                }
             }
         })
     }
-- 
2.43.0


From 6bfc886b4f784e90d1f71e2d55832d372e306383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:24 +0000
Subject: [PATCH 19/20] fix: a job whose data cannot be read back is
 acknowledged and lost

---
 aj_core/src/queue.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index de3c00c..10ac070 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -114,6 +114,9 @@ where
 
     pub fn run_with_config(&self, mut job: Job<M>, config: EnqueueConfig) -> Result<(), Error> {
         let key = job.id();
+        // Not every serializable data can be read back (e.g. NaN), such a job would be lost
+        serde_json::from_str::<Job<M>>(&serde_json::to_string(&job)?)?;
+
         let existing_job = get_from_storage::<Job<M>>(self.backend.deref(), key)?;
         if let Some(existing_job) = existing_job {
             let re_run = config.re_run && existing_job.is_done();
-- 
2.43.0


From bc2d6ae7e2348d2729e926fa2c3cb2fb65a3451f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:45 +0000
Subject: [PATCH 20/20] fix: a backend asked for more items than a queue can
 have hangs or misses items

---
 aj_core/src/backend/mem.rs   |  4 ++--
 aj_core/src/backend/redis.rs | 11 +++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/aj_core/src/backend/mem.rs b/aj_core/src/backend/mem.rs
index d97dd5b..7cb676b 100644
--- a/aj_core/src/backend/mem.rs
+++ b/aj_core/src/backend/mem.rs
@@ -42,7 +42,7 @@ impl Backend for InMemory {
         let mut queues = self.queues.lock().unwrap();
         let mut moving_items = vec![];
         if let Some(from_queue) = queues.get_mut(from_queue) {
-            for _ in 0..count {
+            for _ in 0..count.min(from_queue.len()) {
                 let item = match from_direction {
                     QueueDirection::Front => from_queue.pop_front(),
                     QueueDirection::Back => from_queue.pop_back(),
@@ -83,7 +83,7 @@ impl Backend for InMemory {
         if let Some(queue) = self.queues.lock().unwrap().get(queue) {
             match direction {
                 QueueDirection::Front => {
-                    for index in 0..count {
+                    for index in 0..count.min(queue.len()) {
                         if let Some(item) = queue.get(index) {
                             items.push(item.to_string());
                         }
diff --git a/aj_core/src/backend/redis.rs b/aj_core/src/backend/redis.rs
index 5cc82bc..5e38146 100644
--- a/aj_core/src/backend/redis.rs
+++ b/aj_core/src/backend/redis.rs
@@ -43,8 +43,10 @@ impl Redis {
                 clone_direction(&to_direction),
             )?;
 
-            if let Some(item) = result {
-                items.push(item)
+            match result {
+                Some(item) => items.push(item),
+                // The queue is empty
+                None => break,
             }
         }
 
@@ -62,11 +64,12 @@ impl Redis {
             return Ok(vec![]);
         }
 
+        let count = isize::try_from(count).unwrap_or(isize::MAX);
         let mut conn = self.client.get_connection()?;
         let items = match queue_direction {
-            QueueDirection::Front => conn.lrange(queue, 0, count as isize - 1)?,
+            QueueDirection::Front => conn.lrange(queue, 0, count - 1)?,
             QueueDirection::Back => {
-                let mut res: Vec<String> = conn.lrange(queue, -(count as isize), -1)?;
+                let mut res: Vec<String> = conn.lrange(queue, -count, -1)?;
                 res.reverse();
                 res
             }
-- 
2.43.0

