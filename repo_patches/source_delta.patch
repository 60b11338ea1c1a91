From 181cd87c710628447fdd13f4a7f8b5bd357a7d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 01/33] fix: start a waiting job only once

A job whose dependencies were completed stayed in the list of waiting jobs until its own result
arrived, so it was started again whenever another job completed in the meantime.
---
 crates/astro-run/src/workflow/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/astro-run/src/workflow/mod.rs b/crates/astro-run/src/workflow/mod.rs
index 4e7c511..01ed55b 100644
--- a/crates/astro-run/src/workflow/mod.rs
+++ b/crates/astro-run/src/workflow/mod.rs
@@ -106,7 +106,8 @@ impl Workflow {
         break;
       }
 
-      for (job_id, job) in waiting_jobs.iter() {
+      // A job leaves the waiting list when it is started, so that it is started only once
+      waiting_jobs.retain(|(job_id, job)| {
         if !job.depends_on.is_empty() {
           let mut all_finished = true;
           for depends_on_key in &job.depends_on {
@@ -118,9 +119,12 @@ impl Workflow {
 
           if all_finished {
             self.run_job(job_id.clone(), job.clone(), ctx.clone(), sender.clone());
+            return false;
           }
         }
-      }
+
+        true
+      });
     }
 
     let completed_at = chrono::Utc::now();
-- 
2.43.0


From bb0a0df66affd70cfe2bdb4360eda664ad8723b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 02/33] fix: reject circular job dependencies

Dependency cycles (a job depending on itself included) were accepted as long as some other job had
no dependencies, and running such a workflow never ended.
---
 crates/astro-run/src/user_config.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/user_config.rs b/crates/astro-run/src/user_config.rs
index 20e07ff..09d606b 100644
--- a/crates/astro-run/src/user_config.rs
+++ b/crates/astro-run/src/user_config.rs
@@ -1,6 +1,6 @@
 use crate::{Condition, EnvironmentVariables, Error, Id, Result};
 use serde::{Deserialize, Serialize};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 #[derive(Debug, Clone, Deserialize, Serialize)]
 pub struct ContainerOptions {
@@ -113,6 +113,27 @@ impl UserWorkflow {
       ));
     }
 
+    // A job that can never be reached from the jobs before it is part of (or behind) a cycle
+    let mut runnable_jobs: HashSet<&Id> = HashSet::new();
+    loop {
+      let count = runnable_jobs.len();
+      for (job_name, job) in &workflow.jobs {
+        let mut dependencies = job.depends_on.iter().flatten();
+        if dependencies.all(|key| runnable_jobs.contains(key)) {
+          runnable_jobs.insert(job_name);
+        }
+      }
+      if runnable_jobs.len() == count {
+        break;
+      }
+    }
+
+    if runnable_jobs.len() != workflow.jobs.len() {
+      return Err(Error::workflow_config_error(
+        "Jobs cannot have circular dependencies",
+      ));
+    }
+
     Ok(())
   }
 }
-- 
2.43.0


From bbfdd7c0812ac2b6dc1b9c7cae78d4d72ab118fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 03/33] Model-checking hook: changed files without the GitHub
 API (cfg astro_mc)

---
 .../execution_context/condition_matcher.rs    | 23 +++++++++++++++++++
 crates/astro-run/src/execution_context/mod.rs |  2 ++
 2 files changed, 25 insertions(+)

diff --git a/crates/astro-run/src/execution_context/condition_matcher.rs b/crates/astro-run/src/execution_context/condition_matcher.rs
index 3249f17..a4d7abf 100644
--- a/crates/astro-run/src/execution_context/condition_matcher.rs
+++ b/crates/astro-run/src/execution_context/condition_matcher.rs
@@ -3,6 +3,19 @@ use octocrate::{APIConfig, AppAuthorization, GitHubAPI, PersonalAccessToken};
 use parking_lot::Mutex;
 use std::sync::Arc;
 
+/// Stands in for the GitHub API in model checking: asked with the kind of event, answers with the changed files.
+#[cfg(astro_mc)]
+pub type ChangedFiles = Arc<
+  dyn Fn(&'static str) -> std::pin::Pin<Box<dyn std::future::Future<Output = Result<Vec<String>>> + Send>>
+    + Send
+    + Sync,
+>;
+
+#[cfg(astro_mc)]
+thread_local! {
+  pub static CHANGED_FILES: std::cell::RefCell<Option<ChangedFiles>> = const { std::cell::RefCell::new(None) };
+}
+
 #[derive(Clone)]
 pub struct ConditionMatcher {
   pub github_auth: Option<GithubAuthorization>,
@@ -79,6 +92,11 @@ impl ConditionMatcher {
   }
 
   async fn get_push_changed_files(&self) -> Result<Vec<String>> {
+    #[cfg(astro_mc)]
+    if let Some(changed_files) = CHANGED_FILES.with(|files| files.borrow().clone()) {
+      return changed_files("push").await;
+    }
+
     let TriggerEvent {
       repo_owner,
       repo_name,
@@ -103,6 +121,11 @@ impl ConditionMatcher {
   }
 
   async fn get_pull_request_changed_files(&self) -> Result<Vec<String>> {
+    #[cfg(astro_mc)]
+    if let Some(changed_files) = CHANGED_FILES.with(|files| files.borrow().clone()) {
+      return changed_files("pull_request").await;
+    }
+
     let TriggerEvent {
       repo_owner,
       repo_name,
diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index fb4ea6e..73812b2 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -3,6 +3,8 @@ mod condition_matcher;
 mod context_payload;
 
 pub use self::builder::ExecutionContextBuilder;
+#[cfg(astro_mc)]
+pub use self::condition_matcher::{ChangedFiles, CHANGED_FILES};
 use crate::{
   AstroRunSignal, Condition, Context, Error, Job, JobId, JobRunResult, Result, RunResult,
   RunStepEvent, Runner, SharedPluginDriver, Signal, SignalManager, Step, StepRunResult, StreamExt,
-- 
2.43.0


From 7702c43cf84ab20ef0782164427c01a646b3cbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 04/33] fix: keep the first result when a stream is ended
 concurrently

---
 crates/astro-run/src/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/astro-run/src/stream.rs b/crates/astro-run/src/stream.rs
index 0223139..d0d1081 100644
--- a/crates/astro-run/src/stream.rs
+++ b/crates/astro-run/src/stream.rs
@@ -104,12 +104,12 @@ impl StreamSender {
   }
 
   pub fn end(&self, result: RunResult) {
-    if self.is_ended() {
+    let mut state = self.state.lock();
+    if state.result.is_some() {
       log::trace!("StreamSender: already ended");
       return;
     }
 
-    let mut state = self.state.lock();
     state.result = Some(result);
 
     if let Some(waker) = state.waker.take() {
-- 
2.43.0


From 4f240031348c436ce6e1f0f2f5fe1e3754ce9ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 05/33] fix: do not panic when another run of the same job has
 completed

---
 crates/astro-run/src/execution_context/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index 73812b2..aa067df 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -52,7 +52,8 @@ impl ExecutionContext {
     let job_signal = self
       .signal_manager
       .get_signal(&step.id.job_id())
-      .expect("Missing job signal");
+      // Another run of the same job may have completed and unregistered it
+      .unwrap_or_default();
 
     // Step signal
     let signal = AstroRunSignal::new();
-- 
2.43.0


From 5b1a49020d8d560d57cf2fc2f3bbf622869a5460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 06/33] fix: tell the later steps of a cancelled job that it
 has been cancelled

---
 crates/astro-run/src/execution_context/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index aa067df..5550f83 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -58,6 +58,11 @@ impl ExecutionContext {
     // Step signal
     let signal = AstroRunSignal::new();
 
+    // The job may have been cancelled during a previous step, which has received the job signal
+    if job_signal.is_cancelled() {
+      signal.cancel().ok();
+    }
+
     let mut receiver = match self
       .runner
       .run(Context {
-- 
2.43.0


From c31f2c35b98485d12ccfb307a86742ba34aa7c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 07/33] fix: measure the timeout of a step from its start, not
 from its last log

---
 crates/astro-run/src/execution_context/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index 5550f83..ded8e7d 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -113,10 +113,14 @@ impl ExecutionContext {
 
     self.call_on_state_change(event).await;
 
+    // Started once, so that logs do not put the timeout off
+    let timeout_sleep = time::sleep(timeout);
+    tokio::pin!(timeout_sleep);
+
     loop {
       tokio::select! {
         // Timeout
-        _ = time::sleep(timeout) => {
+        _ = &mut timeout_sleep, if !timeout_sleep.is_elapsed() => {
           // Ignore error
           signal.timeout().ok();
         }
-- 
2.43.0


From bf3f769ac0c528893272585e4cfbd65bdb690fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 08/33] fix: place a host step only on a runner that supports
 the host

---
 crates/scheduler/src/default.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/scheduler/src/default.rs b/crates/scheduler/src/default.rs
index 8ca7251..d3b4797 100644
--- a/crates/scheduler/src/default.rs
+++ b/crates/scheduler/src/default.rs
@@ -62,8 +62,9 @@ impl Scheduler for DefaultScheduler {
         if r.id == last_used_id {
           if is_runs_on_host {
             let container_name = container_name.clone().unwrap();
-            return r.support_host && container_name == format!("host/{}", r.os)
-              || container_name == format!("host/{}-{}", r.os, r.arch);
+            return r.support_host
+              && (container_name == format!("host/{}", r.os)
+                || container_name == format!("host/{}-{}", r.os, r.arch));
           }
 
           return true;
-- 
2.43.0


From 7b36d78dc0740a132452169c36b09074eec7ef8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 09/33] fix: do not place concurrent steps on the same snapshot
 of the load

---
 crates/scheduler/src/default.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/scheduler/src/default.rs b/crates/scheduler/src/default.rs
index d3b4797..61e4e2b 100644
--- a/crates/scheduler/src/default.rs
+++ b/crates/scheduler/src/default.rs
@@ -55,7 +55,9 @@ impl Scheduler for DefaultScheduler {
 
     log::trace!("Is runs on host: {}", is_runs_on_host);
 
-    let last_used_id = self.state.lock().job_runners.get(&job_id).cloned();
+    // Keep the state locked until the placement is recorded, concurrent placements have to see each other
+    let mut state = self.state.lock();
+    let last_used_id = state.job_runners.get(&job_id).cloned();
 
     if let Some(last_used_id) = last_used_id {
       runner = runners.iter().find(|r| {
@@ -77,12 +79,11 @@ impl Scheduler for DefaultScheduler {
     }
 
     if runner.is_none() {
-      runner = self.pick_runner(runners, container_name);
+      runner = self.pick_runner(&state.runs_count, runners, container_name);
       log::trace!("Picked runner: {:?}", runner);
     }
 
     if let Some(runner) = &runner {
-      let mut state = self.state.lock();
       state
         .step_runners
         .insert(ctx.command.id.clone(), runner.id.clone());
@@ -132,6 +133,7 @@ impl Scheduler for DefaultScheduler {
 impl DefaultScheduler {
   fn pick_runner<'a, 'b: 'a>(
     &'b self,
+    runs_count: &HashMap<String, i32>,
     runners: &'a [RunnerMetadata],
     container: Option<String>,
   ) -> Option<&'a RunnerMetadata> {
@@ -143,15 +145,15 @@ impl DefaultScheduler {
     if is_runs_on_host {
       self.pick_host_runner(runners, container.unwrap())
     } else {
-      self.pick_docker_runner(runners)
+      self.pick_docker_runner(runs_count, runners)
     }
   }
 
   fn pick_docker_runner<'a, 'b: 'a>(
     &'b self,
+    runs_count: &HashMap<String, i32>,
     runners: &'a [RunnerMetadata],
   ) -> Option<&'a RunnerMetadata> {
-    let runs_count = self.state.lock().runs_count.clone();
     let min_runs = runners
       .iter()
       .filter(|r| r.support_docker)
-- 
2.43.0


From 21664c93acf8f5e5cf1a35836c9d6bbe78aa4d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 10/33] Model-checking hook: remote runners without a network
 (cfg astro_mc)

---
 crates/remote-runner/src/client.rs | 33 ++++++++++++++++++++++++++++++
 crates/remote-runner/src/lib.rs    |  2 ++
 2 files changed, 35 insertions(+)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index b06dee4..955ce32 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -11,6 +11,36 @@ use tokio_stream::StreamExt;
 
 type GRPCClient = RemoteRunnerClient<tonic::transport::Channel>;
 
+/// Stands in for the network in model checking: asked with the url, answers with a connected client.
+#[cfg(astro_mc)]
+pub type Connect = Arc<
+  dyn Fn(
+      String,
+    )
+      -> std::pin::Pin<Box<dyn std::future::Future<Output = std::result::Result<GRPCClient, String>> + Send>>
+    + Send
+    + Sync,
+>;
+
+#[cfg(astro_mc)]
+thread_local! {
+  pub static CONNECT: std::cell::RefCell<Option<Connect>> = const { std::cell::RefCell::new(None) };
+}
+
+#[cfg(astro_mc)]
+struct Connector;
+
+#[cfg(astro_mc)]
+impl Connector {
+  async fn connect(url: String) -> std::result::Result<GRPCClient, String> {
+    let connect = CONNECT.with(|connect| connect.borrow().clone());
+    match connect {
+      Some(connect) => connect(url).await,
+      None => GRPCClient::connect(url).await.map_err(|e| e.to_string()),
+    }
+  }
+}
+
 #[derive(Clone)]
 struct Client {
   id: String,
@@ -205,6 +235,9 @@ impl AstroRunRemoteRunnerClient {
   }
 
   async fn connect(url: String) -> Result<Client> {
+    #[cfg(astro_mc)]
+    use Connector as GRPCClient;
+
     let mut client = GRPCClient::connect(url)
       .await
       .map_err(|e| Error::internal_runtime_error(format!("Failed to connect: {}", e)))?;
diff --git a/crates/remote-runner/src/lib.rs b/crates/remote-runner/src/lib.rs
index ee6876d..447d531 100644
--- a/crates/remote-runner/src/lib.rs
+++ b/crates/remote-runner/src/lib.rs
@@ -3,6 +3,8 @@ mod runner_server;
 
 pub use astro_run_scheduler::*;
 pub use client::AstroRunRemoteRunnerClient;
+#[cfg(astro_mc)]
+pub use client::CONNECT;
 pub use runner_server::AstroRunRemoteRunnerServer;
 
 pub const VERSION: &str = "0.2.0";
-- 
2.43.0


From a6b933ee0e2935bdb725c8e2784e96b50a402b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 11/33] fix: tell the remote runner client's scheduler of
 starts and completions

---
 crates/remote-runner/src/client.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index 955ce32..7bb8a2c 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -102,6 +102,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_step_completed(&self, result: astro_run::StepRunResult) -> HookNoopResult {
+    self.scheduler.on_step_completed(result.clone());
+
     let event = ProtocolEvent::StepCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -112,6 +114,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_job_completed(&self, result: astro_run::JobRunResult) -> HookNoopResult {
+    self.scheduler.on_job_completed(result.clone());
+
     let event = ProtocolEvent::JobCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -122,6 +126,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_workflow_completed(&self, result: astro_run::WorkflowRunResult) -> HookNoopResult {
+    self.scheduler.on_workflow_completed(result.clone());
+
     let event = ProtocolEvent::WorkflowCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -142,6 +148,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_step(&self, event: astro_run::RunStepEvent) -> HookNoopResult {
+    self.scheduler.on_run_step(event.source.clone());
+
     let event = ProtocolEvent::RunStep(event);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -152,6 +160,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_job(&self, event: astro_run::RunJobEvent) -> HookNoopResult {
+    self.scheduler.on_run_job(event.source.clone());
+
     let event = ProtocolEvent::RunJob(event);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -162,6 +172,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_workflow(&self, event: astro_run::RunWorkflowEvent) -> HookNoopResult {
+    self.scheduler.on_run_workflow(event.source.clone());
+
     let event = ProtocolEvent::RunWorkflow(event);
 
     if let Err(err) = self.event_sender.send(event) {
-- 
2.43.0


From d89c9bcc21d75d754b93536d6238f4a52e2b5ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:47 +0000
Subject: [PATCH 12/33] fix: forward every event to remote runners, however
 many there are at once

---
 crates/remote-runner/src/client.rs | 37 +++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index 7bb8a2c..756c9bd 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -6,7 +6,7 @@ use astro_run_protocol::{ProtocolEvent, RunResponse};
 use astro_run_scheduler::Scheduler;
 use parking_lot::Mutex;
 use std::{collections::HashMap, sync::Arc};
-use tokio::sync::broadcast;
+use tokio::sync::mpsc;
 use tokio_stream::StreamExt;
 
 type GRPCClient = RemoteRunnerClient<tonic::transport::Channel>;
@@ -48,11 +48,38 @@ struct Client {
   client: GRPCClient,
 }
 
+/// Sends every event to every subscriber. Unlike a bounded broadcast channel, it does not lose events
+/// when more of them are sent at once than it has capacity for.
+#[derive(Clone, Default)]
+struct EventSender {
+  subscribers: Arc<Mutex<Vec<mpsc::UnboundedSender<ProtocolEvent>>>>,
+}
+
+impl EventSender {
+  fn subscribe(&self) -> mpsc::UnboundedReceiver<ProtocolEvent> {
+    let (sender, receiver) = mpsc::unbounded_channel();
+    self.subscribers.lock().push(sender);
+
+    receiver
+  }
+
+  fn send(&self, event: ProtocolEvent) -> Result<()> {
+    let mut subscribers = self.subscribers.lock();
+    subscribers.retain(|subscriber| subscriber.send(event.clone()).is_ok());
+
+    if subscribers.is_empty() {
+      return Err(Error::internal_runtime_error("No subscribers"));
+    }
+
+    Ok(())
+  }
+}
+
 #[derive(Clone)]
 pub struct AstroRunRemoteRunnerClient {
   clients: Arc<Mutex<HashMap<String, Client>>>,
   scheduler: Arc<Box<dyn Scheduler>>,
-  event_sender: broadcast::Sender<ProtocolEvent>,
+  event_sender: EventSender,
 }
 
 #[astro_run::async_trait]
@@ -233,7 +260,7 @@ impl AstroRunRemoteRunnerClient {
       }
     }
 
-    while let Ok(event) = receiver.recv().await {
+    while let Some(event) = receiver.recv().await {
       let clients = self.clients.lock().clone();
       for (_, mut client) in clients {
         if let Err(err) = client.client.send_event(event.clone()).await {
@@ -369,11 +396,9 @@ impl AstroRunRemoteRunnerClientBuilder {
       .scheduler
       .unwrap_or_else(|| Box::new(astro_run_scheduler::DefaultScheduler::new()));
 
-    let (event_sender, _) = broadcast::channel(30);
-
     Ok(AstroRunRemoteRunnerClient {
       scheduler: Arc::new(scheduler),
-      event_sender,
+      event_sender: EventSender::default(),
       clients: Arc::new(Mutex::new(HashMap::new())),
     })
   }
-- 
2.43.0


From db7c00dcc3840abe925ce5cf945ca99c803083d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 13/33] fix: forward events to each remote runner once and
 independently of the others

---
 crates/remote-runner/src/client.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index 756c9bd..464de97 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -241,6 +241,7 @@ impl AstroRunRemoteRunnerClient {
     T: Into<String>,
   {
     let mut receiver = self.event_sender.subscribe();
+    let mut connected = vec![];
 
     for url in urls {
       let url = url.into();
@@ -252,6 +253,7 @@ impl AstroRunRemoteRunnerClient {
             continue;
           }
           log::trace!("Connected to runner: {}", client.metadata.id);
+          connected.push(Self::forward_events(client.clone()));
           clients.insert(client.id.clone(), client);
         }
         Err(err) => {
@@ -261,9 +263,8 @@ impl AstroRunRemoteRunnerClient {
     }
 
     while let Some(event) = receiver.recv().await {
-      let clients = self.clients.lock().clone();
-      for (_, mut client) in clients {
-        if let Err(err) = client.client.send_event(event.clone()).await {
+      for sender in &connected {
+        if let Err(err) = sender.send(event.clone()) {
           log::error!("Failed to send event: {}", err);
         }
       }
@@ -273,6 +274,22 @@ impl AstroRunRemoteRunnerClient {
     Ok(())
   }
 
+  /// Sends events to a client, in order and independently of other clients
+  fn forward_events(client: Client) -> mpsc::UnboundedSender<ProtocolEvent> {
+    let (sender, mut receiver) = mpsc::unbounded_channel();
+    let mut client = client;
+
+    tokio::task::spawn(async move {
+      while let Some(event) = receiver.recv().await {
+        if let Err(err) = client.client.send_event(event).await {
+          log::error!("Failed to send event: {}", err);
+        }
+      }
+    });
+
+    sender
+  }
+
   async fn connect(url: String) -> Result<Client> {
     #[cfg(astro_mc)]
     use Connector as GRPCClient;
-- 
2.43.0


From 8bf6590e95f384f43173480f059b013da9619389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 14/33] fix: keep the signal of a step that has been started
 again on a remote runner

---
 crates/remote-runner/src/runner_server.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/remote-runner/src/runner_server.rs b/crates/remote-runner/src/runner_server.rs
index cfc4125..afab233 100644
--- a/crates/remote-runner/src/runner_server.rs
+++ b/crates/remote-runner/src/runner_server.rs
@@ -43,11 +43,18 @@ impl AstroRunRemoteRunnerServer {
     runner: Arc<Box<dyn Runner>>,
     sender: mpsc::Sender<Result<RunResponse, tonic::Status>>,
     ctx: astro_run::Context,
+    signals: Arc<Mutex<HashMap<StepId, astro_run::AstroRunSignal>>>,
   ) {
     let id = ctx.id.clone();
 
     tokio::spawn(async move {
-      let mut stream = runner.run(ctx).await?;
+      let response = runner.run(ctx).await;
+
+      if response.is_err() {
+        signals.lock().remove(&id);
+      }
+
+      let mut stream = response?;
 
       while let Some(log) = stream.next().await {
         if let Err(err) = sender.send(Ok(RunResponse::log(id.clone(), log))).await {
@@ -55,6 +62,10 @@ impl AstroRunRemoteRunnerServer {
         }
       }
 
+      // Remove signal once step is completed. The client's event for that may arrive
+      // when the next run of the step has already started.
+      signals.lock().remove(&id);
+
       let result = stream.result().ok_or(Error::internal_runtime_error(
         "Cannot get result from runner".to_string(),
       ))?;
@@ -92,7 +103,7 @@ impl RemoteRunnerExt for AstroRunRemoteRunnerServer {
 
     let runner = self.runner.clone();
 
-    Self::run(runner, tx, context);
+    Self::run(runner, tx, context, self.signals.clone());
 
     Ok(tonic::Response::new(ReceiverStream::new(rx)))
   }
@@ -121,11 +132,6 @@ impl RemoteRunnerExt for AstroRunRemoteRunnerServer {
         }
       }
       ProtocolEvent::StepCompleted(result) => {
-        // Remove signal once step is completed
-        let step_id = &result.id;
-
-        self.signals.lock().remove(step_id);
-
         // Dispatch event to plugins and runner
         self.plugin_driver.on_step_completed(result.clone()).await;
         if let Err(err) = self.runner.on_step_completed(result).await {
-- 
2.43.0


From 610b05c49ea740799f3d40d3740de00631b7eb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:39 +0000
Subject: [PATCH 15/33] fix: give up on remote runners that do not answer when
 connecting

---
 crates/remote-runner/src/client.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index 464de97..7de6214 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -5,10 +5,13 @@ use astro_run_protocol::RunnerMetadata;
 use astro_run_protocol::{ProtocolEvent, RunResponse};
 use astro_run_scheduler::Scheduler;
 use parking_lot::Mutex;
-use std::{collections::HashMap, sync::Arc};
+use std::{collections::HashMap, sync::Arc, time::Duration};
 use tokio::sync::mpsc;
 use tokio_stream::StreamExt;
 
+/// How long to wait for a runner to be connected to and to answer with its metadata
+const CONNECT_TIMEOUT: Duration = Duration::from_secs(10);
+
 type GRPCClient = RemoteRunnerClient<tonic::transport::Channel>;
 
 /// Stands in for the network in model checking: asked with the url, answers with a connected client.
@@ -245,7 +248,7 @@ impl AstroRunRemoteRunnerClient {
 
     for url in urls {
       let url = url.into();
-      match Self::connect(url.clone()).await {
+      match Self::connect_with_timeout(url.clone()).await {
         Ok(client) => {
           let mut clients = self.clients.lock();
           if clients.contains_key(&client.id) {
@@ -290,6 +293,13 @@ impl AstroRunRemoteRunnerClient {
     sender
   }
 
+  /// Connects to a runner. One that does not answer must not keep the others from being connected to.
+  async fn connect_with_timeout(url: String) -> Result<Client> {
+    tokio::time::timeout(CONNECT_TIMEOUT, Self::connect(url))
+      .await
+      .map_err(|_| Error::internal_runtime_error("Failed to connect: timeout"))?
+  }
+
   async fn connect(url: String) -> Result<Client> {
     #[cfg(astro_mc)]
     use Connector as GRPCClient;
-- 
2.43.0


From cb934dc07dab66d25877e6a1b55961dc1d031c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:07 +0000
Subject: [PATCH 16/33] fix: keep a step's condition when remote hooks are
 applied

---
 crates/remote-runner/src/client.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index 7de6214..2afe6ac 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -216,6 +216,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   async fn on_before_run_step(&self, step: astro_run::Step) -> HookBeforeRunStepResult {
     let mut clients = self.clients.lock().clone();
 
+    // Commands do not carry the condition of the step
+    let on = step.on.clone();
     let mut command = step.into();
 
     for client in clients.values_mut() {
@@ -230,7 +232,10 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
       };
     }
 
-    Ok(command.into())
+    let mut step: astro_run::Step = command.into();
+    step.on = on;
+
+    Ok(step)
   }
 }
 
-- 
2.43.0


From f23109405f87a16468d95e38545d4e2eed9af50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:49 +0000
Subject: [PATCH 17/33] fix: do not make infinities and NaN of the environment
 numbers that cannot be sent

---
 crates/astro-run/src/types/envs.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/types/envs.rs b/crates/astro-run/src/types/envs.rs
index af7c875..56471bb 100644
--- a/crates/astro-run/src/types/envs.rs
+++ b/crates/astro-run/src/types/envs.rs
@@ -2,13 +2,35 @@ use serde::{Deserialize, Serialize};
 use std::collections::HashMap;
 
 #[derive(Debug, Clone, Deserialize, Serialize, PartialEq)]
-#[serde(untagged)]
+#[serde(untagged, from = "RawEnvironmentVariable")]
 pub enum EnvironmentVariable {
   String(String),
   Number(f64),
   Boolean(bool),
 }
 
+#[derive(Deserialize)]
+#[serde(untagged)]
+enum RawEnvironmentVariable {
+  String(String),
+  Number(f64),
+  Boolean(bool),
+}
+
+impl From<RawEnvironmentVariable> for EnvironmentVariable {
+  fn from(raw: RawEnvironmentVariable) -> Self {
+    match raw {
+      RawEnvironmentVariable::String(s) => EnvironmentVariable::String(s),
+      // JSON has no infinity and no NaN, a remote runner could not be sent them as numbers.
+      RawEnvironmentVariable::Number(n) if !n.is_finite() => {
+        EnvironmentVariable::String(n.to_string())
+      }
+      RawEnvironmentVariable::Number(n) => EnvironmentVariable::Number(n),
+      RawEnvironmentVariable::Boolean(b) => EnvironmentVariable::Boolean(b),
+    }
+  }
+}
+
 impl std::fmt::Display for EnvironmentVariable {
   fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
     match self {
-- 
2.43.0


From 177c3680955870b83e32306cff0f80505c85cdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 18/33] fix: report all output of a command, whichever stream
 is closed first

---
 crates/runner/src/command.rs | 73 +++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 39 deletions(-)

diff --git a/crates/runner/src/command.rs b/crates/runner/src/command.rs
index bfff992..2589db2 100644
--- a/crates/runner/src/command.rs
+++ b/crates/runner/src/command.rs
@@ -5,7 +5,7 @@ use std::{
   process::Stdio,
 };
 use tokio::{
-  io::{AsyncBufReadExt, BufReader},
+  io::{AsyncBufReadExt, AsyncRead, BufReader},
   process::Command as Cmd,
 };
 
@@ -73,44 +73,11 @@ impl Command {
       "Failed to get stderr from child process".to_string(),
     ))?;
 
-    let out = BufReader::new(out);
-    let err = BufReader::new(err);
-
-    let mut lines = out.lines();
-    let mut errors = err.lines();
-
-    loop {
-      tokio::select! {
-        line = lines.next_line() => {
-          match line {
-            Ok(Some(line)) => {
-              sender.log(line);
-            }
-            Ok(None) => {
-                break;
-            }
-            Err(err) => {
-              sender.error(err.to_string());
-              break;
-            }
-          }
-        }
-        error = errors.next_line() => {
-          match error {
-            Ok(Some(error)) => {
-              sender.error(error);
-            }
-            Ok(None) => {
-              break;
-            }
-            Err(err) => {
-              sender.error(err.to_string());
-              break;
-            }
-          }
-        }
-      }
-    }
+    // Either stream may be closed long before the other.
+    tokio::join!(
+      Self::read_lines(out, |line| sender.log(line)),
+      Self::read_lines(err, |line| sender.error(line)),
+    );
 
     let status = child.wait().await.map_err(|err| {
       Error::internal_runtime_error(format!("Failed to wait for child process: {}", err))
@@ -132,6 +99,34 @@ impl Command {
     Ok(())
   }
 
+  async fn read_lines(stream: impl AsyncRead + Unpin, report: impl Fn(String)) {
+    let mut reader = BufReader::new(stream);
+    let mut line = vec![];
+
+    loop {
+      match reader.read_until(b'\n', &mut line).await {
+        Ok(0) => break,
+        Ok(_) => {
+          if line.ends_with(b"\n") {
+            line.pop();
+
+            if line.ends_with(b"\r") {
+              line.pop();
+            }
+          }
+
+          // What is not UTF-8 does not end the output.
+          report(String::from_utf8_lossy(&line).into_owned());
+          line.clear();
+        }
+        Err(err) => {
+          log::error!("Failed to read output of child process: {}", err);
+          break;
+        }
+      }
+    }
+  }
+
   fn build_command(&self) -> Cmd {
     let mut command;
 
-- 
2.43.0


From 6cb248aa52b6ba5b127d669dbc2cb57f2a05d339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 19/33] fix: finish a step on the runner when its command has
 ended, not only when it is signalled

---
 crates/runner/src/executors/docker.rs |  6 ++++--
 crates/runner/src/executors/host.rs   | 11 ++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 8623861..73dcd60 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -48,8 +48,10 @@ impl Executor for DockerExecutor {
 
       // Run the command
       tokio::select! {
-        Err(err) = command.run(sender.clone()) => {
-          log::error!("Step run error: {}", err);
+        res = command.run(sender.clone()) => {
+          if let Err(err) = res {
+            log::error!("Step run error: {}", err);
+          }
         }
         signal = ctx.signal.recv() => {
           log::trace!("Killing running docker: {}", metadata.docker_name);
diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index fb1f244..50dc3f4 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -37,8 +37,10 @@ impl Executor for HostExecutor {
 
       tokio::select! {
         // Run the command
-        Err(err) = command.run(sender.clone()) => {
-          log::error!("Step run error: {}", err);
+        res = command.run(sender.clone()) => {
+          if let Err(err) = res {
+            log::error!("Step run error: {}", err);
+          }
         }
         signal = ctx.signal.recv() => {
           // TODO: cancel the command
@@ -51,9 +53,8 @@ impl Executor for HostExecutor {
         }
       }
 
-      // Clean up working directory
-      fs::remove_dir_all(&metadata.job_data_directory).await?;
-
+      // The data directory is shared with the other steps of the job,
+      // it is cleaned up when the workflow is completed.
       log::trace!("Step run finished");
     } else {
       log::trace!("Step run has been completed before it started");
-- 
2.43.0


From 4714fd34aacb169b066c922ee56060fa2cd7957b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 20/33] fix: end a step signalled before its command starts as
 cancelled or timed out

---
 crates/runner/src/executors/docker.rs | 5 +++++
 crates/runner/src/executors/host.rs   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 73dcd60..7c543fc 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -75,6 +75,11 @@ impl Executor for DockerExecutor {
       log::trace!("Step run finished");
     } else {
       log::trace!("Step is already completed");
+      if ctx.signal.is_cancelled() {
+        sender.cancelled();
+      } else {
+        sender.timeout();
+      }
     }
 
     Ok(())
diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index 50dc3f4..978d956 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -58,6 +58,11 @@ impl Executor for HostExecutor {
       log::trace!("Step run finished");
     } else {
       log::trace!("Step run has been completed before it started");
+      if ctx.signal.is_cancelled() {
+        sender.cancelled();
+      } else {
+        sender.timeout();
+      }
     }
 
     Ok(())
-- 
2.43.0


From 3a0f5f82d396048c15a2f05fe79d63b090869ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 21/33] fix: stop the command of a host step that is cancelled
 or has timed out

---
 crates/runner/src/command.rs        | 2 ++
 crates/runner/src/executors/host.rs | 1 -
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/command.rs b/crates/runner/src/command.rs
index 2589db2..b464028 100644
--- a/crates/runner/src/command.rs
+++ b/crates/runner/src/command.rs
@@ -61,6 +61,8 @@ impl Command {
     let mut child = command
       .stdout(Stdio::piped())
       .stderr(Stdio::piped())
+      // The command is given up when its step is cancelled or has timed out
+      .kill_on_drop(true)
       .spawn()
       .map_err(|err| {
         Error::internal_runtime_error(format!("Failed to spawn child process: {}", err))
diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index 978d956..412faba 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -43,7 +43,6 @@ impl Executor for HostExecutor {
           }
         }
         signal = ctx.signal.recv() => {
-          // TODO: cancel the command
           log::trace!("Step run received signal: {:?}", signal);
           if let astro_run::Signal::Cancel = signal {
             sender.cancelled();
-- 
2.43.0


From acf33030839f23400fde386141cbbd80cee758c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 22/33] fix: keep the directories of workflows apart and inside
 the working directory, whatever their identifiers are

---
 crates/runner/src/astro_runner.rs | 16 ++++---
 crates/runner/src/metadata.rs     | 74 ++++++++++++++++++++++++-------
 2 files changed, 68 insertions(+), 22 deletions(-)

diff --git a/crates/runner/src/astro_runner.rs b/crates/runner/src/astro_runner.rs
index 749c753..13a2d82 100644
--- a/crates/runner/src/astro_runner.rs
+++ b/crates/runner/src/astro_runner.rs
@@ -1,5 +1,6 @@
 use crate::{
   executors::{DockerExecutor, Executor, HostExecutor},
+  metadata::{repository_directory, workflow_directory},
   Plugin, PluginDriver, SharedPluginDriver,
 };
 use astro_run::{
@@ -98,15 +99,16 @@ impl AstroRunner {
   }
 
   fn cleanup_workflow_working_directory(&self, result: astro_run::WorkflowRunResult) -> Result<()> {
-    let event = self.state.lock().workflow_events.get(&result.id).cloned();
+    let event = self.state.lock().workflow_events.remove(&result.id);
 
-    let mut directory = self.working_directory.clone();
+    let repository = event
+      .as_ref()
+      .map(|event| (event.repo_owner.as_str(), event.repo_name.as_str()));
 
-    if let Some(event) = event {
-      directory = directory.join(&event.repo_owner).join(&event.repo_name);
-    }
-
-    directory = directory.join(result.id.inner());
+    let directory = workflow_directory(
+      &repository_directory(self.working_directory.clone(), repository),
+      &result.id.inner(),
+    );
 
     if directory.exists() {
       fs::remove_dir_all(directory)?;
diff --git a/crates/runner/src/metadata.rs b/crates/runner/src/metadata.rs
index f11c5ff..ccd76a8 100644
--- a/crates/runner/src/metadata.rs
+++ b/crates/runner/src/metadata.rs
@@ -1,5 +1,5 @@
 use astro_run::{Error, Result, StepId};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 pub trait PathBufTryToString {
   fn to_string(&self) -> Result<String>;
@@ -14,6 +14,53 @@ impl PathBufTryToString for PathBuf {
   }
 }
 
+/// The name of the directory of an identifier (such as a repository, workflow or job).
+///
+/// Identifiers come from configurations and events, so they may contain anything: the result is
+/// always exactly one component of a path, and different identifiers have different names.
+pub fn directory_name(identifier: &str) -> String {
+  match identifier {
+    // `%` itself is escaped below
+    "" => return String::from("%"),
+    "." | ".." => return identifier.replace('.', "%2e"),
+    _ => {}
+  }
+
+  let mut name = String::with_capacity(identifier.len());
+  for c in identifier.chars() {
+    if matches!(c, '/' | '\\' | ':' | '%') || c.is_ascii_control() {
+      name.push_str(&format!("%{:02x}", c as u32));
+    } else {
+      name.push(c);
+    }
+  }
+
+  name
+}
+
+/// The directory in which all workflows of a repository are run.
+pub fn repository_directory(
+  runner_working_directory: PathBuf,
+  repository: Option<(&str, &str)>,
+) -> PathBuf {
+  match repository {
+    Some((owner, name)) => runner_working_directory
+      .join(directory_name(owner))
+      .join(directory_name(name)),
+    None => runner_working_directory,
+  }
+}
+
+/// The directory of a workflow, next to the caches of its repository.
+pub fn workflow_directory(repository_directory: &Path, workflow_id: &str) -> PathBuf {
+  match workflow_id {
+    CACHE_DIRECTORY => repository_directory.join("%63aches"),
+    workflow_id => repository_directory.join(directory_name(workflow_id)),
+  }
+}
+
+const CACHE_DIRECTORY: &str = "caches";
+
 #[derive(Clone)]
 pub struct Metadata {
   /// Step working directory
@@ -70,28 +117,25 @@ impl MetadataBuilder {
     let runner_working_directory = self.runner_working_directory.unwrap();
     let step_id = self.step_id.unwrap();
 
-    let mut repo_working_directory = runner_working_directory;
-
-    if let Some((owner, name)) = self.repository {
-      repo_working_directory = repo_working_directory.join(owner).join(name);
-    }
+    let repository = self
+      .repository
+      .as_ref()
+      .map(|(owner, name)| (owner.as_str(), name.as_str()));
+    let repo_working_directory = repository_directory(runner_working_directory, repository);
 
-    let cache_directory = repo_working_directory.join("caches");
+    let cache_directory = repo_working_directory.join(CACHE_DIRECTORY);
 
     let workflow_id = step_id.workflow_id().inner();
     let job_key = step_id.job_key();
     let step_number = step_id.step_number();
 
-    let job_data_directory = repo_working_directory
-      .join(&workflow_id)
-      .join(&job_key)
-      .join("data");
+    let job_directory =
+      workflow_directory(&repo_working_directory, &workflow_id).join(directory_name(&job_key));
+
+    let job_data_directory = job_directory.join("data");
 
     // Step working directory
-    let step_host_working_directory = repo_working_directory
-      .join(&workflow_id)
-      .join(&job_key)
-      .join(step_number.to_string());
+    let step_host_working_directory = job_directory.join(step_number.to_string());
 
     let entrypoint_path = step_host_working_directory.join("entrypoint");
     let docker_name = format!("{}-{}-{}", workflow_id, job_key, step_number);
-- 
2.43.0


From 0c03e463306261f46b3a889d229d08ecfb7fd75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 23/33] fix: start docker only when the entrypoint is written
 completely

---
 crates/runner/src/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/runner/src/utils.rs b/crates/runner/src/utils.rs
index dd14606..77af49e 100644
--- a/crates/runner/src/utils.rs
+++ b/crates/runner/src/utils.rs
@@ -26,6 +26,9 @@ pub async fn create_executable_file(file_path: &PathBuf, content: &String) -> Re
 
   file.write_all(content.as_bytes()).await?;
 
+  // The file is written in the background: docker must find it complete.
+  file.flush().await?;
+
   // Fix Text file busy
   drop(file);
 
-- 
2.43.0


From 0ddd8f83756208a55d63c216bf16cfff51278a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 24/33] fix: pass options to docker literally, whatever
 characters they contain

---
 crates/runner/src/docker.rs           | 50 +++++++++++++++++++++------
 crates/runner/src/executors/docker.rs |  4 +--
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/crates/runner/src/docker.rs b/crates/runner/src/docker.rs
index 64fc7bd..f0cc561 100644
--- a/crates/runner/src/docker.rs
+++ b/crates/runner/src/docker.rs
@@ -1,6 +1,38 @@
 use crate::command::Command;
 use std::collections::HashMap;
 
+/// Quotes a value for the shell, which then passes it on literally.
+fn quote(value: &str) -> String {
+  #[cfg(target_os = "windows")]
+  const ESCAPE: (&[char], char) = (&['`', '"', '$'], '`');
+  #[cfg(not(target_os = "windows"))]
+  const ESCAPE: (&[char], char) = (&['\\', '"', '$', '`'], '\\');
+
+  let (special, escape) = ESCAPE;
+  let mut quoted = String::from('"');
+
+  for c in value.chars() {
+    if special.contains(&c) {
+      quoted.push(escape);
+    }
+    quoted.push(c);
+  }
+
+  quoted.push('"');
+  quoted
+}
+
+/// An argument for the shell, quoted where it has to be.
+pub fn argument(value: &str) -> String {
+  let is_plain = |c: char| c.is_ascii_alphanumeric() || "-_./:=+".contains(c);
+
+  if !value.is_empty() && value.chars().all(is_plain) {
+    value.to_string()
+  } else {
+    quote(value)
+  }
+}
+
 #[derive(Debug, Clone)]
 pub struct Docker {
   pub image: String,
@@ -58,9 +90,7 @@ impl Docker {
   }
 
   pub fn volume(mut self, from: impl Into<String>, to: impl Into<String>) -> Self {
-    self
-      .volumes
-      .push(format!("\"{}:{}\"", from.into(), to.into()));
+    self.volumes.push(format!("{}:{}", from.into(), to.into()));
     self
   }
 
@@ -76,35 +106,35 @@ impl Docker {
 
     for security_opt in &self.security_opts {
       docker_command.push("--security-opt".to_string());
-      docker_command.push(security_opt.to_string());
+      docker_command.push(argument(security_opt));
     }
 
     for volume in &self.volumes {
       docker_command.push("-v".to_string());
-      docker_command.push(volume.to_string());
+      docker_command.push(quote(volume));
     }
 
     for (key, value) in &self.environments {
       docker_command.push("-e".to_string());
-      docker_command.push(format!("{}=\"{}\"", key, value));
+      docker_command.push(format!("{}={}", argument(key), quote(value)));
     }
 
     if let Some(working_dir) = &self.working_dir {
       docker_command.push("-w".to_string());
-      docker_command.push(working_dir.to_string());
+      docker_command.push(argument(working_dir));
     }
 
     if let Some(entrypoint) = &self.entrypoint {
       docker_command.push("--entrypoint".to_string());
-      docker_command.push(entrypoint.to_string());
+      docker_command.push(argument(entrypoint));
     }
 
     if let Some(name) = &self.name {
       docker_command.push("--name".to_string());
-      docker_command.push(name.to_string());
+      docker_command.push(argument(name));
     }
 
-    docker_command.push(self.image.clone());
+    docker_command.push(argument(&self.image));
 
     docker_command.join(" ")
   }
diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 7c543fc..d529174 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -1,6 +1,6 @@
 use crate::{
   command::Command,
-  docker::Docker,
+  docker::{argument, Docker},
   executors::Executor,
   metadata::{Metadata, PathBufTryToString},
   utils,
@@ -56,7 +56,7 @@ impl Executor for DockerExecutor {
         signal = ctx.signal.recv() => {
           log::trace!("Killing running docker: {}", metadata.docker_name);
           // Kill the container on step run error
-          Command::new(format!("docker kill {}", metadata.docker_name))
+          Command::new(format!("docker kill {}", argument(&metadata.docker_name)))
             .exec()
             .await
             .ok();
-- 
2.43.0


From c6b61d32eecdbda9b5328fd2e0449b57f4f9cd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 25/33] fix: pass every form of a volume on to docker

---
 crates/runner/src/docker.rs           | 6 ++++++
 crates/runner/src/executors/docker.rs | 4 +---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/runner/src/docker.rs b/crates/runner/src/docker.rs
index f0cc561..50f2033 100644
--- a/crates/runner/src/docker.rs
+++ b/crates/runner/src/docker.rs
@@ -94,6 +94,12 @@ impl Docker {
     self
   }
 
+  /// A volume as it is written for docker, such as `from:to:ro`.
+  pub fn raw_volume(mut self, volume: impl Into<String>) -> Self {
+    self.volumes.push(volume.into());
+    self
+  }
+
   fn generate_docker_command(&self) -> String {
     let mut docker_command: Vec<String> = ["docker", "run", "--tty"]
       .iter()
diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index d529174..1be1cca 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -117,9 +117,7 @@ impl DockerExecutor {
 
     if let Some(Some(volumes)) = ctx.command.container.as_ref().map(|c| c.volumes.clone()) {
       for volume in volumes {
-        if let [host_path, container_path] = volume.split(':').collect::<Vec<&str>>()[..] {
-          docker = docker.volume(host_path, container_path);
-        }
+        docker = docker.raw_volume(volume);
       }
     }
 
-- 
2.43.0


From fa21b4eff12917f39a1ddf97dae2a3f92a998037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 26/33] fix: keep integers in environments that a floating
 point number cannot represent

---
 crates/astro-run/src/types/envs.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/astro-run/src/types/envs.rs b/crates/astro-run/src/types/envs.rs
index 56471bb..88b8cce 100644
--- a/crates/astro-run/src/types/envs.rs
+++ b/crates/astro-run/src/types/envs.rs
@@ -13,6 +13,8 @@ pub enum EnvironmentVariable {
 #[serde(untagged)]
 enum RawEnvironmentVariable {
   String(String),
+  Signed(i64),
+  Unsigned(u64),
   Number(f64),
   Boolean(bool),
 }
@@ -21,6 +23,8 @@ impl From<RawEnvironmentVariable> for EnvironmentVariable {
   fn from(raw: RawEnvironmentVariable) -> Self {
     match raw {
       RawEnvironmentVariable::String(s) => EnvironmentVariable::String(s),
+      RawEnvironmentVariable::Signed(n) => EnvironmentVariable::from_integer(n as i128),
+      RawEnvironmentVariable::Unsigned(n) => EnvironmentVariable::from_integer(n as i128),
       // JSON has no infinity and no NaN, a remote runner could not be sent them as numbers.
       RawEnvironmentVariable::Number(n) if !n.is_finite() => {
         EnvironmentVariable::String(n.to_string())
@@ -31,6 +35,16 @@ impl From<RawEnvironmentVariable> for EnvironmentVariable {
   }
 }
 
+impl EnvironmentVariable {
+  /// Integers that a floating point number cannot represent are kept as they were written.
+  fn from_integer(n: i128) -> Self {
+    match n as f64 {
+      number if number as i128 == n => EnvironmentVariable::Number(number),
+      _ => EnvironmentVariable::String(n.to_string()),
+    }
+  }
+}
+
 impl std::fmt::Display for EnvironmentVariable {
   fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
     match self {
-- 
2.43.0


From 09156a6640fa8e3711721a441794977a481a88b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:27 +0000
Subject: [PATCH 27/33] fix: give containers names that docker accepts

---
 crates/runner/src/metadata.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/metadata.rs b/crates/runner/src/metadata.rs
index ccd76a8..5bbf80e 100644
--- a/crates/runner/src/metadata.rs
+++ b/crates/runner/src/metadata.rs
@@ -38,6 +38,28 @@ pub fn directory_name(identifier: &str) -> String {
   name
 }
 
+/// The name of the container of a step.
+///
+/// Docker only accepts names which consist of letters, digits, `_`, `.` and `-` and begin with a
+/// letter or a digit, the identifiers may contain anything: other characters are escaped between
+/// dots.
+pub fn container_name(step_name: &str) -> String {
+  let mut name = String::with_capacity(step_name.len());
+  if !step_name.starts_with(|c: char| c.is_ascii_alphanumeric()) {
+    name.push_str("x.");
+  }
+
+  for c in step_name.chars() {
+    match c {
+      '-' | '_' => name.push(c),
+      c if c.is_ascii_alphanumeric() => name.push(c),
+      c => name.push_str(&format!(".{:x}.", c as u32)),
+    }
+  }
+
+  name
+}
+
 /// The directory in which all workflows of a repository are run.
 pub fn repository_directory(
   runner_working_directory: PathBuf,
@@ -138,7 +160,7 @@ impl MetadataBuilder {
     let step_host_working_directory = job_directory.join(step_number.to_string());
 
     let entrypoint_path = step_host_working_directory.join("entrypoint");
-    let docker_name = format!("{}-{}-{}", workflow_id, job_key, step_number);
+    let docker_name = container_name(&format!("{}-{}-{}", workflow_id, job_key, step_number));
     let docker_working_directory = String::from("/home/runner/work");
 
     Metadata {
-- 
2.43.0


From 3cff7e9a52c27b8c8162ee3d6c99424c6a301c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:48 +0000
Subject: [PATCH 28/33] fix: take all pages of changed files into account

---
 .../execution_context/condition_matcher.rs    | 76 +++++++++++++------
 1 file changed, 52 insertions(+), 24 deletions(-)

diff --git a/crates/astro-run/src/execution_context/condition_matcher.rs b/crates/astro-run/src/execution_context/condition_matcher.rs
index a4d7abf..9e730b3 100644
--- a/crates/astro-run/src/execution_context/condition_matcher.rs
+++ b/crates/astro-run/src/execution_context/condition_matcher.rs
@@ -1,4 +1,6 @@
 use crate::{Condition, ConditionPayload, Error, GithubAuthorization, Result, TriggerEvent};
+use octocrate::pulls::list_files;
+use octocrate::repos::get_commit;
 use octocrate::{APIConfig, AppAuthorization, GitHubAPI, PersonalAccessToken};
 use parking_lot::Mutex;
 use std::sync::Arc;
@@ -105,17 +107,27 @@ impl ConditionMatcher {
     } = self.event.as_ref().unwrap();
     let github_api = self.get_github_api_by_repo(repo_owner, repo_name).await?;
 
-    let commit = github_api
-      .repos
-      .get_commit(repo_owner, repo_name, sha)
-      .send()
-      .await
-      .map_err(|e| Error::internal_runtime_error(format!("Failed to get commit: {}", e)))?;
-
-    let files: Vec<String> = commit
-      .files
-      .map(|files| files.iter().map(|f| f.filename.clone()).collect())
-      .unwrap_or(vec![]);
+    let mut files: Vec<String> = vec![];
+
+    // The files of a large commit are spread over several pages
+    for page in 1.. {
+      let query = get_commit::Query::builder().page(page).build();
+      let response = github_api
+        .repos
+        .get_commit(repo_owner, repo_name, sha)
+        .query(&query)
+        .send_with_response()
+        .await
+        .map_err(|e| Error::internal_runtime_error(format!("Failed to get commit: {}", e)))?;
+
+      let page_files = response.data.files.unwrap_or_default();
+      files.extend(page_files.into_iter().map(|f| f.filename));
+
+      let link = response.headers.get("link");
+      if !has_next_page(link.and_then(|link| link.to_str().ok())) {
+        break;
+      }
+    }
 
     Ok(files)
   }
@@ -134,20 +146,31 @@ impl ConditionMatcher {
     } = self.event.as_ref().unwrap();
     let github_api = self.get_github_api_by_repo(repo_owner, repo_name).await?;
 
-    let pull_request_files = github_api
-      .pulls
-      .list_files(
-        repo_owner,
-        repo_name,
-        pr_number.ok_or(Error::workflow_config_error("pr_number is not provided"))?,
-      )
-      .send()
-      .await
-      .map_err(|e| {
-        Error::internal_runtime_error(format!("Failed to get pull request files: {}", e))
-      })?;
+    let pr_number = pr_number.ok_or(Error::workflow_config_error("pr_number is not provided"))?;
+    let mut files: Vec<String> = vec![];
+
+    // The files of a large pull request are spread over several pages
+    for page in 1.. {
+      let query = list_files::Query::builder().page(page).per_page(100).build();
+      let response = github_api
+        .pulls
+        .list_files(repo_owner, repo_name, pr_number)
+        .query(&query)
+        .send_with_response()
+        .await
+        .map_err(|e| {
+          Error::internal_runtime_error(format!("Failed to get pull request files: {}", e))
+        })?;
+
+      files.extend(response.data.into_iter().map(|f| f.filename));
+
+      let link = response.headers.get("link");
+      if !has_next_page(link.and_then(|link| link.to_str().ok())) {
+        break;
+      }
+    }
 
-    Ok(pull_request_files.into_iter().map(|f| f.filename).collect())
+    Ok(files)
   }
 
   async fn get_github_api_by_repo(
@@ -227,6 +250,11 @@ impl ConditionMatcher {
   }
 }
 
+/// Whether a `Link` header of GitHub refers to a next page
+fn has_next_page(link: Option<&str>) -> bool {
+  link.is_some_and(|link| link.contains("rel=\"next\""))
+}
+
 #[cfg(test)]
 mod tests {
   use super::*;
-- 
2.43.0


From fa5e79b790b744fee089058d6d778ef5ea8642a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:15 +0000
Subject: [PATCH 29/33] fix: an invalid private key of the GitHub App no longer
 stops a run for good

---
 .../src/execution_context/condition_matcher.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/astro-run/src/execution_context/condition_matcher.rs b/crates/astro-run/src/execution_context/condition_matcher.rs
index 9e730b3..7c8d8f8 100644
--- a/crates/astro-run/src/execution_context/condition_matcher.rs
+++ b/crates/astro-run/src/execution_context/condition_matcher.rs
@@ -1,8 +1,9 @@
 use crate::{Condition, ConditionPayload, Error, GithubAuthorization, Result, TriggerEvent};
 use octocrate::pulls::list_files;
 use octocrate::repos::get_commit;
-use octocrate::{APIConfig, AppAuthorization, GitHubAPI, PersonalAccessToken};
+use octocrate::{APIConfig, AppAuthorization, ExpirableToken, GitHubAPI, PersonalAccessToken};
 use parking_lot::Mutex;
+use std::panic::{self, AssertUnwindSafe};
 use std::sync::Arc;
 
 /// Stands in for the GitHub API in model checking: asked with the kind of event, answers with the changed files.
@@ -181,7 +182,7 @@ impl ConditionMatcher {
     let github_auth = self.github_auth.as_ref().unwrap();
 
     if github_auth.is_personal_access_token() {
-      return Ok(self.create_github_api());
+      return self.create_github_api();
     }
 
     self
@@ -194,7 +195,7 @@ impl ConditionMatcher {
     repo_owner: &String,
     repo_name: &String,
   ) -> crate::Result<GitHubAPI> {
-    let github_api = self.create_github_api();
+    let github_api = self.create_github_api()?;
 
     let installation = github_api
       .apps
@@ -225,7 +226,7 @@ impl ConditionMatcher {
     Ok(GitHubAPI::new(&config))
   }
 
-  fn create_github_api(&self) -> GitHubAPI {
+  fn create_github_api(&self) -> crate::Result<GitHubAPI> {
     let github_auth = self.github_auth.as_ref().unwrap();
 
     match &github_auth {
@@ -234,7 +235,7 @@ impl ConditionMatcher {
 
         let config = APIConfig::with_token(access_token).shared();
 
-        GitHubAPI::new(&config)
+        Ok(GitHubAPI::new(&config))
       }
       GithubAuthorization::GithubApp {
         app_id,
@@ -242,9 +243,14 @@ impl ConditionMatcher {
       } => {
         let authorization = AppAuthorization::new(app_id.to_string(), private_key);
 
+        // Generating a token panics if the private key is invalid
+        panic::catch_unwind(AssertUnwindSafe(|| authorization.get_token())).map_err(|_| {
+          Error::internal_runtime_error("The private key of the GitHub App is invalid")
+        })?;
+
         let config = APIConfig::with_token(authorization).shared();
 
-        GitHubAPI::new(&config)
+        Ok(GitHubAPI::new(&config))
       }
     }
   }
-- 
2.43.0


From 53ef8935708bc19bc1036812cb986d79ac8566cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:07 +0000
Subject: [PATCH 30/33] fix: deliver the timeout of a step that elapses while a
 log is being forwarded

---
 crates/astro-run/src/execution_context/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index ded8e7d..ff5063a 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -116,11 +116,14 @@ impl ExecutionContext {
     // Started once, so that logs do not put the timeout off
     let timeout_sleep = time::sleep(timeout);
     tokio::pin!(timeout_sleep);
+    let mut timed_out = false;
 
     loop {
       tokio::select! {
         // Timeout
-        _ = &mut timeout_sleep, if !timeout_sleep.is_elapsed() => {
+        // (the sleep may have elapsed while a log was being forwarded)
+        _ = &mut timeout_sleep, if !timed_out => {
+          timed_out = true;
           // Ignore error
           signal.timeout().ok();
         }
-- 
2.43.0


From 66d12572a0086883f6233c00e1127e3806f805a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:55 +0000
Subject: [PATCH 31/33] fix: a remote step that outlives its client no longer
 makes its next run deaf to signals

---
 crates/remote-runner/src/runner_server.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/remote-runner/src/runner_server.rs b/crates/remote-runner/src/runner_server.rs
index afab233..db7c0af 100644
--- a/crates/remote-runner/src/runner_server.rs
+++ b/crates/remote-runner/src/runner_server.rs
@@ -15,7 +15,7 @@ pub struct AstroRunRemoteRunnerServer {
   support_host: bool,
   runner: Arc<Box<dyn Runner>>,
   plugin_driver: SharedPluginDriver,
-  signals: Arc<Mutex<HashMap<StepId, astro_run::AstroRunSignal>>>,
+  signals: Arc<Mutex<HashMap<StepId, Arc<astro_run::AstroRunSignal>>>>,
 }
 
 impl AstroRunRemoteRunnerServer {
@@ -43,15 +43,24 @@ impl AstroRunRemoteRunnerServer {
     runner: Arc<Box<dyn Runner>>,
     sender: mpsc::Sender<Result<RunResponse, tonic::Status>>,
     ctx: astro_run::Context,
-    signals: Arc<Mutex<HashMap<StepId, astro_run::AstroRunSignal>>>,
+    signal: Arc<astro_run::AstroRunSignal>,
+    signals: Arc<Mutex<HashMap<StepId, Arc<astro_run::AstroRunSignal>>>>,
   ) {
     let id = ctx.id.clone();
 
+    // When the client was lost, the step may have been started again before it is completed.
+    let remove_signal = move |id: &StepId| {
+      let mut signals = signals.lock();
+      if signals.get(id).is_some_and(|s| Arc::ptr_eq(s, &signal)) {
+        signals.remove(id);
+      }
+    };
+
     tokio::spawn(async move {
       let response = runner.run(ctx).await;
 
       if response.is_err() {
-        signals.lock().remove(&id);
+        remove_signal(&id);
       }
 
       let mut stream = response?;
@@ -64,7 +73,7 @@ impl AstroRunRemoteRunnerServer {
 
       // Remove signal once step is completed. The client's event for that may arrive
       // when the next run of the step has already started.
-      signals.lock().remove(&id);
+      remove_signal(&id);
 
       let result = stream.result().ok_or(Error::internal_runtime_error(
         "Cannot get result from runner".to_string(),
@@ -96,14 +105,16 @@ impl RemoteRunnerExt for AstroRunRemoteRunnerServer {
 
     let context = request.into_inner();
 
+    let signal = Arc::new(context.signal.clone());
+
     self
       .signals
       .lock()
-      .insert(context.id.clone(), context.signal.clone());
+      .insert(context.id.clone(), signal.clone());
 
     let runner = self.runner.clone();
 
-    Self::run(runner, tx, context, self.signals.clone());
+    Self::run(runner, tx, context, signal, self.signals.clone());
 
     Ok(tonic::Response::new(ReceiverStream::new(rx)))
   }
-- 
2.43.0


From 48dd51ad0f69fd84a015eb3b34ae506a7d131bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:15 +0000
Subject: [PATCH 32/33] fix: clean up the directory of a workflow none of whose
 steps ran on this runner

---
 crates/runner/src/astro_runner.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/runner/src/astro_runner.rs b/crates/runner/src/astro_runner.rs
index 13a2d82..d1c1c71 100644
--- a/crates/runner/src/astro_runner.rs
+++ b/crates/runner/src/astro_runner.rs
@@ -29,6 +29,17 @@ impl AstroRunner {
 
 #[astro_run::async_trait]
 impl Runner for AstroRunner {
+  async fn on_run_workflow(&self, event: astro_run::RunWorkflowEvent) -> HookNoopResult {
+    // Its directory must be known on completion, even when none of its steps has been run here
+    let events = &mut self.state.lock().workflow_events;
+    match event.trigger_event {
+      Some(trigger_event) => events.insert(event.source.id, trigger_event),
+      None => events.remove(&event.source.id),
+    };
+
+    Ok(())
+  }
+
   async fn on_workflow_completed(&self, result: astro_run::WorkflowRunResult) -> HookNoopResult {
     if let Err(err) = self.cleanup_workflow_working_directory(result) {
       log::error!("AstroRunner: cleanup error: {}", err);
-- 
2.43.0


From 35a3c69cc513f02e37f3f22a6f6d13cfe4a1c87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:59 +0000
Subject: [PATCH 33/33] fix: remove the directory of a docker step before the
 step ends

---
 crates/runner/src/command.rs          | 13 +++++++++---
 crates/runner/src/executors/docker.rs | 30 +++++++++++++++++++--------
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/crates/runner/src/command.rs b/crates/runner/src/command.rs
index b464028..ca7c860 100644
--- a/crates/runner/src/command.rs
+++ b/crates/runner/src/command.rs
@@ -57,6 +57,15 @@ impl Command {
   }
 
   pub async fn run(&mut self, sender: StreamSender) -> Result<()> {
+    let result = self.run_to_result(&sender).await?;
+
+    sender.end(result);
+
+    Ok(())
+  }
+
+  /// Runs the command and reports its output, but leaves it to the caller to end the stream.
+  pub(crate) async fn run_to_result(&mut self, sender: &StreamSender) -> Result<RunResult> {
     let mut command = self.build_command();
     let mut child = command
       .stdout(Stdio::piped())
@@ -96,9 +105,7 @@ impl Command {
       })
       .unwrap_or_else(|| RunResult::Failed { exit_code: 1 });
 
-    sender.end(res);
-
-    Ok(())
+    Ok(res)
   }
 
   async fn read_lines(stream: impl AsyncRead + Unpin, report: impl Fn(String)) {
diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 1be1cca..802021a 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -47,11 +47,13 @@ impl Executor for DockerExecutor {
       utils::create_executable_file(&metadata.entrypoint_path, &ctx.command.run).await?;
 
       // Run the command
-      tokio::select! {
-        res = command.run(sender.clone()) => {
-          if let Err(err) = res {
+      let (result, signal) = tokio::select! {
+        res = command.run_to_result(&sender) => {
+          if let Err(err) = &res {
             log::error!("Step run error: {}", err);
           }
+
+          (res.ok(), None)
         }
         signal = ctx.signal.recv() => {
           log::trace!("Killing running docker: {}", metadata.docker_name);
@@ -62,16 +64,26 @@ impl Executor for DockerExecutor {
             .ok();
 
           log::trace!("Step received signal: {:?}", signal);
-          if let astro_run::Signal::Cancel = signal {
-            sender.cancelled();
-          } else {
-            sender.timeout();
+          (None, Some(signal))
+        }
+      };
+
+      // Clean up working directory. Once the step has ended, its workflow may be run again
+      // and have put the next script there.
+      if let Err(err) = fs::remove_dir_all(&metadata.step_host_working_directory).await {
+        log::error!("Failed to clean up step working directory: {}", err);
+      }
+
+      match signal {
+        Some(astro_run::Signal::Cancel) => sender.cancelled(),
+        Some(astro_run::Signal::Timeout) => sender.timeout(),
+        None => {
+          if let Some(result) = result {
+            sender.end(result);
           }
         }
       }
 
-      // Clean up working directory
-      fs::remove_dir_all(&metadata.step_host_working_directory).await?;
       log::trace!("Step run finished");
     } else {
       log::trace!("Step is already completed");
-- 
2.43.0

