From 1b8d5cc9db49ccc92c4cb9cc40e479482bdb6fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 01/25] fix: start each waiting job only once

---
 crates/astro-run/src/workflow/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/workflow/mod.rs b/crates/astro-run/src/workflow/mod.rs
index 4e7c511..d642207 100644
--- a/crates/astro-run/src/workflow/mod.rs
+++ b/crates/astro-run/src/workflow/mod.rs
@@ -96,7 +96,6 @@ impl Workflow {
         workflow_state = WorkflowState::Cancelled;
       }
 
-      waiting_jobs.retain(|(k, _)| k != &key);
       job_results.insert(key, job_result);
 
       if job_results.len() == total_jobs {
@@ -106,6 +105,7 @@ impl Workflow {
         break;
       }
 
+      let mut started_jobs: Vec<Id> = vec![];
       for (job_id, job) in waiting_jobs.iter() {
         if !job.depends_on.is_empty() {
           let mut all_finished = true;
@@ -117,10 +117,13 @@ impl Workflow {
           }
 
           if all_finished {
+            started_jobs.push(job_id.clone());
             self.run_job(job_id.clone(), job.clone(), ctx.clone(), sender.clone());
           }
         }
       }
+      // A started job no longer waits: it must not be started again when another job finishes
+      waiting_jobs.retain(|(k, _)| !started_jobs.contains(k));
     }
 
     let completed_at = chrono::Utc::now();
-- 
2.43.0


From 4968d2560bcd4e5d5f6c404b48b9f91acb5ab363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 02/25] fix: reject workflows whose job dependencies form a
 cycle

---
 crates/astro-run/src/user_config.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crates/astro-run/src/user_config.rs b/crates/astro-run/src/user_config.rs
index 20e07ff..05f90a5 100644
--- a/crates/astro-run/src/user_config.rs
+++ b/crates/astro-run/src/user_config.rs
@@ -113,6 +113,28 @@ impl UserWorkflow {
       ));
     }
 
+    // Jobs on a dependency cycle (or behind one) would wait for each other forever
+    let mut runnable: Vec<&Id> = vec![];
+    while runnable.len() < workflow.jobs.len() {
+      let next = workflow.jobs.iter().find(|(job_name, job)| {
+        !runnable.contains(job_name)
+          && job
+            .depends_on
+            .iter()
+            .flatten()
+            .all(|depend_job_key| runnable.contains(&depend_job_key))
+      });
+
+      match next {
+        Some((job_name, _)) => runnable.push(job_name),
+        None => {
+          return Err(Error::workflow_config_error(
+            "Jobs cannot depend on each other in a cycle",
+          ))
+        }
+      }
+    }
+
     Ok(())
   }
 }
-- 
2.43.0


From 4583ef2ded0bdeb1d49c1bf6b68660bbefe429c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 03/25] fix: count the step timeout from the start of the step

---
 crates/astro-run/src/execution_context/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index fb4ea6e..cdbc24e 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -105,10 +105,16 @@ impl ExecutionContext {
 
     self.call_on_state_change(event).await;
 
+    // One timer for the whole step: it must not restart with every log line
+    let sleep = time::sleep(timeout);
+    tokio::pin!(sleep);
+    let mut is_timeout = false;
+
     loop {
       tokio::select! {
         // Timeout
-        _ = time::sleep(timeout) => {
+        _ = &mut sleep, if !is_timeout => {
+          is_timeout = true;
           // Ignore error
           signal.timeout().ok();
         }
-- 
2.43.0


From 1922c88c1738b390e5cd3d1c3bf648a9f91bec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 04/25] fix: keep a cancelled job cancelled for its later steps

---
 crates/astro-run/src/execution_context/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index cdbc24e..7ef470e 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -54,6 +54,10 @@ impl ExecutionContext {
 
     // Step signal
     let signal = AstroRunSignal::new();
+    // The job signal is received only once; a job cancelled during an earlier step stays cancelled
+    if job_signal.is_cancelled() {
+      signal.cancel().ok();
+    }
 
     let mut receiver = match self
       .runner
-- 
2.43.0


From bc57c150118546eb37743d8c9b3cb4ced096e016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 05/25] fix: end a stream under a single lock so the first
 result wins

---
 crates/astro-run/src/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/astro-run/src/stream.rs b/crates/astro-run/src/stream.rs
index 0223139..d0d1081 100644
--- a/crates/astro-run/src/stream.rs
+++ b/crates/astro-run/src/stream.rs
@@ -104,12 +104,12 @@ impl StreamSender {
   }
 
   pub fn end(&self, result: RunResult) {
-    if self.is_ended() {
+    let mut state = self.state.lock();
+    if state.result.is_some() {
       log::trace!("StreamSender: already ended");
       return;
     }
 
-    let mut state = self.state.lock();
     state.result = Some(result);
 
     if let Some(waker) = state.waker.take() {
-- 
2.43.0


From 2eec84a746f274ae9e5ef72f7bc3b87ff0b241f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:19 +0000
Subject: [PATCH 06/25] fix: keep a host step off a runner without host support

---
 crates/scheduler/src/default.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/scheduler/src/default.rs b/crates/scheduler/src/default.rs
index 8ca7251..d3b4797 100644
--- a/crates/scheduler/src/default.rs
+++ b/crates/scheduler/src/default.rs
@@ -62,8 +62,9 @@ impl Scheduler for DefaultScheduler {
         if r.id == last_used_id {
           if is_runs_on_host {
             let container_name = container_name.clone().unwrap();
-            return r.support_host && container_name == format!("host/{}", r.os)
-              || container_name == format!("host/{}-{}", r.os, r.arch);
+            return r.support_host
+              && (container_name == format!("host/{}", r.os)
+                || container_name == format!("host/{}-{}", r.os, r.arch));
           }
 
           return true;
-- 
2.43.0


From a469b0cc21ba76edcdafc22072cb0572d5b430b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 07/25] fix: tell the scheduler about runs, jobs and steps of
 remote runners

---
 crates/remote-runner/src/client.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index b06dee4..1f52c25 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -72,6 +72,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_step_completed(&self, result: astro_run::StepRunResult) -> HookNoopResult {
+    self.scheduler.on_step_completed(result.clone());
+
     let event = ProtocolEvent::StepCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -82,6 +84,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_job_completed(&self, result: astro_run::JobRunResult) -> HookNoopResult {
+    self.scheduler.on_job_completed(result.clone());
+
     let event = ProtocolEvent::JobCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -92,6 +96,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_workflow_completed(&self, result: astro_run::WorkflowRunResult) -> HookNoopResult {
+    self.scheduler.on_workflow_completed(result.clone());
+
     let event = ProtocolEvent::WorkflowCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -112,6 +118,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_step(&self, event: astro_run::RunStepEvent) -> HookNoopResult {
+    self.scheduler.on_run_step(event.source.clone());
+
     let event = ProtocolEvent::RunStep(event);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -122,6 +130,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_job(&self, event: astro_run::RunJobEvent) -> HookNoopResult {
+    self.scheduler.on_run_job(event.source.clone());
+
     let event = ProtocolEvent::RunJob(event);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -132,6 +142,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_workflow(&self, event: astro_run::RunWorkflowEvent) -> HookNoopResult {
+    self.scheduler.on_run_workflow(event.source.clone());
+
     let event = ProtocolEvent::RunWorkflow(event);
 
     if let Err(err) = self.event_sender.send(event) {
-- 
2.43.0


From 421bd0e8dac463d64659fd1bd54b5cc55f2fab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 08/25] fix: keep forwarding events to remote runners after
 falling behind

---
 crates/remote-runner/src/client.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index 1f52c25..fcefc51 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -203,7 +203,16 @@ impl AstroRunRemoteRunnerClient {
       }
     }
 
-    while let Ok(event) = receiver.recv().await {
+    loop {
+      let event = match receiver.recv().await {
+        Ok(event) => event,
+        Err(broadcast::error::RecvError::Lagged(count)) => {
+          log::warn!("Forwarding is behind, {} events were skipped", count);
+          continue;
+        }
+        Err(broadcast::error::RecvError::Closed) => break,
+      };
+
       let clients = self.clients.lock().clone();
       for (_, mut client) in clients {
         if let Err(err) = client.client.send_event(event.clone()).await {
-- 
2.43.0


From 60cec6321223c262faf9da372869ed112be1df5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 09/25] fix: read both outputs of a command to their end

---
 crates/runner/src/command.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/crates/runner/src/command.rs b/crates/runner/src/command.rs
index bfff992..121c6f0 100644
--- a/crates/runner/src/command.rs
+++ b/crates/runner/src/command.rs
@@ -73,39 +73,39 @@ impl Command {
       "Failed to get stderr from child process".to_string(),
     ))?;
 
-    let out = BufReader::new(out);
-    let err = BufReader::new(err);
+    let mut lines = BufReader::new(out).split(b'\n');
+    let mut errors = BufReader::new(err).split(b'\n');
+    let mut lines_open = true;
+    let mut errors_open = true;
 
-    let mut lines = out.lines();
-    let mut errors = err.lines();
-
-    loop {
+    // Either of the two may end before the other
+    while lines_open || errors_open {
       tokio::select! {
-        line = lines.next_line() => {
+        line = lines.next_segment(), if lines_open => {
           match line {
             Ok(Some(line)) => {
-              sender.log(line);
+              sender.log(Self::to_line(line));
             }
             Ok(None) => {
-                break;
+              lines_open = false;
             }
             Err(err) => {
               sender.error(err.to_string());
-              break;
+              lines_open = false;
             }
           }
         }
-        error = errors.next_line() => {
+        error = errors.next_segment(), if errors_open => {
           match error {
             Ok(Some(error)) => {
-              sender.error(error);
+              sender.error(Self::to_line(error));
             }
             Ok(None) => {
-              break;
+              errors_open = false;
             }
             Err(err) => {
               sender.error(err.to_string());
-              break;
+              errors_open = false;
             }
           }
         }
@@ -132,6 +132,14 @@ impl Command {
     Ok(())
   }
 
+  fn to_line(mut line: Vec<u8>) -> String {
+    if line.last() == Some(&b'\r') {
+      line.pop();
+    }
+
+    String::from_utf8_lossy(&line).into_owned()
+  }
+
   fn build_command(&self) -> Cmd {
     let mut command;
 
-- 
2.43.0


From 1b81d698971076d112cdbbfd25a673d56d0c19da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 10/25] fix: finish a step once its command has ended

---
 crates/runner/src/executors/docker.rs |  6 ++++--
 crates/runner/src/executors/host.rs   | 11 ++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 8623861..73dcd60 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -48,8 +48,10 @@ impl Executor for DockerExecutor {
 
       // Run the command
       tokio::select! {
-        Err(err) = command.run(sender.clone()) => {
-          log::error!("Step run error: {}", err);
+        res = command.run(sender.clone()) => {
+          if let Err(err) = res {
+            log::error!("Step run error: {}", err);
+          }
         }
         signal = ctx.signal.recv() => {
           log::trace!("Killing running docker: {}", metadata.docker_name);
diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index fb1f244..3b42f75 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -37,8 +37,10 @@ impl Executor for HostExecutor {
 
       tokio::select! {
         // Run the command
-        Err(err) = command.run(sender.clone()) => {
-          log::error!("Step run error: {}", err);
+        res = command.run(sender.clone()) => {
+          if let Err(err) = res {
+            log::error!("Step run error: {}", err);
+          }
         }
         signal = ctx.signal.recv() => {
           // TODO: cancel the command
@@ -51,9 +53,8 @@ impl Executor for HostExecutor {
         }
       }
 
-      // Clean up working directory
-      fs::remove_dir_all(&metadata.job_data_directory).await?;
-
+      // The job data directory is shared by the steps of the job. It is cleaned up when the workflow
+      // is completed
       log::trace!("Step run finished");
     } else {
       log::trace!("Step run has been completed before it started");
-- 
2.43.0


From 53a85dc0d0539a94abdd4257366ac5022431d455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 11/25] fix: end a step cancelled before it starts as cancelled

---
 crates/runner/src/executors/docker.rs | 6 ++++++
 crates/runner/src/executors/host.rs   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 73dcd60..729dc87 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -75,6 +75,12 @@ impl Executor for DockerExecutor {
       log::trace!("Step run finished");
     } else {
       log::trace!("Step is already completed");
+
+      if ctx.signal.is_cancelled() {
+        sender.cancelled();
+      } else {
+        sender.timeout();
+      }
     }
 
     Ok(())
diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index 3b42f75..edb0942 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -58,6 +58,12 @@ impl Executor for HostExecutor {
       log::trace!("Step run finished");
     } else {
       log::trace!("Step run has been completed before it started");
+
+      if ctx.signal.is_cancelled() {
+        sender.cancelled();
+      } else {
+        sender.timeout();
+      }
     }
 
     Ok(())
-- 
2.43.0


From 7a1e97bc3ab5a7479bbd33e1e3e066c634a2cfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 12/25] fix: stop the process of a cancelled step

---
 crates/runner/src/command.rs        | 2 ++
 crates/runner/src/executors/host.rs | 1 -
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/command.rs b/crates/runner/src/command.rs
index 121c6f0..7a234af 100644
--- a/crates/runner/src/command.rs
+++ b/crates/runner/src/command.rs
@@ -61,6 +61,8 @@ impl Command {
     let mut child = command
       .stdout(Stdio::piped())
       .stderr(Stdio::piped())
+      // Dropping the run, e.g. when the step is cancelled, stops the process
+      .kill_on_drop(true)
       .spawn()
       .map_err(|err| {
         Error::internal_runtime_error(format!("Failed to spawn child process: {}", err))
diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index edb0942..cc897c8 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -43,7 +43,6 @@ impl Executor for HostExecutor {
           }
         }
         signal = ctx.signal.recv() => {
-          // TODO: cancel the command
           log::trace!("Step run received signal: {:?}", signal);
           if let astro_run::Signal::Cancel = signal {
             sender.cancelled();
-- 
2.43.0


From 87d96b27dd96c40990d4c99b257b412d6afb1bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 13/25] fix: write the entrypoint to its end before it is used

---
 crates/runner/src/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/runner/src/utils.rs b/crates/runner/src/utils.rs
index dd14606..3f0440d 100644
--- a/crates/runner/src/utils.rs
+++ b/crates/runner/src/utils.rs
@@ -26,6 +26,9 @@ pub async fn create_executable_file(file_path: &PathBuf, content: &String) -> Re
 
   file.write_all(content.as_bytes()).await?;
 
+  // Wait for the content to be written
+  file.flush().await?;
+
   // Fix Text file busy
   drop(file);
 
-- 
2.43.0


From d425000fd1b3513e354e4e7b697621156e71b02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 14/25] fix: keep the shell from interpreting the configuration
 of a container

---
 crates/runner/src/docker.rs | 42 ++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/crates/runner/src/docker.rs b/crates/runner/src/docker.rs
index 64fc7bd..b1def3e 100644
--- a/crates/runner/src/docker.rs
+++ b/crates/runner/src/docker.rs
@@ -60,7 +60,7 @@ impl Docker {
   pub fn volume(mut self, from: impl Into<String>, to: impl Into<String>) -> Self {
     self
       .volumes
-      .push(format!("\"{}:{}\"", from.into(), to.into()));
+      .push(format!("\"{}:{}\"", escape(&from.into()), escape(&to.into())));
     self
   }
 
@@ -76,7 +76,7 @@ impl Docker {
 
     for security_opt in &self.security_opts {
       docker_command.push("--security-opt".to_string());
-      docker_command.push(security_opt.to_string());
+      docker_command.push(quote(security_opt));
     }
 
     for volume in &self.volumes {
@@ -86,25 +86,25 @@ impl Docker {
 
     for (key, value) in &self.environments {
       docker_command.push("-e".to_string());
-      docker_command.push(format!("{}=\"{}\"", key, value));
+      docker_command.push(format!("{}=\"{}\"", quote(key), escape(value)));
     }
 
     if let Some(working_dir) = &self.working_dir {
       docker_command.push("-w".to_string());
-      docker_command.push(working_dir.to_string());
+      docker_command.push(quote(working_dir));
     }
 
     if let Some(entrypoint) = &self.entrypoint {
       docker_command.push("--entrypoint".to_string());
-      docker_command.push(entrypoint.to_string());
+      docker_command.push(quote(entrypoint));
     }
 
     if let Some(name) = &self.name {
       docker_command.push("--name".to_string());
-      docker_command.push(name.to_string());
+      docker_command.push(quote(name));
     }
 
-    docker_command.push(self.image.clone());
+    docker_command.push(quote(&self.image));
 
     docker_command.join(" ")
   }
@@ -118,6 +118,34 @@ impl From<Docker> for Command {
   }
 }
 
+/// Escape a value so that the shell does not expand it between double quotes
+fn escape(value: &str) -> String {
+  if cfg!(target_os = "windows") {
+    return value.to_string();
+  }
+
+  let mut escaped = String::with_capacity(value.len());
+  for c in value.chars() {
+    if matches!(c, '\\' | '"' | '$' | '`') {
+      escaped.push('\\');
+    }
+    escaped.push(c);
+  }
+
+  escaped
+}
+
+/// Quote a value that is not plain for the shell
+fn quote(value: &str) -> String {
+  let is_plain = |c: char| c.is_ascii_alphanumeric() || "_-./:=@%+,".contains(c);
+
+  if cfg!(target_os = "windows") || (!value.is_empty() && value.chars().all(is_plain)) {
+    value.to_string()
+  } else {
+    format!("\"{}\"", escape(value))
+  }
+}
+
 #[cfg(test)]
 mod tests {
   use super::Docker;
-- 
2.43.0


From d788a66a002c6ec8051e59e0e94eb45139d2dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 15/25] fix: mount volumes that have options

---
 crates/runner/src/executors/docker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 729dc87..54abd7e 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -118,7 +118,8 @@ impl DockerExecutor {
 
     if let Some(Some(volumes)) = ctx.command.container.as_ref().map(|c| c.volumes.clone()) {
       for volume in volumes {
-        if let [host_path, container_path] = volume.split(':').collect::<Vec<&str>>()[..] {
+        // The container path may be followed by options, such as `:ro`
+        if let Some((host_path, container_path)) = volume.split_once(':') {
           docker = docker.volume(host_path, container_path);
         }
       }
-- 
2.43.0


From 9a484c10199ee1952bd8d1c1c195b72316eeb1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 16/25] fix: keep the files of a run in its own directories

---
 crates/runner/src/astro_runner.rs |  7 ++--
 crates/runner/src/metadata.rs     | 60 +++++++++++++++++++++++++------
 2 files changed, 55 insertions(+), 12 deletions(-)

diff --git a/crates/runner/src/astro_runner.rs b/crates/runner/src/astro_runner.rs
index 749c753..fad7a72 100644
--- a/crates/runner/src/astro_runner.rs
+++ b/crates/runner/src/astro_runner.rs
@@ -1,5 +1,6 @@
 use crate::{
   executors::{DockerExecutor, Executor, HostExecutor},
+  metadata::path_component,
   Plugin, PluginDriver, SharedPluginDriver,
 };
 use astro_run::{
@@ -103,10 +104,12 @@ impl AstroRunner {
     let mut directory = self.working_directory.clone();
 
     if let Some(event) = event {
-      directory = directory.join(&event.repo_owner).join(&event.repo_name);
+      directory = directory
+        .join(path_component(&event.repo_owner))
+        .join(path_component(&event.repo_name));
     }
 
-    directory = directory.join(result.id.inner());
+    directory = directory.join(path_component(&result.id.inner()));
 
     if directory.exists() {
       fs::remove_dir_all(directory)?;
diff --git a/crates/runner/src/metadata.rs b/crates/runner/src/metadata.rs
index f11c5ff..f1ca09e 100644
--- a/crates/runner/src/metadata.rs
+++ b/crates/runner/src/metadata.rs
@@ -73,7 +73,9 @@ impl MetadataBuilder {
     let mut repo_working_directory = runner_working_directory;
 
     if let Some((owner, name)) = self.repository {
-      repo_working_directory = repo_working_directory.join(owner).join(name);
+      repo_working_directory = repo_working_directory
+        .join(path_component(&owner))
+        .join(path_component(&name));
     }
 
     let cache_directory = repo_working_directory.join("caches");
@@ -82,19 +84,17 @@ impl MetadataBuilder {
     let job_key = step_id.job_key();
     let step_number = step_id.step_number();
 
-    let job_data_directory = repo_working_directory
-      .join(&workflow_id)
-      .join(&job_key)
-      .join("data");
+    let job_directory = repo_working_directory
+      .join(path_component(&workflow_id))
+      .join(path_component(&job_key));
+
+    let job_data_directory = job_directory.join("data");
 
     // Step working directory
-    let step_host_working_directory = repo_working_directory
-      .join(&workflow_id)
-      .join(&job_key)
-      .join(step_number.to_string());
+    let step_host_working_directory = job_directory.join(step_number.to_string());
 
     let entrypoint_path = step_host_working_directory.join("entrypoint");
-    let docker_name = format!("{}-{}-{}", workflow_id, job_key, step_number);
+    let docker_name = container_name(&format!("{}-{}-{}", workflow_id, job_key, step_number));
     let docker_working_directory = String::from("/home/runner/work");
 
     Metadata {
@@ -108,6 +108,46 @@ impl MetadataBuilder {
   }
 }
 
+/// Encode a name as a single component of a path, whatever characters it has
+pub fn path_component(name: &str) -> String {
+  match name {
+    "" => return "%".to_string(),
+    "." => return "%2e".to_string(),
+    ".." => return "%2e%2e".to_string(),
+    _ => {}
+  }
+
+  let mut component = String::with_capacity(name.len());
+  for c in name.chars() {
+    if matches!(c, '/' | '\\' | ':' | '%' | '\0') {
+      component.push_str(&format!("%{:02x}", c as u32));
+    } else {
+      component.push(c);
+    }
+  }
+
+  component
+}
+
+/// Encode a name with the characters that Docker allows in the name of a container
+fn container_name(name: &str) -> String {
+  let mut encoded = String::with_capacity(name.len());
+  for (index, byte) in name.bytes().enumerate() {
+    let is_plain = byte.is_ascii_alphanumeric() || (index > 0 && matches!(byte, b'_' | b'-'));
+    if is_plain {
+      encoded.push(byte as char);
+    } else {
+      // A container name starts with a letter or a digit
+      if index == 0 {
+        encoded.push_str("0.");
+      }
+      encoded.push_str(&format!(".{:02x}", byte));
+    }
+  }
+
+  encoded
+}
+
 #[cfg(test)]
 mod tests {
   use super::*;
-- 
2.43.0


From 9c055ed69321efdde339b16285b0e8a6b25de70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:08 +0000
Subject: [PATCH 17/25] fix: keep the containers of different runs apart

A workflow id and a job key may both contain a -, so two steps of different
runs could get the same container name: the second could not be started, and
cancelling one killed the container of the other.
---
 crates/runner/src/executors/docker.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 54abd7e..698da50 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -34,7 +34,11 @@ impl Executor for DockerExecutor {
       builder = builder.repository(event.repo_owner, event.repo_name);
     }
 
-    let metadata = builder.build();
+    let mut metadata = builder.build();
+
+    // Workflow ids and job keys may contain `-` themselves, keep apart where one ends
+    let workflow_id = ctx.command.id.workflow_id().inner();
+    metadata.docker_name = format!("{}.{}", metadata.docker_name, workflow_id.len());
 
     // Generate docker command
     let mut command = Self::into_command(ctx.clone(), metadata.clone())?;
-- 
2.43.0


From 501c89aa97b0b2478c15c0264b3d3c765988aa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 18/25] fix: clean up after the current run of a workflow, not
 an earlier one

The event of a run was kept for ever, so a workflow that had run for one
repository and ran again without an event left its files behind.
---
 crates/runner/src/astro_runner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/astro_runner.rs b/crates/runner/src/astro_runner.rs
index fad7a72..2190a1e 100644
--- a/crates/runner/src/astro_runner.rs
+++ b/crates/runner/src/astro_runner.rs
@@ -99,7 +99,8 @@ impl AstroRunner {
   }
 
   fn cleanup_workflow_working_directory(&self, result: astro_run::WorkflowRunResult) -> Result<()> {
-    let event = self.state.lock().workflow_events.get(&result.id).cloned();
+    // The workflow may run again for another event, or for none
+    let event = self.state.lock().workflow_events.remove(&result.id);
 
     let mut directory = self.working_directory.clone();
 
-- 
2.43.0


From 76d863c17b542ba1f9422cedfaace5de480e08cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 19/25] fix: keep workflows without a repository and caches in
 directories of their own

A workflow without a repository whose id is the owner of another one's
repository shared its directory and removed it at its end, and a workflow
called caches removed the caches of its repository.
---
 crates/runner/src/astro_runner.rs | 16 +++++-------
 crates/runner/src/metadata.rs     | 43 ++++++++++++++++++++++---------
 2 files changed, 37 insertions(+), 22 deletions(-)

diff --git a/crates/runner/src/astro_runner.rs b/crates/runner/src/astro_runner.rs
index 2190a1e..2a53f55 100644
--- a/crates/runner/src/astro_runner.rs
+++ b/crates/runner/src/astro_runner.rs
@@ -1,6 +1,6 @@
 use crate::{
   executors::{DockerExecutor, Executor, HostExecutor},
-  metadata::path_component,
+  metadata::{repository_directory, workflow_directory},
   Plugin, PluginDriver, SharedPluginDriver,
 };
 use astro_run::{
@@ -102,15 +102,11 @@ impl AstroRunner {
     // The workflow may run again for another event, or for none
     let event = self.state.lock().workflow_events.remove(&result.id);
 
-    let mut directory = self.working_directory.clone();
-
-    if let Some(event) = event {
-      directory = directory
-        .join(path_component(&event.repo_owner))
-        .join(path_component(&event.repo_name));
-    }
-
-    directory = directory.join(path_component(&result.id.inner()));
+    let repository = event
+      .as_ref()
+      .map(|event| (event.repo_owner.as_str(), event.repo_name.as_str()));
+    let repository_directory = repository_directory(self.working_directory.clone(), repository);
+    let directory = workflow_directory(repository_directory, &result.id.inner());
 
     if directory.exists() {
       fs::remove_dir_all(directory)?;
diff --git a/crates/runner/src/metadata.rs b/crates/runner/src/metadata.rs
index f1ca09e..4911e6b 100644
--- a/crates/runner/src/metadata.rs
+++ b/crates/runner/src/metadata.rs
@@ -70,23 +70,20 @@ impl MetadataBuilder {
     let runner_working_directory = self.runner_working_directory.unwrap();
     let step_id = self.step_id.unwrap();
 
-    let mut repo_working_directory = runner_working_directory;
+    let repository = self
+      .repository
+      .as_ref()
+      .map(|(owner, name)| (owner.as_str(), name.as_str()));
+    let repo_working_directory = repository_directory(runner_working_directory, repository);
 
-    if let Some((owner, name)) = self.repository {
-      repo_working_directory = repo_working_directory
-        .join(path_component(&owner))
-        .join(path_component(&name));
-    }
-
-    let cache_directory = repo_working_directory.join("caches");
+    let cache_directory = repo_working_directory.join(CACHES);
 
     let workflow_id = step_id.workflow_id().inner();
     let job_key = step_id.job_key();
     let step_number = step_id.step_number();
 
-    let job_directory = repo_working_directory
-      .join(path_component(&workflow_id))
-      .join(path_component(&job_key));
+    let job_directory =
+      workflow_directory(repo_working_directory, &workflow_id).join(path_component(&job_key));
 
     let job_data_directory = job_directory.join("data");
 
@@ -108,8 +105,30 @@ impl MetadataBuilder {
   }
 }
 
+const CACHES: &str = "caches";
+
+/// The directory of everything that belongs to a repository. Workflows without a repository have one
+/// of their own, which is not the name of an owner
+pub fn repository_directory(working_directory: PathBuf, repository: Option<(&str, &str)>) -> PathBuf {
+  match repository {
+    Some((owner, name)) => working_directory
+      .join(path_component(owner))
+      .join(path_component(name)),
+    None => working_directory.join("%local"),
+  }
+}
+
+/// The directory of a workflow, next to the caches of its repository
+pub fn workflow_directory(repository_directory: PathBuf, workflow_id: &str) -> PathBuf {
+  if workflow_id == CACHES {
+    return repository_directory.join("%63aches");
+  }
+
+  repository_directory.join(path_component(workflow_id))
+}
+
 /// Encode a name as a single component of a path, whatever characters it has
-pub fn path_component(name: &str) -> String {
+fn path_component(name: &str) -> String {
   match name {
     "" => return "%".to_string(),
     "." => return "%2e".to_string(),
-- 
2.43.0


From 0dfa4e3c2ea1129f52dc0f350e3a75d26b184969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:03 +0000
Subject: [PATCH 20/25] fix: keep running a job whose signal another run of the
 same workflow removed

---
 crates/astro-run/src/execution_context/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index 7ef470e..502e69b 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -47,10 +47,18 @@ impl ExecutionContext {
     self.call_on_state_change(event).await;
 
     // Job signal
+    let job_id = step.id.job_id();
     let job_signal = self
       .signal_manager
-      .get_signal(&step.id.job_id())
-      .expect("Missing job signal");
+      .get_signal(&job_id)
+      .unwrap_or_else(|| {
+        // Another run of the same job has completed and unregistered the signal
+        let signal = AstroRunSignal::new();
+        self
+          .signal_manager
+          .register_signal(job_id, signal.clone());
+        signal
+      });
 
     // Step signal
     let signal = AstroRunSignal::new();
-- 
2.43.0


From 0695e987a9069990dc3b233ce371687e1ff7458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:37 +0000
Subject: [PATCH 21/25] fix: changed files beyond the first page of a commit or
 pull request were ignored

---
 .../execution_context/condition_matcher.rs    | 79 +++++++++++++------
 1 file changed, 54 insertions(+), 25 deletions(-)

diff --git a/crates/astro-run/src/execution_context/condition_matcher.rs b/crates/astro-run/src/execution_context/condition_matcher.rs
index 3249f17..a4a5011 100644
--- a/crates/astro-run/src/execution_context/condition_matcher.rs
+++ b/crates/astro-run/src/execution_context/condition_matcher.rs
@@ -1,8 +1,13 @@
 use crate::{Condition, ConditionPayload, Error, GithubAuthorization, Result, TriggerEvent};
-use octocrate::{APIConfig, AppAuthorization, GitHubAPI, PersonalAccessToken};
+use octocrate::{pulls, repos, APIConfig, AppAuthorization, GitHubAPI, PersonalAccessToken};
 use parking_lot::Mutex;
 use std::sync::Arc;
 
+/// GitHub lists at most this many files of a commit at once
+const COMMIT_FILES_PER_PAGE: usize = 300;
+/// The most files of a pull request that GitHub lists at once
+const PULL_REQUEST_FILES_PER_PAGE: usize = 100;
+
 #[derive(Clone)]
 pub struct ConditionMatcher {
   pub github_auth: Option<GithubAuthorization>,
@@ -87,17 +92,27 @@ impl ConditionMatcher {
     } = self.event.as_ref().unwrap();
     let github_api = self.get_github_api_by_repo(repo_owner, repo_name).await?;
 
-    let commit = github_api
-      .repos
-      .get_commit(repo_owner, repo_name, sha)
-      .send()
-      .await
-      .map_err(|e| Error::internal_runtime_error(format!("Failed to get commit: {}", e)))?;
-
-    let files: Vec<String> = commit
-      .files
-      .map(|files| files.iter().map(|f| f.filename.clone()).collect())
-      .unwrap_or(vec![]);
+    let mut files: Vec<String> = vec![];
+
+    // The files of a commit are listed in pages
+    for page in 1_i64.. {
+      let query = repos::get_commit::Query::builder().page(page).build();
+      let commit = github_api
+        .repos
+        .get_commit(repo_owner, repo_name, sha)
+        .query(&query)
+        .send()
+        .await
+        .map_err(|e| Error::internal_runtime_error(format!("Failed to get commit: {}", e)))?;
+
+      let commit_files = commit.files.unwrap_or_default();
+      let is_last_page = commit_files.len() < COMMIT_FILES_PER_PAGE;
+      files.extend(commit_files.into_iter().map(|f| f.filename));
+
+      if is_last_page {
+        break;
+      }
+    }
 
     Ok(files)
   }
@@ -111,20 +126,34 @@ impl ConditionMatcher {
     } = self.event.as_ref().unwrap();
     let github_api = self.get_github_api_by_repo(repo_owner, repo_name).await?;
 
-    let pull_request_files = github_api
-      .pulls
-      .list_files(
-        repo_owner,
-        repo_name,
-        pr_number.ok_or(Error::workflow_config_error("pr_number is not provided"))?,
-      )
-      .send()
-      .await
-      .map_err(|e| {
-        Error::internal_runtime_error(format!("Failed to get pull request files: {}", e))
-      })?;
+    let pr_number = pr_number.ok_or(Error::workflow_config_error("pr_number is not provided"))?;
+    let mut files: Vec<String> = vec![];
+
+    // The files of a pull request are listed in pages
+    for page in 1_i64.. {
+      let query = pulls::list_files::Query::builder()
+        .per_page(PULL_REQUEST_FILES_PER_PAGE as i64)
+        .page(page)
+        .build();
+      let pull_request_files = github_api
+        .pulls
+        .list_files(repo_owner, repo_name, pr_number)
+        .query(&query)
+        .send()
+        .await
+        .map_err(|e| {
+          Error::internal_runtime_error(format!("Failed to get pull request files: {}", e))
+        })?;
+
+      let is_last_page = pull_request_files.len() < PULL_REQUEST_FILES_PER_PAGE;
+      files.extend(pull_request_files.into_iter().map(|f| f.filename));
+
+      if is_last_page {
+        break;
+      }
+    }
 
-    Ok(pull_request_files.into_iter().map(|f| f.filename).collect())
+    Ok(files)
   }
 
   async fn get_github_api_by_repo(
-- 
2.43.0


From 3425cb013df623d66ecacaf424d478f33acc6824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:12 +0000
Subject: [PATCH 22/25] fix: a malformed pattern hid the patterns after it

---
 crates/astro-run/src/types/condition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/astro-run/src/types/condition.rs b/crates/astro-run/src/types/condition.rs
index 2be4f91..fe455d1 100644
--- a/crates/astro-run/src/types/condition.rs
+++ b/crates/astro-run/src/types/condition.rs
@@ -109,8 +109,8 @@ fn is_match_patterns(values: &Vec<String>, patterns: &Vec<String>) -> bool {
           }
         }
         Err(err) => {
+          // Nothing matches it, but the other patterns still count
           log::error!("Invalid glob pattern: {}", err);
-          return false;
         }
       }
     }
-- 
2.43.0


From d0c942aaa1f64b15e521f4d708245d10249fd556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:12 +0000
Subject: [PATCH 23/25] fix: conditions decided at the same moment fetched the
 changed files more than once

---
 .../astro-run/src/execution_context/condition_matcher.rs  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/astro-run/src/execution_context/condition_matcher.rs b/crates/astro-run/src/execution_context/condition_matcher.rs
index a4a5011..f5fa8eb 100644
--- a/crates/astro-run/src/execution_context/condition_matcher.rs
+++ b/crates/astro-run/src/execution_context/condition_matcher.rs
@@ -1,7 +1,7 @@
 use crate::{Condition, ConditionPayload, Error, GithubAuthorization, Result, TriggerEvent};
 use octocrate::{pulls, repos, APIConfig, AppAuthorization, GitHubAPI, PersonalAccessToken};
-use parking_lot::Mutex;
 use std::sync::Arc;
+use tokio::sync::Mutex;
 
 /// GitHub lists at most this many files of a commit at once
 const COMMIT_FILES_PER_PAGE: usize = 300;
@@ -36,13 +36,15 @@ impl ConditionMatcher {
     }
     log::trace!("Matching condition {:#?}", condition);
 
-    if let Some(payload) = self.payload.lock().as_ref() {
+    // Conditions that are decided at the same time wait for the same answer
+    let mut payload_lock = self.payload.lock().await;
+
+    if let Some(payload) = payload_lock.as_ref() {
       return condition.is_match(payload);
     }
 
     match self.condition_payload().await {
       Ok(payload) => {
-        let mut payload_lock = self.payload.lock();
         *payload_lock = Some(payload.clone());
 
         condition.is_match(&payload)
-- 
2.43.0


From 612a131f125e0168cd2c19a87027c2ac4148a521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:13 +0000
Subject: [PATCH 24/25] fix: steps scheduled at the same moment could all start
 on the same idle runner

---
 crates/scheduler/src/default.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/scheduler/src/default.rs b/crates/scheduler/src/default.rs
index d3b4797..8fd8e3a 100644
--- a/crates/scheduler/src/default.rs
+++ b/crates/scheduler/src/default.rs
@@ -55,7 +55,9 @@ impl Scheduler for DefaultScheduler {
 
     log::trace!("Is runs on host: {}", is_runs_on_host);
 
-    let last_used_id = self.state.lock().job_runners.get(&job_id).cloned();
+    // The runner is chosen and counted at once: another step scheduled at the same time sees it
+    let mut state = self.state.lock();
+    let last_used_id = state.job_runners.get(&job_id).cloned();
 
     if let Some(last_used_id) = last_used_id {
       runner = runners.iter().find(|r| {
@@ -77,12 +79,11 @@ impl Scheduler for DefaultScheduler {
     }
 
     if runner.is_none() {
-      runner = self.pick_runner(runners, container_name);
+      runner = self.pick_runner(&state.runs_count, runners, container_name);
       log::trace!("Picked runner: {:?}", runner);
     }
 
     if let Some(runner) = &runner {
-      let mut state = self.state.lock();
       state
         .step_runners
         .insert(ctx.command.id.clone(), runner.id.clone());
@@ -132,6 +133,7 @@ impl Scheduler for DefaultScheduler {
 impl DefaultScheduler {
   fn pick_runner<'a, 'b: 'a>(
     &'b self,
+    runs_count: &HashMap<String, i32>,
     runners: &'a [RunnerMetadata],
     container: Option<String>,
   ) -> Option<&'a RunnerMetadata> {
@@ -143,15 +145,15 @@ impl DefaultScheduler {
     if is_runs_on_host {
       self.pick_host_runner(runners, container.unwrap())
     } else {
-      self.pick_docker_runner(runners)
+      self.pick_docker_runner(runs_count, runners)
     }
   }
 
   fn pick_docker_runner<'a, 'b: 'a>(
     &'b self,
+    runs_count: &HashMap<String, i32>,
     runners: &'a [RunnerMetadata],
   ) -> Option<&'a RunnerMetadata> {
-    let runs_count = self.state.lock().runs_count.clone();
     let min_runs = runners
       .iter()
       .filter(|r| r.support_docker)
-- 
2.43.0


From faa3d455d8e5502aaf234d5ecf10d52969b0a3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:41 +0000
Subject: [PATCH 25/25] fix: a step lost its condition when remote runners were
 asked to change it

---
 crates/remote-runner/src/client.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index fcefc51..8ef4f11 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -156,6 +156,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   async fn on_before_run_step(&self, step: astro_run::Step) -> HookBeforeRunStepResult {
     let mut clients = self.clients.lock().clone();
 
+    // The condition of a step is not part of the command, runners do not change it
+    let on = step.on.clone();
     let mut command = step.into();
 
     for client in clients.values_mut() {
@@ -170,7 +172,10 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
       };
     }
 
-    Ok(command.into())
+    let mut step: astro_run::Step = command.into();
+    step.on = on;
+
+    Ok(step)
   }
 }
 
-- 
2.43.0

