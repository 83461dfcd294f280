From 39c9896e4c98992429b38bfab180cc08a91401c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:40 +0000
Subject: [PATCH 01/22] fix: elect the last worker with a single atomic
 decrement

Two workers finishing the last two files at the same time could both read a
counter above one and both decrement it, so that nobody sent the store jobs
and every worker waited for ever.
---
 src/dumper.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 8466b68..6600d91 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -432,7 +432,7 @@ fn consumer(
             }
         }
 
-        if counter.load(Ordering::SeqCst) == 1 {
+        if counter.fetch_sub(1, Ordering::SeqCst) == 1 {
             // it was the last file: so we just have to add jobs to dump & store
             // and then poison the queue
             let mut results = results.lock().unwrap();
@@ -444,8 +444,6 @@ fn consumer(
                 check_cfi,
                 collect_inlines,
             )?;
-        } else {
-            counter.fetch_sub(1, Ordering::SeqCst);
         }
     }
 
-- 
2.43.0


From 45bd31b2562e690bc65d830a141caf02ba77e082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:42 +0000
Subject: [PATCH 02/22] fix: don't deadlock on the job queue

The workers are both the producers and the consumers of the store jobs, so a
full bounded queue blocked them for ever (for example -j 1 with two modules),
and -j 0 left the queue without any consumer.
---
 src/dumper.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 6600d91..4933a53 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -3,7 +3,7 @@
 // http://opensource.org/licenses/MIT>, at your option. This file may not be
 // copied, modified, or distributed except according to those terms.
 
-use crossbeam::channel::{bounded, Receiver, Sender};
+use crossbeam::channel::{unbounded, Receiver, Sender};
 use hashbrown::HashMap;
 use log::{error, info};
 use std::fmt;
@@ -460,10 +460,11 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
     .map(Arc::new);
     let arch = Arch::from_str(config.arch)?;
     let results = Arc::new(Mutex::new(HashMap::default()));
-    let num_jobs = config.num_jobs.min(filenames.len());
+    let num_jobs = config.num_jobs.min(filenames.len()).max(1);
     let counter = Arc::new(AtomicUsize::new(filenames.len()));
 
-    let (sender, receiver) = bounded(num_jobs + 1);
+    // Workers send store jobs to themselves, so a bounded queue could deadlock
+    let (sender, receiver) = unbounded();
 
     let mut receivers = Vec::with_capacity(num_jobs);
     for i in 0..num_jobs {
-- 
2.43.0


From f1a3e2f8300ab8f455506e344f09777d6e2c74f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:23 +0000
Subject: [PATCH 03/22] fix: don't wait for ever for a worker which failed

An unreadable or malformed file, or a module which cannot be stored, ended
its worker (error or panic) and left the other ones and the main thread
waiting for a poison which was never sent.
---
 src/dumper.rs | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 4933a53..9fe8b6b 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -8,6 +8,7 @@ use hashbrown::HashMap;
 use log::{error, info};
 use std::fmt;
 use std::fs;
+use std::panic::{self, AssertUnwindSafe};
 use std::path::{Path, PathBuf};
 use std::str::FromStr;
 use std::sync::atomic::{AtomicUsize, Ordering};
@@ -359,7 +360,9 @@ fn send_store_jobs(
 ) -> common::Result<()> {
     if results.len() == 1 {
         let (_, d) = results.drain().take(1).next().unwrap();
-        self::store(&output, check_cfi, d)?;
+        // Release the other workers first: store may fail
+        poison_queue(sender, num_threads);
+        return self::store(&output, check_cfi, d);
     } else {
         for (_, d) in results.drain() {
             sender
@@ -479,9 +482,33 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
         let t = thread::Builder::new()
             .name(format!("dump-syms {i}"))
             .spawn(move || {
-                consumer(
-                    arch, sender, receiver, results, counter, num_jobs, output, check_cfi,
-                )
+                let mut status = Ok(());
+                loop {
+                    let res = panic::catch_unwind(AssertUnwindSafe(|| {
+                        consumer(
+                            arch,
+                            sender.clone(),
+                            receiver.clone(),
+                            Arc::clone(&results),
+                            Arc::clone(&counter),
+                            num_jobs,
+                            output.clone(),
+                            check_cfi,
+                        )
+                    }))
+                    .unwrap_or_else(|_| anyhow::bail!("A job panicked"));
+                    let done = res.is_ok();
+                    status = status.and(res);
+                    if done {
+                        return status;
+                    }
+
+                    // A job failed: if it was a file then it'll never be counted, hence
+                    // nothing will be stored and nobody else will poison the queue.
+                    if counter.load(Ordering::SeqCst) != 0 {
+                        poison_queue(&sender, num_jobs);
+                    }
+                }
             })
             .unwrap();
 
-- 
2.43.0


From 37548c2821de7becce4f02ef7a4a1e08cb068de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:24 +0000
Subject: [PATCH 04/22] fix: report the failure of a worker in the exit status

---
 src/dumper.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dumper.rs b/src/dumper.rs
index 9fe8b6b..64a24bc 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -526,11 +526,14 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
             .unwrap();
     }
 
+    let mut failed = false;
     for receiver in receivers {
         if let Err(e) = receiver.join().unwrap() {
             error!("{e}");
+            failed = true;
         }
     }
 
+    anyhow::ensure!(!failed, "Some files couldn't be dumped");
     Ok(())
 }
-- 
2.43.0


From b655427faffb8379efba6ce9665d7fde21463f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:26 +0000
Subject: [PATCH 05/22] fix: report the errors of the last write of a symbol
 file

The tail of the output was written when the BufWriter was dropped, where
errors such as a full disk are ignored.
---
 src/object_info.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/object_info.rs b/src/object_info.rs
index 8a0cc5e..fbf7fa5 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -293,6 +293,7 @@ impl ObjectInfo {
 
     pub fn dump<W: Write>(&self, mut writer: W) -> common::Result<()> {
         write!(writer, "{self}")?;
+        writer.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From e818331707c188718e30ca723e2969190101da4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:43 +0000
Subject: [PATCH 06/22] fix: don't mix modules written to the same file

Several workers could write their modules at the same time to stdout or to
the same file.
---
 src/dumper.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dumper.rs b/src/dumper.rs
index 64a24bc..92a3d89 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -238,6 +238,9 @@ fn store(output: &Output, check_cfi: bool, object_info: ObjectInfo) -> common::R
     }
 
     if let Some(file) = foutput {
+        // All the modules share this file: don't let the workers mix their outputs
+        static LOCK: Mutex<()> = Mutex::new(());
+        let _guard = LOCK.lock().unwrap_or_else(|e| e.into_inner());
         let writer = get_writer_for_sym(file);
         object_info.dump(writer)?;
 
-- 
2.43.0


From 637b0c2ce6f9fcb224aad448b429383b597b05b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:45 +0000
Subject: [PATCH 07/22] fix: use the symbol server with several files too

---
 src/dumper.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 92a3d89..cd2cc02 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -395,6 +395,7 @@ fn consumer(
     arch: Arch,
     sender: Sender<Option<JobItem>>,
     receiver: Receiver<Option<JobItem>>,
+    symbol_server: Option<&str>,
     results: Arc<Mutex<HashMap<String, ObjectInfo>>>,
     counter: Arc<AtomicUsize>,
     num_threads: usize,
@@ -419,8 +420,15 @@ fn consumer(
                 let filename = utils::get_filename(&path);
                 let buf = utils::read_file(&path);
 
-                let info =
-                    get_object_info(buf, &path, &filename, mapping, arch, None, collect_inlines)?;
+                let info = get_object_info(
+                    buf,
+                    &path,
+                    &filename,
+                    mapping,
+                    arch,
+                    symbol_server,
+                    collect_inlines,
+                )?;
 
                 let mut results = results.lock().unwrap();
                 let info = if let Some(prev) = results.remove(info.get_debug_id()) {
@@ -479,6 +487,7 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
         let results = Arc::clone(&results);
         let counter = Arc::clone(&counter);
         let output = config.output.clone();
+        let symbol_server = config.symbol_server.map(str::to_owned);
 
         let check_cfi = config.check_cfi;
 
@@ -492,6 +501,7 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
                             arch,
                             sender.clone(),
                             receiver.clone(),
+                            symbol_server.as_deref(),
                             Arc::clone(&results),
                             Arc::clone(&counter),
                             num_jobs,
-- 
2.43.0


From 0646ffb7918398b59e9c037e3c9117a244fca3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:20 +0000
Subject: [PATCH 08/22] fix: merge the files of a module in a deterministic
 order

The files of a module were merged in the order the workers finished them and
the result of a merge depends on it, so the symbols were different from one
run to the other.
---
 src/dumper.rs | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index cd2cc02..46a24b6 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -6,6 +6,7 @@
 use crossbeam::channel::{unbounded, Receiver, Sender};
 use hashbrown::HashMap;
 use log::{error, info};
+use std::collections::BTreeMap;
 use std::fmt;
 use std::fs;
 use std::panic::{self, AssertUnwindSafe};
@@ -340,10 +341,20 @@ fn get_object_info(
     Ok(object_info)
 }
 
-#[allow(clippy::large_enum_variant)]
+/// The files of a module, by position on the command line: they're merged in
+/// this order whatever the order the workers handled them.
+type ModuleFiles = BTreeMap<usize, ObjectInfo>;
+
+fn merge_and_store(output: &Output, check_cfi: bool, files: ModuleFiles) -> common::Result<()> {
+    let mut files = files.into_values();
+    let first = files.next().unwrap();
+    let info = files.try_fold(first, |prev, info| ObjectInfo::merge(info, prev))?;
+    self::store(output, check_cfi, info)
+}
+
 enum JobType {
-    Get,
-    Dump(ObjectInfo),
+    Get(usize),
+    Dump(ModuleFiles),
 }
 
 struct JobItem {
@@ -355,7 +366,7 @@ struct JobItem {
 
 fn send_store_jobs(
     sender: &Sender<Option<JobItem>>,
-    results: &mut HashMap<String, ObjectInfo>,
+    results: &mut HashMap<String, ModuleFiles>,
     num_threads: usize,
     output: Output,
     check_cfi: bool,
@@ -365,7 +376,7 @@ fn send_store_jobs(
         let (_, d) = results.drain().take(1).next().unwrap();
         // Release the other workers first: store may fail
         poison_queue(sender, num_threads);
-        return self::store(&output, check_cfi, d);
+        return merge_and_store(&output, check_cfi, d);
     } else {
         for (_, d) in results.drain() {
             sender
@@ -396,7 +407,7 @@ fn consumer(
     sender: Sender<Option<JobItem>>,
     receiver: Receiver<Option<JobItem>>,
     symbol_server: Option<&str>,
-    results: Arc<Mutex<HashMap<String, ObjectInfo>>>,
+    results: Arc<Mutex<HashMap<String, ModuleFiles>>>,
     counter: Arc<AtomicUsize>,
     num_threads: usize,
     output: Output,
@@ -415,7 +426,7 @@ fn consumer(
         } = job.unwrap();
 
         match typ {
-            JobType::Get => {
+            JobType::Get(index) => {
                 let path = PathBuf::from(file);
                 let filename = utils::get_filename(&path);
                 let buf = utils::read_file(&path);
@@ -431,17 +442,13 @@ fn consumer(
                 )?;
 
                 let mut results = results.lock().unwrap();
-                let info = if let Some(prev) = results.remove(info.get_debug_id()) {
-                    ObjectInfo::merge(info, prev).inspect_err(|_e| {
-                        poison_queue(&sender, num_threads);
-                    })?
-                } else {
-                    info
-                };
-                results.insert(info.get_debug_id().to_string(), info);
+                results
+                    .entry(info.get_debug_id().to_string())
+                    .or_default()
+                    .insert(index, info);
             }
             JobType::Dump(d) => {
-                self::store(&output, check_cfi, d)?;
+                merge_and_store(&output, check_cfi, d)?;
                 continue;
             }
         }
@@ -528,11 +535,11 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
         receivers.push(t);
     }
 
-    for f in filenames {
+    for (index, f) in filenames.iter().enumerate() {
         sender
             .send(Some(JobItem {
                 file: f.to_string(),
-                typ: JobType::Get,
+                typ: JobType::Get(index),
                 mapping: file_mapping.clone(),
                 collect_inlines: config.emit_inlines,
             }))
-- 
2.43.0


From 4a399f144420542546b04f5fe9382f311cfdc502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:23 +0000
Subject: [PATCH 09/22] fix: merge the source files by their real ids

When merging two files of a module, the ids of the source files as they're
before the removal of the unused ones were used to index the list of the used
ones: lines were attributed to the wrong files or the merge panicked. The new
ids also depended on the iteration order of a hash map.
---
 src/source.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/source.rs b/src/source.rs
index f80105a..ccd0c25 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -148,7 +148,8 @@ impl SourceFiles {
 
     pub(super) fn get_mapping(self) -> SourceMap {
         SourceMap {
-            ref_to_id: self.ref_to_id,
+            // self.ref_to_id contains the fake ids
+            ref_to_id: self.id_to_ref.iter().cloned().zip(0..).collect(),
             id_to_ref: self.id_to_ref,
         }
     }
@@ -177,14 +178,14 @@ impl SourceMap {
         let mut remapping = vec![0; other.id_to_ref.len()];
         self.id_to_ref.reserve(other.id_to_ref.len());
 
-        for (path, id) in other.ref_to_id.iter() {
-            let id = *id as usize;
+        for (id, path) in other.id_to_ref.iter().enumerate() {
             if let Some(an_id) = self.ref_to_id.get(path) {
                 // self has already this path so map the id to the existing one
                 remapping[id] = *an_id;
             } else {
                 let new_id = self.id_to_ref.len() as u32;
                 remapping[id] = new_id;
+                self.ref_to_id.insert(path.clone(), new_id);
                 self.id_to_ref.push(other.id_to_ref[id].clone());
             }
         }
-- 
2.43.0


From f1f2b643dc65f47e0f796522d5c0479d742b7302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:40 +0000
Subject: [PATCH 10/22] fix: only put complete files in the symbol cache

A download which was interrupted while it was written in the cache, or whose
last write failed, left a truncated file which was used by all the following
runs, or read by a concurrent one.
---
 src/cache.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index feaa640..b511c98 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -9,6 +9,7 @@ use reqwest::{blocking, header::USER_AGENT, Client};
 use std::fs::{self, File};
 use std::io::{BufWriter, Read, Write};
 use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::{Arc, Mutex};
 use tokio::runtime::Runtime;
 use url::Url;
@@ -136,12 +137,25 @@ fn copy_in_cache(path: Option<PathBuf>, data: &[u8]) -> bool {
         }
     }
 
-    let output = File::create(&path)
+    // A file in the cache must always be complete: so write it aside and then rename it.
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
+    let mut tmp_path = path.clone().into_os_string();
+    tmp_path.push(format!(
+        ".{}.{}.tmp",
+        std::process::id(),
+        COUNTER.fetch_add(1, Ordering::SeqCst)
+    ));
+    let output = File::create(&tmp_path)
         .unwrap_or_else(|_| panic!("Cannot open file {} for writing", path.to_str().unwrap()));
     let mut output = BufWriter::new(output);
     output
         .write_all(data)
-        .unwrap_or_else(|_| panic!("Cannot write file {}", path.to_str().unwrap()));
+        .and_then(|_| output.flush())
+        .and_then(|_| fs::rename(&tmp_path, &path))
+        .unwrap_or_else(|_| {
+            let _ = fs::remove_file(&tmp_path);
+            panic!("Cannot write file {}", path.to_str().unwrap())
+        });
 
     true
 }
-- 
2.43.0


From 197b30959c96e1d479704da37550b0edfcf9a704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:42 +0000
Subject: [PATCH 11/22] fix: don't use the body of an error response as a
 symbol file

---
 src/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache.rs b/src/cache.rs
index b511c98..0f2dec9 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -252,7 +252,7 @@ fn fetch_data(jobs: Vec<Job>) -> Option<Vec<u8>> {
             .header(USER_AGENT, DEFAULT_USER_AGENT)
             .send();
         if let Ok(mut resp) = resp {
-            if resp.copy_to(&mut buf).is_err() {
+            if resp.status() != 200 || resp.copy_to(&mut buf).is_err() {
                 None
             } else if copy_in_cache(job.cache, &buf) {
                 Some(buf)
-- 
2.43.0


From 5069460e5e82347659f33d46cdb3222a5fde8a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:30 +0000
Subject: [PATCH 12/22] fix: try the other servers when a download fails

---
 src/cache.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 0f2dec9..7131e0e 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -222,7 +222,7 @@ async fn check_if_file_exists(results: Arc<Mutex<Vec<Job>>>, client: &Client, jo
     }
 }
 
-fn check_data(jobs: Vec<Job>) -> Option<Job> {
+fn check_data(jobs: Vec<Job>) -> Vec<Job> {
     let client = Client::new();
     let n_queries = jobs.len();
     let results = Arc::new(Mutex::new(Vec::new()));
@@ -239,12 +239,12 @@ fn check_data(jobs: Vec<Job>) -> Option<Job> {
             .await
     });
 
-    let results = Arc::try_unwrap(results).unwrap().into_inner().unwrap();
-    results.first().cloned()
+    Arc::try_unwrap(results).unwrap().into_inner().unwrap()
 }
 
 fn fetch_data(jobs: Vec<Job>) -> Option<Vec<u8>> {
-    if let Some(job) = check_data(jobs) {
+    // A server may fail to deliver a file it has: so try the other ones
+    for job in check_data(jobs) {
         let mut buf = Vec::new();
         let client = blocking::Client::new();
         let resp = client
@@ -253,18 +253,13 @@ fn fetch_data(jobs: Vec<Job>) -> Option<Vec<u8>> {
             .send();
         if let Ok(mut resp) = resp {
             if resp.status() != 200 || resp.copy_to(&mut buf).is_err() {
-                None
+                continue;
             } else if copy_in_cache(job.cache, &buf) {
-                Some(buf)
-            } else {
-                None
+                return Some(buf);
             }
-        } else {
-            None
         }
-    } else {
-        None
     }
+    None
 }
 
 pub fn search_file(
-- 
2.43.0


From e6d33438d5d5a4e4d26c31157de5a6835067168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:33 +0000
Subject: [PATCH 13/22] fix: don't wait for ever for a symbol server which
 doesn't answer

---
 src/cache.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cache.rs b/src/cache.rs
index 7131e0e..0d6df5e 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -11,6 +11,7 @@ use std::io::{BufWriter, Read, Write};
 use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::{Arc, Mutex};
+use std::time::Duration;
 use tokio::runtime::Runtime;
 use url::Url;
 
@@ -19,6 +20,7 @@ use crate::utils;
 
 const DEFAULT_STORE: &str = "https://msdl.microsoft.com/download/symbols";
 const DEFAULT_USER_AGENT: &str = "Microsoft-Symbol-Server/6.3.0.0";
+const HEAD_TIMEOUT: Duration = Duration::from_secs(30);
 
 #[derive(Debug)]
 pub struct SymbolServer {
@@ -212,6 +214,7 @@ async fn check_if_file_exists(results: Arc<Mutex<Vec<Job>>>, client: &Client, jo
     if let Ok(res) = client
         .head(&job.url)
         .header(USER_AGENT, DEFAULT_USER_AGENT)
+        .timeout(HEAD_TIMEOUT)
         .send()
         .await
     {
-- 
2.43.0


From 8b621cdd529a838764f39022b3605643ee7591f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:50 +0000
Subject: [PATCH 14/22] fix: don't confuse source files whose names aren't in
 utf-8

---
 src/source.rs | 52 +++++++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/src/source.rs b/src/source.rs
index ccd0c25..505ec96 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -5,6 +5,7 @@
 
 use hashbrown::{hash_map, HashMap};
 use log::error;
+use std::borrow::Cow;
 use std::fs;
 use std::path::PathBuf;
 use std::sync::Arc;
@@ -95,38 +96,45 @@ impl SourceFiles {
     pub(super) fn get_id(&mut self, compilation_dir: &[u8], file: &FileInfo) -> u32 {
         // A lot of paths are a slice on the same string in the debug file
         // so just use a cache based on the string pointers.
+        // A name which isn't in utf-8 is converted into a temporary string:
+        // its address means nothing.
+        let (Cow::Borrowed(dir), Cow::Borrowed(name)) = (file.dir_str(), file.name_str()) else {
+            return self.get_path_id(compilation_dir, file);
+        };
         let cache_key = (
             Self::cast_ptr(compilation_dir),
-            Self::cast_ptr(file.dir_str().as_bytes()),
-            Self::cast_ptr(file.name_str().as_bytes()),
+            Self::cast_ptr(dir.as_bytes()),
+            Self::cast_ptr(name.as_bytes()),
         );
 
-        match self.cache.entry(cache_key) {
+        if let Some(id) = self.cache.get(&cache_key) {
+            return *id;
+        }
+        let id = self.get_path_id(compilation_dir, file);
+        self.cache.insert(cache_key, id);
+        id
+    }
+
+    fn get_path_id(&mut self, compilation_dir: &[u8], file: &FileInfo) -> u32 {
+        let path = Self::get_path(self.platform, self.canonicalize, compilation_dir, file);
+        match self.ref_to_id.entry(path.clone()) {
             hash_map::Entry::Occupied(e) => *e.get(),
             hash_map::Entry::Vacant(e) => {
-                let path = Self::get_path(self.platform, self.canonicalize, compilation_dir, file);
-                let id = match self.ref_to_id.entry(path.clone()) {
-                    hash_map::Entry::Occupied(e) => *e.get(),
-                    hash_map::Entry::Vacant(e) => {
-                        let id = self.fake_id_to_ref.len() as u32;
-                        let new_path = if let Some(mapping) = self.mapping.as_ref() {
-                            match mapping.map(&path) {
-                                Ok(p) => p,
-                                Err(e) => {
-                                    error!("Mapping error: {e}");
-                                    None
-                                }
-                            }
-                        } else {
+                let id = self.fake_id_to_ref.len() as u32;
+                let new_path = if let Some(mapping) = self.mapping.as_ref() {
+                    match mapping.map(&path) {
+                        Ok(p) => p,
+                        Err(e) => {
+                            error!("Mapping error: {e}");
                             None
-                        };
-                        let path = new_path.unwrap_or(path);
-                        e.insert(id);
-                        self.fake_id_to_ref.push((None, path));
-                        id
+                        }
                     }
+                } else {
+                    None
                 };
+                let path = new_path.unwrap_or(path);
                 e.insert(id);
+                self.fake_id_to_ref.push((None, path));
                 id
             }
         }
-- 
2.43.0


From bc480161b1626687e95d03d5d95ae02ec3b80e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:07 +0000
Subject: [PATCH 15/22] fix: don't let control characters break the lines of a
 symbol file

---
 src/common.rs      | 10 ++++++++++
 src/object_info.rs |  4 +++-
 src/symbol.rs      |  6 ++++--
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 9cf3402..2a01190 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -5,6 +5,7 @@
 
 use once_cell::sync::{Lazy, OnceCell};
 use regex::Regex;
+use std::borrow::Cow;
 use std::env::consts::ARCH;
 use std::result;
 use symbolic::common::{Arch, Name};
@@ -40,6 +41,15 @@ pub(crate) fn normalize_anonymous_namespace(text: &str) -> String {
     String::from(&fixed)
 }
 
+/// Remove control characters such as \n which would break the lines of a symbol file.
+pub(crate) fn remove_control_chars(text: &str) -> Cow<'_, str> {
+    if text.contains(|c: char| c.is_ascii_control()) {
+        Cow::Owned(text.replace(|c: char| c.is_ascii_control(), ""))
+    } else {
+        Cow::Borrowed(text)
+    }
+}
+
 pub(crate) fn fix_symbol_name<'a>(name: &'a Name<'a>) -> Name<'a> {
     static COMPILER_NNN: Lazy<Regex> = Lazy::new(|| {
         Regex::new(
diff --git a/src/object_info.rs b/src/object_info.rs
index fbf7fa5..b5ad9eb 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -51,6 +51,7 @@ impl Display for ObjectInfo {
         if let Some(code_id) = self.code_id.as_ref() {
             let pe_name = self.pe_name.as_deref().unwrap_or_default();
             let line = format!("INFO CODE_ID {code_id} {pe_name}");
+            let line = common::remove_control_chars(&line);
             writeln!(f, "{}", line.trim())?;
         }
 
@@ -61,6 +62,7 @@ impl Display for ObjectInfo {
         }
 
         for (n, file_name) in self.files.get_mapping().iter().enumerate() {
+            let file_name = common::remove_control_chars(file_name);
             writeln!(f, "FILE {n} {file_name}")?;
         }
 
@@ -171,7 +173,7 @@ impl ObjectInfo {
             symbols,
             files: source.get_mapping(),
             inline_origins: inline_origins.get_list(),
-            file_name: Self::file_name_only(file_name).to_string(),
+            file_name: common::remove_control_chars(Self::file_name_only(file_name)).into_owned(),
             pe_name: pe_file_name.map(ToOwned::to_owned),
             cpu,
             debug_id,
diff --git a/src/symbol.rs b/src/symbol.rs
index 53cbae5..74a4197 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -8,6 +8,7 @@ use std::fmt::{Display, Formatter};
 use std::ops::Bound::{Excluded, Included};
 use symbolic::debuginfo::Object;
 
+use crate::common;
 use crate::line::Lines;
 
 const PDB_MAGIC: u64 = 7381245236781214029;
@@ -39,6 +40,7 @@ impl ContainsSymbol for Symbols {
 
 impl Display for Symbol {
     fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
+        let name = common::remove_control_chars(&self.name);
         if self.is_public {
             writeln!(
                 f,
@@ -46,7 +48,7 @@ impl Display for Symbol {
                 if self.is_multiple { "m " } else { "" },
                 self.rva,
                 self.parameter_size,
-                self.name,
+                name,
             )?;
         } else {
             writeln!(
@@ -56,7 +58,7 @@ impl Display for Symbol {
                 self.rva,
                 self.len,
                 self.parameter_size,
-                self.name,
+                name,
             )?;
 
             write!(f, "{}", self.source)?;
-- 
2.43.0


From d19e04becb178b702975fa72306acb037c72a914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:12 +0000
Subject: [PATCH 16/22] fix: don't use an empty or directory-like name from the
 binary as module name

---
 src/object_info.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/object_info.rs b/src/object_info.rs
index b5ad9eb..9d0d2e6 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -163,17 +163,21 @@ impl ObjectInfo {
             main_object,
         );
 
-        let file_name = match (&main_object, &pe_file_name) {
-            (Object::Elf(elf), _) => elf.name().unwrap_or(main_file_name),
-            (Object::MachO(macho), _) => macho.name().unwrap_or(main_file_name),
-            _ => main_file_name,
-        };
+        let file_name = match &main_object {
+            Object::Elf(elf) => elf.name(),
+            Object::MachO(macho) => macho.name(),
+            _ => None,
+        }
+        .and_then(Self::module_name)
+        .or_else(|| Self::module_name(main_file_name))
+        .or_else(|| pe_file_name.and_then(Self::module_name))
+        .unwrap_or_else(|| "unknown".to_string());
 
         Ok(Self {
             symbols,
             files: source.get_mapping(),
             inline_origins: inline_origins.get_list(),
-            file_name: common::remove_control_chars(Self::file_name_only(file_name)).into_owned(),
+            file_name,
             pe_name: pe_file_name.map(ToOwned::to_owned),
             cpu,
             debug_id,
@@ -201,6 +205,15 @@ impl ObjectInfo {
         file_name.rsplit('/').next().unwrap_or(file_name)
     }
 
+    /// Get a module name from a path, unless nothing usable as a file name is left of it.
+    fn module_name(path: &str) -> Option<String> {
+        let name = common::remove_control_chars(Self::file_name_only(path));
+        match name.trim() {
+            "" | "." | ".." => None,
+            _ => Some(name.into_owned()),
+        }
+    }
+
     pub fn merge(left: ObjectInfo, right: ObjectInfo) -> common::Result<ObjectInfo> {
         anyhow::ensure!(
             left.debug_id == right.debug_id,
-- 
2.43.0


From f84e060f63b3949c40959beb1b593b1222805735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:15 +0000
Subject: [PATCH 17/22] fix: don't combine a PE file with a PDB which belongs
 to another one

---
 src/windows/utils.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/windows/utils.rs b/src/windows/utils.rs
index 57a1b93..fc1d989 100644
--- a/src/windows/utils.rs
+++ b/src/windows/utils.rs
@@ -6,6 +6,9 @@
 use std::path::Path;
 use symbolic::{common::DebugId, debuginfo::pe::PeObject};
 
+#[cfg(feature = "http")]
+use symbolic::debuginfo::pdb::PdbObject;
+
 #[cfg(feature = "http")]
 use crate::cache::{self, SymbolServer};
 use crate::utils;
@@ -53,6 +56,11 @@ fn os_specific_try_to_find_pdb(path: &Path, pdb_filename: &str) -> (Option<Vec<u
     }
 }
 
+#[cfg(feature = "http")]
+fn is_pdb_for_pe(pdb_buf: &[u8], pe: &PeObject) -> bool {
+    PdbObject::parse(pdb_buf).is_ok_and(|pdb| pdb.debug_id() == pe.debug_id())
+}
+
 #[cfg(feature = "http")]
 pub fn get_pe_pdb_buf<'a>(
     path: &Path,
@@ -67,13 +75,14 @@ pub fn get_pe_pdb_buf<'a>(
         if pdb_name.is_empty() {
             log::warn!("Invalid pdb filename in PE file: \"{pdb_filename}\"");
             None
-        } else if let Some(pdb_buf) = pdb {
+        } else if let Some(pdb_buf) = pdb.filter(|buf| is_pdb_for_pe(buf, &pe)) {
             Some((pe, pdb_buf, pdb_name))
         } else {
             // Not here so try symbol server (or cache)
             let debug_id = pe.debug_id().breakpad().to_string();
             let (pdb, pdb_name) = cache::search_file(pdb_name, &debug_id, symbol_server);
-            pdb.map(|pdb_buf| (pe, pdb_buf, pdb_name))
+            pdb.filter(|buf| is_pdb_for_pe(buf, &pe))
+                .map(|pdb_buf| (pe, pdb_buf, pdb_name))
         }
     } else {
         None
-- 
2.43.0


From e8dac3bfdd3c6c4918d43dae70ca8ea4b3068c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:33 +0000
Subject: [PATCH 18/22] fix: keep the PE file name with the code id when
 merging

A code id taken from the other file was written without the name of the PE
file it belongs to.
---
 src/object_info.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/object_info.rs b/src/object_info.rs
index 9d0d2e6..37ebd1a 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -297,6 +297,7 @@ impl ObjectInfo {
 
         if left.code_id.is_none() && right.code_id.is_some() {
             left.code_id = right.code_id;
+            left.pe_name = right.pe_name;
         }
 
         if right.bin_type == Type::Stripped {
-- 
2.43.0


From 053b25d17383727ab58495d7779be000fa4f90bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:25 +0000
Subject: [PATCH 19/22] fix: look for the PDB of a PE file in the working
 directory

and not in the parent of the working directory.
---
 src/windows/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/windows/utils.rs b/src/windows/utils.rs
index fc1d989..c887688 100644
--- a/src/windows/utils.rs
+++ b/src/windows/utils.rs
@@ -27,7 +27,7 @@ fn try_to_find_pdb(path: &Path, pdb_filename: &str) -> Option<Vec<u8>> {
 
     // We try in CWD
     let mut pdb = std::env::current_dir().expect("Unable to get the current working directory");
-    pdb.set_file_name(pdb_filename);
+    pdb.push(pdb_filename);
     if pdb.is_file() {
         Some(utils::read_file(pdb))
     } else {
-- 
2.43.0


From 721ec3e868a96421a93f0c1a187b712de7beff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:08 +0000
Subject: [PATCH 20/22] fix: don't drop the symbols when the store path is
 empty

---
 src/dumper.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dumper.rs b/src/dumper.rs
index 46a24b6..5b58676 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -227,6 +227,10 @@ fn store(output: &Output, check_cfi: bool, object_info: ObjectInfo) -> common::R
             store_directory,
         } => (Some(file), sym_store_path(store_directory)),
     };
+    anyhow::ensure!(
+        foutput.is_some() || store.is_some(),
+        "No place to write the symbols: the store path is empty or invalid"
+    );
 
     if let Some(store) = store {
         fs::create_dir_all(store.parent().unwrap())?;
-- 
2.43.0


From 3fb83c4dbfa70262f6445d5343d77d45b657a102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:08 +0000
Subject: [PATCH 21/22] fix: ignore cabinets with something else next to a PE
 or a PDB

---
 src/windows/utils.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/windows/utils.rs b/src/windows/utils.rs
index c887688..35cb13a 100644
--- a/src/windows/utils.rs
+++ b/src/windows/utils.rs
@@ -3,7 +3,7 @@
 // http://opensource.org/licenses/MIT>, at your option. This file may not be
 // copied, modified, or distributed except according to those terms.
 
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use symbolic::{common::DebugId, debuginfo::pe::PeObject};
 
 #[cfg(feature = "http")]
@@ -13,6 +13,12 @@ use symbolic::debuginfo::pdb::PdbObject;
 use crate::cache::{self, SymbolServer};
 use crate::utils;
 
+/// Read a file found next to the one to dump: it may be a cabinet with something else inside.
+fn read_candidate(path: PathBuf) -> Option<Vec<u8>> {
+    let buf = utils::read(&path).ok()?;
+    utils::read_cabinet(buf, path)
+}
+
 #[cfg(feature = "http")]
 fn try_to_find_pdb(path: &Path, pdb_filename: &str) -> Option<Vec<u8>> {
     // Just check that the file is in the same directory as the PE one
@@ -21,7 +27,9 @@ fn try_to_find_pdb(path: &Path, pdb_filename: &str) -> Option<Vec<u8>> {
 
     for pdb in vec![pdb, pdb_cab].into_iter() {
         if pdb.is_file() {
-            return Some(utils::read_file(pdb));
+            if let Some(buf) = read_candidate(pdb) {
+                return Some(buf);
+            }
         }
     }
 
@@ -29,7 +37,7 @@ fn try_to_find_pdb(path: &Path, pdb_filename: &str) -> Option<Vec<u8>> {
     let mut pdb = std::env::current_dir().expect("Unable to get the current working directory");
     pdb.push(pdb_filename);
     if pdb.is_file() {
-        Some(utils::read_file(pdb))
+        read_candidate(pdb)
     } else {
         None
     }
@@ -46,11 +54,12 @@ fn os_specific_try_to_find_pdb(path: &Path, pdb_filename: &str) -> (Option<Vec<u
     let pdb_path = Path::new(&pdb_filename);
     if let Some(file_name) = pdb_path.file_name() {
         let pdb_name = file_name.to_str().unwrap().to_string();
-        if pdb_path.is_file() {
-            (Some(utils::read_file(pdb_path)), pdb_name)
+        let pdb = if pdb_path.is_file() {
+            read_candidate(pdb_path.to_path_buf())
         } else {
-            (try_to_find_pdb(path, &pdb_name), pdb_name)
-        }
+            None
+        };
+        (pdb.or_else(|| try_to_find_pdb(path, &pdb_name)), pdb_name)
     } else {
         (None, "".to_string())
     }
@@ -104,7 +113,9 @@ pub(crate) fn find_pe_for_pdb(path: &Path, pdb_debug_id: &DebugId) -> Option<(St
     for ext in vec!["dll", "dl_", "exe", "ex_"].drain(..) {
         path.set_extension(ext);
         if path.is_file() {
-            let buf = utils::read_file(&path);
+            let Some(buf) = read_candidate(path.clone()) else {
+                continue;
+            };
             if let Ok(pe) = PeObject::parse(&buf) {
                 if ext.ends_with('_') {
                     path.set_extension(fix_extension(ext));
-- 
2.43.0


From e42d9dc7ffa85d9df4bdc34b9298191e202474fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:43 +0000
Subject: [PATCH 22/22] fix: don't panic on a cabinet for a file without
 extension

---
 src/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 67da975..8cac2ca 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -139,7 +139,9 @@ pub fn read_cabinet(buf: Vec<u8>, path: PathBuf) -> Option<Vec<u8>> {
 }
 
 fn get_corrected_path(path: PathBuf) -> PathBuf {
-    let e = path.extension().unwrap().to_str().unwrap();
+    let Some(e) = path.extension().and_then(|e| e.to_str()) else {
+        return path;
+    };
     if e.starts_with("pd") {
         path.with_extension("pdb")
     } else if e.starts_with("dl") {
-- 
2.43.0

