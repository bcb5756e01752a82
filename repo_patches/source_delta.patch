From bf5a1bfe6db4bf4bd79346d194bdb521014eec00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 01/16] fix: keep addresses right when a write_atomic callback
 panics

write_atomic grew the buffer before calling the callback but advanced the
address only afterwards. If the callback panicked, every address returned
later was too small by the size of the failed record.
---
 measureme/src/serialization.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/measureme/src/serialization.rs b/measureme/src/serialization.rs
index 487504e..ca494d3 100644
--- a/measureme/src/serialization.rs
+++ b/measureme/src/serialization.rs
@@ -324,10 +324,13 @@ impl SerializationSink {
         let buf_start = buffer.len();
         let buf_end = buf_start + num_bytes;
         buffer.resize(buf_end, 0u8);
-        write(&mut buffer[buf_start..buf_end]);
 
+        // Account for the reserved bytes before calling `write`, so that
+        // later addresses are still correct if it panics.
         *addr += num_bytes as u64;
 
+        write(&mut buffer[buf_start..buf_end]);
+
         Addr(curr_addr)
     }
 
-- 
2.43.0


From b8a50b3a3f44db3c93c4e1b330736da1fa627490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 02/16] fix: recognize string table entries that are just one
 reference by their length

The terminator's position is relative to the start of the entry, but was
compared with an absolute position. An entry made of a reference followed
by exactly as many bytes of text as its own address was read as the
reference alone.
---
 decodeme/src/stringtable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decodeme/src/stringtable.rs b/decodeme/src/stringtable.rs
index b600937..9476994 100644
--- a/decodeme/src/stringtable.rs
+++ b/decodeme/src/stringtable.rs
@@ -65,7 +65,7 @@ impl<'st> StringRef<'st> {
 
         // Check if this is a string containing a single StringId component
         let first_byte = self.table.string_data[pos];
-        if first_byte == STRING_REF_TAG && terminator_pos == pos + STRING_REF_ENCODED_SIZE {
+        if first_byte == STRING_REF_TAG && terminator_pos == STRING_REF_ENCODED_SIZE {
             let id = decode_string_ref_from_data(&self.table.string_data[pos..]);
             return StringRef {
                 id,
-- 
2.43.0


From a5a8ccdb6d42b8558be0001b0791b72785f7868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 03/16] fix: allow vertical tabs in event ids

The grammar of event ids allows all of [[:space:]].
---
 decodeme/src/event.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decodeme/src/event.rs b/decodeme/src/event.rs
index 6c254ad..9d2fbe2 100644
--- a/decodeme/src/event.rs
+++ b/decodeme/src/event.rs
@@ -95,7 +95,8 @@ impl<'a> Parser<'a> {
 
         if self.full_text[start..end]
             .iter()
-            .filter(|x| !x.is_ascii_whitespace())
+            // `[[:space:]]` includes the vertical tab, `is_ascii_whitespace` does not.
+            .filter(|x| !x.is_ascii_whitespace() && **x != b'\x0B')
             .any(u8::is_ascii_control)
         {
             return self.err("Found ASCII control character in <text>");
-- 
2.43.0


From 8a76a4847faae65330bafa54b68f9bef460ffacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 04/16] fix: escape the command line properly for the
 metadata's JSON

escape_default() writes escapes that JSON does not have, so a profile of
a process with a non-ASCII character, a control character or a single
quote in its arguments could not be opened.
---
 measureme/src/profiler.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/measureme/src/profiler.rs b/measureme/src/profiler.rs
index 0fdf417..6a87237 100644
--- a/measureme/src/profiler.rs
+++ b/measureme/src/profiler.rs
@@ -54,7 +54,7 @@ impl Profiler {
 
         let mut args = String::new();
         for arg in std::env::args() {
-            args.push_str(&arg.escape_default().to_string());
+            push_json_escaped(&mut args, &arg);
             args.push(' ');
         }
 
@@ -227,6 +227,20 @@ impl<'a> TimingGuard<'a> {
     }
 }
 
+/// Appends `s` to `out`, escaped for use within a JSON string.
+fn push_json_escaped(out: &mut String, s: &str) {
+    for c in s.chars() {
+        match c {
+            '"' | '\\' => {
+                out.push('\\');
+                out.push(c);
+            }
+            c if c < '\x20' => out.push_str(&format!("\\u{:04x}", c as u32)),
+            c => out.push(c),
+        }
+    }
+}
+
 // Make sure that `Profiler` can be used in a multithreaded context
 fn _assert_bounds() {
     assert_bounds_inner(&Profiler::new(""));
-- 
2.43.0


From 16e3ad43cf8af821512f894a9cb5f8e6e9a37849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 05/16] fix: recognize JSON summaries by their file extension

Path::ends_with compares whole path components, so only a file named
exactly "json" was read as a JSON summary.
---
 summarize/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index 9c3ce65..ba89374 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -60,7 +60,7 @@ enum Opt {
 }
 
 fn process_results(file: &PathBuf) -> Result<AnalysisResults, Box<dyn Error + Send + Sync>> {
-    if file.ends_with("json") {
+    if file.extension().map_or(false, |extension| extension == "json") {
         let reader = BufReader::new(File::open(&file)?);
 
         let results: AnalysisResults = serde_json::from_reader(reader)?;
-- 
2.43.0


From 81a23059f6115bdce030fe8cc2ea34a98476467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 06/16] fix: look at every item before hiding the result
 hashing column

---
 summarize/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index ba89374..a648602 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -214,7 +214,11 @@ fn summarize(opt: SummarizeOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
             has_incremental_hashing_time = true;
         }
 
-        if has_cache_hits && has_blocked_time && has_incremental_load_time {
+        if has_cache_hits
+            && has_blocked_time
+            && has_incremental_load_time
+            && has_incremental_hashing_time
+        {
             break;
         }
     }
-- 
2.43.0


From 50bfd941fc989d7af2fc030917814ba3c021ba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 07/16] fix: do not round shares below the percentage threshold
 they equal

---
 summarize/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index a648602..42be14a 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -254,7 +254,9 @@ fn summarize(opt: SummarizeOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
     let mut percent_total_time: f64 = 0.0;
 
     for query_data in results.query_data {
-        let curr_percent = (query_data.self_time.as_nanos() as f64) / total_time * 100.0;
+        // Multiply first: the product is exact, so that a share that is exactly the given percentage
+        // does not come out below it.
+        let curr_percent = (query_data.self_time.as_nanos() as f64) * 100.0 / total_time;
         if curr_percent < percent_above {
             break;
         } //no need to run entire loop if filtering by % time
-- 
2.43.0


From 5568f59121eee2264b326c9513b2badd7c4820ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 08/16] fix: show the events of profiles with integer events
 only

---
 mmview/src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mmview/src/main.rs b/mmview/src/main.rs
index 79989f9..6b6494e 100644
--- a/mmview/src/main.rs
+++ b/mmview/src/main.rs
@@ -18,7 +18,14 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
 
     let data = ProfilingData::new(&opt.file_prefix)?;
 
-    if let Some(global_start_time) = data.iter().filter_map(|e| e.start()).min() {
+    if data.num_events() > 0 {
+        // Integer events have no time, so there may be no start time at all.
+        let global_start_time = data
+            .iter()
+            .filter_map(|e| e.start())
+            .min()
+            .unwrap_or(SystemTime::UNIX_EPOCH);
+
         for event in data.iter() {
             if let Some(thread_id) = opt.thread_id {
                 if event.thread_id != thread_id {
-- 
2.43.0


From 64d1fe56c9236a36ab29db0ccb336492cb550054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 09/16] fix: let mmedit truncate files of the current format
 version

---
 mmedit/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmedit/src/main.rs b/mmedit/src/main.rs
index 5cdb784..e33b61b 100644
--- a/mmedit/src/main.rs
+++ b/mmedit/src/main.rs
@@ -1,6 +1,8 @@
 use std::{convert::TryInto, error::Error, path::PathBuf};
 
-use decodeme::{read_file_header, PageTag, FILE_HEADER_SIZE, FILE_MAGIC_TOP_LEVEL};
+use decodeme::{
+    read_file_header, PageTag, CURRENT_FILE_FORMAT_VERSION, FILE_HEADER_SIZE, FILE_MAGIC_TOP_LEVEL,
+};
 
 use clap::Parser;
 
@@ -19,7 +21,7 @@ enum Opt {
 fn truncate(file_contents: &[u8]) -> Result<Vec<u8>, Box<dyn Error + Send + Sync>> {
     let file_version = read_file_header(&file_contents, FILE_MAGIC_TOP_LEVEL, None, "top-level")?;
 
-    if file_version < 7 || file_version > 8 {
+    if file_version < 7 || file_version > CURRENT_FILE_FORMAT_VERSION {
         return Err(format!("File version {} is not support", file_version).into());
     }
 
-- 
2.43.0


From eac059dadee77beb99bb6f8ec6241f87358126af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 10/16] fix: refuse differing profiles with a single event in
 summarize aggregate

---
 summarize/src/aggregate.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/summarize/src/aggregate.rs b/summarize/src/aggregate.rs
index 17808bf..eddd95a 100644
--- a/summarize/src/aggregate.rs
+++ b/summarize/src/aggregate.rs
@@ -474,6 +474,22 @@ impl<T: Copy + Ord, S: Clone> Extrema<T, S> {
 }
 
 pub fn aggregate_profiles(profiles: Vec<ProfilingData>) {
+    // Profiles with fewer than two sample points have no sample intervals, where
+    // the event details would get compared, so always compare the last ones.
+    let mut last_sample_points = profiles.iter().map(|data| {
+        SamplePoints::new(data.iter_full())
+            .next_back()
+            .map(|point| point.map_event(WithParent::<EventDescription<'_>>::from))
+    });
+    if let Some(first) = last_sample_points.next() {
+        for other in last_sample_points {
+            assert_eq!(
+                first, other,
+                "`summarize aggregate` requires identical sequences of events"
+            );
+        }
+    }
+
     let aggregated_sample_intervals = AggregatedSampleIntervals::new(
         profiles
             .iter()
-- 
2.43.0


From 63a469595d3ea25ddf23537c565e08c006c558f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:17 +0000
Subject: [PATCH 11/16] fix: read a hardware counter's page with volatile reads

The page is changed by the kernel, but was read through a shared reference,
which allows the compiler to move the reads of the fields out from between
the two reads of the sequence number. Optimised builds did exactly that, so
that a change of the page while a counter was set up could go unnoticed and
the counter read another register than its own.
---
 measureme/src/counters.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/measureme/src/counters.rs b/measureme/src/counters.rs
index 18d5e63..df379c8 100644
--- a/measureme/src/counters.rs
+++ b/measureme/src/counters.rs
@@ -444,24 +444,25 @@ mod hw {
             &self,
             attempt: impl Fn(&perf_event_mmap_page) -> T,
         ) -> T {
-            // FIXME(eddyb) it's probably UB to use regular reads, especially
-            // from behind `&T`, with the only synchronization being barriers.
-            // Probably needs atomic reads, and stronger ones at that, for the
-            // `lock` field, than the fields (which would be `Relaxed`?).
-            let mmap_page = unsafe { &*(self.mmap.as_ptr() as *const perf_event_mmap_page) };
+            // NOTE the kernel can change the page at any time, so it has to be
+            // accessed with volatile reads: behind a `&T` the compiler may assume
+            // that nothing changes, and move the reads done by `attempt` out from
+            // between the two reads of `lock` (or merge the latter).
+            let mmap_page = self.mmap.as_ptr() as *const perf_event_mmap_page;
+            let read_lock = || unsafe { std::ptr::addr_of!((*mmap_page).lock).read_volatile() };
             let barrier = || std::sync::atomic::fence(std::sync::atomic::Ordering::Acquire);
 
             loop {
                 // Grab the "seqlock" - the kernel will update this value when it
                 // updates any of the other fields that may be read in `attempt`.
-                let seq_lock = mmap_page.lock;
+                let seq_lock = read_lock();
                 barrier();
 
-                let result = attempt(mmap_page);
+                let result = attempt(&unsafe { mmap_page.read_volatile() });
 
                 // If nothing has changed, we're done. Otherwise, keep retrying.
                 barrier();
-                if mmap_page.lock == seq_lock {
+                if read_lock() == seq_lock {
                     return result;
                 }
             }
-- 
2.43.0


From 97d4a5fe3743e3a2ae74816e44978bd391b2c43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:41 +0000
Subject: [PATCH 12/16] fix: stack_collapse: fail if the end of the output
 cannot be written

---
 stack_collapse/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stack_collapse/src/main.rs b/stack_collapse/src/main.rs
index e243c92..21ba4f9 100644
--- a/stack_collapse/src/main.rs
+++ b/stack_collapse/src/main.rs
@@ -25,5 +25,8 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
         writeln!(file, "{} {}", unique_stack, count)?;
     }
 
+    // Dropping the writer would ignore an error when the rest is written.
+    file.flush()?;
+
     Ok(())
 }
-- 
2.43.0


From 8aee44104d88c47aab12fc4c5dfe344b173375c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:41 +0000
Subject: [PATCH 13/16] fix: crox: fail if the end of the output cannot be
 written

---
 crox/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crox/src/main.rs b/crox/src/main.rs
index f4063a1..ed0f8d8 100644
--- a/crox/src/main.rs
+++ b/crox/src/main.rs
@@ -1,6 +1,6 @@
 use rustc_hash::FxHashMap;
 use std::fs;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::PathBuf;
 use std::time::{Duration, SystemTime, UNIX_EPOCH};
 
@@ -213,6 +213,9 @@ fn main() -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
 
     seq.end()?;
 
+    // Dropping the writer would ignore an error when the rest is written.
+    serializer.into_inner().flush()?;
+
     Ok(())
 }
 
-- 
2.43.0


From ac846419461542ab297723a2d83d1c23dd83e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:41 +0000
Subject: [PATCH 14/16] fix: summarize: fail if the end of a JSON result cannot
 be written

---
 summarize/src/main.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index 42be14a..b33b580 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -5,7 +5,7 @@ use analyzeme::AnalysisResults;
 use analyzeme::ProfilingData;
 use std::error::Error;
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::{path::PathBuf, time::Duration};
 
 use clap::Parser;
@@ -76,8 +76,10 @@ fn write_results_json(
     file: &PathBuf,
     results: impl Serialize,
 ) -> Result<(), Box<dyn Error + Send + Sync>> {
-    let file = BufWriter::new(File::create(file.with_extension("json"))?);
-    serde_json::to_writer(file, &results)?;
+    let mut file = BufWriter::new(File::create(file.with_extension("json"))?);
+    serde_json::to_writer(&mut file, &results)?;
+    // Dropping the writer would ignore an error when the rest is written.
+    file.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From 79f92394477e36ca7f9d87bd6e0faa5c82d8d51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:56 +0000
Subject: [PATCH 15/16] fix: summarize: fail if the end of the output cannot be
 printed

---
 summarize/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index b33b580..f9b526b 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -326,5 +326,9 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
         Opt::Summarize(opt) => summarize(opt),
         Opt::Diff(opt) => diff(opt),
         Opt::Aggregate(opt) => aggregate(opt),
-    }
+    }?;
+
+    // At exit, an error when the rest is printed would be ignored.
+    std::io::stdout().flush()?;
+    Ok(())
 }
-- 
2.43.0


From 66f4ec68e6130d80d5c432635bbed30e3ed8e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:56 +0000
Subject: [PATCH 16/16] fix: mmview: fail if the end of the output cannot be
 printed

---
 mmview/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmview/src/main.rs b/mmview/src/main.rs
index 6b6494e..a7437d5 100644
--- a/mmview/src/main.rs
+++ b/mmview/src/main.rs
@@ -1,6 +1,7 @@
 use analyzeme::{Event, EventPayload, ProfilingData, Timestamp};
 use clap::Parser;
 use std::error::Error;
+use std::io::Write;
 use std::path::PathBuf;
 use std::time::{Duration, SystemTime};
 
@@ -38,6 +39,9 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
         eprintln!("No events.");
     }
 
+    // At exit, an error when the rest is printed would be ignored.
+    std::io::stdout().flush()?;
+
     Ok(())
 }
 
-- 
2.43.0

