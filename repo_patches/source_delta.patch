From 19859ccb902a68a573b5a92f1eb2fd3848d36a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:48 +0000
Subject: [PATCH 01/32] fix: keep the lines following an over limit line

drop_until_next_line scanned the zero padding after a short read, discarded
everything following the separator when the read filled the chunk, and
underflowed when a sub line separator was cut by the chunk boundary.
---
 iterator/src/iterator.rs | 49 +++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/iterator/src/iterator.rs b/iterator/src/iterator.rs
index cf9fe95..e5de593 100644
--- a/iterator/src/iterator.rs
+++ b/iterator/src/iterator.rs
@@ -192,10 +192,10 @@ impl<R: Read> BytesLines<R> {
             }
 
             // Step I: The current line is over the limit, we need to discard it.
-            Some((pos, sep)) if pos > self.max_line_length => {
+            Some((end, sep)) if end - sep.len() > self.max_line_length => {
                 self.prev_pos = 0;
                 // The next line is already in the buffer, so we can just advance.
-                self.buf.advance(pos + sep.len());
+                self.buf.advance(end);
                 self.get_slice()
             }
 
@@ -208,10 +208,10 @@ impl<R: Read> BytesLines<R> {
             }
 
             // Step B: We found the end of the line, we can return it now.
-            Some((pos, sep)) => {
+            Some((end, sep)) => {
                 self.prev_pos = 0;
                 // Step C: split_to() creates a new zero copy reference to the buffer.
-                let res = self.buf.split_to(pos).freeze();
+                let res = self.buf.split_to(end - sep.len()).freeze();
                 // Step D: advance the starting position
                 self.buf.advance(sep.len());
                 if res.is_empty() {
@@ -223,7 +223,7 @@ impl<R: Read> BytesLines<R> {
         }
     }
 
-    // Find the next line position and update the line count
+    // Find the end position of the next separator and update the line count
     fn find_next_line(&mut self) -> Option<(usize, Sep)> {
         let slice = self.buf.as_ref();
         for (pos, c) in slice[self.prev_pos..].iter().enumerate() {
@@ -249,11 +249,7 @@ impl<R: Read> BytesLines<R> {
             if let Some(sep) = sep {
                 // We found a separator.
                 self.update_line_counter(State::Scanning(sep));
-                let line_separator_pos = match sep {
-                    Sep::SubLine => self.prev_pos + pos - 1,
-                    _ => self.prev_pos + pos,
-                };
-                return Some((line_separator_pos, sep));
+                return Some((self.prev_pos + pos + 1, sep));
             }
         }
         None
@@ -272,25 +268,22 @@ impl<R: Read> BytesLines<R> {
         self.buf.resize(self.chunk_size, 0);
         match self.reader.read(&mut self.buf) {
             // We read some data.
-            Ok(n) if n > 0 => match self.find_next_line() {
-                // the long line terminated at the end of the buffer.
-                Some(_) if n == self.chunk_size => {
-                    self.buf.clear();
-                    self.read_slice()
-                }
-
-                // the next line is already in the buffer
-                Some((pos, sep)) => {
-                    self.buf.advance(pos + sep.len());
-                    self.get_slice()
-                }
-
-                // No line terminator found, keep on draining.
-                None => {
-                    self.buf.clear();
-                    self.drop_until_next_line()
+            Ok(n) if n > 0 => {
+                self.buf.truncate(n);
+                match self.find_next_line() {
+                    // the next line is already in the buffer
+                    Some((end, _)) => {
+                        self.buf.advance(end);
+                        self.get_slice()
+                    }
+
+                    // No line terminator found, keep on draining.
+                    None => {
+                        self.buf.clear();
+                        self.drop_until_next_line()
+                    }
                 }
-            },
+            }
 
             // We reached the end of the reader, this is the end.
             Ok(_) => None,
-- 
2.43.0


From 7521ef65307ccde625c37a6e538df935a94fc23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:06 +0000
Subject: [PATCH 02/32] fix: read blank lines and over limit lines with a
 constant stack

The iterator called itself for every blank line and for every chunk, which
overflowed the stack. The unused part of the buffer was also kept after a
read error.
---
 iterator/src/iterator.rs | 144 +++++++++++++++++++--------------------
 1 file changed, 69 insertions(+), 75 deletions(-)

diff --git a/iterator/src/iterator.rs b/iterator/src/iterator.rs
index e5de593..602b20b 100644
--- a/iterator/src/iterator.rs
+++ b/iterator/src/iterator.rs
@@ -120,7 +120,6 @@ impl<R: Read> Iterator for BytesLines<R> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.state {
             State::EoF => None,
-            State::Scanning(_) if self.buf.is_empty() => self.read_slice(),
             State::Scanning(_) => self.get_slice(),
         }
     }
@@ -154,70 +153,73 @@ impl<R: Read> BytesLines<R> {
         }
     }
 
-    // Read a new chunk and call get_slice
-    fn read_slice(&mut self) -> Option<Result<LogLine>> {
+    // Read a new chunk at the end of the buffer
+    fn read_chunk(&mut self) -> Result<usize> {
         let pos = self.buf.len();
         // When pos is at 0, we are at Step A, otherwise this is Step G
         self.buf.resize(pos + self.chunk_size, 0);
-        match self.reader.read(&mut self.buf[pos..]) {
-            // We read some data.
-            Ok(n) if n > 0 => {
-                self.buf.truncate(pos + n);
-                self.get_slice()
-            }
-
-            // Step H: We reached the end of the reader, but we have left-overs.
-            Ok(_) if pos > 0 => {
-                self.update_line_counter(State::EoF);
-                Some(Ok((self.buf.split_to(pos).freeze(), self.line_count)))
-            }
-
-            // We reached the end of the reader, this is the end.
-            Ok(_) => None,
-
-            // There was a reading error, we return it.
-            Err(e) => Some(Err(e)),
-        }
+        let res = self.reader.read(&mut self.buf[pos..]);
+        // Remove the space that was not used by the reader.
+        self.buf.truncate(pos + res.as_ref().map_or(0, |n| *n));
+        res
     }
 
     // Find the next line in the buffer
     fn get_slice(&mut self) -> Option<Result<LogLine>> {
-        match self.find_next_line() {
-            // Step J: The current line is over the limit, and we don't know where it ends.
-            None if self.buf.len() > self.max_line_length => {
-                self.prev_pos = 0;
-                self.buf.clear();
-                self.buf.reserve(self.chunk_size);
-                self.drop_until_next_line()
-            }
+        loop {
+            match self.find_next_line() {
+                // Step J: The current line is over the limit, and we don't know where it ends.
+                None if self.buf.len() > self.max_line_length => {
+                    self.prev_pos = 0;
+                    self.buf.clear();
+                    self.buf.reserve(self.chunk_size);
+                    match self.drop_until_next_line() {
+                        Ok(true) => {}
+                        Ok(false) => return None,
+                        Err(e) => return Some(Err(e)),
+                    }
+                }
 
-            // Step I: The current line is over the limit, we need to discard it.
-            Some((end, sep)) if end - sep.len() > self.max_line_length => {
-                self.prev_pos = 0;
-                // The next line is already in the buffer, so we can just advance.
-                self.buf.advance(end);
-                self.get_slice()
-            }
+                // Step I: The current line is over the limit, we need to discard it.
+                Some((end, sep)) if end - sep.len() > self.max_line_length => {
+                    self.prev_pos = 0;
+                    // The next line is already in the buffer, so we can just advance.
+                    self.buf.advance(end);
+                }
 
-            // Step E: We haven't found the end of the line, we need more data.
-            None => {
-                // Step F: reserve() will attempt to reclaim space in the buffer.
-                self.prev_pos = self.buf.len();
-                self.buf.reserve(self.chunk_size);
-                self.read_slice()
-            }
+                // Step E: We haven't found the end of the line, we need more data.
+                None => {
+                    // Step F: reserve() will attempt to reclaim space in the buffer.
+                    self.prev_pos = self.buf.len();
+                    self.buf.reserve(self.chunk_size);
+                    match self.read_chunk() {
+                        // We read some data.
+                        Ok(n) if n > 0 => {}
+
+                        // We reached the end of the reader, this is the end.
+                        Ok(_) if self.buf.is_empty() => return None,
+
+                        // Step H: We reached the end of the reader, but we have left-overs.
+                        Ok(_) => {
+                            self.update_line_counter(State::EoF);
+                            return Some(Ok((self.buf.split().freeze(), self.line_count)));
+                        }
+
+                        // There was a reading error, we return it.
+                        Err(e) => return Some(Err(e)),
+                    }
+                }
 
-            // Step B: We found the end of the line, we can return it now.
-            Some((end, sep)) => {
-                self.prev_pos = 0;
-                // Step C: split_to() creates a new zero copy reference to the buffer.
-                let res = self.buf.split_to(end - sep.len()).freeze();
-                // Step D: advance the starting position
-                self.buf.advance(sep.len());
-                if res.is_empty() {
-                    self.get_slice()
-                } else {
-                    Some(Ok((res, self.line_count)))
+                // Step B: We found the end of the line, we can return it now.
+                Some((end, sep)) => {
+                    self.prev_pos = 0;
+                    // Step C: split_to() creates a new zero copy reference to the buffer.
+                    let res = self.buf.split_to(end - sep.len()).freeze();
+                    // Step D: advance the starting position
+                    self.buf.advance(sep.len());
+                    if !res.is_empty() {
+                        return Some(Ok((res, self.line_count)));
+                    }
                 }
             }
         }
@@ -263,33 +265,25 @@ impl<R: Read> BytesLines<R> {
         self.state = state;
     }
 
-    // Drop until we find the next line
-    fn drop_until_next_line(&mut self) -> Option<Result<LogLine>> {
-        self.buf.resize(self.chunk_size, 0);
-        match self.reader.read(&mut self.buf) {
-            // We read some data.
-            Ok(n) if n > 0 => {
-                self.buf.truncate(n);
-                match self.find_next_line() {
+    // Drop until we find the next line, returns false when there is no more lines.
+    fn drop_until_next_line(&mut self) -> Result<bool> {
+        loop {
+            match self.read_chunk()? {
+                // We reached the end of the reader, this is the end.
+                0 => return Ok(false),
+
+                // We read some data.
+                _ => match self.find_next_line() {
                     // the next line is already in the buffer
                     Some((end, _)) => {
                         self.buf.advance(end);
-                        self.get_slice()
+                        return Ok(true);
                     }
 
                     // No line terminator found, keep on draining.
-                    None => {
-                        self.buf.clear();
-                        self.drop_until_next_line()
-                    }
-                }
+                    None => self.buf.clear(),
+                },
             }
-
-            // We reached the end of the reader, this is the end.
-            Ok(_) => None,
-
-            // There was a reading error, we return it.
-            Err(e) => Some(Err(e)),
         }
     }
 }
-- 
2.43.0


From 107fbaabdd5a1769256dd93932e6537a58cde667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:06 +0000
Subject: [PATCH 03/32] fix: split the lines terminated by a backslash

They were merged with the following line, and every line number after that
was wrong.
---
 iterator/src/iterator.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/iterator/src/iterator.rs b/iterator/src/iterator.rs
index 602b20b..069ab2a 100644
--- a/iterator/src/iterator.rs
+++ b/iterator/src/iterator.rs
@@ -232,10 +232,11 @@ impl<R: Read> BytesLines<R> {
             let c = *c as char;
             let sep = if self.escaped {
                 self.escaped = false;
-                if c == 'n' {
-                    Some(Sep::SubLine)
-                } else {
-                    None
+                match c {
+                    'n' => Some(Sep::SubLine),
+                    // A trailing backslash does not escape a line return.
+                    '\n' => Some(Sep::NewLine),
+                    _ => None,
                 }
             } else if c == '\\' {
                 self.escaped = true;
-- 
2.43.0


From 69a6f6f3f1e54ccfecc615a01a5584e845e41cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:07 +0000
Subject: [PATCH 04/32] fix: apply the line length limit regardless of the
 chunk boundaries

A line of the maximum length was dropped when the chunk ended in the middle
of its sub line separator.
---
 iterator/src/iterator.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/iterator/src/iterator.rs b/iterator/src/iterator.rs
index 069ab2a..b0030d5 100644
--- a/iterator/src/iterator.rs
+++ b/iterator/src/iterator.rs
@@ -169,7 +169,8 @@ impl<R: Read> BytesLines<R> {
         loop {
             match self.find_next_line() {
                 // Step J: The current line is over the limit, and we don't know where it ends.
-                None if self.buf.len() > self.max_line_length => {
+                // (A trailing backslash may be the start of the separator.)
+                None if self.buf.len() > self.max_line_length + usize::from(self.escaped) => {
                     self.prev_pos = 0;
                     self.buf.clear();
                     self.buf.reserve(self.chunk_size);
@@ -199,6 +200,12 @@ impl<R: Read> BytesLines<R> {
                         // We reached the end of the reader, this is the end.
                         Ok(_) if self.buf.is_empty() => return None,
 
+                        // The trailing backslash was not a separator, the last line is over the limit.
+                        Ok(_) if self.buf.len() > self.max_line_length => {
+                            self.update_line_counter(State::EoF);
+                            return None;
+                        }
+
                         // Step H: We reached the end of the reader, but we have left-overs.
                         Ok(_) => {
                             self.update_line_counter(State::EoF);
-- 
2.43.0


From 5953e09274af11d64a4924ead8bc28c80ecf591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:53 +0000
Subject: [PATCH 05/32] fix: do not resume after the log-classify task

The processor stops at its own output, but the iterator went on reading the
following lines when anomalies had been found before it.
---
 model/src/process.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/model/src/process.rs b/model/src/process.rs
index a36074e..c216687 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -95,6 +95,8 @@ pub struct ChunkProcessor<'a, R: Read> {
     skip_lines: &'a mut HashSet<String>,
     /// The current line coordinate.
     coord: usize,
+    /// Set when the rest of the reader must be ignored.
+    stopped: bool,
     /// Total lines count
     pub line_count: usize,
     /// Total bytes count
@@ -135,13 +137,14 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             anomalies: VecDeque::new(),
             skip_lines,
             coord: 0,
+            stopped: false,
             line_count: 0,
             byte_count: 0,
         }
     }
 
     fn read_anomalies(&mut self) -> Result<()> {
-        while let Some(line) = self.reader.next() {
+        while let Some(line) = (!self.stopped).then(|| self.reader.next()).flatten() {
             let line = line?;
             let raw_str = std::str::from_utf8(&line.0[..])
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
@@ -151,6 +154,7 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
 
             // Special check to break when we are processing ourself
             if raw_str.contains("TASK [log-classify") {
+                self.stopped = true;
                 break;
             }
 
-- 
2.43.0


From e86585a77ecd338aba7e0d46466746ee48b502d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:55 +0000
Subject: [PATCH 06/32] fix: do not repeat the after context of a chunk in the
 next one

The last lines of a chunk were kept as before context even when they had
been attached to the last anomaly.
---
 model/src/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/model/src/process.rs b/model/src/process.rs
index c216687..c9cabc0 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -275,6 +275,8 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
         if let Some(anomaly) = &mut self.current_anomaly {
             if last_context_pos < self.buffer.len() {
                 for ((bytes, _), _) in &self.buffer[last_context_pos..] {
+                    // This line must not be part of the next anomaly before context.
+                    last_context_pos += 1;
                     let raw_str = logreduce_iterator::clone_bytes_to_string(bytes).unwrap();
                     anomaly.after.push(raw_str);
                     if anomaly.after.len() >= CTX_DISTANCE {
-- 
2.43.0


From 24cfc7a467121442e3e2186b066503d1662ba503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:56 +0000
Subject: [PATCH 07/32] fix: keep the after context found at the end of the
 file

It was lost when the last chunk only contained known lines.
---
 model/src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/src/process.rs b/model/src/process.rs
index c9cabc0..77a187f 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -186,7 +186,7 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
         }
 
         // We reached the end of the file and the last chunk is not completed
-        if !self.targets.is_empty() {
+        if !self.buffer.is_empty() {
             self.do_search_anomalies();
         }
         if let Some(anomaly) = &self.current_anomaly {
-- 
2.43.0


From da0e63ff4414b2cb34642de395d4afd042dd73be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:56 +0000
Subject: [PATCH 08/32] fix: decompress the local gz files

Path::extension does not include the leading dot.
---
 model/src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/src/reader.rs b/model/src/reader.rs
index 07ec6df..35e98b0 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -52,7 +52,7 @@ use DecompressReader::*;
 pub fn from_path(path: &Path) -> Result<DecompressReader> {
     let fp = File::open(path)?;
     let extension = path.extension().unwrap_or_else(|| std::ffi::OsStr::new(""));
-    Ok(if extension == ".gz" {
+    Ok(if extension == "gz" {
         Gz(GzDecoder::new(fp))
     } else {
         Flat(fp)
-- 
2.43.0


From 82b5125b6efe160d6b7bdc0855fe22cbddd33b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:11 +0000
Subject: [PATCH 09/32] fix: keep on inspecting the sources after one can't be
 opened

The remaining sources were neither inspected nor reported.
---
 cli/src/main.rs    | 5 +----
 model/src/model.rs | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index cfeba4d..3191bb4 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -338,10 +338,7 @@ fn process_live(output_mode: OutputMode, content: &Content, model: &Model) -> Re
                         }
                         total_line_count += processor.line_count;
                     }
-                    Err(err) => {
-                        println!("Could not read {}: {}", &source, err);
-                        break;
-                    }
+                    Err(err) => println!("Could not read {}: {}", &source, err),
                 }
             }
             None => {
diff --git a/model/src/model.rs b/model/src/model.rs
index 5dc13c3..64c5bd5 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -505,10 +505,7 @@ impl Model {
                                     });
                                 }
                             }
-                            Err(err) => {
-                                read_errors.push((source.clone(), format!("{}", err)));
-                                break;
-                            }
+                            Err(err) => read_errors.push((source.clone(), format!("{}", err))),
                         }
                     }
                 }
-- 
2.43.0


From 9668d60530196088d2109ec86c176cf5760c30a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:02 +0000
Subject: [PATCH 10/32] fix: report the anomalies found before a reading error

The lines of the current chunk were discarded, thus the anomalies of a small
truncated file were all lost.
---
 model/src/process.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/model/src/process.rs b/model/src/process.rs
index 77a187f..475f2ef 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -97,6 +97,8 @@ pub struct ChunkProcessor<'a, R: Read> {
     coord: usize,
     /// Set when the rest of the reader must be ignored.
     stopped: bool,
+    /// The reading error, returned after the anomalies found before it.
+    error: Option<anyhow::Error>,
     /// Total lines count
     pub line_count: usize,
     /// Total bytes count
@@ -138,12 +140,14 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             skip_lines,
             coord: 0,
             stopped: false,
+            error: None,
             line_count: 0,
             byte_count: 0,
         }
     }
 
-    fn read_anomalies(&mut self) -> Result<()> {
+    /// Read the lines until an anomaly is found.
+    fn read_lines(&mut self) -> Result<()> {
         while let Some(line) = (!self.stopped).then(|| self.reader.next()).flatten() {
             let line = line?;
             let raw_str = std::str::from_utf8(&line.0[..])
@@ -185,6 +189,18 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             }
         }
 
+        Ok(())
+    }
+
+    fn read_anomalies(&mut self) -> Result<()> {
+        if let Err(e) = self.read_lines() {
+            self.stopped = true;
+            self.error = Some(e);
+        }
+        if !self.anomalies.is_empty() {
+            return Ok(());
+        }
+
         // We reached the end of the file and the last chunk is not completed
         if !self.buffer.is_empty() {
             self.do_search_anomalies();
@@ -194,7 +210,13 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             self.anomalies.push_back(anomaly.clone());
             self.current_anomaly = None;
         }
-        Ok(())
+        match self.error.take() {
+            Some(e) if self.anomalies.is_empty() => Err(e),
+            error => {
+                self.error = error;
+                Ok(())
+            }
+        }
     }
 
     /// Helper function for the anomalies_from_reader implementation.
-- 
2.43.0


From c748b5e62ff3f9998fe9e0d44932b4ac2fd4aed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:12 +0000
Subject: [PATCH 11/32] fix: only serve the complete entries from the cache

An entry was visible as soon as it was created, and a partial download was
finalized when its reader got dropped: interrupted downloads were then served
as if they were complete.
---
 cache/src/cache.rs | 81 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 75 insertions(+), 6 deletions(-)

diff --git a/cache/src/cache.rs b/cache/src/cache.rs
index 29cacf2..81761a8 100644
--- a/cache/src/cache.rs
+++ b/cache/src/cache.rs
@@ -7,7 +7,9 @@ use anyhow::{Context, Result};
 use flate2::read::GzDecoder;
 use flate2::write::GzEncoder;
 use std::fs::File;
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
+use std::path::PathBuf;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use url::Url;
 
 // Low level functions to create unique file names
@@ -82,10 +84,12 @@ impl Cache {
 
     /// Add a file reader to the cache.
     pub fn remote_add<R: Read>(&self, base: &Url, path: &Url, obj: R) -> Result<CacheReader<R>> {
-        let fp = self.create(&filename::http(base, path))?;
+        let entry = self.create_pending(&filename::http(base, path))?;
+        let fp = entry.create()?;
         Ok(CacheReader {
             remote: obj,
             local: GzEncoder::new(fp, flate2::Compression::fast()),
+            entry,
         })
     }
 
@@ -99,8 +103,10 @@ impl Cache {
 
     /// Add a httpdir to the cache.
     pub fn httpdir_add(&self, url: &Url, paths: &[Url]) -> Result<()> {
-        let fp = self.create(&filename::httpdir(url))?;
-        bincode::serialize_into(fp, paths).context("Failed to serialize httpdir save")
+        let mut entry = self.create_pending(&filename::httpdir(url))?;
+        bincode::serialize_into(entry.create()?, paths)
+            .context("Failed to serialize httpdir save")?;
+        entry.publish().context("Failed to publish httpdir")
     }
 
     /// Remove a remote file from the cache.
@@ -125,6 +131,24 @@ impl Cache {
 
     // creates a new cache entry.
     fn create(&self, path: &str) -> Result<File> {
+        let buf = self.new_path(path)?;
+        File::create(buf).context("Failed to create local cache file")
+    }
+
+    // creates a new cache entry that is not visible until it is published.
+    fn create_pending(&self, path: &str) -> Result<PendingEntry> {
+        static COUNTER: AtomicUsize = AtomicUsize::new(0);
+        let path = self.new_path(path)?;
+        let id = COUNTER.fetch_add(1, Ordering::Relaxed);
+        let pending = path.with_extension(format!("{}-{}.tmp", std::process::id(), id));
+        Ok(PendingEntry {
+            path,
+            pending: Some(pending),
+        })
+    }
+
+    // get the path of a new cache entry.
+    fn new_path(&self, path: &str) -> Result<PathBuf> {
         let buf = self.xdg.get_cache_file(path);
         let path = buf.as_path();
         if path.exists() {
@@ -132,29 +156,74 @@ impl Cache {
         } else {
             let parent = path.parent().context("Failed to get cache parent")?;
             std::fs::create_dir_all(parent).context("Failed to create parent dir")?;
-            File::create(buf).context("Failed to create local cache file")
+            Ok(buf)
+        }
+    }
+}
+
+// A cache entry being written, it is removed unless it is published.
+struct PendingEntry {
+    path: PathBuf,
+    pending: Option<PathBuf>,
+}
+
+impl PendingEntry {
+    fn create(&self) -> Result<File> {
+        File::create(self.pending.as_ref().unwrap_or(&self.path))
+            .context("Failed to create local cache file")
+    }
+
+    fn publish(&mut self) -> std::io::Result<()> {
+        match self.pending.take() {
+            Some(pending) => std::fs::rename(pending, &self.path),
+            None => Ok(()),
+        }
+    }
+
+    fn discard(&mut self) {
+        if let Some(pending) = self.pending.take() {
+            let _ = std::fs::remove_file(pending);
         }
     }
 }
 
+impl Drop for PendingEntry {
+    fn drop(&mut self) {
+        self.discard()
+    }
+}
+
 /// A Reader object that saves remote data to a local compressed file.
+/// The file is added to the cache once the remote data is completely read.
 pub struct CacheReader<R: Read> {
     remote: R,
     local: GzEncoder<File>,
+    entry: PendingEntry,
 }
 
 impl<R: Read> Read for CacheReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         // Read remote data.
         let remote_read = self.remote.read(buf);
-        match remote_read {
+        let result = match remote_read {
+            // We reached the end of the remote data
+            Ok(0) if !buf.is_empty() => {
+                self.local.try_finish()?;
+                self.entry.publish().map(|()| 0)
+            }
             // Write to the local file
             Ok(remote_size) => self
                 .local
                 .write_all(&buf[..remote_size])
                 .map(|()| remote_size),
             Err(e) => Err(e),
+        };
+        match &result {
+            // The local file does not match the remote data
+            Err(e) if e.kind() != ErrorKind::Interrupted => self.entry.discard(),
+            _ => {}
         }
+        result
     }
 }
 
-- 
2.43.0


From bcfe6063dd777088b44bf47035fef9c81bc8bab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:05 +0000
Subject: [PATCH 12/32] fix: wait for the last crawler messages

The iterator stopped when the pool looked idle after an empty poll, which
missed the messages sent in between, and it called itself until the pool got
idle, which overflowed the stack. The workers own the senders, so the channel
is disconnected when the crawl is completed.
---
 httpdir/src/httpdir.rs | 51 ++++++++++++++----------------------------
 1 file changed, 17 insertions(+), 34 deletions(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index 5d4a447..80c499a 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -30,7 +30,6 @@ use regex::Regex;
 use reqwest::blocking::Client;
 use std::io::Result;
 use std::sync::mpsc::{channel, Receiver, Sender};
-use std::time::Duration;
 use threadpool::ThreadPool;
 use url::Url;
 
@@ -184,45 +183,29 @@ struct CrawlerIter {
     rx: Receiver<Message>,
 }
 
-impl CrawlerIter {
-    // We are done when all the work is completed: no worker are active or queued.
-    fn is_done(&self) -> bool {
-        self.abort
-            || (self.workers.active_count() + self.workers.queued_count() == 0
-                // ensure that when there is a panic, we propagate the error.
-                && self.workers.panic_count() == 0)
-    }
-}
-
 impl Iterator for CrawlerIter {
     type Item = Result<Url>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.rx.try_recv() {
-            // A new url was found, we return it.
-            Ok(Some(r)) => Some(r),
-
-            // A worker finished it's job, we keep on iterating.
-            Ok(None) => self.next(),
-
-            // No messages are available and all the workers are done, we stop the iterator.
-            Err(_) if self.is_done() => None,
-
-            // There was a panic
-            Err(_) if self.workers.panic_count() > 0 => {
-                self.abort = true;
-                Some(Err(mk_error("Crawler panicked!")))
+        while !self.abort {
+            match self.rx.recv() {
+                // A new url was found, we return it.
+                Ok(Some(r)) => return Some(r),
+
+                // A worker finished it's job, we keep on iterating.
+                Ok(None) => {}
+
+                // The workers own the senders, thus there are no more messages when they are done.
+                Err(_) => {
+                    self.abort = true;
+                    self.workers.join();
+                    if self.workers.panic_count() > 0 {
+                        return Some(Err(mk_error("Crawler panicked!")));
+                    }
+                }
             }
-
-            // The workers are still active, we can block recv to wait for the next message.
-            Err(_) => match self.rx.recv_timeout(Duration::from_secs(1)) {
-                // A new url was found, we can return it.
-                Ok(Some(r)) => Some(r),
-
-                // A worker completed it's task, we keep on iterating.
-                _ => self.next(),
-            },
         }
+        None
     }
 }
 
-- 
2.43.0


From 2d7ef041d116651e6f40f6c37821737a9b2b39bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:06 +0000
Subject: [PATCH 13/32] fix: crawl each url once

A page linked twice was crawled twice, and its files were listed as many times.
---
 httpdir/src/httpdir.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index 80c499a..a8fbee9 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -28,8 +28,10 @@
 use lazy_static::lazy_static;
 use regex::Regex;
 use reqwest::blocking::Client;
+use std::collections::HashSet;
 use std::io::Result;
 use std::sync::mpsc::{channel, Receiver, Sender};
+use std::sync::{Arc, Mutex};
 use threadpool::ThreadPool;
 use url::Url;
 
@@ -41,19 +43,31 @@ pub fn list(url: Url) -> Result<Vec<Url>> {
 /// Helper struct to prevent infinit loop.
 struct Visitor {
     // todo: add unique host check
-    // todo: add url hashset to check for unique url
     min_len: usize,
+    // The urls already visited, shared by all the workers.
+    visited: Arc<Mutex<HashSet<Url>>>,
 }
 
 impl Visitor {
     fn new() -> Visitor {
-        Visitor { min_len: 0 }
+        Visitor {
+            min_len: 0,
+            visited: Default::default(),
+        }
+    }
+
+    // Returns true the first time a url is added.
+    fn add(&self, url: &Url) -> bool {
+        self.visited.lock().unwrap().insert(url.clone())
     }
 
     fn visit(&self, url: &Url) -> Option<Visitor> {
         let min_len = url.path().len();
-        if min_len > self.min_len {
-            Some(Visitor { min_len })
+        if min_len > self.min_len && self.add(url) {
+            Some(Visitor {
+                min_len,
+                visited: self.visited.clone(),
+            })
         } else {
             None
         }
@@ -154,7 +168,7 @@ impl Crawler {
                         } else if let Some(url) = path_dir(&url) {
                             // Recursively call the handler on sub directory.
                             Crawler::process(&visitor, &client, &sub_pool, &tx, url)
-                        } else {
+                        } else if visitor.add(&url) {
                             // Send file location to the mpsc channel.
                             tx.send(Some(Ok(url))).unwrap()
                         }
-- 
2.43.0


From 8ad2d75a0095fad8d2c3bba867d6a0a68410d481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:08 +0000
Subject: [PATCH 14/32] fix: do not use the http error pages as content

They were parsed as an empty directory, or read as log lines, and then cached.
---
 httpdir/src/httpdir.rs | 2 +-
 model/src/reader.rs    | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index a8fbee9..fb44c4a 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -239,7 +239,7 @@ fn path_dir(url: &Url) -> Option<Url> {
 /// List the files and directories of a single url.
 pub fn http_list(client: &Client, url: Url) -> Result<Vec<Url>> {
     // dbg!(&url);
-    match client.get(url).send() {
+    match client.get(url).send().and_then(|r| r.error_for_status()) {
         Ok(resp) => {
             let url = resp.url().clone();
             match resp.text() {
diff --git a/model/src/reader.rs b/model/src/reader.rs
index 35e98b0..50c7177 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -29,7 +29,11 @@ mod remote {
     use super::*;
 
     pub fn get_url(url: &Url) -> Result<Response> {
-        CLIENT.get(url.clone()).send().context("Can't get url")
+        CLIENT
+            .get(url.clone())
+            .send()
+            .and_then(|resp| resp.error_for_status())
+            .context("Can't get url")
     }
 
     pub fn head(url: &Url) -> Result<bool> {
-- 
2.43.0


From 83028b0aa9234d04ca68072ec551c559da5ba2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:09 +0000
Subject: [PATCH 15/32] fix: handle short urls and non utf-8 paths

The directory prefix was sliced without checking the length of the source,
and a file of a remote directory was opened using the first 42 characters of
its url as base.
---
 model/src/model.rs | 8 ++++++--
 model/src/urls.rs  | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 64c5bd5..c7921cf 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -97,8 +97,12 @@ impl Source {
     }
     pub fn get_relative(&'_ self) -> &'_ str {
         match self {
-            Source::Local(base_len, path) => &path.to_str().unwrap_or("")[*base_len..],
-            Source::Remote(base_len, url) => &url.as_str()[*base_len..],
+            Source::Local(base_len, path) => {
+                path.to_str().and_then(|s| s.get(*base_len..)).unwrap_or("")
+            }
+            Source::Remote(base_len, url) => {
+                url.as_str().get(*base_len..).unwrap_or(url.as_str())
+            }
         }
     }
 
diff --git a/model/src/urls.rs b/model/src/urls.rs
index c8558fa..3c1b945 100644
--- a/model/src/urls.rs
+++ b/model/src/urls.rs
@@ -32,7 +32,8 @@ impl Source {
         if prefix == 0 {
             crate::reader::from_url(url, url)
         } else {
-            crate::reader::from_url(&Url::parse(&url.as_str()[..42])?, url)
+            let base = url.as_str().get(..prefix).unwrap_or(url.as_str());
+            crate::reader::from_url(&Url::parse(base)?, url)
         }
     }
 
-- 
2.43.0


From 006cb80aa715b4f52eb52edf8bc45682a517e975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:16 +0000
Subject: [PATCH 16/32] fix: do not panic on incomplete zuul builds

A build without change, log_url or ref_url is not usable: it must be
reported as an error when it is the target, and it must not be selected
as a baseline.
---
 model/src/zuul.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/model/src/zuul.rs b/model/src/zuul.rs
index 5db1d76..c07cbad 100644
--- a/model/src/zuul.rs
+++ b/model/src/zuul.rs
@@ -80,7 +80,7 @@ impl Build {
         // Older builds are less valuable
         score -= elapsed_days(now, target.end_time.date_naive());
         // Check the build has URLs
-        match target.log_url.is_some() && target.ref_url.is_some() {
+        match target.log_url.is_some() && target.ref_url.is_some() && target.change.is_some() {
             true => Some(score),
             false => None,
         }
@@ -107,7 +107,7 @@ impl Build {
         let samples = self.get_success_samples()?;
         let max_builds = 1;
         let now = Utc::now().date_naive();
-        Ok(samples
+        samples
             .into_iter()
             // Compute a score value
             .map(|build| (self.baseline_score(&build, &now), build))
@@ -122,7 +122,7 @@ impl Build {
             .take(max_builds)
             // Create the content data type
             .map(|(_score, build)| new_content(self.api.clone(), build))
-            .collect())
+            .collect()
     }
 
     pub fn sources_iter(&self) -> Box<dyn Iterator<Item = Result<Source>>> {
@@ -130,8 +130,8 @@ impl Build {
     }
 }
 
-fn new_content(api: Url, build: zuul_build::Build) -> Content {
-    Content::Zuul(Box::new(Build {
+fn new_content(api: Url, build: zuul_build::Build) -> Result<Content> {
+    Ok(Content::Zuul(Box::new(Build {
         api,
         uuid: build.uuid,
         job_name: build.job_name,
@@ -139,11 +139,11 @@ fn new_content(api: Url, build: zuul_build::Build) -> Content {
         branch: build.branch,
         result: build.result,
         pipeline: build.pipeline,
-        log_url: build.log_url.expect("Invalid build"),
-        ref_url: build.ref_url.expect("Invalid build"),
+        log_url: build.log_url.context("Invalid build: missing log_url")?,
+        ref_url: build.ref_url.context("Invalid build: missing ref_url")?,
         end_time: build.end_time,
-        change: build.change.expect("Invalid build"),
-    }))
+        change: build.change.context("Invalid build: missing change")?,
+    })))
 }
 
 fn get_build(api: &Url, uid: &str) -> Result<zuul_build::Build> {
@@ -216,7 +216,9 @@ fn get_zuul_api_url(url: &'_ Url) -> Option<Result<(Url, &'_ str)>> {
 impl Content {
     pub fn from_zuul_url(url: &Url) -> Option<Result<Content>> {
         get_zuul_api_url(url).map(|res| {
-            res.and_then(|(api, uid)| get_build(&api, uid).map(|build| new_content(api, build)))
+            res.and_then(|(api, uid)| {
+                get_build(&api, uid).and_then(|build| new_content(api, build))
+            })
         })
     }
 }
-- 
2.43.0


From f583a43225beb0e4d54e39ae18f21217e4d14bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:17 +0000
Subject: [PATCH 17/32] fix: render a context that starts before the first
 physical line

The before context of a line made of escaped sub lines can be larger than
the line number.
---
 report/src/report.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/report/src/report.rs b/report/src/report.rs
index e9aa306..f29933d 100644
--- a/report/src/report.rs
+++ b/report/src/report.rs
@@ -347,7 +347,7 @@ fn render_lines(loglines: &mut Node, anomalies: &[logreduce_model::AnomalyContex
     let mut last_pos = None;
 
     for anomaly in anomalies {
-        let starting_pos = anomaly.anomaly.pos - 1 - anomaly.before.len();
+        let starting_pos = anomaly.anomaly.pos.saturating_sub(1 + anomaly.before.len());
         if let Some(last_pos) = last_pos {
             if last_pos != starting_pos {
                 loglines.hr().attr("class=\"ls\"");
-- 
2.43.0


From 632044ab52976a17fcfd740954873495ed813bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:17 +0000
Subject: [PATCH 18/32] fix: show the context line numbers of the live output

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 3191bb4..8fdb683 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -279,7 +279,7 @@ fn process_live(output_mode: OutputMode, content: &Content, model: &Model) -> Re
     let print_context = |pos: usize, xs: &[String]| {
         xs.iter()
             .enumerate()
-            .for_each(|(idx, line)| println!("   {} | {}", pos + idx, line))
+            .for_each(|(idx, line)| println!("   {} | {}", pos + 1 + idx, line))
     };
 
     let mut progress_sep_shown = false;
-- 
2.43.0


From 8aafa0e746fb874ec7dfb38783fdd5c365ef00b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:17 +0000
Subject: [PATCH 19/32] fix: group the compressed rotated files with the
 regular one

The index name of foo.log.1.gz is the same as foo.log.1
---
 model/src/files.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/src/files.rs b/model/src/files.rs
index ae4a1e6..6b98e03 100644
--- a/model/src/files.rs
+++ b/model/src/files.rs
@@ -165,6 +165,7 @@ impl IndexName {
                 )
                 .trim_matches(|c| matches!(c, '/' | '.' | '_' | '-'))
                 .trim_end_matches(".gz")
+                .trim_end_matches(|c| matches!(c, '/' | '.' | '_' | '-'))
                 .to_string()
         };
         IndexName(model_name)
-- 
2.43.0


From 5eeb10895942107d24a398b906473b5a990f2a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:09 +0000
Subject: [PATCH 20/32] fix: escape the log lines and the names in the html
 report

Otherwise the report loses the lines that look like markup.
---
 report/src/report.rs | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/report/src/report.rs b/report/src/report.rs
index f29933d..e04cfa8 100644
--- a/report/src/report.rs
+++ b/report/src/report.rs
@@ -34,6 +34,22 @@ impl Html {
     }
 }
 
+/// Escape the text so that it can be written in a node or in a quoted attribute.
+fn escape(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+    for c in text.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '"' => escaped.push_str("&quot;"),
+            '\'' => escaped.push_str("&#39;"),
+            c => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 fn table(parent: &mut Node, columns: Option<&[&str]>, rows: &[&[&str]]) -> Result<()> {
     let mut div = parent
         .div()
@@ -47,14 +63,14 @@ fn table(parent: &mut Node, columns: Option<&[&str]>, rows: &[&[&str]]) -> Resul
         let mut thead = table.thead();
         let mut tr = thead.tr();
         for column in columns {
-            tr.th().write_str(column)?;
+            tr.th().write_str(&escape(column))?;
         }
     }
     let mut tbody = table.tbody();
     for row in rows.iter() {
         let mut tr = tbody.tr();
         for cell in row.iter() {
-            tr.td().write_str(cell)?;
+            tr.td().write_str(&escape(cell))?;
         }
     }
     Ok(())
@@ -69,7 +85,7 @@ fn add_head(parent: &mut Node, title: &str) -> Result<()> {
             .attr("crossorigin=\"anonymous\"");
     }
     let mut head = parent.head();
-    head.title().write_str(title)?;
+    head.title().write_str(&escape(title))?;
     head.meta().attr("charset='utf-8'");
     for (href, integrity) in STYLES {
         add_link(&mut head, href, integrity);
@@ -258,7 +274,7 @@ fn render_content_report(
                     let mut desc = pf_body.div().attr("class=\"list-view-pf-description\"");
                     desc.div()
                         .attr("class=\"list-group-item-heading\"")
-                        .write_str(log_report.source.get_relative())?;
+                        .write_str(&escape(log_report.source.get_relative()))?;
                 }
 
                 {
@@ -273,9 +289,9 @@ fn render_content_report(
                         .a()
                         .attr(&format!(
                             "href=\"{}\"",
-                            model_anchor(&log_report.index_name)
+                            escape(&model_anchor(&log_report.index_name))
                         ))
-                        .write_str(&format!("{}", log_report.index_name))?;
+                        .write_str(&escape(log_report.index_name.as_str()))?;
                     additional_item.write_str(" model")?;
                 }
 
@@ -286,7 +302,7 @@ fn render_content_report(
                     additional_item.span().attr("class=\"fa fa-external-link\"");
                     additional_item
                         .a()
-                        .attr(&format!("href=\"{}\"", log_report.source.as_str()))
+                        .attr(&format!("href=\"{}\"", escape(log_report.source.as_str())))
                         .write_str("file")?;
                 }
 
@@ -319,8 +335,8 @@ fn render_content_report(
             for source in index_report.sources.iter().take(3) {
                 ul.li()
                     .a()
-                    .attr(&format!("href=\"{}\"", source.as_str()))
-                    .write_str(source.as_str())?
+                    .attr(&format!("href=\"{}\"", escape(source.as_str())))
+                    .write_str(&escape(source.as_str()))?
             }
         }
 
@@ -338,7 +354,7 @@ fn render_context(loglines: &mut Node, pos: usize, xs: &[String]) -> Result<()>
     for (idx, line) in xs.iter().enumerate() {
         loglines
             .pre()
-            .write_str(&format!("   {:4} | {}", pos + 1 + idx, line))?;
+            .write_str(&format!("   {:4} | {}", pos + 1 + idx, escape(line)))?;
     }
     Ok(())
 }
@@ -363,7 +379,9 @@ fn render_lines(loglines: &mut Node, anomalies: &[logreduce_model::AnomalyContex
             .attr(&format!("style=\"color: #{:2X}0000\"", color))
             .write_str(&format!(
                 "{:02} {:4} | {}",
-                dist, anomaly.anomaly.pos, anomaly.anomaly.line
+                dist,
+                anomaly.anomaly.pos,
+                escape(&anomaly.anomaly.line)
             ))?;
 
         render_context(loglines, anomaly.anomaly.pos, &anomaly.after)?;
-- 
2.43.0


From 8073d1abe68ae06c5ed46cca2b0a8fef56edabb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:10 +0000
Subject: [PATCH 21/32] fix: handle local files named like http and invalid
 urls

'httpd.log' is a local path, and an invalid url is an error.
---
 model/src/model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index c7921cf..2f8ac74 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -44,7 +44,7 @@ pub enum Input {
 
 impl Input {
     pub fn from_string(s: String) -> Input {
-        match s.starts_with("http") {
+        match s.starts_with("http://") || s.starts_with("https://") {
             true => Input::Url(s),
             false => Input::Path(s),
         }
@@ -332,7 +332,7 @@ impl Content {
         match input {
             Input::Path(path_str) => Content::from_path(Path::new(&path_str)),
             Input::Url(url_str) => {
-                Content::from_url(Url::parse(&url_str).expect("Failed to parse url"))
+                Content::from_url(Url::parse(&url_str).context("Failed to parse url")?)
             }
         }
     }
-- 
2.43.0


From 10b3289906ac17c5c75285df374d576ac8bf82d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:11 +0000
Subject: [PATCH 22/32] fix: report the write errors happening at the end of
 the model and report files

---
 model/src/model.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 2f8ac74..9fc6e08 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -241,14 +241,13 @@ pub struct Report {
 
 impl Report {
     pub fn save(&self, path: &Path) -> Result<()> {
-        bincode::serialize_into(
-            flate2::write::GzEncoder::new(
-                std::fs::File::create(path).context("Can't create report file")?,
-                flate2::Compression::fast(),
-            ),
-            self,
-        )
-        .context("Can't save report")
+        let mut encoder = flate2::write::GzEncoder::new(
+            std::fs::File::create(path).context("Can't create report file")?,
+            flate2::Compression::fast(),
+        );
+        bincode::serialize_into(&mut encoder, self).context("Can't save report")?;
+        encoder.finish().context("Can't save report")?;
+        Ok(())
     }
 
     pub fn load(path: &Path) -> Result<Report> {
@@ -446,14 +445,13 @@ impl Model {
 
     pub fn save(&self, path: &Path) -> Result<()> {
         tracing::info!(path = path.to_str(), "Saving model");
-        bincode::serialize_into(
-            flate2::write::GzEncoder::new(
-                std::fs::File::create(path).context("Can't create file")?,
-                flate2::Compression::fast(),
-            ),
-            self,
-        )
-        .context("Can't save model")
+        let mut encoder = flate2::write::GzEncoder::new(
+            std::fs::File::create(path).context("Can't create file")?,
+            flate2::Compression::fast(),
+        );
+        bincode::serialize_into(&mut encoder, self).context("Can't save model")?;
+        encoder.finish().context("Can't save model")?;
+        Ok(())
     }
 
     /// Get the matching index for a given Source.
-- 
2.43.0


From 75b9791b288c5065dd6e8ef6b785867e7c54f8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:54 +0000
Subject: [PATCH 23/32] fix: check the model and report files before decoding
 them

---
 model/src/model.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 9fc6e08..1bfa8dd 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -251,10 +251,9 @@ impl Report {
     }
 
     pub fn load(path: &Path) -> Result<Report> {
-        bincode::deserialize_from(flate2::read::GzDecoder::new(
-            std::fs::File::open(path).context("Can't open report file")?,
-        ))
-        .context("Can't load report")
+        let buf = read_gz(std::fs::File::open(path).context("Can't open report file")?)
+            .context("Can't read report")?;
+        bincode::deserialize(&buf).context("Can't load report")
     }
 }
 
@@ -437,10 +436,9 @@ impl Model {
 
     pub fn load(path: &Path) -> Result<Model> {
         tracing::info!(path = path.to_str(), "Loading provided model");
-        bincode::deserialize_from(flate2::read::GzDecoder::new(
-            std::fs::File::open(path).context("Can't open file")?,
-        ))
-        .context("Can't load model")
+        let buf = read_gz(std::fs::File::open(path).context("Can't open file")?)
+            .context("Can't read model")?;
+        bincode::deserialize(&buf).context("Can't load model")
     }
 
     pub fn save(&self, path: &Path) -> Result<()> {
@@ -529,6 +527,13 @@ impl Model {
     }
 }
 
+/// Helper function to read a whole file, and check it is complete, before decoding it.
+fn read_gz(file: std::fs::File) -> std::io::Result<Vec<u8>> {
+    let mut buf = Vec::new();
+    std::io::Read::read_to_end(&mut flate2::read::GzDecoder::new(file), &mut buf)?;
+    Ok(buf)
+}
+
 /// Helper function to debug
 pub fn debug_or_progress(output_mode: OutputMode, msg: &str) {
     match output_mode {
-- 
2.43.0


From 5e3666ca398d92f3e1f6e07911c8dbdb477aba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:11 +0000
Subject: [PATCH 24/32] fix: list the files with a short name or starting with
 a symbol

---
 httpdir/src/httpdir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index fb44c4a..42706df 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -254,7 +254,7 @@ pub fn http_list(client: &Client, url: Url) -> Result<Vec<Url>> {
 fn parse_index_of(base_url: Url, page: &str) -> Result<Vec<Url>> {
     // TODO check for title and support different types of indexes
     lazy_static! {
-        static ref RE: Regex = Regex::new(r#"<a href="([\\/a-zA-Z0-9][^"]+)">"#).unwrap();
+        static ref RE: Regex = Regex::new(r#"<a href="([\\/a-zA-Z0-9_%~-][^"]*)">"#).unwrap();
     }
 
     RE.captures_iter(page)
-- 
2.43.0


From 1e47af712179292ca51e778fcba7e2607debb83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:15 +0000
Subject: [PATCH 25/32] fix: resolve the zuul api from the path of the build
 page

---
 model/src/zuul.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/model/src/zuul.rs b/model/src/zuul.rs
index c07cbad..8b9aad8 100644
--- a/model/src/zuul.rs
+++ b/model/src/zuul.rs
@@ -6,7 +6,7 @@ use anyhow::{Context, Result};
 use chrono::{DateTime, NaiveDate, Utc};
 use itertools::Itertools;
 use serde::{Deserialize, Serialize};
-use url::Url;
+use url::{Position, Url};
 
 use crate::{Baselines, Content, Source};
 
@@ -170,23 +170,24 @@ fn is_uid(s: &str) -> bool {
         })
 }
 
-fn api_from_webui(url: &Url, tenant: &str) -> Result<Url> {
-    url.as_str()
-        .split_once("/t/")
+// Remove the location of the build from the url, along with its query and fragment.
+fn webui_root<'a>(url: &'a Url, location: &str) -> Result<&'a str> {
+    url[..Position::AfterPath]
+        .strip_suffix(location)
         .ok_or_else(|| anyhow::anyhow!("Invalid zuul url"))
-        .and_then(|(base, _)| {
-            Url::parse(&format!("{}/api/tenant/{}/", base, tenant))
-                .context("Can't recreate zuul api url")
-        })
 }
 
-fn api_from_whitelabel_webui(url: &Url) -> Result<Url> {
-    url.as_str()
-        .rsplit_once("/build/")
-        .ok_or_else(|| anyhow::anyhow!("Invalid zuul url"))
-        .and_then(|(base, _)| {
-            Url::parse(&format!("{}/api/", base)).context("Can't recreate zuul api url")
-        })
+fn api_from_webui(url: &Url, tenant: &str, uid: &str) -> Result<Url> {
+    webui_root(url, &format!("/t/{}/build/{}", tenant, uid)).and_then(|base| {
+        Url::parse(&format!("{}/api/tenant/{}/", base, tenant))
+            .context("Can't recreate zuul api url")
+    })
+}
+
+fn api_from_whitelabel_webui(url: &Url, uid: &str) -> Result<Url> {
+    webui_root(url, &format!("/build/{}", uid)).and_then(|base| {
+        Url::parse(&format!("{}/api/", base)).context("Can't recreate zuul api url")
+    })
 }
 
 fn get_zuul_api_url(url: &'_ Url) -> Option<Result<(Url, &'_ str)>> {
@@ -201,12 +202,12 @@ fn get_zuul_api_url(url: &'_ Url) -> Option<Result<(Url, &'_ str)>> {
                     .next_back()
                     .and_then(|tenant| match iter.next_back() {
                         // This is a multi tenant url
-                        Some("t") => Some(api_from_webui(url, tenant).map(|api| (api, uid))),
+                        Some("t") => Some(api_from_webui(url, tenant, uid).map(|api| (api, uid))),
                         _ => None,
                     })
                     .or_else(|| {
                         // Otherwise assume this is a whitelabel url
-                        Some(api_from_whitelabel_webui(url).map(|api| (api, uid)))
+                        Some(api_from_whitelabel_webui(url, uid).map(|api| (api, uid)))
                     }),
             }),
         })
-- 
2.43.0


From fded7f7c886ab83c4ecd860413f63144121422c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:29 +0000
Subject: [PATCH 26/32] fix: recognize the abbreviated names of days and months
 as dates

A log with syslog timestamps had different tokens from one month to the
other: may was a date, feb and dec were hexadecimal ids, and the others
were dropped.
---
 tokenizer/src/tokenizer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tokenizer/src/tokenizer.rs b/tokenizer/src/tokenizer.rs
index ad1995f..51fb64d 100644
--- a/tokenizer/src/tokenizer.rs
+++ b/tokenizer/src/tokenizer.rs
@@ -116,7 +116,10 @@ fn is_date(word: &str) -> bool {
         static ref RE: Regex = Regex::new(concat!(
             "(?i-u:^(",
             "sunday|monday|tuesday|wednesday|thursday|friday|saturday|",
-            "january|february|march|april|may|june|july|august|september|october|november|december",
+            "january|february|march|april|may|june|july|august|september|october|november|december|",
+            // abbreviated names, e.g. the syslog timestamps
+            "sun|mon|tue|wed|thu|fri|sat|",
+            "jan|feb|mar|apr|jun|jul|aug|sep|oct|nov|dec",
             ")$)"
         ))
         .unwrap();
-- 
2.43.0


From 0c304ad8fa6d3c39d3e2872bea865b5572534ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:35 +0000
Subject: [PATCH 27/32] fix: read every member of a local gzip file

---
 model/src/reader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/model/src/reader.rs b/model/src/reader.rs
index 50c7177..aca9bb5 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -10,7 +10,7 @@ use url::Url;
 
 use std::fs::File;
 
-use flate2::read::GzDecoder;
+use flate2::read::{GzDecoder, MultiGzDecoder};
 
 // TODO: use a struct to pass these references.
 lazy_static::lazy_static! {
@@ -46,6 +46,8 @@ mod remote {
 #[allow(clippy::large_enum_variant)]
 pub enum DecompressReader {
     Flat(File),
+    // a local file can be made of many gzip members
+    MultiGz(MultiGzDecoder<File>),
     Gz(GzDecoder<File>),
     // TODO: support BZIP2 compression
     Remote(Response),
@@ -57,7 +59,7 @@ pub fn from_path(path: &Path) -> Result<DecompressReader> {
     let fp = File::open(path)?;
     let extension = path.extension().unwrap_or_else(|| std::ffi::OsStr::new(""));
     Ok(if extension == "gz" {
-        Gz(GzDecoder::new(fp))
+        MultiGz(MultiGzDecoder::new(fp))
     } else {
         Flat(fp)
     })
@@ -112,6 +114,7 @@ impl Read for DecompressReader {
         // TODO: refactor using the enum_dispatch crate.
         match self {
             Flat(r) => r.read(buf),
+            MultiGz(r) => r.read(buf),
             Gz(r) => r.read(buf),
             Remote(r) => r.read(buf),
             Cached(r) => r.read(buf),
-- 
2.43.0


From b3ee65ebd36966f82e9e616be5eda707a8439615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:39 +0000
Subject: [PATCH 28/32] fix: compressed json logs are split like the plain ones

---
 model/src/model.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 1bfa8dd..52844e3 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -93,7 +93,8 @@ impl Source {
         Source::Local(0, p)
     }
     pub fn is_json(&'_ self) -> bool {
-        self.get_relative().ends_with(".json")
+        let name = self.get_relative();
+        name.strip_suffix(".gz").unwrap_or(name).ends_with(".json")
     }
     pub fn get_relative(&'_ self) -> &'_ str {
         match self {
-- 
2.43.0


From 92d0dfe55d2be47996c9637edfdf785762e7b3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:47 +0000
Subject: [PATCH 29/32] fix: a model or report file with leftover data can't be
 loaded

---
 model/src/model.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 52844e3..8f93f5e 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -254,7 +254,7 @@ impl Report {
     pub fn load(path: &Path) -> Result<Report> {
         let buf = read_gz(std::fs::File::open(path).context("Can't open report file")?)
             .context("Can't read report")?;
-        bincode::deserialize(&buf).context("Can't load report")
+        decode(&buf).context("Can't load report")
     }
 }
 
@@ -439,7 +439,7 @@ impl Model {
         tracing::info!(path = path.to_str(), "Loading provided model");
         let buf = read_gz(std::fs::File::open(path).context("Can't open file")?)
             .context("Can't read model")?;
-        bincode::deserialize(&buf).context("Can't load model")
+        decode(&buf).context("Can't load model")
     }
 
     pub fn save(&self, path: &Path) -> Result<()> {
@@ -528,6 +528,15 @@ impl Model {
     }
 }
 
+/// Helper function to decode a whole buffer, without leftover.
+fn decode<'a, T: Deserialize<'a>>(buf: &'a [u8]) -> bincode::Result<T> {
+    use bincode::Options;
+    bincode::DefaultOptions::new()
+        .with_fixint_encoding()
+        .reject_trailing_bytes()
+        .deserialize(buf)
+}
+
 /// Helper function to read a whole file, and check it is complete, before decoding it.
 fn read_gz(file: std::fs::File) -> std::io::Result<Vec<u8>> {
     let mut buf = Vec::new();
-- 
2.43.0


From 99556481535919c2c0fb97dd4b95ab9029927201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:37 +0000
Subject: [PATCH 30/32] fix: check the kind of the capsules given to the python
 functions

The handles of index and of index_mat had the same name, and the name was not
checked: search_mat on an index handle, or any function on a capsule of another
module, was reading memory of another type.
---
 python/src/bindings.rs | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/python/src/bindings.rs b/python/src/bindings.rs
index 554fa8a..e82f874 100644
--- a/python/src/bindings.rs
+++ b/python/src/bindings.rs
@@ -6,10 +6,26 @@
 //! This library provides python bindings for the [logreduce](https://github.com/logreduce/logreduce) project.
 
 use logreduce_index::F;
+use pyo3::exceptions::PyTypeError;
 use pyo3::prelude::*;
 use pyo3::types::PyCapsule;
 use std::ffi::CString;
 
+/// The name of the capsules created by index.
+const FEATURES: &str = "logreduce.features";
+/// The name of the capsules created by index_mat and load_mat.
+const MATRIX: &str = "logreduce.matrix";
+
+/// A capsule is only identified by its name: check it before reading the content.
+fn check_capsule(capsule: &PyCapsule, expected: &str) -> PyResult<()> {
+    if capsule.name().to_bytes() == expected.as_bytes() {
+        Ok(())
+    } else {
+        let message = format!("expected a {} capsule", expected);
+        Err(PyTypeError::new_err(message))
+    }
+}
+
 /// Tokenize a line
 #[pyfunction]
 fn process(line: &str) -> String {
@@ -34,52 +50,59 @@ fn logreduce_rust(_py: Python, m: &PyModule) -> PyResult<()> {
     /// Return an opaque Capsule with the model
     #[pyfn(m)]
     fn index(py: Python<'_>, baselines: Vec<String>) -> Result<&PyCapsule, PyErr> {
-        let name = CString::new("model").unwrap();
+        let name = CString::new(FEATURES).unwrap();
         let model = logreduce_index::index(&mut baselines.into_iter());
         PyCapsule::new(py, model, &name)
     }
 
     #[pyfn(m)]
-    fn search(py: Python<'_>, pymodel: Py<PyCapsule>, target: String) -> F {
+    fn search(py: Python<'_>, pymodel: Py<PyCapsule>, target: String) -> PyResult<F> {
+        check_capsule(pymodel.as_ref(py), FEATURES)?;
         let model = unsafe {
             pymodel
                 .as_ref(py)
                 .reference::<Vec<logreduce_index::Features>>()
         };
-        logreduce_index::search(model, &target)
+        Ok(logreduce_index::search(model, &target))
     }
 
     /// Return an opaque Capsule with the model
     #[pyfn(m)]
     fn index_mat(py: Python<'_>, baselines: Vec<String>) -> Result<&PyCapsule, PyErr> {
-        let name = CString::new("model").unwrap();
+        let name = CString::new(MATRIX).unwrap();
         let model = logreduce_index::index_mat(&baselines);
         PyCapsule::new(py, model, &name)
     }
 
     #[pyfn(m)]
-    fn search_mat(py: Python<'_>, pymodel: Py<PyCapsule>, targets: Vec<String>) -> Vec<F> {
+    fn search_mat(
+        py: Python<'_>,
+        pymodel: Py<PyCapsule>,
+        targets: Vec<String>,
+    ) -> PyResult<Vec<F>> {
+        check_capsule(pymodel.as_ref(py), MATRIX)?;
         let model = unsafe {
             pymodel
                 .as_ref(py)
                 .reference::<logreduce_index::FeaturesMatrix>()
         };
-        logreduce_index::search_mat(model, &targets)
+        Ok(logreduce_index::search_mat(model, &targets))
     }
 
     #[pyfn(m)]
-    fn save_mat(py: Python<'_>, pymodel: Py<PyCapsule>) -> Vec<u8> {
+    fn save_mat(py: Python<'_>, pymodel: Py<PyCapsule>) -> PyResult<Vec<u8>> {
+        check_capsule(pymodel.as_ref(py), MATRIX)?;
         let model = unsafe {
             pymodel
                 .as_ref(py)
                 .reference::<logreduce_index::FeaturesMatrix>()
         };
-        logreduce_index::save_mat(model)
+        Ok(logreduce_index::save_mat(model))
     }
 
     #[pyfn(m)]
     fn load_mat(py: Python<'_>, buf: Vec<u8>) -> Result<&PyCapsule, PyErr> {
-        let name = CString::new("model").unwrap();
+        let name = CString::new(MATRIX).unwrap();
         let model = logreduce_index::load_mat(&buf);
         PyCapsule::new(py, model, &name)
     }
-- 
2.43.0


From 2e2e3d36f6489a633edf0e83572c1a9e04acaa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:03 +0000
Subject: [PATCH 31/32] fix: accept the cache entries that another process just
 added

Two processes that use the same cache at the same time request the same
contents; the one that was late failed with "Cache file already exist",
and its report missed the content, the listing or the build.
---
 cache/src/cache.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/cache/src/cache.rs b/cache/src/cache.rs
index 81761a8..8be28f4 100644
--- a/cache/src/cache.rs
+++ b/cache/src/cache.rs
@@ -147,17 +147,12 @@ impl Cache {
         })
     }
 
-    // get the path of a new cache entry.
+    // get the path of a new cache entry, it replaces the one that another process may have added.
     fn new_path(&self, path: &str) -> Result<PathBuf> {
         let buf = self.xdg.get_cache_file(path);
-        let path = buf.as_path();
-        if path.exists() {
-            Err(anyhow::anyhow!("Cache file already exist: {:?}", buf))
-        } else {
-            let parent = path.parent().context("Failed to get cache parent")?;
-            std::fs::create_dir_all(parent).context("Failed to create parent dir")?;
-            Ok(buf)
-        }
+        let parent = buf.parent().context("Failed to get cache parent")?;
+        std::fs::create_dir_all(parent).context("Failed to create parent dir")?;
+        Ok(buf)
     }
 }
 
-- 
2.43.0


From 9c03a8452280fc297d5ac101ba7464d9f7dc6dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:37 +0000
Subject: [PATCH 32/32] fix: read each baseline source in its own format

An index can hold sources of different formats, e.g. events.json and
events.json.1 after a log rotation. The format of the first source was used
for all of them, so the elements of a json baseline were not learned when a
plain source came first.
---
 model/src/model.rs   | 8 ++------
 model/src/process.rs | 3 ++-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 8f93f5e..eeef24e 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -263,13 +263,9 @@ impl Index {
     pub fn train(sources: &[Source], mut index: ChunkIndex) -> Result<Index> {
         let created_at = SystemTime::now();
         let start_time = Instant::now();
-        let is_json = if let Some(source) = sources.first() {
-            source.is_json()
-        } else {
-            false
-        };
-        let mut trainer = process::ChunkTrainer::new(&mut index, is_json);
+        let mut trainer = process::ChunkTrainer::new(&mut index, false);
         for source in sources {
+            trainer.is_json = source.is_json();
             let reader = match source {
                 Source::Local(_, path_buf) => Source::file_open(path_buf.as_path())?,
                 Source::Remote(prefix, url) => Source::url_open(*prefix, url)?,
diff --git a/model/src/process.rs b/model/src/process.rs
index 475f2ef..5beedf7 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -17,7 +17,8 @@ const CHUNK_SIZE: usize = 512;
 /// Helper struct to manage indexing multiples readers.
 pub struct ChunkTrainer<'a> {
     index: &'a mut ChunkIndex,
-    is_json: bool,
+    /// The format of the next reader, an index may contain different kinds of file
+    pub is_json: bool,
     skip_lines: HashSet<String>,
     baselines: Vec<String>,
     pub line_count: usize,
-- 
2.43.0

