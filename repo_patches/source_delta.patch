From 4d28d511c6ed8cfbca37ef8bc9c88e9aa29d6c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 01/28] fix: convert to xml reports write errors instead of
 losing output or panicking

---
 crates/pica-cli/src/commands/convert/xml.rs | 25 ++++++++-------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/crates/pica-cli/src/commands/convert/xml.rs b/crates/pica-cli/src/commands/convert/xml.rs
index 27bead9..ab6dfcc 100644
--- a/crates/pica-cli/src/commands/convert/xml.rs
+++ b/crates/pica-cli/src/commands/convert/xml.rs
@@ -28,8 +28,7 @@ impl XmlWriter {
                 "1.0",
                 Some("UTF-8"),
                 None,
-            )))
-            .unwrap();
+            )))?;
 
         let attributes = [
             ("targetNamespace", "info:srw/schema/5/picaXML-v1.0"),
@@ -41,8 +40,7 @@ impl XmlWriter {
             .write_event(Event::Start(
                 BytesStart::from_content("collection", 0)
                     .with_attributes(attributes),
-            ))
-            .unwrap();
+            ))?;
 
         Ok(Self { writer })
     }
@@ -73,30 +71,25 @@ impl ByteRecordWrite for XmlWriter {
                                             .as_str(),
                                     ))
                                     .write_text_content(BytesText::new(
-                                        subfield
+                                        &subfield
                                             .value()
-                                            .to_str()
-                                            .unwrap(),
-                                    ))
-                                    .unwrap();
+                                            .to_str_lossy(),
+                                    ))?;
                             }
 
                             Ok::<(), std::io::Error>(())
-                        })
-                        .unwrap();
+                        })?;
                 }
 
                 Ok::<(), std::io::Error>(())
-            })
-            .unwrap();
+            })?;
 
         Ok(())
     }
 
     fn finish(&mut self) -> io::Result<()> {
         self.writer
-            .write_event(Event::End(BytesEnd::new("collection")))
-            .unwrap();
-        Ok(())
+            .write_event(Event::End(BytesEnd::new("collection")))?;
+        self.writer.get_mut().flush()
     }
 }
-- 
2.43.0


From 1d1ec9544ca8f61325836f5a2264eb01c59798bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 02/28] fix: gzip writer flushes the underlying writer when it
 is finished

---
 src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 0ed8669..2edc310 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -220,6 +220,6 @@ impl<W: Write> ByteRecordWrite for GzipWriter<W> {
     #[inline(always)]
     fn finish(&mut self) -> io::Result<()> {
         self.0.try_finish()?;
-        Ok(())
+        self.0.get_mut().flush()
     }
 }
-- 
2.43.0


From d559c00955b22ccb06cfc205715366c5de03b82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 03/28] fix: read all members of a gzip file, not only the
 first

---
 crates/pica-cli/src/commands/invalid.rs | 4 ++--
 src/reader.rs                           | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/pica-cli/src/commands/invalid.rs b/crates/pica-cli/src/commands/invalid.rs
index d93fe15..13882b8 100644
--- a/crates/pica-cli/src/commands/invalid.rs
+++ b/crates/pica-cli/src/commands/invalid.rs
@@ -7,7 +7,7 @@ use std::path::{Path, PathBuf};
 use std::process::ExitCode;
 
 use clap::Parser;
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use pica_record::ByteRecord;
 
 use crate::config::Config;
@@ -38,7 +38,7 @@ fn reader(filename: &OsString) -> io::Result<BufReader<Box<dyn Read>>> {
     let path = PathBuf::from(filename);
     let ext = path.extension().and_then(OsStr::to_str);
     let inner: Box<dyn Read> = match ext {
-        Some("gz") => Box::new(GzDecoder::new(File::open(path)?)),
+        Some("gz") => Box::new(MultiGzDecoder::new(File::open(path)?)),
         _ => {
             if path.to_str() != Some("-") {
                 Box::new(File::open(path)?)
diff --git a/src/reader.rs b/src/reader.rs
index 8bb8952..099577b 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4,7 +4,7 @@ use std::io::{self, BufRead, BufReader, Read, stdin};
 use std::path::Path;
 use std::str::Utf8Error;
 
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 
 use crate::primitives::ParsePicaError;
 use crate::{ByteRecord, StringRecord};
@@ -105,7 +105,9 @@ impl ReaderBuilder {
             .extension()
             .and_then(OsStr::to_str)
         {
-            Some("gz") => Box::new(GzDecoder::new(File::open(path)?)),
+            Some("gz") => {
+                Box::new(MultiGzDecoder::new(File::open(path)?))
+            }
             _ => {
                 if path.to_str() != Some("-") {
                     Box::new(File::open(path)?)
-- 
2.43.0


From c2e1e6f27a7e6191e4506bfbe60e21b6b1e7a006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 04/28] fix: slice counts skipped invalid records as positions

---
 crates/pica-cli/src/commands/slice.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/pica-cli/src/commands/slice.rs b/crates/pica-cli/src/commands/slice.rs
index a5d9372..9df3977 100644
--- a/crates/pica-cli/src/commands/slice.rs
+++ b/crates/pica-cli/src/commands/slice.rs
@@ -100,7 +100,7 @@ impl Slice {
         let mut range = if self.end > 0 {
             self.start..self.end
         } else if self.length > 0 {
-            self.start..(self.start + self.length)
+            self.start..self.start.saturating_add(self.length)
         } else {
             self.start..usize::MAX
         };
@@ -116,9 +116,10 @@ impl Slice {
                 match result {
                     Err(e) if e.skip_parse_err(skip_invalid) => {
                         progress.update(true);
-                        if self.length > 0 && range.end < usize::MAX {
-                            range.end += 1;
+                        if self.length > 0 && range.contains(&i) {
+                            range.end = range.end.saturating_add(1);
                         }
+                        i += 1;
                         continue;
                     }
                     Err(e) => return Err(e.into()),
-- 
2.43.0


From eab13d601822aaaebbd20cd7f9cd2295eee1b579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 05/28] fix: concat --unique leaves out records without a PPN
 instead of panicking

---
 crates/pica-cli/src/commands/concat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/concat.rs b/crates/pica-cli/src/commands/concat.rs
index 69da18a..122d1c7 100644
--- a/crates/pica-cli/src/commands/concat.rs
+++ b/crates/pica-cli/src/commands/concat.rs
@@ -76,7 +76,7 @@ pub(crate) enum Strategy {
 #[inline]
 fn record_key(record: &ByteRecord, strategy: &Strategy) -> String {
     match strategy {
-        Strategy::Idn => record.ppn().expect("ppn").to_string(),
+        Strategy::Idn => record.ppn().unwrap_or_default().to_string(),
         Strategy::Hash => {
             record.sha256().iter().fold(String::new(), |mut out, b| {
                 let _ = write!(out, "{b:02x}");
-- 
2.43.0


From c8995087931b88e36113b891174bf8e97c137f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 06/28] fix: slice rejects --append with --gzip instead of
 panicking

---
 crates/pica-cli/src/commands/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/slice.rs b/crates/pica-cli/src/commands/slice.rs
index 9df3977..7d831d9 100644
--- a/crates/pica-cli/src/commands/slice.rs
+++ b/crates/pica-cli/src/commands/slice.rs
@@ -58,7 +58,7 @@ pub(crate) struct Slice {
     gzip: bool,
 
     /// Append to the given file, do not overwrite
-    #[arg(long, short)]
+    #[arg(long, short, conflicts_with = "gzip")]
     append: bool,
 
     /// Show progress bar (requires `-o`/`--output`).
-- 
2.43.0


From 10c61aeb4151e48999e11641772289315c16ef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 07/28] fix: print does not panic on invalid UTF-8

---
 crates/pica-cli/src/commands/print.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/print.rs b/crates/pica-cli/src/commands/print.rs
index 0e80e67..16e7777 100644
--- a/crates/pica-cli/src/commands/print.rs
+++ b/crates/pica-cli/src/commands/print.rs
@@ -89,7 +89,7 @@ impl Print {
                                 write!(writer, " ${code}")?;
 
                                 let value = translit(
-                                    subfield.value().to_str().unwrap(),
+                                    subfield.value().to_str_lossy(),
                                 );
                                 write!(writer, " {value}")?;
                             }
-- 
2.43.0


From 2911f03b13bd60ad37f590ab7bf36edc711429fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 08/28] fix: frequency --reverse --threshold only omits the
 rows below the threshold

---
 crates/pica-cli/src/commands/frequency.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/pica-cli/src/commands/frequency.rs b/crates/pica-cli/src/commands/frequency.rs
index e53ae8f..6231916 100644
--- a/crates/pica-cli/src/commands/frequency.rs
+++ b/crates/pica-cli/src/commands/frequency.rs
@@ -216,15 +216,15 @@ impl Frequency {
         }
 
         let translit = crate::translit::translit(self.nf.clone());
-        for (i, (values, freq)) in ftable_sorted.iter().enumerate() {
+        for (i, (values, freq)) in ftable_sorted
+            .iter()
+            .filter(|(_, freq)| **freq >= self.threshold)
+            .enumerate()
+        {
             if self.num > 0 && i >= self.num {
                 break;
             }
 
-            if **freq < self.threshold {
-                break;
-            }
-
             let mut record = values
                 .iter()
                 .map(ToString::to_string)
-- 
2.43.0


From 0d7e83c8b52a87cb187fdb861c5900f19daf5d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 09/28] fix: count honours --limit

---
 crates/pica-cli/src/commands/count.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/count.rs b/crates/pica-cli/src/commands/count.rs
index 7e99f11..853efef 100644
--- a/crates/pica-cli/src/commands/count.rs
+++ b/crates/pica-cli/src/commands/count.rs
@@ -86,7 +86,7 @@ impl Count {
         let mut fields = 0;
         let mut subfields = 0;
 
-        for filename in self.filenames {
+        'outer: for filename in self.filenames {
             let mut reader =
                 ReaderBuilder::new().from_path(filename)?;
 
@@ -117,6 +117,12 @@ impl Count {
                             .iter()
                             .map(|field| field.subfields().len())
                             .sum::<usize>();
+
+                        if self.filter_opts.limit > 0
+                            && records >= self.filter_opts.limit
+                        {
+                            break 'outer;
+                        }
                     }
                 }
             }
-- 
2.43.0


From 04f763ac1ec7de981cfef97fc5f4f99d4e5f7d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 10/28] fix: partition neither leaves the output directory nor
 opens a file twice

---
 crates/pica-cli/src/commands/partition.rs | 58 ++++++++++++++++++-----
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/crates/pica-cli/src/commands/partition.rs b/crates/pica-cli/src/commands/partition.rs
index cf60513..a14db22 100644
--- a/crates/pica-cli/src/commands/partition.rs
+++ b/crates/pica-cli/src/commands/partition.rs
@@ -1,10 +1,10 @@
+use std::collections::btree_map::{BTreeMap, Entry};
 use std::ffi::OsString;
 use std::fs;
-use std::path::PathBuf;
+use std::path::{self, Component, PathBuf};
 use std::process::ExitCode;
 
 use clap::Parser;
-use hashbrown::hash_map::{Entry, HashMap};
 use pica_record::prelude::*;
 
 use crate::prelude::*;
@@ -55,6 +55,34 @@ pub(crate) struct Partition {
     filter_opts: FilterOpts,
 }
 
+/// Returns the number of path components that leave the output
+/// directory.
+fn outside(filename: &str) -> usize {
+    path::Path::new(filename)
+        .components()
+        .filter(|c| {
+            !matches!(c, Component::Normal(_) | Component::CurDir)
+        })
+        .count()
+}
+
+/// Returns the filename of the partition with the given value.
+fn partition_filename(
+    template: &str,
+    value: &str,
+) -> Result<String, CliError> {
+    let filename = template.replace("{}", value);
+
+    if value.contains(path::is_separator)
+        || value.contains('\0')
+        || outside(&filename) != outside(template)
+    {
+        bail!("unable to use value `{value}` as part of a filename");
+    }
+
+    Ok(filename)
+}
+
 impl Partition {
     pub(crate) fn execute(self, config: &Config) -> CliResult {
         let skip_invalid =
@@ -78,8 +106,8 @@ impl Partition {
             fs::create_dir_all(&self.outdir)?;
         }
 
-        let mut writers: HashMap<Vec<u8>, Box<dyn ByteRecordWrite>> =
-            HashMap::new();
+        let mut writers: BTreeMap<String, Box<dyn ByteRecordWrite>> =
+            BTreeMap::new();
 
         'outer: for filename in self.filenames {
             let mut reader =
@@ -110,18 +138,24 @@ impl Partition {
                         values.sort_unstable();
                         values.dedup();
 
+                        let mut filenames: Vec<String> = vec![];
                         for value in values {
-                            let mut entry =
-                                writers.entry(value.to_vec());
+                            let filename = partition_filename(
+                                &template,
+                                &value.to_string(),
+                            )?;
+
+                            if !filenames.contains(&filename) {
+                                filenames.push(filename);
+                            }
+                        }
+
+                        for filename in filenames {
+                            let mut entry = writers.entry(filename);
                             let writer = match entry {
                                 Entry::Vacant(vacant) => {
-                                    let filename = template.replace(
-                                        "{}",
-                                        &value.to_string(),
-                                    );
-
                                     let path =
-                                        self.outdir.join(filename);
+                                        self.outdir.join(vacant.key());
                                     let writer = WriterBuilder::new()
                                         .gzip(self.gzip)
                                         .from_path(path)?;
-- 
2.43.0


From 0dfbc65f34e1f1472dda09e4d25e59ef3fd41601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 11/28] fix: sample does not reserve memory for SAMPLE_SIZE
 records up front

---
 crates/pica-cli/src/commands/sample.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/pica-cli/src/commands/sample.rs b/crates/pica-cli/src/commands/sample.rs
index d764f8d..4e88c51 100644
--- a/crates/pica-cli/src/commands/sample.rs
+++ b/crates/pica-cli/src/commands/sample.rs
@@ -66,8 +66,7 @@ impl Sample {
             None => StdRng::from_rng(&mut rng()),
         };
 
-        let mut reservoir: Vec<Vec<u8>> =
-            Vec::with_capacity(sample_size);
+        let mut reservoir: Vec<Vec<u8>> = Vec::new();
 
         'outer: for filename in self.filenames {
             let mut reader =
-- 
2.43.0


From 26cc07482bb9a1e17b5b1548567f2e0e1f2a70b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 12/28] fix: the config file is replaced atomically and its
 errors are reported

---
 crates/pica-cli/src/config.rs | 36 ++++++++++++++++++++++++++++++-----
 crates/pica-cli/src/main.rs   |  7 ++++++-
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/config.rs b/crates/pica-cli/src/config.rs
index 9905247..ce9f27a 100644
--- a/crates/pica-cli/src/config.rs
+++ b/crates/pica-cli/src/config.rs
@@ -52,10 +52,19 @@ impl Config {
     where
         P: AsRef<Path>,
     {
-        let path = path.as_ref().into();
+        let path: PathBuf = path.as_ref().into();
         let content = fs::read_to_string(&path)?;
         let mut config: Self =
-            toml::from_str(&content).expect("valid config");
+            toml::from_str(&content).map_err(|e| {
+                io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    format!(
+                        "invalid config {}: {}",
+                        path.display(),
+                        e.message()
+                    ),
+                )
+            })?;
         config.path = path;
 
         Ok(config)
@@ -92,9 +101,26 @@ impl Config {
             create_dir_all(parent)?;
         }
 
+        // The config is written to a temporary file first and renamed
+        // afterwards, so that an interrupted run or a failure doesn't
+        // leave an incomplete config behind.
         let content = toml::to_string(self).unwrap();
-        let mut out = File::create(&self.path)?;
-        out.write_all(content.as_bytes())?;
-        Ok(())
+        let path =
+            fs::canonicalize(&self.path).unwrap_or(self.path.clone());
+        let mut tmp = path.clone().into_os_string();
+        tmp.push(".tmp");
+
+        let result = File::create(&tmp)
+            .and_then(|mut out| {
+                out.write_all(content.as_bytes())?;
+                out.sync_all()
+            })
+            .and_then(|()| fs::rename(&tmp, &path));
+
+        if result.is_err() {
+            let _ = fs::remove_file(&tmp);
+        }
+
+        result
     }
 }
diff --git a/crates/pica-cli/src/main.rs b/crates/pica-cli/src/main.rs
index a530bd4..205e39c 100644
--- a/crates/pica-cli/src/main.rs
+++ b/crates/pica-cli/src/main.rs
@@ -20,7 +20,12 @@ fn run() -> CliResult {
 
     #[allow(unused_mut)]
     let mut config = if let Some(ref path) = args.config {
-        Config::from_path(path).unwrap_or(Config::new(path))
+        match Config::from_path(path) {
+            Err(e) if e.kind() == ErrorKind::NotFound => {
+                Config::new(path)
+            }
+            result => result?,
+        }
     } else {
         Config::discover()?
     };
-- 
2.43.0


From 1923ec61bcd7571c95278169661f93d3a820ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 13/28] fix: a closed output pipe ends every command quietly

---
 crates/pica-cli/src/commands/completions.rs | 12 ++++++-----
 crates/pica-cli/src/commands/config.rs      | 12 ++++++-----
 crates/pica-cli/src/commands/describe.rs    |  3 ++-
 crates/pica-cli/src/error.rs                | 23 +++++++++++++++++++++
 crates/pica-cli/src/main.rs                 | 12 ++++-------
 5 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/crates/pica-cli/src/commands/completions.rs b/crates/pica-cli/src/commands/completions.rs
index 38272ce..3107558 100644
--- a/crates/pica-cli/src/commands/completions.rs
+++ b/crates/pica-cli/src/commands/completions.rs
@@ -28,15 +28,17 @@ impl Completions {
             None => Box::new(io::stdout().lock()),
         };
 
+        let mut buf: Vec<u8> = vec![];
         match self.shell {
-            Bash => generate(Bash, cmd, "pica", &mut wtr),
-            Elvish => generate(Elvish, cmd, "pica", &mut wtr),
-            Fish => generate(Fish, cmd, "pica", &mut wtr),
-            PowerShell => generate(PowerShell, cmd, "pica", &mut wtr),
-            Zsh => generate(Zsh, cmd, "pica", &mut wtr),
+            Bash => generate(Bash, cmd, "pica", &mut buf),
+            Elvish => generate(Elvish, cmd, "pica", &mut buf),
+            Fish => generate(Fish, cmd, "pica", &mut buf),
+            PowerShell => generate(PowerShell, cmd, "pica", &mut buf),
+            Zsh => generate(Zsh, cmd, "pica", &mut buf),
             _ => unreachable!(),
         }
 
+        wtr.write_all(&buf)?;
         wtr.flush()?;
 
         Ok(ExitCode::SUCCESS)
diff --git a/crates/pica-cli/src/commands/config.rs b/crates/pica-cli/src/commands/config.rs
index 49a3c86..f525f75 100644
--- a/crates/pica-cli/src/commands/config.rs
+++ b/crates/pica-cli/src/commands/config.rs
@@ -1,3 +1,4 @@
+use std::io::{self, Write};
 use std::process::ExitCode;
 
 use clap::Parser;
@@ -28,14 +29,15 @@ pub(crate) struct Config {
 }
 
 #[inline]
-fn print_option<T: ToString>(value: Option<T>) {
-    println!(
+fn print_option<T: ToString>(value: Option<T>) -> io::Result<()> {
+    writeln!(
+        io::stdout(),
         "{}",
         match value {
             Some(value) => value.to_string(),
             None => "None".to_string(),
         }
-    );
+    )
 }
 
 impl Config {
@@ -88,10 +90,10 @@ impl Config {
         } else if self.get || (!self.unset && !self.set) {
             match name {
                 "skip-invalid" => {
-                    print_option(Some(&config.skip_invalid));
+                    print_option(Some(&config.skip_invalid))?;
                 }
                 "normalization" => {
-                    print_option(config.normalization.as_ref())
+                    print_option(config.normalization.as_ref())?;
                 }
                 _ => unreachable!(),
             }
diff --git a/crates/pica-cli/src/commands/describe.rs b/crates/pica-cli/src/commands/describe.rs
index bcd0803..504d798 100644
--- a/crates/pica-cli/src/commands/describe.rs
+++ b/crates/pica-cli/src/commands/describe.rs
@@ -1,5 +1,6 @@
 use std::ffi::OsString;
 use std::fs::File;
+use std::io::{self, Write};
 use std::process::ExitCode;
 
 use clap::Parser;
@@ -164,7 +165,7 @@ impl Describe {
                     tmp_env::set_var("POLARS_FMT_MAX_ROWS", "50"),
                 );
 
-                println!("{df}");
+                writeln!(io::stdout(), "{df}")?;
             }
             Some(path)
                 if path.to_string_lossy().ends_with(".tsv")
diff --git a/crates/pica-cli/src/error.rs b/crates/pica-cli/src/error.rs
index 7878e10..c4e927b 100644
--- a/crates/pica-cli/src/error.rs
+++ b/crates/pica-cli/src/error.rs
@@ -1,3 +1,4 @@
+use std::io::{self, ErrorKind};
 use std::process::ExitCode;
 
 use pica_record::io::ReadPicaError;
@@ -42,3 +43,25 @@ pub(crate) enum CliError {
     #[error("{0}")]
     Other(String),
 }
+
+impl CliError {
+    /// Returns true if the reader of the output has gone away.
+    pub(crate) fn is_broken_pipe(&self) -> bool {
+        fn io(err: &io::Error) -> bool {
+            err.kind() == ErrorKind::BrokenPipe
+        }
+
+        fn csv(err: &csv::Error) -> bool {
+            matches!(err.kind(), csv::ErrorKind::Io(e) if io(e))
+        }
+
+        match self {
+            Self::IO(e) | Self::Check(check::writer::Error::IO(e)) => {
+                io(e)
+            }
+            Self::Csv(e)
+            | Self::Check(check::writer::Error::Csv(e)) => csv(e),
+            _ => false,
+        }
+    }
+}
diff --git a/crates/pica-cli/src/main.rs b/crates/pica-cli/src/main.rs
index 205e39c..68487ee 100644
--- a/crates/pica-cli/src/main.rs
+++ b/crates/pica-cli/src/main.rs
@@ -1,10 +1,10 @@
-use std::io::ErrorKind;
+use std::io::{self, ErrorKind, Write};
 use std::process::ExitCode;
 
 use clap::{CommandFactory, Parser};
 use cli::{Args, Command};
 use config::Config;
-use error::{CliError, CliResult};
+use error::CliResult;
 
 mod cli;
 mod commands;
@@ -55,13 +55,9 @@ fn run() -> CliResult {
 fn main() -> ExitCode {
     match run() {
         Ok(code) => code,
-        Err(CliError::IO(err))
-            if err.kind() == ErrorKind::BrokenPipe =>
-        {
-            ExitCode::SUCCESS
-        }
+        Err(err) if err.is_broken_pipe() => ExitCode::SUCCESS,
         Err(err) => {
-            eprintln!("error: {err}");
+            let _ = writeln!(io::stderr(), "error: {err}");
             ExitCode::from(2)
         }
     }
-- 
2.43.0


From 078881d26a4edba3066d0dd971b35b32bb9d2716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 14/28] fix: reader keeps the line across read errors and
 locates invalid UTF-8

---
 src/reader.rs | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 099577b..7778199 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -126,6 +126,7 @@ pub struct Reader<R: Read> {
     source: Option<String>,
     line: usize,
     buf: Vec<u8>,
+    partial: bool,
 }
 
 impl<R: Read> Reader<R> {
@@ -142,6 +143,7 @@ impl<R: Read> Reader<R> {
             inner: BufReader::new(reader),
             buf: Vec::new(),
             line: 0,
+            partial: false,
             source,
         }
     }
@@ -152,6 +154,15 @@ impl<R: Read> Reader<R> {
     }
 }
 
+/// Creates the error message of an invalid record.
+fn invalid_msg(line: usize, source: &Option<String>) -> String {
+    if let Some(src) = source {
+        format!("invalid record on line {line} ({src}).")
+    } else {
+        format!("invalid record on line {line}.")
+    }
+}
+
 pub trait RecordsIter {
     type ByteItem<'a>
     where
@@ -206,24 +217,23 @@ impl<R: Read> RecordsIter for Reader<R> {
     /// # Ok::<(), Box<dyn std::error::Error>>(())
     /// ```
     fn next_byte_record(&mut self) -> Option<Self::ByteItem<'_>> {
-        self.buf.clear();
-        self.line += 1;
+        // After an I/O error the part of the line that has been read
+        // so far is kept and completed by the next call.
+        if !self.partial {
+            self.buf.clear();
+            self.line += 1;
+        }
+
+        let result = self.inner.read_until(b'\n', &mut self.buf);
+        self.partial = result.is_err();
 
-        match self.inner.read_until(b'\n', &mut self.buf) {
+        match result {
             Err(e) => Some(Err(ReadPicaError::from(e))),
-            Ok(0) => None,
+            Ok(_) if self.buf.is_empty() => None,
             Ok(_) => match ByteRecord::from_bytes(&self.buf) {
                 Ok(record) => Some(Ok(record)),
                 Err(err) => {
-                    let msg = if let Some(ref src) = self.source {
-                        format!(
-                            "invalid record on line {} ({src}).",
-                            self.line
-                        )
-                    } else {
-                        format!("invalid record on line {}.", self.line)
-                    };
-
+                    let msg = invalid_msg(self.line, &self.source);
                     Some(Err(ReadPicaError::Parse { msg, err }))
                 }
             },
@@ -260,12 +270,13 @@ impl<R: Read> RecordsIter for Reader<R> {
     /// # Ok::<(), Box<dyn std::error::Error>>(())
     /// ```
     fn next_string_record(&mut self) -> Option<Self::StringItem<'_>> {
-        let line = self.line;
+        let line = self.line + usize::from(!self.partial);
+        let source = self.source.clone();
         match self.next_byte_record() {
             Some(Ok(record)) => match StringRecord::try_from(record) {
                 Ok(record) => Some(Ok(record)),
                 Err(err) => {
-                    let msg = format!("invalid record on line {line}.");
+                    let msg = invalid_msg(line, &source);
                     Some(Err(ReadPicaError::Utf8 { msg, err }))
                 }
             },
-- 
2.43.0


From 7a35e91a86721eb01c25884648256fe452937e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 15/28] fix: check writes its findings in a reproducible order

---
 crates/pica-cli/src/commands/check/checks/duplicates.rs | 5 +++--
 crates/pica-cli/src/commands/check/checks/link.rs       | 6 ++++--
 crates/pica-cli/src/commands/check/set.rs               | 4 ++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/duplicates.rs b/crates/pica-cli/src/commands/check/checks/duplicates.rs
index d5950e0..5da5a96 100644
--- a/crates/pica-cli/src/commands/check/checks/duplicates.rs
+++ b/crates/pica-cli/src/commands/check/checks/duplicates.rs
@@ -1,4 +1,5 @@
-use hashbrown::HashMap;
+use std::collections::BTreeMap;
+
 use pica_record::prelude::*;
 
 #[inline(always)]
@@ -38,7 +39,7 @@ impl Duplicates {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let mut freqs = HashMap::new();
+        let mut freqs = BTreeMap::new();
 
         for row in record.query(&self.query, &options).iter() {
             let values =
diff --git a/crates/pica-cli/src/commands/check/checks/link.rs b/crates/pica-cli/src/commands/check/checks/link.rs
index ed5f14b..487da85 100644
--- a/crates/pica-cli/src/commands/check/checks/link.rs
+++ b/crates/pica-cli/src/commands/check/checks/link.rs
@@ -1,5 +1,7 @@
+use std::collections::BTreeMap;
+
 use bstr::{BString, ByteSlice};
-use hashbrown::{HashMap, HashSet};
+use hashbrown::HashSet;
 use pica_record::prelude::*;
 
 #[derive(Debug, serde::Deserialize)]
@@ -15,7 +17,7 @@ pub(crate) struct Link {
     case_ignore: bool,
 
     #[serde(skip, default)]
-    unseen: HashMap<BString, Vec<BString>>,
+    unseen: BTreeMap<BString, Vec<BString>>,
 
     #[serde(skip, default)]
     seen: HashSet<BString>,
diff --git a/crates/pica-cli/src/commands/check/set.rs b/crates/pica-cli/src/commands/check/set.rs
index d12c244..567ddde 100644
--- a/crates/pica-cli/src/commands/check/set.rs
+++ b/crates/pica-cli/src/commands/check/set.rs
@@ -1,7 +1,7 @@
+use std::collections::BTreeMap;
 use std::fs::read_to_string;
 use std::path::Path;
 
-use hashbrown::HashMap;
 use pica_record::prelude::*;
 use unicode_normalization::UnicodeNormalization;
 
@@ -18,7 +18,7 @@ pub(crate) struct RuleSet {
     pub(crate) termination: Termination,
 
     #[serde(rename = "rule", default)]
-    pub(crate) rules: HashMap<String, Rule>,
+    pub(crate) rules: BTreeMap<String, Rule>,
 }
 
 #[derive(Debug, PartialEq, Default, serde::Deserialize)]
-- 
2.43.0


From 085b050850b2018a8db778c9cf9515f9f67d2cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 16/28] fix: check reports empty values that break a rule

---
 crates/pica-cli/src/commands/check/checks/allow.rs  | 9 ++++-----
 crates/pica-cli/src/commands/check/checks/iso639.rs | 9 ++++-----
 crates/pica-cli/src/commands/check/checks/jelc.rs   | 9 ++++-----
 crates/pica-cli/src/commands/check/checks/link.rs   | 9 ++++-----
 4 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/allow.rs b/crates/pica-cli/src/commands/check/checks/allow.rs
index 9a8032d..8eb9ee9 100644
--- a/crates/pica-cli/src/commands/check/checks/allow.rs
+++ b/crates/pica-cli/src/commands/check/checks/allow.rs
@@ -54,15 +54,14 @@ impl Allow {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let values = record
             .path(&self.path, &options)
             .filter(|value| !self.values.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !values.is_empty() {
+            (true, Some(values.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/iso639.rs b/crates/pica-cli/src/commands/check/checks/iso639.rs
index ae39956..f073cb5 100644
--- a/crates/pica-cli/src/commands/check/checks/iso639.rs
+++ b/crates/pica-cli/src/commands/check/checks/iso639.rs
@@ -90,15 +90,14 @@ impl Iso639 {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let values = record
             .path(&self.path, &options)
             .filter(|value| !CODES.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !values.is_empty() {
+            (true, Some(values.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/jelc.rs b/crates/pica-cli/src/commands/check/checks/jelc.rs
index aa09efa..f5ec209 100644
--- a/crates/pica-cli/src/commands/check/checks/jelc.rs
+++ b/crates/pica-cli/src/commands/check/checks/jelc.rs
@@ -149,15 +149,14 @@ impl Jel {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let values = record
             .path(&self.path, &options)
             .filter(|value| !CODES.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !values.is_empty() {
+            (true, Some(values.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/link.rs b/crates/pica-cli/src/commands/check/checks/link.rs
index 487da85..5e7ba32 100644
--- a/crates/pica-cli/src/commands/check/checks/link.rs
+++ b/crates/pica-cli/src/commands/check/checks/link.rs
@@ -89,15 +89,14 @@ impl Link {
         let mut result = vec![];
 
         for (ppn, values) in self.unseen.iter() {
-            let message = values
+            let values = values
                 .iter()
                 .filter(|k| !self.seen.contains(k.as_bstr()))
                 .map(ToString::to_string)
-                .collect::<Vec<_>>()
-                .join(", ");
+                .collect::<Vec<_>>();
 
-            if !message.is_empty() {
-                result.push((ppn.to_owned(), Some(message)));
+            if !values.is_empty() {
+                result.push((ppn.to_owned(), Some(values.join(", "))));
             }
         }
 
-- 
2.43.0


From 4876b018d1b87077fc114f17e1513e5f3efb2e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 17/28] fix: nested groups in matchers neither hang nor fail to
 parse

Every level of parentheses was parsed again by each alternative, so that
the time to parse an expression grew exponentially with its nesting
level. The level counter wasn't decremented (subfield groups) or not
decremented on failure (field groups), and valid expressions were
rejected. Each operand is now parsed once and negations count as a
nesting level.
---
 src/matcher/field/parser.rs    | 223 +++++++++++++++------------------
 src/matcher/subfield/parser.rs | 204 ++++++++++++++----------------
 2 files changed, 195 insertions(+), 232 deletions(-)

diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index 7581149..d5a3ad1 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -1,11 +1,9 @@
-use std::cell::RefCell;
+use std::cell::Cell;
 
 use bstr::ByteSlice;
 use winnow::ascii::digit1;
-use winnow::combinator::{
-    alt, delimited, opt, preceded, repeat, terminated,
-};
-use winnow::error::ParserError;
+use winnow::combinator::{alt, delimited, opt, preceded, terminated};
+use winnow::error::{ContextError, ErrMode, ParserError};
 use winnow::{ModalResult, Parser};
 
 use super::{
@@ -227,156 +225,135 @@ fn parse_field_exists_matcher(
     .parse_next(i)
 }
 
-thread_local! {
-    pub static FIELD_MATCHER_GROUP_LEVEL: RefCell<u32>
-        = const { RefCell::new(0) };
-}
+/// The maximum nesting level of groups and negations.
+const MAX_LEVEL: u32 = 256;
 
-fn group_level_reset() {
-    FIELD_MATCHER_GROUP_LEVEL.with(|level| *level.borrow_mut() = 0);
+thread_local! {
+    static FIELD_MATCHER_LEVEL: Cell<u32> = const { Cell::new(0) };
 }
 
-fn group_level_inc(i: &mut &[u8]) -> ModalResult<()> {
-    FIELD_MATCHER_GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() += 1;
-        if *level.borrow() >= 256 {
-            Err(winnow::error::ErrMode::from_input(i))
-        } else {
-            Ok(())
-        }
-    })
+/// Counts a nesting level for as long as the value is alive.
+struct Level;
+
+impl Level {
+    fn enter(i: &mut &[u8]) -> ModalResult<Self> {
+        FIELD_MATCHER_LEVEL.with(|level| {
+            if level.get() + 1 >= MAX_LEVEL {
+                Err(ErrMode::from_input(i))
+            } else {
+                level.set(level.get() + 1);
+                Ok(Self)
+            }
+        })
+    }
 }
 
-fn group_level_dec() {
-    FIELD_MATCHER_GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() -= 1;
-    })
+impl Drop for Level {
+    fn drop(&mut self) {
+        FIELD_MATCHER_LEVEL.with(|level| level.set(level.get() - 1));
+    }
 }
 
-#[inline]
 fn parse_field_group_matcher(
     i: &mut &[u8],
 ) -> ModalResult<FieldMatcher> {
-    delimited(
-        terminated(ws('('), group_level_inc),
-        alt((
-            parse_field_composite_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_group_matcher,
-        )),
-        ws(')').map(|_| group_level_dec()),
-    )
-    .map(|matcher| FieldMatcher::Group(Box::new(matcher)))
-    .parse_next(i)
+    let _ = ws('(').parse_next(i)?;
+    let _level = Level::enter(i)?;
+    let matcher = parse_field_or_matcher.parse_next(i)?;
+    let _ = ws(')').parse_next(i)?;
+
+    Ok(FieldMatcher::Group(Box::new(matcher)))
 }
 
-#[inline]
 fn parse_field_not_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    preceded(
-        ws('!'),
-        alt((
-            parse_field_group_matcher,
-            parse_subfields_matcher_bracket
-                .map(SingletonMatcher::Subfields)
-                .map(FieldMatcher::Singleton),
-            parse_field_exists_matcher,
-            parse_field_not_matcher,
-        )),
-    )
+    let _ = ws('!').parse_next(i)?;
+    let _level = Level::enter(i)?;
+
+    alt((
+        parse_field_group_matcher,
+        parse_subfields_matcher_bracket
+            .map(SingletonMatcher::Subfields)
+            .map(FieldMatcher::Singleton),
+        parse_field_exists_matcher,
+        parse_field_not_matcher,
+    ))
     .map(|matcher| FieldMatcher::Not(Box::new(matcher)))
     .parse_next(i)
 }
 
-fn parse_field_or_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
-        ws(alt((
-            parse_field_and_matcher,
-            parse_field_xor_matcher,
-            parse_field_group_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_exists_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(ws("||"), atom)))
-        .map(|(head, tail): (_, Vec<_>)| {
-            tail.into_iter().fold(head, |prev, next| prev | next)
-        })
-        .parse_next(i)
+#[inline(always)]
+fn parse_field_atom_matcher(
+    i: &mut &[u8],
+) -> ModalResult<FieldMatcher> {
+    ws(alt((
+        parse_field_group_matcher,
+        parse_field_cardinality_matcher,
+        parse_field_singleton_matcher,
+        parse_field_not_matcher,
+        parse_field_exists_matcher,
+    )))
+    .parse_next(i)
 }
 
-fn parse_field_xor_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
-        ws(alt((
-            parse_field_and_matcher,
-            parse_field_group_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_exists_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(alt(("^", "XOR")), atom)))
-        .map(|(head, tail): (_, Vec<_>)| {
-            tail.into_iter().fold(head, |prev, next| prev ^ next)
-        })
-        .parse_next(i)
+/// Parse one or more operands, which are separated by the operator.
+///
+/// Every operand is parsed only once, regardless of whether an operator
+/// follows; otherwise, the time to parse an expression would grow
+/// exponentially with the nesting level of its groups.
+fn parse_field_operands<'a, O>(
+    mut operand: impl FnMut(&mut &'a [u8]) -> ModalResult<FieldMatcher>,
+    mut operator: impl Parser<&'a [u8], O, ErrMode<ContextError>>,
+    fold: impl Fn(FieldMatcher, FieldMatcher) -> FieldMatcher,
+    i: &mut &'a [u8],
+) -> ModalResult<FieldMatcher> {
+    let mut matcher = operand(i)?;
+
+    loop {
+        let checkpoint = *i;
+        let next = operator.parse_next(i).and_then(|_| operand(i));
+        match next {
+            Ok(next) => matcher = fold(matcher, next),
+            Err(ErrMode::Backtrack(_)) => {
+                *i = checkpoint;
+                return Ok(matcher);
+            }
+            Err(e) => return Err(e),
+        }
+    }
 }
 
 fn parse_field_and_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
-        ws(alt((
-            parse_field_group_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_exists_matcher,
-        )))
-        .parse_next(i)
-    };
+    parse_field_operands(
+        parse_field_atom_matcher,
+        ws("&&"),
+        |prev, next| prev & next,
+        i,
+    )
+}
 
-    (atom, repeat(1.., preceded(ws("&&"), atom)))
-        .map(|(head, tail): (_, Vec<_>)| {
-            tail.into_iter().fold(head, |prev, next| prev & next)
-        })
-        .parse_next(i)
+fn parse_field_xor_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
+    parse_field_operands(
+        parse_field_and_matcher,
+        ws(alt(("^", "XOR"))),
+        |prev, next| prev ^ next,
+        i,
+    )
 }
 
-#[inline(always)]
-fn parse_field_composite_matcher(
-    i: &mut &[u8],
-) -> ModalResult<FieldMatcher> {
-    alt((
-        parse_field_or_matcher,
+fn parse_field_or_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
+    parse_field_operands(
         parse_field_xor_matcher,
-        parse_field_and_matcher,
-    ))
-    .parse_next(i)
+        ws("||"),
+        |prev, next| prev | next,
+        i,
+    )
 }
 
 /// Parse a [FieldMatcher] expression.
 pub(crate) fn parse_field_matcher(
     i: &mut &[u8],
 ) -> ModalResult<FieldMatcher> {
-    ws(alt((
-        parse_field_composite_matcher,
-        parse_field_group_matcher,
-        parse_field_not_matcher,
-        parse_field_singleton_matcher,
-        parse_field_cardinality_matcher,
-    )))
-    .map(|matcher| {
-        group_level_reset();
-        matcher
-    })
-    .parse_next(i)
+    parse_field_or_matcher.parse_next(i)
 }
 
 #[cfg(test)]
diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index 6ee7d52..cdee31e 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -1,13 +1,13 @@
-use std::cell::RefCell;
+use std::cell::Cell;
 
 use bstr::ByteSlice;
 use hashbrown::HashSet;
 use regex::bytes::Regex;
 use winnow::ascii::{digit1, multispace1};
 use winnow::combinator::{
-    alt, delimited, opt, preceded, repeat, separated, terminated,
+    alt, delimited, opt, preceded, separated, terminated,
 };
-use winnow::error::ParserError;
+use winnow::error::{ContextError, ErrMode, ParserError};
 use winnow::prelude::*;
 
 use super::{
@@ -280,48 +280,44 @@ pub(crate) fn parse_subfield_singleton_matcher(
         .parse_next(i)
 }
 
-thread_local! {
-    pub static SUBFIELD_MATCHER_GROUP_LEVEL: RefCell<u32>
-        = const { RefCell::new(0) };
-}
+/// The maximum nesting level of groups and negations.
+const MAX_LEVEL: u32 = 256;
 
-fn group_level_reset() {
-    SUBFIELD_MATCHER_GROUP_LEVEL.with(|level| *level.borrow_mut() = 0);
+thread_local! {
+    static SUBFIELD_MATCHER_LEVEL: Cell<u32> = const { Cell::new(0) };
 }
 
-fn group_level_inc(i: &mut &[u8]) -> ModalResult<()> {
-    SUBFIELD_MATCHER_GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() += 1;
-        if *level.borrow() >= 256 {
-            Err(winnow::error::ErrMode::from_input(i))
-        } else {
-            Ok(())
-        }
-    })
+/// Counts a nesting level for as long as the value is alive.
+struct Level;
+
+impl Level {
+    fn enter(i: &mut &[u8]) -> ModalResult<Self> {
+        SUBFIELD_MATCHER_LEVEL.with(|level| {
+            if level.get() + 1 >= MAX_LEVEL {
+                Err(ErrMode::from_input(i))
+            } else {
+                level.set(level.get() + 1);
+                Ok(Self)
+            }
+        })
+    }
 }
 
-fn group_level_dec() {
-    SUBFIELD_MATCHER_GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() -= 1;
-    })
+impl Drop for Level {
+    fn drop(&mut self) {
+        SUBFIELD_MATCHER_LEVEL.with(|level| level.set(level.get() - 1));
+    }
 }
 
-#[inline(always)]
 fn parse_subfield_group_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    delimited(
-        terminated(ws('('), group_level_inc),
-        alt((
-            parse_subfield_composite_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-            parse_subfield_group_matcher,
-        )),
-        ws(')').map(|_| group_level_dec),
-    )
-    .map(|m| SubfieldMatcher::Group(Box::new(m)))
-    .parse_next(i)
+    let _ = ws('(').parse_next(i)?;
+    let _level = Level::enter(i)?;
+    let matcher = parse_subfield_or_matcher.parse_next(i)?;
+    let _ = ws(')').parse_next(i)?;
+
+    Ok(SubfieldMatcher::Group(Box::new(matcher)))
 }
 
 #[inline(always)]
@@ -334,108 +330,98 @@ fn parse_subfield_exists_matcher(
         .parse_next(i)
 }
 
-#[inline(always)]
 fn parse_subfield_not_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    preceded(
-        ws('!'),
-        alt((
-            parse_subfield_group_matcher,
-            parse_subfield_exists_matcher,
-            parse_subfield_not_matcher,
-        )),
-    )
+    let _ = ws('!').parse_next(i)?;
+    let _level = Level::enter(i)?;
+
+    alt((
+        parse_subfield_group_matcher,
+        parse_subfield_exists_matcher,
+        parse_subfield_not_matcher,
+    ))
     .map(|matcher| SubfieldMatcher::Not(Box::new(matcher)))
     .parse_next(i)
 }
 
-fn parse_subfield_or_matcher(
+#[inline(always)]
+fn parse_subfield_atom_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
-        ws(alt((
-            parse_subfield_and_matcher,
-            parse_subfield_xor_matcher,
-            parse_subfield_group_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded("||", atom)))
-        .map(|(head, tail): (_, Vec<_>)| {
-            tail.into_iter().fold(head, |prev, next| prev | next)
-        })
-        .parse_next(i)
+    ws(alt((
+        parse_subfield_group_matcher,
+        parse_subfield_singleton_matcher,
+        parse_subfield_not_matcher,
+    )))
+    .parse_next(i)
 }
 
-fn parse_subfield_xor_matcher(
-    i: &mut &[u8],
+/// Parse one or more operands, which are separated by the operator.
+///
+/// Every operand is parsed only once, regardless of whether an operator
+/// follows; otherwise, the time to parse an expression would grow
+/// exponentially with the nesting level of its groups.
+fn parse_subfield_operands<'a, O>(
+    mut operand: impl FnMut(&mut &'a [u8]) -> ModalResult<SubfieldMatcher>,
+    mut operator: impl Parser<&'a [u8], O, ErrMode<ContextError>>,
+    fold: impl Fn(SubfieldMatcher, SubfieldMatcher) -> SubfieldMatcher,
+    i: &mut &'a [u8],
 ) -> ModalResult<SubfieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
-        ws(alt((
-            parse_subfield_and_matcher,
-            parse_subfield_group_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(alt(("^", "XOR")), atom)))
-        .map(|(head, tail): (_, Vec<_>)| {
-            tail.into_iter().fold(head, |prev, next| prev ^ next)
-        })
-        .parse_next(i)
+    let mut matcher = operand(i)?;
+
+    loop {
+        let checkpoint = *i;
+        let next = operator.parse_next(i).and_then(|_| operand(i));
+        match next {
+            Ok(next) => matcher = fold(matcher, next),
+            Err(ErrMode::Backtrack(_)) => {
+                *i = checkpoint;
+                return Ok(matcher);
+            }
+            Err(e) => return Err(e),
+        }
+    }
 }
 
 fn parse_subfield_and_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
-        ws(alt((
-            parse_subfield_group_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-        )))
-        .parse_next(i)
-    };
+    parse_subfield_operands(
+        parse_subfield_atom_matcher,
+        ws("&&"),
+        |prev, next| prev & next,
+        i,
+    )
+}
 
-    (atom, repeat(1.., preceded("&&", atom)))
-        .map(|(head, tail): (_, Vec<_>)| {
-            tail.into_iter().fold(head, |prev, next| prev & next)
-        })
-        .parse_next(i)
+fn parse_subfield_xor_matcher(
+    i: &mut &[u8],
+) -> ModalResult<SubfieldMatcher> {
+    parse_subfield_operands(
+        parse_subfield_and_matcher,
+        ws(alt(("^", "XOR"))),
+        |prev, next| prev ^ next,
+        i,
+    )
 }
 
-#[inline(always)]
-fn parse_subfield_composite_matcher(
+fn parse_subfield_or_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    alt((
-        parse_subfield_or_matcher,
+    parse_subfield_operands(
         parse_subfield_xor_matcher,
-        parse_subfield_and_matcher,
-    ))
-    .parse_next(i)
+        ws("||"),
+        |prev, next| prev | next,
+        i,
+    )
 }
 
+/// Parse a [SubfieldMatcher] expression.
 pub(crate) fn parse_subfield_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    alt((
-        parse_subfield_composite_matcher,
-        parse_subfield_singleton_matcher,
-        parse_subfield_group_matcher,
-        parse_subfield_not_matcher,
-    ))
-    .map(|matcher| {
-        group_level_reset();
-        matcher
-    })
-    .parse_next(i)
+    parse_subfield_or_matcher.parse_next(i)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 46c00f285c1ff39dccf514402fffea8998eab44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 18/28] fix: gzip writer retries interrupted writes when it is
 finished

---
 src/writer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 2edc310..2f39dbe 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -219,7 +219,13 @@ impl<W: Write> ByteRecordWrite for GzipWriter<W> {
     /// Finish the [GzipWriter].
     #[inline(always)]
     fn finish(&mut self) -> io::Result<()> {
-        self.0.try_finish()?;
+        // Unlike `write_all`, `try_finish` doesn't retry on its own.
+        while let Err(e) = self.0.try_finish() {
+            if e.kind() != io::ErrorKind::Interrupted {
+                return Err(e);
+            }
+        }
+
         self.0.get_mut().flush()
     }
 }
-- 
2.43.0


From 0bf47570387503fcd11f611518117dc21187085f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 19/28] fix: the squash warning does not panic if stderr is
 gone

---
 src/query.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index 6e66bbd..59692e8 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -1,4 +1,5 @@
 use std::fmt::{self, Display};
+use std::io::{self, Write};
 use std::ops::{Add, Deref, Mul};
 
 use bstr::{BString, ByteSlice, ByteVec};
@@ -320,7 +321,9 @@ impl Outcome<BString> {
                 .iter()
                 .any(|item| item.contains_str(sep.as_bytes()))
         {
-            eprintln!(
+            // Unlike `eprintln!`, this doesn't panic if stderr is gone.
+            let _ = writeln!(
+                io::stderr(),
                 "WARNING: A subfield value contains \
                       squash separator '{sep}'."
             );
-- 
2.43.0


From 66a59a417d22da144cb186f914d27ca67ccd4d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 20/28] fix: filter --file reads stdin if - follows another
 filename

---
 crates/pica-cli/src/commands/filter.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/filter.rs b/crates/pica-cli/src/commands/filter.rs
index 531177e..e34c986 100644
--- a/crates/pica-cli/src/commands/filter.rs
+++ b/crates/pica-cli/src/commands/filter.rs
@@ -153,7 +153,6 @@ pub(crate) struct Filter {
     ///
     /// If no filenames where given or a filename is "-", data is read
     /// from standard input (stdin).
-    #[arg(default_value = "-", hide_default_value = true)]
     filenames: Vec<OsString>,
 }
 
@@ -194,11 +193,7 @@ impl Filter {
             // a expression file is given, it makes no sense to provide
             // an filter expression as CLI argument.
             if !self.filter.is_empty() {
-                if filenames != ["-"] {
-                    filenames.insert(0, self.filter.into());
-                } else {
-                    filenames = vec![self.filter.into()];
-                }
+                filenames.insert(0, self.filter.into());
             }
 
             read_to_string(filename)?
@@ -206,6 +201,10 @@ impl Filter {
             self.filter
         };
 
+        if filenames.is_empty() {
+            filenames.push("-".into());
+        }
+
         let matcher =
             RecordMatcherBuilder::with_transform(filter_str, translit)?
                 .and(self.and)?
-- 
2.43.0


From b104f84bf00263a1a67134d601cb1de44e9f310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:48 +0000
Subject: [PATCH 21/28] fix: concat --unique tells PPNs apart that are not
 valid UTF-8

---
 crates/pica-cli/src/commands/concat.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/crates/pica-cli/src/commands/concat.rs b/crates/pica-cli/src/commands/concat.rs
index 122d1c7..7ae0462 100644
--- a/crates/pica-cli/src/commands/concat.rs
+++ b/crates/pica-cli/src/commands/concat.rs
@@ -1,5 +1,4 @@
 use std::ffi::OsString;
-use std::fmt::Write;
 use std::process::ExitCode;
 
 use clap::{Parser, ValueEnum};
@@ -74,15 +73,10 @@ pub(crate) enum Strategy {
 }
 
 #[inline]
-fn record_key(record: &ByteRecord, strategy: &Strategy) -> String {
+fn record_key(record: &ByteRecord, strategy: &Strategy) -> Vec<u8> {
     match strategy {
-        Strategy::Idn => record.ppn().unwrap_or_default().to_string(),
-        Strategy::Hash => {
-            record.sha256().iter().fold(String::new(), |mut out, b| {
-                let _ = write!(out, "{b:02x}");
-                out
-            })
-        }
+        Strategy::Idn => record.ppn().unwrap_or_default().to_vec(),
+        Strategy::Hash => record.sha256().to_vec(),
     }
 }
 
-- 
2.43.0


From c1a70230c3590ef16d43a7ff3780fc02f441361f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:03 +0000
Subject: [PATCH 22/28] fix: compare subfield values of different byte length
 when ignoring case

With -i, == and != gave up as soon as the two values differed in
length, although letters such as the capital sharp s or the Kelvin sign
change their length in lowercase.
---
 src/matcher/subfield/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/matcher/subfield/mod.rs b/src/matcher/subfield/mod.rs
index 5bd6da9..447a492 100644
--- a/src/matcher/subfield/mod.rs
+++ b/src/matcher/subfield/mod.rs
@@ -232,10 +232,6 @@ impl RelationMatcher {
     /// # Ok::<(), Box<dyn std::error::Error>>(())
     /// ```
     fn compare(&self, value: &[u8], options: &MatcherOptions) -> bool {
-        if value.len() != self.value.len() {
-            return false;
-        }
-
         if options.case_ignore {
             self.value.to_lowercase() == value.to_lowercase()
         } else {
-- 
2.43.0


From 4cf0024e7b412b934ed0b87337a3ac234edec24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:48 +0000
Subject: [PATCH 23/28] fix: check duplicates: compare the rows, not their
 joined values

Different rows whose values join to the same text (such as "a", "b|c"
and "a|b", "c", or values that are not valid UTF-8) were reported as
duplicates.
---
 .../src/commands/check/checks/duplicates.rs      | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/duplicates.rs b/crates/pica-cli/src/commands/check/checks/duplicates.rs
index 5da5a96..881eae5 100644
--- a/crates/pica-cli/src/commands/check/checks/duplicates.rs
+++ b/crates/pica-cli/src/commands/check/checks/duplicates.rs
@@ -42,17 +42,12 @@ impl Duplicates {
         let mut freqs = BTreeMap::new();
 
         for row in record.query(&self.query, &options).iter() {
-            let values =
-                row.iter().map(ToString::to_string).collect::<Vec<_>>();
-
-            if values.iter().all(String::is_empty) {
+            if row.iter().all(|value| value.is_empty()) {
                 continue;
             }
 
-            let value = values.join(&self.separator);
-
             freqs
-                .entry(value)
+                .entry(row.clone())
                 .and_modify(|count| *count += 1)
                 .or_insert(1);
         }
@@ -61,7 +56,12 @@ impl Duplicates {
         if !freqs.is_empty() {
             let message = freqs
                 .keys()
-                .map(ToString::to_string)
+                .map(|row| {
+                    row.iter()
+                        .map(ToString::to_string)
+                        .collect::<Vec<_>>()
+                        .join(&self.separator)
+                })
                 .collect::<Vec<_>>()
                 .join("; ");
             (true, Some(message))
-- 
2.43.0


From a931b7bd596233ba19e3254b67acfc9ad1159878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 24/28] fix: check isni: letters are no digits

A letter counted as a digit of value 17 and above, so that some numbers
with letters passed the check.
---
 crates/pica-cli/src/commands/check/checks/isni.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/check/checks/isni.rs b/crates/pica-cli/src/commands/check/checks/isni.rs
index 9dc8a9d..c2a98c9 100644
--- a/crates/pica-cli/src/commands/check/checks/isni.rs
+++ b/crates/pica-cli/src/commands/check/checks/isni.rs
@@ -42,7 +42,8 @@ impl Isni {
                 })
                 .collect();
 
-            if digits.len() != 16 {
+            if digits.len() != 16 || digits[..15].iter().any(|d| *d > 9)
+            {
                 messages.push(value.to_string());
                 retval = true;
                 continue;
-- 
2.43.0


From 603456ead30dfbcc6b4ae4d640c3dccc3126b60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:13 +0000
Subject: [PATCH 25/28] fix: nested groups in format expressions don't hang

Every level of parentheses was parsed several times by the alternatives
of the grammar, so that the time to parse an expression grew
exponentially with its nesting level. The level counter wasn't
decremented on failure, and it was kept for the next expression. Each
operand is now parsed once.
---
 src/fmt/parser.rs | 132 +++++++++++++++++++++++++++-------------------
 1 file changed, 77 insertions(+), 55 deletions(-)

diff --git a/src/fmt/parser.rs b/src/fmt/parser.rs
index 8882592..69bdeea 100644
--- a/src/fmt/parser.rs
+++ b/src/fmt/parser.rs
@@ -1,13 +1,13 @@
-use std::cell::RefCell;
+use std::cell::Cell;
 use std::ops::RangeTo;
 
 use bstr::ByteSlice;
 use winnow::ascii::digit1;
 use winnow::combinator::{
-    alt, delimited, empty, opt, preceded, repeat, separated, terminated,
+    alt, delimited, empty, opt, preceded, repeat, separated,
 };
-use winnow::error::ParserError;
-use winnow::{ModalResult, Parser};
+use winnow::error::{ContextError, ErrMode, ParserError};
+use winnow::{ModalParser, ModalResult, Parser};
 
 use super::{Format, Fragments, Group, List, Modifier, Value};
 use crate::matcher::occurrence::parse_occurrence_matcher;
@@ -43,44 +43,47 @@ pub(crate) fn parse_format(i: &mut &[u8]) -> ModalResult<Format> {
 }
 
 fn parse_fragments(i: &mut &[u8]) -> ModalResult<Fragments> {
-    alt((
-        ws(parse_list).map(Fragments::List),
-        ws(parse_group).map(Fragments::Group),
-        ws(parse_value).map(Fragments::Value),
-    ))
-    .parse_next(i)
+    ws(parse_cons).parse_next(i)
 }
 
+/// The maximum nesting level of groups.
+const MAX_LEVEL: u32 = 32;
+
 thread_local! {
-    pub static GROUP_LEVEL: RefCell<u32> = const { RefCell::new(0) };
+    static GROUP_LEVEL: Cell<u32> = const { Cell::new(0) };
 }
 
-fn group_level_inc(i: &mut &[u8]) -> ModalResult<()> {
-    GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() += 1;
-        if *level.borrow() >= 32 {
-            Err(winnow::error::ErrMode::from_input(i))
-        } else {
-            Ok(())
-        }
-    })
+/// Counts a nesting level for as long as the value is alive.
+struct Level;
+
+impl Level {
+    fn enter(i: &mut &[u8]) -> ModalResult<Self> {
+        GROUP_LEVEL.with(|level| {
+            if level.get() + 1 >= MAX_LEVEL {
+                Err(ErrMode::from_input(i))
+            } else {
+                level.set(level.get() + 1);
+                Ok(Self)
+            }
+        })
+    }
 }
 
-fn group_level_dec() {
-    GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() -= 1;
-    })
+impl Drop for Level {
+    fn drop(&mut self) {
+        GROUP_LEVEL.with(|level| level.set(level.get() - 1));
+    }
 }
 
 fn parse_group(i: &mut &[u8]) -> ModalResult<Group> {
+    let _ = ws('(').parse_next(i)?;
+    let _level = Level::enter(i)?;
+
     (
-        terminated(ws('('), group_level_inc),
         parse_modifier,
-        alt((
-            ws(parse_list).map(Fragments::List),
-            ws(parse_value).map(Fragments::Value),
-        )),
-        ws(')').map(|_| group_level_dec()),
+        parse_fragments
+            .verify(|f: &Fragments| !matches!(f, Fragments::Group(_))),
+        ws(')'),
         alt((
             preceded(
                 "..",
@@ -92,7 +95,7 @@ fn parse_group(i: &mut &[u8]) -> ModalResult<Group> {
             empty.value(usize::MAX),
         )),
     )
-        .map(|(_, modifier, fragments, _, end)| Group {
+        .map(|(modifier, fragments, _, end)| Group {
             fragments: Box::new(fragments),
             bounds: RangeTo { end },
             modifier: modifier.unwrap_or_default(),
@@ -135,36 +138,55 @@ fn parse_value(i: &mut &[u8]) -> ModalResult<Value> {
         .parse_next(i)
 }
 
-#[inline]
-fn parse_list(i: &mut &[u8]) -> ModalResult<List> {
-    alt((parse_list_cons, parse_list_and_then)).parse_next(i)
+/// Parses a sequence of operands, each of which is parsed only once. A
+/// sequence of one operand is the operand itself.
+fn parse_sequence<'a, P>(
+    operand: P,
+    operator: &'static str,
+    list: fn(Vec<Fragments>) -> List,
+) -> impl ModalParser<&'a [u8], Fragments, ContextError>
+where
+    P: ModalParser<&'a [u8], Fragments, ContextError>,
+{
+    separated(1.., operand, ws(operator)).map(
+        move |mut operands: Vec<Fragments>| match operands.len() {
+            1 => operands.remove(0),
+            _ => Fragments::List(list(operands)),
+        },
+    )
+}
+
+fn parse_cons(i: &mut &[u8]) -> ModalResult<Fragments> {
+    parse_sequence(parse_and_then, "<*>", List::Cons).parse_next(i)
 }
 
+fn parse_and_then(i: &mut &[u8]) -> ModalResult<Fragments> {
+    let operand = alt((
+        parse_group.map(Fragments::Group),
+        parse_value.map(Fragments::Value),
+    ));
+
+    parse_sequence(operand, "<$>", List::AndThen).parse_next(i)
+}
+
+#[cfg(test)]
 fn parse_list_cons(i: &mut &[u8]) -> ModalResult<List> {
-    separated(
-        2..,
-        alt((
-            parse_list_and_then.map(Fragments::List),
-            parse_group.map(Fragments::Group),
-            parse_value.map(Fragments::Value),
-        )),
-        ws("<*>"),
-    )
-    .map(List::Cons)
-    .parse_next(i)
+    parse_cons
+        .verify_map(|fragments| match fragments {
+            Fragments::List(list @ List::Cons(_)) => Some(list),
+            _ => None,
+        })
+        .parse_next(i)
 }
 
+#[cfg(test)]
 fn parse_list_and_then(i: &mut &[u8]) -> ModalResult<List> {
-    separated(
-        2..,
-        alt((
-            parse_group.map(Fragments::Group),
-            parse_value.map(Fragments::Value),
-        )),
-        ws("<$>"),
-    )
-    .map(List::AndThen)
-    .parse_next(i)
+    parse_and_then
+        .verify_map(|fragments| match fragments {
+            Fragments::List(list @ List::AndThen(_)) => Some(list),
+            _ => None,
+        })
+        .parse_next(i)
 }
 
 fn parse_modifier(i: &mut &[u8]) -> ModalResult<Option<Modifier>> {
-- 
2.43.0


From dd169968222a4f0a6124bcc624e3bef636464f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:26 +0000
Subject: [PATCH 26/28] fix: the JEL code `Z0` is valid

The list holds every class and subclass of the classification but the
class `Z0`, whose subclasses `Z00` etc. it does hold.
---
 crates/pica-cli/src/commands/check/checks/jelc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/jelc.rs b/crates/pica-cli/src/commands/check/checks/jelc.rs
index f5ec209..2697607 100644
--- a/crates/pica-cli/src/commands/check/checks/jelc.rs
+++ b/crates/pica-cli/src/commands/check/checks/jelc.rs
@@ -135,8 +135,8 @@ static CODES: LazyLock<HashSet<Vec<u8>>> = LazyLock::new(|| {
         "N6", "N7", "N8", "N9", "O0", "O1", "O2", "O3", "O4", "O5",
         "P0", "P0", "P1", "P2", "P3", "P4", "P5", "Q0", "Q1", "Q2",
         "Q3", "Q4", "Q5", "R0", "R1", "R2", "R3", "R4", "R5", "Y1",
-        "Y2", "Y3", "Y4", "Y5", "Y6", "Y7", "Y8", "Y9", "Z1", "Z2",
-        "Z3",
+        "Y2", "Y3", "Y4", "Y5", "Y6", "Y7", "Y8", "Y9", "Z0", "Z1",
+        "Z2", "Z3",
     ])
 });
 
-- 
2.43.0


From 67aecbbdb1c485ac3015e594bfa7ea4cd3ef8625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:26 +0000
Subject: [PATCH 27/28] fix: processes that save the config at the same time
 don't disturb each other

All processes used the same temporary file, so that one could rename the
unfinished file of another or fail because its own had been renamed.
---
 crates/pica-cli/src/config.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/pica-cli/src/config.rs b/crates/pica-cli/src/config.rs
index ce9f27a..4357465 100644
--- a/crates/pica-cli/src/config.rs
+++ b/crates/pica-cli/src/config.rs
@@ -103,12 +103,13 @@ impl Config {
 
         // The config is written to a temporary file first and renamed
         // afterwards, so that an interrupted run or a failure doesn't
-        // leave an incomplete config behind.
+        // leave an incomplete config behind. Each process has its own
+        // temporary file.
         let content = toml::to_string(self).unwrap();
         let path =
             fs::canonicalize(&self.path).unwrap_or(self.path.clone());
         let mut tmp = path.clone().into_os_string();
-        tmp.push(".tmp");
+        tmp.push(format!(".{}.tmp", std::process::id()));
 
         let result = File::create(&tmp)
             .and_then(|mut out| {
-- 
2.43.0


From 753e9162d1a7094fc74caeb4574ae042c7715305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:30 +0000
Subject: [PATCH 28/28] fix: count the records dropped by concat --unique in
 the progress display

---
 crates/pica-cli/src/commands/concat.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/concat.rs b/crates/pica-cli/src/commands/concat.rs
index 7ae0462..56ce393 100644
--- a/crates/pica-cli/src/commands/concat.rs
+++ b/crates/pica-cli/src/commands/concat.rs
@@ -111,6 +111,8 @@ impl Concat {
                     }
                     Err(e) => return Err(e.into()),
                     Ok(ref record) => {
+                        progress.update(false);
+
                         if self.unique {
                             let key = record_key(
                                 record,
@@ -124,7 +126,6 @@ impl Concat {
                         }
 
                         writer.write_byte_record(record)?;
-                        progress.update(false);
 
                         if let Some(ref mut wtr) = tee_writer {
                             wtr.write_byte_record(record)?;
-- 
2.43.0

