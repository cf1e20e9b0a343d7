From d27b6c2ca677c11e2f3cdd7b6e8a960d7c523cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 01/83] fix: apply LSP changes one after the other, and all or
 none

The changes of one notification were all converted to offsets in the
original text and applied from the end, while the LSP specification makes
each change relative to the text left by the previous one. An invalid
change also left the document half-edited with stale line starts.
---
 crates/jarl-lsp/src/document.rs | 37 +++++++++++----------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index ad39920..b416adc 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -133,25 +133,19 @@ impl TextDocument {
             new_version
         );
 
-        // Convert positions to offsets first, then sort by offset in reverse order
-        let mut changes_with_offsets = Vec::new();
-        for change in changes {
+        // Each change is expressed in terms of the text left by the previous one.
+        // Work on a copy so that an invalid change leaves the document untouched.
+        let mut updated = self.clone();
+        for (i, change) in changes.iter().enumerate() {
             let range = change.range.ok_or_else(|| {
                 anyhow!(
                     "Full document replacement not supported - only incremental changes allowed"
                 )
             })?;
 
-            let start_offset = self.position_to_offset(range.start, encoding)?;
-            let end_offset = self.position_to_offset(range.end, encoding)?;
-            changes_with_offsets.push((start_offset, end_offset, change));
-        }
-
-        // Sort by start offset in reverse order (end to beginning) to avoid offset invalidation
-        changes_with_offsets.sort_by(|a, b| b.0.cmp(&a.0));
+            let start_offset = updated.position_to_offset(range.start, encoding)?;
+            let end_offset = updated.position_to_offset(range.end, encoding)?;
 
-        // Apply incremental changes in reverse order
-        for (i, (start_offset, end_offset, change)) in changes_with_offsets.iter().enumerate() {
             tracing::trace!(
                 "Processing incremental change {}: {}..{} -> '{}'",
                 i,
@@ -160,15 +154,6 @@ impl TextDocument {
                 change.text
             );
 
-            if *start_offset > self.content.len() || *end_offset > self.content.len() {
-                return Err(anyhow!(
-                    "Change range is out of bounds: {}..{} in document of length {}",
-                    start_offset,
-                    end_offset,
-                    self.content.len()
-                ));
-            }
-
             if start_offset > end_offset {
                 return Err(anyhow!(
                     "Invalid change range: start {} > end {}",
@@ -177,12 +162,14 @@ impl TextDocument {
                 ));
             }
 
-            self.content
-                .replace_range(*start_offset..*end_offset, &change.text);
+            updated
+                .content
+                .replace_range(start_offset..end_offset, &change.text);
+            updated.line_starts = Self::compute_line_starts(&updated.content);
         }
 
-        self.version = new_version;
-        self.line_starts = Self::compute_line_starts(&self.content);
+        updated.version = new_version;
+        *self = updated;
         Ok(())
     }
 
-- 
2.43.0


From fc972b07a4f85f5d8bf7f50d4838887e4740435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 02/83] fix: clamp UTF-8 positions past the end of a line,
 refuse those inside a character

The LSP specification makes a character offset past the end of a line mean
its end, as was done for UTF-16 and UTF-32. A UTF-8 offset inside a
multi-byte character made the next edit panic.
---
 crates/jarl-lsp/src/document.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index b416adc..fd9f75e 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -198,11 +198,12 @@ impl TextDocument {
 
         let offset = match encoding {
             PositionEncoding::UTF8 => {
-                if character > line_content.len() {
+                // As in the other encodings, past the end of the line means its end.
+                let character = character.min(line_content.len());
+                if !line_content.is_char_boundary(character) {
                     return Err(anyhow!(
-                        "Character {} is out of bounds on line {}",
-                        character,
-                        line
+                        "Character {} is in the middle of a UTF-8 sequence",
+                        character
                     ));
                 }
                 character
-- 
2.43.0


From f03d89ca75caa2cdaa6b64679dd55f0f1af9ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 03/83] fix: clamp positions on CRLF lines before the line
 terminator

A character offset past the end of a line ended up between the CR and the
LF, so an edit reaching the end of such a line split its terminator.
---
 crates/jarl-lsp/src/document.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index fd9f75e..10a0e5d 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -195,6 +195,12 @@ impl TextDocument {
         };
 
         let line_content = &self.content[line_start..line_end];
+        // The line terminator can be CRLF, in which case the CR isn't part of the line.
+        let line_content = if line_end < self.content.len() {
+            line_content.strip_suffix('\r').unwrap_or(line_content)
+        } else {
+            line_content
+        };
 
         let offset = match encoding {
             PositionEncoding::UTF8 => {
-- 
2.43.0


From 1c9ca20dfe94e6d585e1b18560da9e00d477661d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 04/83] fix: rules browser and empty_assignment have no fix

They were declared with a safe fix although they never produce one (and are
documented as such), so --fix-only kept reporting them.
---
 crates/jarl-core/src/rule_set.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/rule_set.rs b/crates/jarl-core/src/rule_set.rs
index 3c8f479..26cdd93 100644
--- a/crates/jarl-core/src/rule_set.rs
+++ b/crates/jarl-core/src/rule_set.rs
@@ -266,7 +266,7 @@ declare_rules! {
         name: "browser",
         categories: [Corr],
         default: Enabled,
-        fix: Safe,
+        fix: None,
         min_r_version: None,
     },
     ClassEquals => {
@@ -315,7 +315,7 @@ declare_rules! {
         name: "empty_assignment",
         categories: [Read],
         default: Enabled,
-        fix: Safe,
+        fix: None,
         min_r_version: None,
     },
     EqualsNa => {
-- 
2.43.0


From 5c9dadabfc775c6caa5298ba5bbb4456a07ba1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 05/83] fix: docs: bring the list of rules up to date with the
 rules

sample_int and unused_function are disabled by default, and
unused_suppression is now called outdated_suppression.
---
 docs/rules.qmd | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/docs/rules.qmd b/docs/rules.qmd
index 3e680df..b4ecbe0 100644
--- a/docs/rules.qmd
+++ b/docs/rules.qmd
@@ -89,11 +89,12 @@ dat <- as.data.frame(
     c("misplaced_file_suppression", "comments", "❌", ""),
     c("misplaced_suppression", "comments", "❌", ""),
     c("numeric_leading_zero", "readability", "✅", ""),
+    c("outdated_suppression", "comments", "❌", ""),
     c("outer_negation", "performance, readability", "✅", ""),
     c("redundant_equals", "readability", "✅", ""),
     c("redundant_ifelse", "correctness, performance, readability", "✅", ""),
     c("repeat", "readability", "✅", ""),
-    c("sample_int", "readability", "✅", ""),
+    c("sample_int", "readability", "✅", "Disabled by default"),
     c("seq", "suspicious", "✅", ""),
     c("seq2", "suspicious", "✅", ""),
     c("sort", "performance, readability", "✅", ""),
@@ -106,8 +107,7 @@ dat <- as.data.frame(
     c("unmatched_range_suppression", "comments", "❌", ""),
     c("unnecessary_nesting", "readability", "✅", "Disabled by default"),
     c("unreachable_code", "readability, suspicious", "❌", ""),
-    c("unused_function", "correctness", "❌", ""),
-    c("unused_suppression", "comments", "❌", ""),
+    c("unused_function", "correctness", "❌", "Disabled by default"),
     c("vector_logic", "performance", "❌", ""),
     c("which_grepl", "performance, readability", "✅", "")
   )
-- 
2.43.0


From 862ad0217193295b35723bd72dc8c9c31cab1309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 06/83] fix: read R requirements of any DESCRIPTION without
 panicking

A Depends field with 'R' followed by anything but a complete '(>= x)' hit
unreachable!() or a reversed slice, requirements without a space after 'R'
were ignored, and other operators were returned as part of the version.
---
 crates/jarl-core/src/description.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/crates/jarl-core/src/description.rs b/crates/jarl-core/src/description.rs
index 1ab9f3d..a33e2ba 100644
--- a/crates/jarl-core/src/description.rs
+++ b/crates/jarl-core/src/description.rs
@@ -27,7 +27,6 @@ impl Description {
             .map(|deps| {
                 deps.split(',')
                     .map(|s| s.trim())
-                    .filter(|s| !s.is_empty() && s.starts_with("R "))
                     .filter_map(extract_version_from_dependency)
                     .collect::<Vec<String>>()
             })
@@ -38,22 +37,21 @@ impl Description {
 }
 
 /// Extract version number from an R dependency string like "R (>= 4.3.0)"
+///
+/// Returns `None` for dependencies on other packages and for R dependencies
+/// that don't require a minimum version, e.g. "R" or "R (< 4.0.0)".
 fn extract_version_from_dependency(dep: &str) -> Option<String> {
     // Look for version requirement in parentheses
-    if let Some(start) = dep.find('(')
-        && let Some(end) = dep.find(')')
-    {
-        let version_part = &dep[start + 1..end];
-        // Remove >= operator and extract just the version number
-        let version = version_part.replace(">=", "").trim().to_string();
-
-        if !version.is_empty() {
-            return Some(version);
-        }
-    }
+    let requirement = dep.strip_prefix('R')?.trim_start().strip_prefix('(')?;
+    let (requirement, _) = requirement.split_once(')')?;
 
-    // R dependency exists but no version specified
-    unreachable!("DESCRIPTION cannot have 'R' without version in Depends field.")
+    // Remove >= operator and extract just the version number
+    let version = requirement.trim().strip_prefix(">=")?.trim();
+
+    if version.is_empty() {
+        return None;
+    }
+    Some(version.to_string())
 }
 
 /// Parse a DCF (Debian Control File) format string into a key-value map
-- 
2.43.0


From 2cd8125cc9dec085b7d8de705cab399207027e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 07/83] fix: extract R chunks only, and not those shown in
 other chunks

Chunks of engines whose name starts with 'r' (rust, Rcpp, ruby...) were taken
for R chunks, and so were R chunks shown inside chunks of other engines.
---
 crates/jarl-core/src/rmd/extraction.rs | 30 +++++++++++++++-----------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/crates/jarl-core/src/rmd/extraction.rs b/crates/jarl-core/src/rmd/extraction.rs
index 85da990..4305dae 100644
--- a/crates/jarl-core/src/rmd/extraction.rs
+++ b/crates/jarl-core/src/rmd/extraction.rs
@@ -3,14 +3,15 @@
 use regex::Regex;
 use std::sync::LazyLock;
 
-/// Matches the opening fence of an executable R code chunk.
+/// Matches the opening fence of an executable code chunk.
 ///
 /// Captures group 1: the backtick sequence (e.g. "```").
-/// Accepts `{r}`, `{r label}`, `{r, options}`, etc.
+/// Captures group 2: the engine (e.g. "r").
+/// Accepts `{r}`, `{r label}`, `{r, options}`, `{python}`, etc.
 /// Leading spaces or tabs are allowed to support indented chunks (e.g. inside
 /// list items).
 static OPEN_FENCE: LazyLock<Regex> =
-    LazyLock::new(|| Regex::new(r"^[ \t]*(`{3,})\{[rR][^}]*\}").unwrap());
+    LazyLock::new(|| Regex::new(r"^[ \t]*(`{3,})\{([A-Za-z0-9_]+)(?:[ \t,][^}]*)?\}").unwrap());
 
 /// An R code chunk extracted from an Rmd/Qmd document.
 #[derive(Debug)]
@@ -26,25 +27,27 @@ pub struct RCodeChunk {
 ///
 /// Only fenced chunks whose opening line matches ` ```{r...} ` (any number of
 /// backticks ≥ 3) are returned. Display-only ` ```r ` blocks and tilde-fenced
-/// blocks are skipped. The closing fence must use the same number of backticks
-/// as the opening fence.
+/// blocks are skipped, and so are chunks of other engines with all they contain.
+/// The closing fence must use the same number of backticks as the opening fence.
 pub fn extract_r_chunks(content: &str) -> Vec<RCodeChunk> {
     let mut chunks = Vec::new();
     let mut byte_offset: usize = 0;
 
-    // State: None = outside a chunk, Some((fence, code, start_byte)) = inside.
-    let mut current: Option<(String, String, usize)> = None;
+    // State: None = outside a chunk, Some((fence, is_r, code, start_byte)) = inside.
+    let mut current: Option<(String, bool, String, usize)> = None;
 
     for line in content.split_inclusive('\n') {
         let mut finished = false;
 
-        if let Some((fence, code, start_byte)) = current.as_mut() {
+        if let Some((fence, is_r, code, start_byte)) = current.as_mut() {
             if line.trim() == fence.as_str() {
                 // Closing fence found — emit the chunk.
-                chunks.push(RCodeChunk {
-                    code: std::mem::take(code),
-                    start_byte: *start_byte,
-                });
+                if *is_r {
+                    chunks.push(RCodeChunk {
+                        code: std::mem::take(code),
+                        start_byte: *start_byte,
+                    });
+                }
                 finished = true;
             } else {
                 code.push_str(line);
@@ -52,9 +55,10 @@ pub fn extract_r_chunks(content: &str) -> Vec<RCodeChunk> {
         } else if let Some(caps) = OPEN_FENCE.captures(line) {
             // Opening fence found — start a new chunk.
             let fence = caps.get(1).unwrap().as_str().to_string();
+            let is_r = caps.get(2).unwrap().as_str().eq_ignore_ascii_case("r");
             // The chunk code starts immediately after this line.
             let chunk_start_byte = byte_offset + line.len();
-            current = Some((fence, String::new(), chunk_start_byte));
+            current = Some((fence, is_r, String::new(), chunk_start_byte));
         }
 
         if finished {
-- 
2.43.0


From 72e947700df03d33f62baf3bd4f5ec5d207fdcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 08/83] fix: xtask: write the input of a process while reading
 its output

A process that wrote more than a pipe holds before it had read all its input
never ended, and one that succeeded without reading its input was reported as
failed, depending on timing.
---
 xtask/src/glue.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/xtask/src/glue.rs b/xtask/src/glue.rs
index f8cdb78..abee2b1 100644
--- a/xtask/src/glue.rs
+++ b/xtask/src/glue.rs
@@ -4,7 +4,7 @@ use std::{
     cell::RefCell,
     env,
     ffi::OsString,
-    io::Write,
+    io::{ErrorKind, Write},
     path::{Path, PathBuf},
     process::{Command, Stdio},
 };
@@ -138,8 +138,19 @@ fn run_process_inner(cmd: &str, echo: bool, stdin: Option<&[u8]>) -> Result<Stri
         Some(stdin) => {
             command.stdin(Stdio::piped()).stdout(Stdio::piped());
             let mut process = command.spawn()?;
-            process.stdin.take().unwrap().write_all(stdin)?;
-            process.wait_with_output()
+            let mut pipe = process.stdin.take().unwrap();
+            // Write while reading the output, otherwise both processes can end up
+            // waiting for the other one to empty its pipe.
+            std::thread::scope(|scope| {
+                let writer = scope.spawn(move || pipe.write_all(stdin));
+                let output = process.wait_with_output();
+                match writer.join().unwrap() {
+                    // The process didn't want all its input, that's for its exit status to tell.
+                    Err(error) if error.kind() == ErrorKind::BrokenPipe => output,
+                    Err(error) => Err(error),
+                    Ok(()) => output,
+                }
+            })
         }
     }?;
     let stdout = String::from_utf8(output.stdout)?;
-- 
2.43.0


From c50492083443f1ab14e2123a4e96a838c6bf641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 09/83] fix: xtask: rm_rf removes links whose target does not
 exist

---
 xtask/src/glue.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xtask/src/glue.rs b/xtask/src/glue.rs
index abee2b1..2b11ad7 100644
--- a/xtask/src/glue.rs
+++ b/xtask/src/glue.rs
@@ -100,13 +100,14 @@ impl Drop for Pushenv {
 
 pub fn rm_rf(path: impl AsRef<Path>) -> Result<()> {
     let path = path.as_ref();
-    if !path.exists() {
+    // Don't follow links: a link is removed even if its target doesn't exist.
+    let Ok(metadata) = path.symlink_metadata() else {
         return Ok(());
-    }
-    if path.is_file() {
-        fs2::remove_file(path)
-    } else {
+    };
+    if metadata.is_dir() {
         fs2::remove_dir_all(path)
+    } else {
+        fs2::remove_file(path)
     }
 }
 
-- 
2.43.0


From b2ff00057a6c225694648adc2669214067c32c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 10/83] fix: lines of diagnostics in the comments at the end of
 a file

---
 crates/jarl-core/src/check.rs |  4 ++--
 crates/jarl-core/src/utils.rs | 20 +++-----------------
 2 files changed, 5 insertions(+), 19 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index 4f49344..ff7535b 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -211,7 +211,7 @@ pub fn get_checks(
         })
         .collect();
 
-    let loc_new_lines = find_new_lines(syntax)?;
+    let loc_new_lines = find_new_lines_from_content(contents);
     let diagnostics = compute_lints_location(diagnostics, &loc_new_lines);
 
     Ok(diagnostics)
@@ -350,6 +350,6 @@ fn get_checks_rmd(contents: &str, file: &Path, config: &Config) -> Result<Vec<Di
             .unwrap_or(true)
     });
 
-    let loc_new_lines = crate::utils::find_new_lines_from_content(contents);
+    let loc_new_lines = find_new_lines_from_content(contents);
     Ok(compute_lints_location(all_diagnostics, &loc_new_lines))
 }
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 9f074b3..61d61b5 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -4,7 +4,7 @@ use air_r_syntax::{
     AnyRExpression, RArgument, RArgumentList, RBinaryExpression, RBinaryExpressionFields, RCall,
     RCallFields, RExtractExpressionFields, RSyntaxKind, RSyntaxNode,
 };
-use anyhow::{Result, anyhow};
+use anyhow::Result;
 use biome_rowan::AstNode;
 use biome_rowan::AstSeparatedList;
 
@@ -29,26 +29,12 @@ macro_rules! unwrap_or_return_none {
 
 /// Find byte positions of newline characters in a string.
 ///
-/// Used by Rmd/Qmd linting to compute line/column locations in the original
-/// file after position remapping from chunk space to file space.
+/// This uses the content of the file and not its AST because the comments at
+/// the end of the file are not part of any expression.
 pub fn find_new_lines_from_content(content: &str) -> Vec<usize> {
     content.match_indices('\n').map(|(i, _)| i).collect()
 }
 
-/// Find the positions of the new line characters in the given AST.
-pub fn find_new_lines(ast: &RSyntaxNode) -> Result<Vec<usize>> {
-    match ast.first_child() {
-        Some(rootnode) => Ok(rootnode
-            .to_string()
-            .match_indices("\n")
-            .map(|x| x.0)
-            .collect::<Vec<usize>>()),
-        None => Err(anyhow!(
-            "Couldn't find root node. Maybe the document contains a parsing error?"
-        )),
-    }
-}
-
 /// Takes the start of the range of a Diagnostic and the indices for the new
 /// lines. Returns the (row, col) position of the Diagnostic in the file.
 ///
-- 
2.43.0


From 76795f91f24a90f332b7ccc88e1ad929bf568b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 11/83] fix: columns of diagnostics count characters

---
 crates/jarl-core/src/check.rs | 8 ++++++--
 crates/jarl-core/src/utils.rs | 9 ++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index ff7535b..f4b0166 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -212,7 +212,7 @@ pub fn get_checks(
         .collect();
 
     let loc_new_lines = find_new_lines_from_content(contents);
-    let diagnostics = compute_lints_location(diagnostics, &loc_new_lines);
+    let diagnostics = compute_lints_location(diagnostics, &loc_new_lines, contents);
 
     Ok(diagnostics)
 }
@@ -351,5 +351,9 @@ fn get_checks_rmd(contents: &str, file: &Path, config: &Config) -> Result<Vec<Di
     });
 
     let loc_new_lines = find_new_lines_from_content(contents);
-    Ok(compute_lints_location(all_diagnostics, &loc_new_lines))
+    Ok(compute_lints_location(
+        all_diagnostics,
+        &loc_new_lines,
+        contents,
+    ))
 }
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 61d61b5..b171a80 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -43,7 +43,7 @@ pub fn find_new_lines_from_content(content: &str) -> Vec<usize> {
 /// "1 + 1\nany(is.na(x))"
 /// -> there is one \n so this diagnostic appears on line 2.
 ///
-/// The col position is the number of characters between the start of the range
+/// The col position is the number of bytes between the start of the range
 /// and the last new line character before the start of the range.
 /// "1 + 1\nany(is.na(x))"
 /// -> the range of the diagnostic starts immediately following \n so it's in
@@ -72,16 +72,19 @@ pub fn find_row_col(start: usize, loc_new_lines: &[usize]) -> (usize, usize) {
 
 /// Takes a vector of `Diagnostic`s, all of which come with a range, and convert
 /// this range into actual (row, col) location using the position of new lines.
+/// Ranges are in bytes but columns are in characters.
 pub fn compute_lints_location(
     diagnostics: Vec<Diagnostic>,
     loc_new_lines: &[usize],
+    contents: &str,
 ) -> Vec<Diagnostic> {
     diagnostics
         .into_iter()
         .map(|mut diagnostic| {
             let start: usize = diagnostic.range.start().into();
-            let loc = find_row_col(start, loc_new_lines);
-            diagnostic.location = Some(Location::new(loc.0, loc.1));
+            let (row, col) = find_row_col(start, loc_new_lines);
+            let col = contents[start - col..start].chars().count();
+            diagnostic.location = Some(Location::new(row, col));
             diagnostic
         })
         .collect()
-- 
2.43.0


From ce56c06a16c9c726be2bc3b67dc950aa05619eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 12/83] fix: conditions on hexadecimal and integer-like numbers
 do not fail the file

---
 .../src/lints/base/if_always_true/if_always_true.rs  | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs b/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs
index 8c9ab0b..a818ef9 100644
--- a/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs
+++ b/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs
@@ -84,16 +84,18 @@ fn evaluate_constant_condition(expr: &AnyRExpression) -> anyhow::Result<Option<b
                 let token = int.value_token()?;
                 let text = token.text_trimmed();
                 let normalized = text.strip_suffix('L').unwrap_or(text);
-                let value: i64 = normalized.parse()?;
+                // This fails for e.g. `0x1L` or `1e3L`.
+                let Ok(value) = normalized.parse::<i64>() else {
+                    return Ok(None);
+                };
                 return Ok(Some(value != 0));
             }
             if let Some(double) = value.as_r_double_value() {
                 let token = double.value_token()?;
                 let text = token.text_trimmed();
-                let value: f64 = if text.starts_with('.') {
-                    format!("0{text}").parse()?
-                } else {
-                    text.parse()?
+                // This fails for e.g. `0x1`.
+                let Ok(value) = text.parse::<f64>() else {
+                    return Ok(None);
                 };
                 if value.is_nan() {
                     return Ok(None);
-- 
2.43.0


From 88fb9006448bf5dae02624c6020728c9d4d6d4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 13/83] fix: a call of ..., NULL or another constant is no
 internal error

---
 .../base/duplicated_arguments/duplicated_arguments.rs     | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
index 15aeb6d..7a6248a 100644
--- a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
+++ b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
@@ -3,7 +3,6 @@ use std::collections::{HashMap, HashSet};
 use crate::checker::Checker;
 use crate::diagnostic::*;
 use air_r_syntax::*;
-use anyhow::anyhow;
 use biome_rowan::AstNode;
 
 /// ## What it does
@@ -50,11 +49,8 @@ pub fn duplicated_arguments(ast: &RCall, checker: &Checker) -> anyhow::Result<Op
             x.body()?.into_syntax().text_trimmed().to_string()
         }
         AnyRExpression::RReturnExpression(x) => x.into_syntax().text_trimmed().to_string(),
-        _ => {
-            return Err(anyhow!(
-                "couldn't find function name for duplicated_arguments linter.",
-            ));
-        }
+        // E.g. `...(x)` or `NULL(x)`.
+        x => x.into_syntax().text_trimmed().to_string(),
     };
 
     // https://github.com/etiennebacher/jarl/issues/172
-- 
2.43.0


From df274c8d79b18d48492e3ca83f3dae7f54b9601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 14/83] fix: an end comment followed by a start comment at the
 end of the file does not panic

---
 crates/jarl-core/src/suppression.rs | 35 +++++++++++++++--------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 3dcf92c..1334c51 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -347,23 +347,6 @@ impl SuppressionManager {
             }
         }
 
-        // Process trailing comments (end-of-line comments)
-        // Note: biome classifies comments at EOF as "trailing" even if they're on their own line.
-        // We need to check if the comment is actually on the same line as code (true end-of-line).
-        for comment in comments.trailing_comments(node) {
-            let range = comment.piece().text_range();
-            let is_true_end_of_line = Self::is_same_line_as_code(range, source);
-            Self::process_comment(
-                comment.piece().text(),
-                range,
-                node_range,
-                collector,
-                false,
-                is_true_end_of_line,
-                nesting_level,
-            );
-        }
-
         // Process dangling comments
         for comment in comments.dangling_comments(node) {
             Self::process_comment(
@@ -396,6 +379,24 @@ impl SuppressionManager {
             );
             is_first = false; // Only the first child can have file-level suppressions
         }
+
+        // Process trailing comments (end-of-line comments). They come after the
+        // children because they are after them in the file.
+        // Note: biome classifies comments at EOF as "trailing" even if they're on their own line.
+        // We need to check if the comment is actually on the same line as code (true end-of-line).
+        for comment in comments.trailing_comments(node) {
+            let range = comment.piece().text_range();
+            let is_true_end_of_line = Self::is_same_line_as_code(range, source);
+            Self::process_comment(
+                comment.piece().text(),
+                range,
+                node_range,
+                collector,
+                false,
+                is_true_end_of_line,
+                nesting_level,
+            );
+        }
     }
 
     /// Check if a comment is on the same line as code (true end-of-line comment)
-- 
2.43.0


From f8827e44abb7c486ac18946063b7500770697f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 15/83] fix: calls with an empty or missing first argument do
 not fail the file (lengths, length_test)

---
 .../src/lints/base/length_test/length_test.rs      |  4 +---
 crates/jarl-core/src/lints/base/lengths/lengths.rs | 14 +++++---------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/length_test/length_test.rs b/crates/jarl-core/src/lints/base/length_test/length_test.rs
index dbb34e6..c3cb334 100644
--- a/crates/jarl-core/src/lints/base/length_test/length_test.rs
+++ b/crates/jarl-core/src/lints/base/length_test/length_test.rs
@@ -2,7 +2,6 @@ use crate::diagnostic::*;
 use crate::utils::{get_function_name, node_contains_comments};
 use air_r_syntax::RSyntaxKind::*;
 use air_r_syntax::*;
-use anyhow::Context;
 use biome_rowan::AstNode;
 
 pub struct LengthTest;
@@ -58,8 +57,7 @@ pub fn length_test(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         Some(first_arg) => {
             if let Ok(x) = first_arg {
                 let RArgumentFields { name_clause: _, value } = x.as_fields();
-                let value = value.context("Found named argument without any value")?;
-                if let AnyRExpression::RBinaryExpression(y) = value {
+                if let Some(AnyRExpression::RBinaryExpression(y)) = value {
                     let RBinaryExpressionFields { left, operator, right } = y.as_fields();
 
                     let operator = operator?;
diff --git a/crates/jarl-core/src/lints/base/lengths/lengths.rs b/crates/jarl-core/src/lints/base/lengths/lengths.rs
index 90d2702..05ab5ee 100644
--- a/crates/jarl-core/src/lints/base/lengths/lengths.rs
+++ b/crates/jarl-core/src/lints/base/lengths/lengths.rs
@@ -1,7 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
 use air_r_syntax::*;
-use anyhow::Context;
 use biome_rowan::AstNode;
 
 pub struct Lengths;
@@ -59,20 +58,17 @@ pub fn lengths(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     let arg_x = get_arg_by_name_then_position(&arguments, "x", 1);
     let arg_fun = get_arg_by_name_then_position(&arguments, "FUN", 2);
 
-    if let Some(arg_fun) = arg_fun
-        && arg_fun
-            .value()
-            .context("Found named argument without any value")?
-            .into_syntax()
-            .text_trimmed()
-            == "length"
+    if let Some(arg_x) = arg_x
+        && let Some(arg_fun) = arg_fun
+        && let Some(fun) = arg_fun.value()
+        && fun.into_syntax().text_trimmed() == "length"
     {
         let range = ast.syntax().text_trimmed_range();
         let diagnostic = Diagnostic::new(
             Lengths,
             range,
             Fix {
-                content: format!("lengths({})", arg_x.unwrap().into_syntax().text_trimmed()),
+                content: format!("lengths({})", arg_x.into_syntax().text_trimmed()),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(ast.syntax()),
-- 
2.43.0


From ac2964d0caf53f3b61b592fcbf7dd5308ad221d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 16/83] fix: sample() with an empty first argument does not
 panic

---
 crates/jarl-core/src/lints/base/sample_int/sample_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
index a58ac74..38a23df 100644
--- a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
+++ b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
@@ -62,7 +62,7 @@ pub fn sample_int(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     // Is the `n` argument of the form `1:x`? If so, keep the `x` part so it
     // can be reused in the fix.
     let right_value = if let Some(n) = n {
-        let n_value = n.value().unwrap();
+        let n_value = unwrap_or_return_none!(n.value());
         if let Some(n_value) = n_value.as_r_binary_expression() {
             let RBinaryExpressionFields { left, operator, right } = n_value.as_fields();
             let left = left?;
-- 
2.43.0


From a27cc3498eb0dfd8eed1ce2b67d15d7b11c89506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:17 +0000
Subject: [PATCH 17/83] fix: apply fixes at their byte ranges, also after
 non-ASCII text and fixes that change the length

---
 crates/jarl-core/src/fix.rs | 45 +++++++++++++------------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/crates/jarl-core/src/fix.rs b/crates/jarl-core/src/fix.rs
index a2051bc..c2399fd 100644
--- a/crates/jarl-core/src/fix.rs
+++ b/crates/jarl-core/src/fix.rs
@@ -22,43 +22,30 @@ use crate::diagnostic::*;
 /// then re-runs the diagnostic detection to get the new ranges. This loop
 /// continues until there are no more skipped fixes.
 pub fn apply_fixes(fixes: &[Diagnostic], contents: &str) -> (bool, String) {
-    let fixes = fixes
-        .iter()
-        .map(|diagnostic| &diagnostic.fix)
-        .collect::<Vec<_>>();
-
-    let old_content = contents;
-    let mut new_content = old_content.to_string();
-    let mut last_modified_pos = 0;
+    let mut new_content = contents.to_string();
+    // End of the last applied fix, in the original contents.
+    let mut last_fixed_pos = 0;
     let mut has_skipped_fixes = false;
 
-    let old_length = old_content.chars().count() as i32;
-    let mut new_length = old_length;
-
-    for fix in fixes {
-        let mut start: i32 = fix.start.try_into().unwrap();
-        let mut end: i32 = fix.end.try_into().unwrap();
-
-        // Adjust the range of the fix based on the changes in the contents due
-        // to previous fixes.
-        let diff_length = new_length - old_length;
-        start += diff_length;
-        end += diff_length;
+    for fix in fixes.iter().map(|diagnostic| &diagnostic.fix) {
+        if fix.to_skip {
+            continue;
+        }
 
         // We don't know how to handle these cases in a single pass yet.
-        if start < last_modified_pos {
-            if !has_skipped_fixes {
-                has_skipped_fixes = true;
-            }
+        if fix.start < last_fixed_pos {
+            has_skipped_fixes = true;
             continue;
         }
 
-        let start_usize = start as usize;
-        let end_usize = end as usize;
+        // Adjust the range of the fix based on the changes in the contents due
+        // to previous fixes. Those all are before this one, so the distance to
+        // the end hasn't changed. Ranges are in bytes.
+        let start = new_content.len() - (contents.len() - fix.start);
+        let end = new_content.len() - (contents.len() - fix.end);
 
-        new_content.replace_range(start_usize..end_usize, &fix.content);
-        new_length = new_content.chars().count() as i32;
-        last_modified_pos = end + diff_length;
+        new_content.replace_range(start..end, &fix.content);
+        last_fixed_pos = fix.end;
     }
 
     (has_skipped_fixes, new_content)
-- 
2.43.0


From 91903fc1b438419a372e77ba0526a48007d8c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:12 +0000
Subject: [PATCH 18/83] fix: fixing continues until no fix is left

---
 crates/jarl-core/src/check.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index f4b0166..55ec31d 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -89,27 +89,22 @@ pub fn lint_fix(
 
     let path = relativize_path(path);
 
-    let mut has_skipped_fixes = true;
-    let mut checks: Vec<Diagnostic>;
-
+    // Fixes that overlap are left for the next pass, and the code written by a
+    // fix may itself need fixing, so this continues until nothing changes.
     loop {
         let contents = fs::read_to_string(Path::new(&path))
             .with_context(|| format!("Failed to read file: {path}",))?;
 
-        checks = get_checks(&contents, &PathBuf::from(&path), &config, &pkg)
+        let checks = get_checks(&contents, &PathBuf::from(&path), &config, &pkg)
             .with_context(|| format!("Failed to get checks for file: {path}",))?;
 
-        if !has_skipped_fixes {
-            break;
+        let (_, fixed_text) = apply_fixes(&checks, &contents);
+        if fixed_text == contents {
+            return Ok(checks);
         }
 
-        let (new_has_skipped_fixes, fixed_text) = apply_fixes(&checks, &contents);
-        has_skipped_fixes = new_has_skipped_fixes;
-
         fs::write(&path, fixed_text).with_context(|| format!("Failed to write file: {path}",))?;
     }
-
-    Ok(checks)
 }
 
 // Takes the R code as a string, parses it, and obtains a (possibly empty)
-- 
2.43.0


From 087f80b44e4d0d2fd021e925299fe82631144534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:12 +0000
Subject: [PATCH 19/83] fix: a fix of code between comments does not drop the
 comments inside it

---
 crates/jarl-core/src/utils.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index b171a80..8576576 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -7,6 +7,7 @@ use air_r_syntax::{
 use anyhow::Result;
 use biome_rowan::AstNode;
 use biome_rowan::AstSeparatedList;
+use biome_rowan::Direction;
 
 /// Macro to unwrap an Option or return Ok(None) early.
 ///
@@ -391,7 +392,12 @@ pub fn get_nested_functions_content(
 /// any(is.na(x)) # comment 2
 /// ```
 pub fn node_contains_comments(node: &air_r_syntax::RSyntaxNode) -> bool {
-    (node.has_comments_direct() || node.has_comments_descendants())
-        && !node.has_trailing_comments()
-        && !node.has_leading_comments()
+    let range = node.text_trimmed_range();
+    node.descendants_tokens(Direction::Next).any(|token| {
+        token
+            .leading_trivia()
+            .pieces()
+            .chain(token.trailing_trivia().pieces())
+            .any(|piece| piece.is_comments() && range.contains_range(piece.text_range()))
+    })
 }
-- 
2.43.0


From 1e840ff7ae7fdb71333b65d38eb40488eb31fdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:12 +0000
Subject: [PATCH 20/83] fix: the assignment fix does not drop comments around
 the operator

---
 crates/jarl-core/src/lints/base/assignment/assignment.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/assignment/assignment.rs b/crates/jarl-core/src/lints/base/assignment/assignment.rs
index fd7d501..8423725 100644
--- a/crates/jarl-core/src/lints/base/assignment/assignment.rs
+++ b/crates/jarl-core/src/lints/base/assignment/assignment.rs
@@ -100,6 +100,13 @@ pub fn assignment(
         _ => unreachable!(),
     };
 
+    // Comments inside the two sides are kept by the fix, but not those between
+    // one of them and the operator.
+    let drops_comments = lhs.has_trailing_comments()
+        || operator.has_leading_comments()
+        || operator.has_trailing_comments()
+        || rhs.has_leading_comments();
+
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
         ViolationData::new("assignment".to_string(), msg.to_string(), None),
@@ -108,7 +115,7 @@ pub fn assignment(
             content: replacement,
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: false,
+            to_skip: drops_comments,
         },
     );
 
-- 
2.43.0


From b431a24c590bc04a73f0c47511f8e7bcf5baeb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:12 +0000
Subject: [PATCH 21/83] fix: fixed_regex does not add a second fixed argument,
 forever

---
 .../src/lints/base/fixed_regex/fixed_regex.rs  | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs b/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
index a4d0b10..fbbc74c 100644
--- a/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
+++ b/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
@@ -60,12 +60,14 @@ pub fn fixed_regex(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         _ => return Ok(None),
     };
 
-    // Check if fixed is already set to TRUE
-    if let Some(fixed_arg) = get_arg_by_name_then_position(&args, "fixed", fixed_position)
-        && let Some(value) = fixed_arg.value()
-        && value.syntax().text_trimmed() == "TRUE"
+    // Check if fixed is already set to something else than FALSE
+    let fixed_arg = get_arg_by_name_then_position(&args, "fixed", fixed_position);
+    if let Some(fixed_arg) = &fixed_arg
+        && fixed_arg
+            .value()
+            .is_none_or(|value| value.syntax().text_trimmed() != "FALSE")
     {
-        // fixed = TRUE is already set, no need to lint
+        // fixed = TRUE is already set, or we cannot know, no need to lint
         return Ok(None);
     }
 
@@ -104,11 +106,7 @@ pub fn fixed_regex(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     // Pattern is fixed but fixed = TRUE is not set
     // Build the fix by adding fixed = TRUE to the arguments or changing the value
     // of fixed = FALSE.
-    let args_text = if let Some(fixed_arg) =
-        get_arg_by_name_then_position(&args, "fixed", fixed_position)
-        && let Some(value) = fixed_arg.value()
-        && value.syntax().text_trimmed() == "FALSE"
-    {
+    let args_text = if fixed_arg.is_some() {
         unwrap_or_return_none!(drop_arg_by_name_or_position(&args, "fixed", fixed_position))
             .into_iter()
             .map(|arg| arg.syntax().text_trimmed().to_string())
-- 
2.43.0


From 56ba976c396460e445a4fc09793f4e4b216f220f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:56 +0000
Subject: [PATCH 22/83] fix: check the code that is called, subset or extracted
 from

`which(grepl("a", x))[1]`, `any(is.na(x))$a` or `f(any(is.na(x)))$g()` were
never checked: the traversal only went into the arguments of calls and
subsets and not into extractions.
---
 crates/jarl-core/src/analyze/expression.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/analyze/expression.rs b/crates/jarl-core/src/analyze/expression.rs
index 9a47607..af234fd 100644
--- a/crates/jarl-core/src/analyze/expression.rs
+++ b/crates/jarl-core/src/analyze/expression.rs
@@ -41,9 +41,8 @@ pub(crate) fn check_expression(
         AnyRExpression::RCall(children) => {
             analyze::call::call(children, checker)?;
 
-            if let Some(ns_expr) = children.function()?.as_r_namespace_expression() {
-                analyze::namespace_expression::namespace_expression(ns_expr, checker)?;
-            }
+            // The function can itself be any expression, e.g. `f(x)()` or `f(x)$g()`.
+            check_expression(&children.function()?, checker)?;
 
             for arg in children.arguments()?.items() {
                 if let Some(expr) = arg.unwrap().as_fields().value {
@@ -51,6 +50,9 @@ pub(crate) fn check_expression(
                 }
             }
         }
+        AnyRExpression::RExtractExpression(children) => {
+            check_expression(&children.left()?, checker)?;
+        }
         AnyRExpression::RForStatement(children) => {
             analyze::for_loop::for_loop(children, checker)?;
             let RForStatementFields { variable, sequence, body, .. } = children.as_fields();
@@ -101,6 +103,7 @@ pub(crate) fn check_expression(
         AnyRExpression::RSubset(children) => {
             analyze::subset::subset(children, checker)?;
 
+            check_expression(&children.function()?, checker)?;
             for arg in children.arguments()?.items() {
                 if let Some(expr) = arg?.value() {
                     check_expression(&expr, checker)?;
@@ -108,6 +111,7 @@ pub(crate) fn check_expression(
             }
         }
         AnyRExpression::RSubset2(children) => {
+            check_expression(&children.function()?, checker)?;
             for arg in children.arguments()?.items() {
                 if let Some(expr) = arg?.value() {
                     check_expression(&expr, checker)?;
-- 
2.43.0


From eed31d1daad85257a0a66c1599c1aa019aa497c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 23/83] fix: no empty argument left in the fix of `sample(1:n)`

It was `sample.int(n, )`.
---
 crates/jarl-core/src/lints/base/sample_int/sample_int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
index 38a23df..b82ddbf 100644
--- a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
+++ b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
@@ -82,7 +82,7 @@ pub fn sample_int(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     let other_args = drop_arg_by_name_or_position(&args, "n", 1);
     let inner_content = match other_args {
-        Some(x) => {
+        Some(x) if !x.is_empty() => {
             let out = x
                 .iter()
                 .map(|x| x.syntax().text_trimmed().to_string())
@@ -91,7 +91,7 @@ pub fn sample_int(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
             [right_value, out].join(", ")
         }
-        None => right_value,
+        _ => right_value,
     };
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
-- 
2.43.0


From 24316d18eaa95e900d8c5055383493fe4f54bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 24/83] fix: `-!all.equal(x, y)` is not a double negation

Only a `!` before the `!` makes it one.
---
 crates/jarl-core/src/utils_ast.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/jarl-core/src/utils_ast.rs b/crates/jarl-core/src/utils_ast.rs
index b505809..fe21b83 100644
--- a/crates/jarl-core/src/utils_ast.rs
+++ b/crates/jarl-core/src/utils_ast.rs
@@ -78,6 +78,8 @@ pub trait AstNodeExt: AstNode<Language = RLanguage> {
             // Check if parent's parent is also a unary bang (double negation)
             if let Some(grandparent) = parent.parent()
                 && grandparent.kind() == RSyntaxKind::R_UNARY_EXPRESSION
+                && let Some(operator) = grandparent.first_token()
+                && operator.kind() == RSyntaxKind::BANG
             {
                 return false;
             }
-- 
2.43.0


From af92b8a2aac0ff7b9c2f88b5884e58c452f08284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 25/83] fix: keep the grouping of code around and inside of a
 fix

---
 .../src/lints/base/all_equal/all_equal.rs     |  10 +-
 .../base/any_duplicated/any_duplicated.rs     |   9 +-
 .../src/lints/base/coalesce/coalesce.rs       |  32 +++--
 .../comparison_negation.rs                    |  15 +-
 .../src/lints/base/equals_na/equals_na.rs     |   4 +-
 .../src/lints/base/equals_nan/equals_nan.rs   |   4 +-
 .../src/lints/base/equals_null/equals_null.rs |   4 +-
 .../src/lints/base/length_test/length_test.rs |   4 +-
 .../base/outer_negation/outer_negation.rs     |   4 +-
 .../base/redundant_equals/redundant_equals.rs |   6 +-
 .../base/redundant_ifelse/redundant_ifelse.rs |   9 +-
 .../base/string_boundary/string_boundary.rs   |   6 +-
 crates/jarl-core/src/utils.rs                 | 136 +++++++++++++++++-
 13 files changed, 203 insertions(+), 40 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/all_equal/all_equal.rs b/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
index 3da9ae1..4d64d86 100644
--- a/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
+++ b/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
@@ -1,5 +1,8 @@
 use crate::diagnostic::*;
-use crate::utils::{get_function_name, get_nested_functions_content, node_contains_comments};
+use crate::utils::{
+    get_function_name, get_nested_functions_content, node_contains_comments,
+    parenthesize_replacement,
+};
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
@@ -64,7 +67,10 @@ pub fn all_equal(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             ),
             range,
             Fix {
-                content: format!("!isTRUE(all.equal({inner_content}))"),
+                content: parenthesize_replacement(
+                    &outer_syntax,
+                    format!("!isTRUE(all.equal({inner_content}))"),
+                ),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(&outer_syntax),
diff --git a/crates/jarl-core/src/lints/base/any_duplicated/any_duplicated.rs b/crates/jarl-core/src/lints/base/any_duplicated/any_duplicated.rs
index 808aa08..d6d3acb 100644
--- a/crates/jarl-core/src/lints/base/any_duplicated/any_duplicated.rs
+++ b/crates/jarl-core/src/lints/base/any_duplicated/any_duplicated.rs
@@ -1,5 +1,7 @@
 use crate::diagnostic::*;
-use crate::utils::{get_nested_functions_content, node_contains_comments};
+use crate::utils::{
+    get_nested_functions_content, node_contains_comments, parenthesize_replacement,
+};
 use air_r_syntax::*;
 
 pub struct AnyDuplicated;
@@ -56,7 +58,10 @@ pub fn any_duplicated(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         AnyDuplicated,
         range,
         Fix {
-            content: format!("anyDuplicated({inner_content}) > 0"),
+            content: parenthesize_replacement(
+                &outer_syntax,
+                format!("anyDuplicated({inner_content}) > 0"),
+            ),
             start: range.start().into(),
             end: range.end().into(),
             to_skip: node_contains_comments(&outer_syntax),
diff --git a/crates/jarl-core/src/lints/base/coalesce/coalesce.rs b/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
index 5a4a160..452e731 100644
--- a/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
+++ b/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
@@ -1,5 +1,7 @@
 use crate::diagnostic::*;
-use crate::utils::{get_function_name, node_contains_comments};
+use crate::utils::{
+    get_function_name, get_operand_text, node_contains_comments, parenthesize_replacement,
+};
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstNodeList};
 
@@ -106,8 +108,7 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         }
 
         let fn_body = fn_body.first().unwrap();
-        let alternative_str = extract_single_expression(&alternative);
-        let consequence_str = extract_single_expression(&consequence);
+        let alternative_str = extract_single_expression(&alternative).to_trimmed_string();
 
         let inside_null_same_as_alternative = fn_body.to_trimmed_string() == alternative_str;
 
@@ -118,7 +119,7 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         msg = "`if (is.null(x)) y else x` can be simplified.".to_string();
 
         if !skip_fix {
-            fix_content = format!("{} %||% {}", fn_body.to_trimmed_string(), consequence_str);
+            fix_content = coalesced(fn_body, &consequence);
         }
     }
 
@@ -152,8 +153,7 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         }
 
         let fn_body = fn_body.first().unwrap();
-        let consequence_str = extract_single_expression(&consequence);
-        let alternative_str = extract_single_expression(&alternative);
+        let consequence_str = extract_single_expression(&consequence).to_trimmed_string();
 
         let inside_null_same_as_consequence = fn_body.to_trimmed_string() == consequence_str;
 
@@ -164,7 +164,7 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         msg = "`if (!is.null(x)) x else y` can be simplified.".to_string();
 
         if !skip_fix {
-            fix_content = format!("{} %||% {}", fn_body.to_trimmed_string(), alternative_str);
+            fix_content = coalesced(fn_body, &alternative);
         }
     }
 
@@ -181,7 +181,7 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         ),
         range,
         Fix {
-            content: fix_content.clone(),
+            content: parenthesize_replacement(ast.syntax(), fix_content),
             start: range.start().into(),
             end: range.end().into(),
             to_skip: node_contains_comments(ast.syntax()) || skip_fix,
@@ -202,16 +202,26 @@ fn has_multiple_expressions(input: &AnyRExpression) -> bool {
 }
 
 // Extract single expression from braced expressions, or return the expression as-is
-fn extract_single_expression(input: &AnyRExpression) -> String {
+fn extract_single_expression(input: &AnyRExpression) -> AnyRExpression {
     if let Some(braced) = input.as_r_braced_expressions() {
         let expressions: Vec<_> = braced.expressions().into_iter().collect();
         if expressions.len() == 1 {
             // Single expression in braces, extract it
             if let Some(expr) = expressions.first() {
-                return expr.to_trimmed_string();
+                return expr.clone();
             }
         }
     }
 
-    input.to_trimmed_string()
+    input.clone()
+}
+
+// The replacement, `x %||% default`
+fn coalesced(x: &AnyRExpression, default: &AnyRExpression) -> String {
+    let default = extract_single_expression(default);
+    format!(
+        "{} %||% {}",
+        get_operand_text(x, RSyntaxKind::SPECIAL, false),
+        get_operand_text(&default, RSyntaxKind::SPECIAL, true)
+    )
 }
diff --git a/crates/jarl-core/src/lints/base/comparison_negation/comparison_negation.rs b/crates/jarl-core/src/lints/base/comparison_negation/comparison_negation.rs
index b204ed6..5663327 100644
--- a/crates/jarl-core/src/lints/base/comparison_negation/comparison_negation.rs
+++ b/crates/jarl-core/src/lints/base/comparison_negation/comparison_negation.rs
@@ -1,5 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::node_contains_comments;
+use crate::utils::{get_operand_text, node_contains_comments, parenthesize_replacement};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -74,11 +74,14 @@ pub fn comparison_negation(ast: &RUnaryExpression) -> anyhow::Result<Option<Diag
         ),
         range,
         Fix {
-            content: format!(
-                "{} {} {}",
-                left.to_trimmed_text(),
-                replacement_operator,
-                right.to_trimmed_text()
+            content: parenthesize_replacement(
+                ast.syntax(),
+                format!(
+                    "{} {} {}",
+                    left.to_trimmed_text(),
+                    replacement_operator,
+                    get_operand_text(&right, operator_kind, true)
+                ),
             ),
             start: range.start().into(),
             end: range.end().into(),
diff --git a/crates/jarl-core/src/lints/base/equals_na/equals_na.rs b/crates/jarl-core/src/lints/base/equals_na/equals_na.rs
index 1ca7b4c..7a45062 100644
--- a/crates/jarl-core/src/lints/base/equals_na/equals_na.rs
+++ b/crates/jarl-core/src/lints/base/equals_na/equals_na.rs
@@ -1,5 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::node_contains_comments;
+use crate::utils::{node_contains_comments, parenthesize_replacement};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -106,7 +106,7 @@ pub fn equals_na(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnostic>>
             EqualsNa,
             range,
             Fix {
-                content: format!("!is.na({replacement})"),
+                content: parenthesize_replacement(ast.syntax(), format!("!is.na({replacement})")),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(ast.syntax()),
diff --git a/crates/jarl-core/src/lints/base/equals_nan/equals_nan.rs b/crates/jarl-core/src/lints/base/equals_nan/equals_nan.rs
index e52c084..c457ce5 100644
--- a/crates/jarl-core/src/lints/base/equals_nan/equals_nan.rs
+++ b/crates/jarl-core/src/lints/base/equals_nan/equals_nan.rs
@@ -1,5 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::node_contains_comments;
+use crate::utils::{node_contains_comments, parenthesize_replacement};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -97,7 +97,7 @@ pub fn equals_nan(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnostic>>
             EqualsNaN,
             range,
             Fix {
-                content: format!("!is.nan({replacement})"),
+                content: parenthesize_replacement(ast.syntax(), format!("!is.nan({replacement})")),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(ast.syntax()),
diff --git a/crates/jarl-core/src/lints/base/equals_null/equals_null.rs b/crates/jarl-core/src/lints/base/equals_null/equals_null.rs
index 7b0860c..b7b6257 100644
--- a/crates/jarl-core/src/lints/base/equals_null/equals_null.rs
+++ b/crates/jarl-core/src/lints/base/equals_null/equals_null.rs
@@ -1,5 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::node_contains_comments;
+use crate::utils::{node_contains_comments, parenthesize_replacement};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -93,7 +93,7 @@ pub fn equals_null(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnostic>
             EqualsNull,
             range,
             Fix {
-                content: format!("!is.null({replacement})"),
+                content: parenthesize_replacement(ast.syntax(), format!("!is.null({replacement})")),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(ast.syntax()),
diff --git a/crates/jarl-core/src/lints/base/length_test/length_test.rs b/crates/jarl-core/src/lints/base/length_test/length_test.rs
index c3cb334..dbb34e6 100644
--- a/crates/jarl-core/src/lints/base/length_test/length_test.rs
+++ b/crates/jarl-core/src/lints/base/length_test/length_test.rs
@@ -2,6 +2,7 @@ use crate::diagnostic::*;
 use crate::utils::{get_function_name, node_contains_comments};
 use air_r_syntax::RSyntaxKind::*;
 use air_r_syntax::*;
+use anyhow::Context;
 use biome_rowan::AstNode;
 
 pub struct LengthTest;
@@ -57,7 +58,8 @@ pub fn length_test(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         Some(first_arg) => {
             if let Ok(x) = first_arg {
                 let RArgumentFields { name_clause: _, value } = x.as_fields();
-                if let Some(AnyRExpression::RBinaryExpression(y)) = value {
+                let value = value.context("Found named argument without any value")?;
+                if let AnyRExpression::RBinaryExpression(y) = value {
                     let RBinaryExpressionFields { left, operator, right } = y.as_fields();
 
                     let operator = operator?;
diff --git a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
index c10a874..3af5194 100644
--- a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
+++ b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
@@ -1,5 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::{get_arg_by_position, node_contains_comments};
+use crate::utils::{get_arg_by_position, node_contains_comments, parenthesize_replacement};
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
@@ -103,7 +103,7 @@ pub fn outer_negation(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         ),
         range,
         Fix {
-            content: fix,
+            content: parenthesize_replacement(ast.syntax(), fix),
             start: range.start().into(),
             end: range.end().into(),
             to_skip: node_contains_comments(ast.syntax()),
diff --git a/crates/jarl-core/src/lints/base/redundant_equals/redundant_equals.rs b/crates/jarl-core/src/lints/base/redundant_equals/redundant_equals.rs
index 8571cfe..9bf8e9a 100644
--- a/crates/jarl-core/src/lints/base/redundant_equals/redundant_equals.rs
+++ b/crates/jarl-core/src/lints/base/redundant_equals/redundant_equals.rs
@@ -1,5 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::node_contains_comments;
+use crate::utils::{node_contains_comments, parenthesize_replacement};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -76,7 +76,7 @@ pub fn redundant_equals(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagno
                 RedundantEquals,
                 range,
                 Fix {
-                    content: fix,
+                    content: parenthesize_replacement(ast.syntax(), fix),
                     start: range.start().into(),
                     end: range.end().into(),
                     to_skip: node_contains_comments(ast.syntax()),
@@ -100,7 +100,7 @@ pub fn redundant_equals(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagno
                 RedundantEquals,
                 range,
                 Fix {
-                    content: fix,
+                    content: parenthesize_replacement(ast.syntax(), fix),
                     start: range.start().into(),
                     end: range.end().into(),
                     to_skip: node_contains_comments(ast.syntax()),
diff --git a/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs b/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs
index 9d1077d..02cf121 100644
--- a/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs
+++ b/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs
@@ -1,5 +1,8 @@
 use crate::diagnostic::*;
-use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
+use crate::utils::{
+    get_arg_by_name_then_position, get_function_name, node_contains_comments,
+    parenthesize_replacement,
+};
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
 
@@ -92,7 +95,7 @@ pub fn redundant_ifelse(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             format!("This `{}()` is redundant.", fn_name),
             "Use `condition` directly.".to_string(),
             Fix {
-                content: arg_cond.to_string(),
+                content: parenthesize_replacement(ast.syntax(), arg_cond.to_trimmed_string()),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(ast.syntax()),
@@ -103,7 +106,7 @@ pub fn redundant_ifelse(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             format!("This `{}()` is redundant.", fn_name),
             "Use `!condition` directly.".to_string(),
             Fix {
-                content: format!("!({})", arg_cond),
+                content: parenthesize_replacement(ast.syntax(), format!("!({})", arg_cond)),
 
                 start: range.start().into(),
                 end: range.end().into(),
diff --git a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
index 0652e54..fc7cafd 100644
--- a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
+++ b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
@@ -1,5 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::{get_function_name, node_contains_comments};
+use crate::utils::{get_function_name, node_contains_comments, parenthesize_replacement};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -104,7 +104,7 @@ pub fn string_boundary(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnos
             ),
             range,
             Fix {
-                content: replacement,
+                content: parenthesize_replacement(ast.syntax(), replacement),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(ast.syntax()),
@@ -134,7 +134,7 @@ pub fn string_boundary(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnos
             ),
             range,
             Fix {
-                content: replacement,
+                content: parenthesize_replacement(ast.syntax(), replacement),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(ast.syntax()),
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 8576576..198a0f8 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -2,7 +2,7 @@ use crate::diagnostic::Diagnostic;
 use crate::location::Location;
 use air_r_syntax::{
     AnyRExpression, RArgument, RArgumentList, RBinaryExpression, RBinaryExpressionFields, RCall,
-    RCallFields, RExtractExpressionFields, RSyntaxKind, RSyntaxNode,
+    RCallFields, RExtractExpressionFields, RSyntaxKind, RSyntaxNode, RUnaryExpression,
 };
 use anyhow::Result;
 use biome_rowan::AstNode;
@@ -401,3 +401,137 @@ pub fn node_contains_comments(node: &air_r_syntax::RSyntaxNode) -> bool {
             .any(|piece| piece.is_comments() && range.contains_range(piece.text_range()))
     })
 }
+
+/// How tightly operators bind, see `?Syntax`: the higher, the tighter.
+fn operator_precedence(operator: RSyntaxKind, is_unary: bool) -> u8 {
+    match operator {
+        RSyntaxKind::WAT => 1,
+        RSyntaxKind::EQUAL => 2,
+        RSyntaxKind::ASSIGN | RSyntaxKind::SUPER_ASSIGN | RSyntaxKind::WALRUS => 3,
+        RSyntaxKind::ASSIGN_RIGHT | RSyntaxKind::SUPER_ASSIGN_RIGHT => 4,
+        RSyntaxKind::TILDE => 5,
+        RSyntaxKind::OR | RSyntaxKind::OR2 => 6,
+        RSyntaxKind::AND | RSyntaxKind::AND2 => 7,
+        RSyntaxKind::BANG => 8,
+        RSyntaxKind::GREATER_THAN
+        | RSyntaxKind::GREATER_THAN_OR_EQUAL_TO
+        | RSyntaxKind::LESS_THAN
+        | RSyntaxKind::LESS_THAN_OR_EQUAL_TO
+        | RSyntaxKind::EQUAL2
+        | RSyntaxKind::NOT_EQUAL => 9,
+        RSyntaxKind::PLUS | RSyntaxKind::MINUS if is_unary => 14,
+        RSyntaxKind::PLUS | RSyntaxKind::MINUS => 10,
+        RSyntaxKind::MULTIPLY | RSyntaxKind::DIVIDE => 11,
+        RSyntaxKind::SPECIAL | RSyntaxKind::PIPE => 12,
+        RSyntaxKind::COLON => 13,
+        RSyntaxKind::EXPONENTIATE | RSyntaxKind::EXPONENTIATE2 => 15,
+        _ => 0,
+    }
+}
+
+/// How tightly `node` binds to what is next to it.
+fn node_precedence(node: &RSyntaxNode) -> u8 {
+    if let Some(binary) = RBinaryExpression::cast(node.clone())
+        && let Ok(operator) = binary.operator()
+    {
+        return operator_precedence(operator.kind(), false);
+    }
+    if let Some(unary) = RUnaryExpression::cast(node.clone())
+        && let Ok(operator) = unary.operator()
+    {
+        return operator_precedence(operator.kind(), true);
+    }
+    match node.kind() {
+        // Those extend as far as possible to the right.
+        RSyntaxKind::R_FUNCTION_DEFINITION
+        | RSyntaxKind::R_IF_STATEMENT
+        | RSyntaxKind::R_FOR_STATEMENT
+        | RSyntaxKind::R_WHILE_STATEMENT
+        | RSyntaxKind::R_REPEAT_STATEMENT => 0,
+        RSyntaxKind::R_CALL
+        | RSyntaxKind::R_SUBSET
+        | RSyntaxKind::R_SUBSET2
+        | RSyntaxKind::R_EXTRACT_EXPRESSION => 16,
+        _ => u8::MAX,
+    }
+}
+
+/// Same as `node_precedence()`, but the operators, function definitions, etc. at the end of
+/// `node` count as well, because they apply to all that follows (e.g. `x + !y` followed
+/// by `== z`).
+fn loosest_precedence(node: &RSyntaxNode) -> u8 {
+    let mut loosest = node_precedence(node);
+    let mut node = node.clone();
+    while matches!(
+        node.kind(),
+        RSyntaxKind::R_BINARY_EXPRESSION | RSyntaxKind::R_UNARY_EXPRESSION
+    ) && let Some(last) = node.children().last()
+    {
+        if last.kind() != RSyntaxKind::R_BINARY_EXPRESSION {
+            loosest = loosest.min(node_precedence(&last));
+        }
+        node = last;
+    }
+    loosest
+}
+
+/// Text of `operand` if it is to be used next to a (left-associative) binary operator, in
+/// parentheses if it would be split otherwise.
+pub fn get_operand_text(operand: &AnyRExpression, operator: RSyntaxKind, is_right: bool) -> String {
+    let operator = operator_precedence(operator, false);
+    let precedence = loosest_precedence(operand.syntax());
+    let text = operand.to_trimmed_string();
+    if precedence < operator || (is_right && precedence == operator) {
+        format!("({text})")
+    } else {
+        text
+    }
+}
+
+/// Puts `content`, which replaces `node`, in parentheses if the operators around `node` would
+/// otherwise apply to only a part of `content`, e.g. `any(duplicated(x)) + 1` where
+/// `anyDuplicated(x) > 0` replaces `any(duplicated(x))`.
+pub fn parenthesize_replacement(node: &RSyntaxNode, content: String) -> String {
+    let Some(parent) = node.parent() else {
+        return content;
+    };
+    let is_first = parent.children().next().is_some_and(|x| &x == node);
+    let around = match parent.kind() {
+        RSyntaxKind::R_BINARY_EXPRESSION | RSyntaxKind::R_UNARY_EXPRESSION => {
+            node_precedence(&parent)
+        }
+        RSyntaxKind::R_CALL
+        | RSyntaxKind::R_SUBSET
+        | RSyntaxKind::R_SUBSET2
+        | RSyntaxKind::R_EXTRACT_EXPRESSION
+            if is_first =>
+        {
+            node_precedence(&parent)
+        }
+        // A dangling `else`, e.g. `if (x) ifelse(if (y) z, TRUE, FALSE) else w`.
+        RSyntaxKind::R_IF_STATEMENT
+        | RSyntaxKind::R_FUNCTION_DEFINITION
+        | RSyntaxKind::R_FOR_STATEMENT
+        | RSyntaxKind::R_WHILE_STATEMENT
+        | RSyntaxKind::R_REPEAT_STATEMENT
+            if !is_first =>
+        {
+            0
+        }
+        _ => return content,
+    };
+
+    let parsed = air_r_parser::parse(&content, air_r_parser::RParserOptions::default());
+    let Some(replacement) = parsed.tree().expressions().into_iter().next() else {
+        return content;
+    };
+    let precedence = loosest_precedence(replacement.syntax());
+
+    // Calls, extractions, etc. can follow each other.
+    let is_postfix = around == 16 && precedence >= around;
+    let is_unary = parent.kind() == RSyntaxKind::R_UNARY_EXPRESSION && precedence >= around;
+    if precedence > around || is_postfix || is_unary {
+        return content;
+    }
+    format!("({content})")
+}
-- 
2.43.0


From b6bc784e69be30bc07bd3921ae8fbe1de432253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:37 +0000
Subject: [PATCH 26/83] fix: outer_negation does not take `any(-x)` for
 `any(!x)`

---
 .../base/outer_negation/outer_negation.rs     | 22 ++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
index 3af5194..afe0f26 100644
--- a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
+++ b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
@@ -54,23 +54,15 @@ pub fn outer_negation(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     let arg_value = unwrap_or_return_none!(first_arg.value());
-    // Check if the argument is a unary expression (negation)
-    if arg_value.syntax().kind() != RSyntaxKind::R_UNARY_EXPRESSION {
+    // Check if the argument is a negation (and not another unary expression,
+    // such as `-x`)
+    let unary = unwrap_or_return_none!(arg_value.as_r_unary_expression());
+    let RUnaryExpressionFields { operator, argument } = unary.as_fields();
+    if operator?.kind() != RSyntaxKind::BANG {
         return Ok(None);
     }
-
-    // Get the expression after the negation operator
-    // Skip the BANG token to get the actual expression
-    let negated_expr = arg_value
-        .syntax()
-        .children()
-        .find(|child| child.kind() != RSyntaxKind::BANG);
-
-    let expr = unwrap_or_return_none!(negated_expr);
-
-    // It looks like the first (and only) child of R_UNARY_EXPRESSION is what
-    // comes after "!". So we don't need to check that this is indeed using the
-    // BANG operator because it's the only R_UNARY_EXPRESSION available.
+    let negated = argument?;
+    let expr = negated.syntax();
 
     // Don't report consecutive unary expressions (e.g., `any(!!x)`)
     if expr.kind() == RSyntaxKind::R_UNARY_EXPRESSION {
-- 
2.43.0


From ca190837825fab89e54660c051161ce853c2c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:37 +0000
Subject: [PATCH 27/83] fix: grepv does not rewrite grep(value = FALSE)

---
 crates/jarl-core/src/lints/base/grepv/grepv.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/grepv/grepv.rs b/crates/jarl-core/src/lints/base/grepv/grepv.rs
index 2a1e7b8..4e7d675 100644
--- a/crates/jarl-core/src/lints/base/grepv/grepv.rs
+++ b/crates/jarl-core/src/lints/base/grepv/grepv.rs
@@ -1,6 +1,7 @@
 use crate::diagnostic::*;
 use crate::utils::{
-    drop_arg_by_name_or_position, get_function_name, is_argument_present, node_contains_comments,
+    drop_arg_by_name_or_position, get_arg_by_name_then_position, get_function_name,
+    node_contains_comments,
 };
 use air_r_syntax::*;
 use biome_rowan::AstNode;
@@ -58,9 +59,12 @@ pub fn grepv(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     let items = arguments?.items();
 
-    let arg_value_is_present = is_argument_present(&items, "value", 5);
+    let arg_value = unwrap_or_return_none!(get_arg_by_name_then_position(&items, "value", 5));
+    let is_true = arg_value
+        .value()
+        .is_some_and(|value| matches!(value.to_trimmed_text().text(), "TRUE" | "T"));
 
-    if !arg_value_is_present {
+    if !is_true {
         return Ok(None);
     }
 
-- 
2.43.0


From 538bd7f0e8344a480bc45ca767c28c451937fd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:37 +0000
Subject: [PATCH 28/83] fix: fixes do not lose arguments

---
 .../lints/base/class_equals/class_equals.rs   | 12 +++-
 .../src/lints/base/lengths/lengths.rs         | 18 ++++--
 crates/jarl-core/src/lints/base/sort/sort.rs  | 11 +++-
 .../src/lints/base/sprintf/sprintf.rs         |  5 +-
 .../src/lints/base/system_file/system_file.rs | 22 +++++--
 .../testthat/expect_length/expect_length.rs   | 10 ++--
 .../testthat/expect_named/expect_named.rs     | 10 +++-
 .../lints/testthat/expect_null/expect_null.rs | 12 +++-
 .../expect_true_false/expect_true_false.rs    |  7 ++-
 crates/jarl-core/src/utils.rs                 | 57 +++++++++++--------
 10 files changed, 119 insertions(+), 45 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/class_equals/class_equals.rs b/crates/jarl-core/src/lints/base/class_equals/class_equals.rs
index 902c20c..d4a3540 100644
--- a/crates/jarl-core/src/lints/base/class_equals/class_equals.rs
+++ b/crates/jarl-core/src/lints/base/class_equals/class_equals.rs
@@ -1,7 +1,7 @@
 use crate::diagnostic::*;
 use crate::utils::{get_arg_by_position, get_function_name, node_contains_comments};
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -138,6 +138,9 @@ pub fn class_identical(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     // when comparing class() output with a string.
 
     let args = ast.arguments()?.items();
+    if args.iter().count() != 2 {
+        return Ok(None);
+    }
     let first_arg = unwrap_or_return_none!(get_arg_by_position(&args, 1));
     let second_arg = unwrap_or_return_none!(get_arg_by_position(&args, 2));
 
@@ -231,6 +234,13 @@ fn extract_class_and_string(
         return None;
     }
 
+    // `class()` has a single argument.
+    let class_call = if left_is_class { &left } else { &right };
+    let class_args = class_call.as_r_call()?.arguments().ok()?.items();
+    if class_args.iter().count() != 1 {
+        return None;
+    }
+
     // Extract the content
     let (fun_content, class_name) = if left_is_class {
         let args = left.as_r_call()?.arguments().ok()?.items();
diff --git a/crates/jarl-core/src/lints/base/lengths/lengths.rs b/crates/jarl-core/src/lints/base/lengths/lengths.rs
index 05ab5ee..783d1cb 100644
--- a/crates/jarl-core/src/lints/base/lengths/lengths.rs
+++ b/crates/jarl-core/src/lints/base/lengths/lengths.rs
@@ -1,7 +1,7 @@
 use crate::diagnostic::*;
 use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 pub struct Lengths;
 
@@ -55,23 +55,31 @@ pub fn lengths(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     let arguments = arguments?.items();
-    let arg_x = get_arg_by_name_then_position(&arguments, "x", 1);
-    let arg_fun = get_arg_by_name_then_position(&arguments, "FUN", 2);
+    let (name_x, name_fun) = match fn_name.as_str() {
+        "sapply" | "vapply" => ("X", "FUN"),
+        _ => (".x", ".f"),
+    };
+    let arg_x = get_arg_by_name_then_position(&arguments, name_x, 1);
+    let arg_fun = get_arg_by_name_then_position(&arguments, name_fun, 2);
 
     if let Some(arg_x) = arg_x
         && let Some(arg_fun) = arg_fun
+        && let Some(x) = arg_x.value()
         && let Some(fun) = arg_fun.value()
         && fun.into_syntax().text_trimmed() == "length"
     {
+        // `FUN.VALUE` is always "one integer" or "one double".
+        let n_args = if fn_name == "vapply" { 3 } else { 2 };
         let range = ast.syntax().text_trimmed_range();
         let diagnostic = Diagnostic::new(
             Lengths,
             range,
             Fix {
-                content: format!("lengths({})", arg_x.into_syntax().text_trimmed()),
+                content: format!("lengths({})", x.to_trimmed_text()),
                 start: range.start().into(),
                 end: range.end().into(),
-                to_skip: node_contains_comments(ast.syntax()),
+                // The other arguments would be lost.
+                to_skip: node_contains_comments(ast.syntax()) || arguments.iter().count() > n_args,
             },
         );
         return Ok(Some(diagnostic));
diff --git a/crates/jarl-core/src/lints/base/sort/sort.rs b/crates/jarl-core/src/lints/base/sort/sort.rs
index e179b18..c15a856 100644
--- a/crates/jarl-core/src/lints/base/sort/sort.rs
+++ b/crates/jarl-core/src/lints/base/sort/sort.rs
@@ -1,7 +1,7 @@
 use crate::diagnostic::*;
 use crate::utils::{get_arg_by_name, get_function_name, get_unnamed_args, node_contains_comments};
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 pub struct Sort;
 
@@ -94,6 +94,15 @@ pub fn sort(ast: &RSubset) -> anyhow::Result<Option<Diagnostic>> {
     let decreasing = get_arg_by_name(&args, "decreasing");
     let method = get_arg_by_name(&args, "method");
 
+    // We don't know what to do with other named args.
+    let n_known = [&na_last, &decreasing, &method]
+        .iter()
+        .filter(|arg| arg.is_some())
+        .count();
+    if args.iter().count() != 1 + n_known {
+        return Ok(None);
+    }
+
     // Prepare text of other args to include in the fix.
     let mut additional_args = vec![];
     if let Some(na_last) = na_last {
diff --git a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
index 7ba7020..f8b7f12 100644
--- a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
+++ b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
@@ -4,7 +4,7 @@ use crate::utils::{
 };
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -106,7 +106,8 @@ pub fn sprintf(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
                 content: parse_result.output_string,
                 start: range.start().into(),
                 end: range.end().into(),
-                to_skip: node_contains_comments(ast.syntax()),
+                // The other arguments would be lost.
+                to_skip: node_contains_comments(ast.syntax()) || args.iter().count() > 1,
             },
         );
         return Ok(Some(diagnostic));
diff --git a/crates/jarl-core/src/lints/base/system_file/system_file.rs b/crates/jarl-core/src/lints/base/system_file/system_file.rs
index d006a6c..5357bbf 100644
--- a/crates/jarl-core/src/lints/base/system_file/system_file.rs
+++ b/crates/jarl-core/src/lints/base/system_file/system_file.rs
@@ -79,7 +79,13 @@ pub fn system_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     let file_path_value = unwrap_or_return_none!(file_path.first().unwrap().value());
     let file_path_call = unwrap_or_return_none!(file_path_value.as_r_call());
 
-    let file_path_inner_content = file_path_call.arguments()?.items().iter().filter(|x| {
+    // `fsep` isn't an argument of `system.file()`.
+    let file_path_args = file_path_call.arguments()?.items();
+    if !get_named_args(&file_path_args).is_empty() {
+        return Ok(None);
+    }
+
+    let file_path_inner_content = file_path_args.iter().filter(|x| {
         if let Ok(x) = x {
             x.value().is_some()
         } else {
@@ -94,9 +100,17 @@ pub fn system_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         .collect::<Vec<String>>()
         .join(", ");
 
-    let other_args = get_named_args(&args)
+    // All the arguments, with those of `file.path()` in place of it.
+    let new_args = args
         .iter()
-        .map(|x| x.to_trimmed_string())
+        .filter_map(Result::ok)
+        .map(|x| {
+            if x.syntax() == file_path.first().unwrap().syntax() {
+                file_path_inner_content.clone()
+            } else {
+                x.to_trimmed_string()
+            }
+        })
         .collect::<Vec<String>>()
         .join(", ");
 
@@ -105,7 +119,7 @@ pub fn system_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         SystemFile,
         range,
         Fix {
-            content: format!("system.file({}, {})", file_path_inner_content, other_args),
+            content: format!("system.file({})", new_args),
             start: range.start().into(),
             end: range.end().into(),
             to_skip: node_contains_comments(ast.syntax()),
diff --git a/crates/jarl-core/src/lints/testthat/expect_length/expect_length.rs b/crates/jarl-core/src/lints/testthat/expect_length/expect_length.rs
index eecebda..0ff7c2b 100644
--- a/crates/jarl-core/src/lints/testthat/expect_length/expect_length.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_length/expect_length.rs
@@ -109,11 +109,11 @@ pub fn expect_length(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     // Extract the argument to length()
-    let length_x_arg = unwrap_or_return_none!(get_arg_by_name_then_position(
-        &length_arg.arguments()?.items(),
-        "x",
-        1
-    ));
+    let length_args = length_arg.arguments()?.items();
+    if length_args.iter().count() != 1 {
+        return Ok(None);
+    }
+    let length_x_arg = unwrap_or_return_none!(get_arg_by_name_then_position(&length_args, "x", 1));
     let length_x_value = unwrap_or_return_none!(length_x_arg.value());
 
     let x_text = length_x_value.to_trimmed_text();
diff --git a/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs b/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
index 92a421c..1533dc6 100644
--- a/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
@@ -4,7 +4,7 @@ use crate::utils::{
     node_contains_comments,
 };
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -45,6 +45,11 @@ pub fn expect_named(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     let object = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "object", 1));
     let expected = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "expected", 2));
 
+    // Don't know how to handle argument `label` for instance.
+    if args.iter().count() > 2 {
+        return Ok(None);
+    }
+
     let object_value = unwrap_or_return_none!(object.value());
     let expected_value = unwrap_or_return_none!(expected.value());
 
@@ -77,6 +82,9 @@ pub fn expect_named(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     // Extract the argument to names()
     let names_args = names_arg.arguments()?.items();
+    if names_args.iter().count() != 1 {
+        return Ok(None);
+    }
     let names_x_arg = unwrap_or_return_none!(get_arg_by_name_then_position(&names_args, "x", 1));
     let names_x_value = unwrap_or_return_none!(names_x_arg.value());
 
diff --git a/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs b/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
index 981d435..a973966 100644
--- a/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
@@ -4,7 +4,7 @@ use crate::utils::{
     node_contains_comments,
 };
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -57,6 +57,11 @@ fn check_expect_equal_null(ast: &RCall, function_name: &str) -> anyhow::Result<O
     let object = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "object", 1));
     let expected = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "expected", 2));
 
+    // Don't know how to handle argument `label` for instance.
+    if args.iter().count() > 2 {
+        return Ok(None);
+    }
+
     let object_value = unwrap_or_return_none!(object.value());
     let expected_value = unwrap_or_return_none!(expected.value());
 
@@ -103,6 +108,11 @@ fn check_expect_true_is_null(ast: &RCall) -> anyhow::Result<Option<Diagnostic>>
     let object = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "object", 1));
     let object_value = unwrap_or_return_none!(object.value());
 
+    // Don't know how to handle argument `info` for instance.
+    if args.iter().count() > 1 {
+        return Ok(None);
+    }
+
     // Check if it's a call to `is.null()`
     let call = unwrap_or_return_none!(object_value.as_r_call());
     let function = call.function()?;
diff --git a/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs b/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
index ce1207b..758f94b 100644
--- a/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
@@ -4,7 +4,7 @@ use crate::utils::{
     node_contains_comments,
 };
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -47,6 +47,11 @@ pub fn expect_true_false(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     let object = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "object", 1));
     let expected = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "expected", 2));
 
+    // Don't know how to handle argument `label` for instance.
+    if args.iter().count() > 2 {
+        return Ok(None);
+    }
+
     let object_value = unwrap_or_return_none!(object.value());
     let expected_value = unwrap_or_return_none!(expected.value());
 
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 198a0f8..5279091 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -156,14 +156,8 @@ pub fn get_arg_by_name_then_position(
     }
 }
 
-/// Checks whether an argument named `name` or in position `pos` exist in the
-/// argument list passed as input.
-pub fn is_argument_present(args: &RArgumentList, name: &str, position: usize) -> bool {
-    get_arg_by_name_then_position(args, name, position).is_some()
-}
-
 /// Takes a list of arguments and removes the one that is named `name` or the
-/// one in position `pos` if no argument was found in the first step.
+/// unnamed one in position `pos` if no argument was found in the first step.
 pub fn drop_arg_by_name_or_position(
     args: &RArgumentList,
     name: &str,
@@ -190,14 +184,18 @@ pub fn drop_arg_by_name_or_position(
         return Some(by_name);
     }
 
+    let mut n_unnamed = 0;
     let by_pos: Vec<RArgument> = args
         .iter()
-        .enumerate()
-        .filter_map(|(i, arg)| {
-            if i == pos - 1 {
-                return None;
+        .filter_map(|arg| {
+            let arg = arg.clone().unwrap();
+            if arg.name_clause().is_none() {
+                n_unnamed += 1;
+                if n_unnamed == pos {
+                    return None;
+                }
             }
-            Some(arg.clone().unwrap())
+            Some(arg)
         })
         .collect();
 
@@ -295,13 +293,20 @@ pub fn get_nested_functions_content(
         return Ok(None);
     }
 
+    // Other arguments of the outer function would be lost. `na.rm` makes no difference
+    // because the inner functions do not return any `NA`.
+    let outer_args = arguments?.items();
+    let n_args = outer_args.iter().count();
+    let n_na_rm = usize::from(outer_fn == "any" && get_arg_by_name(&outer_args, "na.rm").is_some());
+
     // Try nested case: outer_fn(inner_fn(content))
-    let unnamed_arg = arguments?
-        .items()
+    let unnamed_arg = outer_args
         .into_iter()
         .find(|x| x.clone().unwrap().name_clause().is_none());
 
-    if let Some(arg) = unnamed_arg {
+    if let Some(arg) = unnamed_arg
+        && n_args == 1 + n_na_rm
+    {
         let value = arg?.value();
         if let Some(inner) = value
             && let Some(inner_call) = inner.as_r_call()
@@ -328,6 +333,10 @@ pub fn get_nested_functions_content(
     }
     let left = left?;
 
+    if n_args > n_na_rm {
+        return Ok(None);
+    }
+
     // Case A: `inner_fn(content) |> outer_fn()`
     if let Some(inner_call) = left.as_r_call()
         && get_function_name(inner_call.as_fields().function?) == inner_fn
@@ -353,15 +362,15 @@ pub fn get_nested_functions_content(
             && let Some(inner_call) = inner_right?.as_r_call()
             && get_function_name(inner_call.as_fields().function?) == inner_fn
         {
-            let has_unnamed_args = inner_call
-                .as_fields()
-                .arguments?
-                .items()
-                .into_iter()
-                .any(|x| x.unwrap().name_clause().is_none());
-            if !has_unnamed_args {
-                let content = content_expr?.to_trimmed_string();
-                return Ok(Some((content, outer_syntax)));
+            let inner_args = inner_call.as_fields().arguments?.items();
+            if get_unnamed_args(&inner_args).is_empty() {
+                let mut content = vec![content_expr?.to_trimmed_string()];
+                content.extend(
+                    get_named_args(&inner_args)
+                        .iter()
+                        .map(|x| x.to_trimmed_string()),
+                );
+                return Ok(Some((content.join(", "), outer_syntax)));
             }
         }
     }
-- 
2.43.0


From d54c1a2ec711464d3250bc12651b6f11536e35c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:30 +0000
Subject: [PATCH 29/83] fix: suppression comments at the end of a block or line
 do not hide what is before or after

---
 crates/jarl-core/src/suppression.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 1334c51..ea3da49 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -334,28 +334,31 @@ impl SuppressionManager {
                     collector.blanket_suppressions.push(header_range);
                 }
             } else {
+                // After `{`, `(` or `,`, comments at the end of a line are
+                // leading comments of what comes on the next line.
                 Self::process_comment(
                     text,
                     comment_range,
                     node_range,
                     collector,
                     is_first_expression,
-                    false, // not trailing
+                    Self::is_same_line_as_code(comment_range, source),
                     nesting_level,
                 );
                 i += 1;
             }
         }
 
-        // Process dangling comments
+        // Process dangling comments (no code follows them in the block)
         for comment in comments.dangling_comments(node) {
+            let range = comment.piece().text_range();
             Self::process_comment(
                 comment.piece().text(),
-                comment.piece().text_range(),
-                node_range,
+                range,
+                TextRange::empty(range.end()),
                 collector,
                 false,
-                false, // not trailing
+                Self::is_same_line_as_code(range, source),
                 nesting_level,
             );
         }
@@ -384,13 +387,14 @@ impl SuppressionManager {
         // children because they are after them in the file.
         // Note: biome classifies comments at EOF as "trailing" even if they're on their own line.
         // We need to check if the comment is actually on the same line as code (true end-of-line).
+        // If it isn't, then no code follows it in the block, so it doesn't apply to anything.
         for comment in comments.trailing_comments(node) {
             let range = comment.piece().text_range();
             let is_true_end_of_line = Self::is_same_line_as_code(range, source);
             Self::process_comment(
                 comment.piece().text(),
                 range,
-                node_range,
+                TextRange::empty(range.end()),
                 collector,
                 false,
                 is_true_end_of_line,
-- 
2.43.0


From e007b6cc1bcd8b9510c4dd7a85895abb4b19551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:02 +0000
Subject: [PATCH 30/83] fix: range suppressions match inside of one block only,
 and a repeated start is unmatched

---
 crates/jarl-core/src/suppression.rs | 60 ++++++++++++++++-------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index ea3da49..32c5127 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -7,7 +7,7 @@ use air_r_syntax::{RLanguage, RSyntaxKind, RSyntaxNode};
 use biome_formatter::comments::{
     CommentKind, CommentPlacement, CommentStyle, Comments, DecoratedComment,
 };
-use biome_rowan::{SyntaxTriviaPieceComments, TextRange};
+use biome_rowan::{SyntaxTriviaPieceComments, TextRange, TextSize};
 use std::collections::{HashMap, HashSet};
 
 use crate::diagnostic::Diagnostic;
@@ -122,9 +122,9 @@ pub struct ChunkSuppression {
 
 /// Intermediate state used during single-pass comment collection
 struct CommentCollector {
-    /// Track start positions per (rule, nesting_level) for building skip regions
-    /// Key: (rule, nesting_level), Value: (region_start_range, comment_range)
-    starts: HashMap<(Rule, usize), (TextRange, TextRange)>,
+    /// Track start comments per (rule, block) for building skip regions, where
+    /// `block` is the position of the innermost `{`
+    starts: HashMap<(Rule, Option<TextSize>), TextRange>,
     /// Completed skip regions
     skip_regions: Vec<SkipRegion>,
     /// Rules suppressed at file level
@@ -243,12 +243,18 @@ impl SuppressionManager {
 
         // Single pass: collect all directive information at once
         let mut collector = CommentCollector::new();
-        Self::collect_all_directives(root, &comments, &mut collector, true, source, 0);
+        Self::collect_all_directives(root, &comments, &mut collector, true, source, None);
 
         // Any remaining starts without matching ends are unmatched
-        for ((_, _), (comment_range, _)) in collector.starts.drain() {
-            collector.unmatched_start_suppressions.push(comment_range);
-        }
+        collector.unmatched_start_suppressions.extend(
+            collector
+                .starts
+                .drain()
+                .map(|(_, comment_range)| comment_range),
+        );
+        collector
+            .unmatched_start_suppressions
+            .sort_by_key(|range| range.start());
 
         let has_any_suppressions = !collector.skip_regions.is_empty()
             || !collector.file_suppressions.is_empty()
@@ -281,7 +287,7 @@ impl SuppressionManager {
         collector: &mut CommentCollector,
         is_first_expression: bool,
         source: &str,
-        nesting_level: usize,
+        block: Option<TextSize>,
     ) {
         let node_range = node.text_trimmed_range();
 
@@ -343,7 +349,7 @@ impl SuppressionManager {
                     collector,
                     is_first_expression,
                     Self::is_same_line_as_code(comment_range, source),
-                    nesting_level,
+                    block,
                 );
                 i += 1;
             }
@@ -359,18 +365,18 @@ impl SuppressionManager {
                 collector,
                 false,
                 Self::is_same_line_as_code(range, source),
-                nesting_level,
+                block,
             );
         }
 
         // Recursively process children
-        // Increment nesting level when entering braced expressions (function bodies, etc.)
+        // Remember which braced expressions (function bodies, etc.) we are in
         let mut is_first = is_first_expression;
         for child in node.children() {
-            let child_nesting = if child.kind() == RSyntaxKind::R_BRACED_EXPRESSIONS {
-                nesting_level + 1
+            let child_block = if child.kind() == RSyntaxKind::R_BRACED_EXPRESSIONS {
+                Some(child.text_trimmed_range().start())
             } else {
-                nesting_level
+                block
             };
             Self::collect_all_directives(
                 &child,
@@ -378,7 +384,7 @@ impl SuppressionManager {
                 collector,
                 is_first,
                 source,
-                child_nesting,
+                child_block,
             );
             is_first = false; // Only the first child can have file-level suppressions
         }
@@ -398,7 +404,7 @@ impl SuppressionManager {
                 collector,
                 false,
                 is_true_end_of_line,
-                nesting_level,
+                block,
             );
         }
     }
@@ -434,7 +440,7 @@ impl SuppressionManager {
         collector: &mut CommentCollector,
         allow_file_suppression: bool,
         is_trailing: bool,
-        nesting_level: usize,
+        block: Option<TextSize>,
     ) {
         match parse_comment_directive(text) {
             Some(DirectiveParseResult::Valid(directive)) => {
@@ -446,16 +452,16 @@ impl SuppressionManager {
                 collector.has_any_valid_directive = true;
                 match directive {
                     LintDirective::IgnoreStart(rule) => {
-                        // Store with nesting level for proper matching
-                        collector
-                            .starts
-                            .insert((rule, nesting_level), (comment_range, comment_range));
+                        // Store with the block for proper matching
+                        if let Some(previous_start) =
+                            collector.starts.insert((rule, block), comment_range)
+                        {
+                            collector.unmatched_start_suppressions.push(previous_start);
+                        }
                     }
                     LintDirective::IgnoreEnd(rule) => {
-                        // Only match with start at the same nesting level
-                        if let Some((start_comment_range, _)) =
-                            collector.starts.remove(&(rule, nesting_level))
-                        {
+                        // Only match with start in the same block
+                        if let Some(start_comment_range) = collector.starts.remove(&(rule, block)) {
                             collector.skip_regions.push(SkipRegion {
                                 range: TextRange::new(
                                     start_comment_range.start(),
@@ -465,7 +471,7 @@ impl SuppressionManager {
                                 comment_range: start_comment_range,
                             });
                         } else {
-                            // No matching start at this nesting level
+                            // No matching start in this block
                             collector.unmatched_end_suppressions.push(comment_range);
                         }
                     }
-- 
2.43.0


From 483908f4c73e5f2d43234c7b1dedd31b83666e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 31/83] fix: suppression comments apply to named arguments

---
 crates/jarl-core/src/suppression.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 32c5127..85d126d 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -55,7 +55,8 @@ impl CommentStyle for RCommentStyle {
             || enclosing.kind() == RSyntaxKind::R_ARGUMENT_LIST
         {
             // Comment is inside function call arguments. Attach to the following
-            // argument's first child (the actual expression).
+            // argument's last child (the actual expression, the first one is
+            // the name of named arguments).
             //
             // Example:
             // ```
@@ -67,9 +68,9 @@ impl CommentStyle for RCommentStyle {
             // ```
             if let Some(following) = comment.following_node()
                 && following.kind() == RSyntaxKind::R_ARGUMENT
-                && let Some(first_child) = following.first_child()
+                && let Some(last_child) = following.last_child()
             {
-                return CommentPlacement::leading(first_child, comment);
+                return CommentPlacement::leading(last_child, comment);
             }
         }
 
-- 
2.43.0


From 1218bc215277d6d245c9a3747115d0df30b69e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 32/83] fix: file suppressions after an opening brace are
 misplaced

---
 crates/jarl-core/src/suppression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 85d126d..646e1c1 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -383,7 +383,8 @@ impl SuppressionManager {
                 &child,
                 comments,
                 collector,
-                is_first,
+                // There is code before the first child of `{`, for instance
+                is_first && child.text_trimmed_range().start() == node_range.start(),
                 source,
                 child_block,
             );
-- 
2.43.0


From ac92cb9dc017a45ac4a5b1d7bee9ea63c68f6ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:21 +0000
Subject: [PATCH 33/83] fix: range suppressions around braces are outside of
 them

---
 crates/jarl-core/src/suppression.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 646e1c1..5881e27 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -356,6 +356,14 @@ impl SuppressionManager {
             }
         }
 
+        // Remember which braced expressions (function bodies, etc.) we are in.
+        // Leading and trailing comments of the braces are outside of them.
+        let inner_block = if node.kind() == RSyntaxKind::R_BRACED_EXPRESSIONS {
+            Some(node_range.start())
+        } else {
+            block
+        };
+
         // Process dangling comments (no code follows them in the block)
         for comment in comments.dangling_comments(node) {
             let range = comment.piece().text_range();
@@ -366,19 +374,13 @@ impl SuppressionManager {
                 collector,
                 false,
                 Self::is_same_line_as_code(range, source),
-                block,
+                inner_block,
             );
         }
 
         // Recursively process children
-        // Remember which braced expressions (function bodies, etc.) we are in
         let mut is_first = is_first_expression;
         for child in node.children() {
-            let child_block = if child.kind() == RSyntaxKind::R_BRACED_EXPRESSIONS {
-                Some(child.text_trimmed_range().start())
-            } else {
-                block
-            };
             Self::collect_all_directives(
                 &child,
                 comments,
@@ -386,7 +388,7 @@ impl SuppressionManager {
                 // There is code before the first child of `{`, for instance
                 is_first && child.text_trimmed_range().start() == node_range.start(),
                 source,
-                child_block,
+                inner_block,
             );
             is_first = false; // Only the first child can have file-level suppressions
         }
-- 
2.43.0


From d6e0e5efd1a91055ad6e1d81e1755b494f00d870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 34/83] fix: files of a package are attributed by their place
 in it

---
 .../base/unused_function/unused_function.rs   | 13 +--
 crates/jarl-core/src/package.rs               | 90 ++++++++++---------
 2 files changed, 54 insertions(+), 49 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 8408ba9..6613bf1 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -249,10 +249,10 @@ pub(crate) fn has_cpp_extension(path: &Path) -> bool {
     )
 }
 
-/// Extract a human-readable scope directory from a file path, e.g.
-/// `"tests/"` or `"inst/tests/"`. Used in help messages.
-fn scope_dir_from_path(rel_path: &Path) -> String {
-    let components: Vec<_> = rel_path
+/// Extract a human-readable scope directory from the path of a file in its
+/// package, e.g. `"tests/"` or `"inst/tests/"`. Used in help messages.
+fn scope_dir_from_path(path: &Path) -> String {
+    let components: Vec<_> = path
         .components()
         .map(|c| c.as_os_str().to_string_lossy().to_string())
         .collect();
@@ -461,7 +461,10 @@ pub(crate) fn compute_unused_from_shared(
                     let definitions = scope_definitions.get(name.as_str()).copied().unwrap_or(0);
 
                     if occurrences <= definitions {
-                        let scope_dir = scope_dir_from_path(&file.rel_path);
+                        let root = crate::fs::relativize_path(&file.package_root);
+                        let scope_dir = scope_dir_from_path(
+                            file.rel_path.strip_prefix(root).unwrap_or(&file.rel_path),
+                        );
                         let help = format!(
                             "Defined at {path}:{line}:{col} but never called in {scope_dir}",
                             path = file.rel_path.display()
diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index 1be2409..0685d3b 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -107,8 +107,9 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     // contribute to cross-file analysis (both duplicate and unused checks).
     // Also collect extra files (tests/, inst/tinytest/, inst/tests/, src/) and
     // NAMESPACE exports for the unused-function rule.
-    let mut extra_files: Vec<PathBuf> = Vec::new();
-    let mut excluded_r_files: Vec<PathBuf> = Vec::new();
+    // Each of them is stored with the root of the package it was found in.
+    let mut extra_files: Vec<(PathBuf, &Path)> = Vec::new();
+    let mut excluded_r_files: Vec<(PathBuf, &Path)> = Vec::new();
     let mut namespace_contents: HashMap<PathBuf, String> = HashMap::new();
 
     let package_roots: HashSet<PathBuf> = r_dir_files
@@ -132,7 +133,7 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
                 if let Ok(canon) = std::fs::canonicalize(&file)
                     && !r_dir_file_set.contains(&canon)
                 {
-                    excluded_r_files.push(file);
+                    excluded_r_files.push((file, root.as_path()));
                 }
             }
         }
@@ -142,13 +143,21 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
             for dir_name in &["inst/tinytest", "inst/tests", "tests"] {
                 let dir = root.join(dir_name);
                 if dir.is_dir() {
-                    extra_files.extend(collect_files(&dir, has_r_extension));
+                    extra_files.extend(
+                        collect_files(&dir, has_r_extension)
+                            .into_iter()
+                            .map(|file| (file, root.as_path())),
+                    );
                 }
             }
             // Collect C/C++ files in src/
             let src_dir = root.join("src");
             if src_dir.is_dir() {
-                extra_files.extend(collect_files(&src_dir, has_cpp_extension));
+                extra_files.extend(
+                    collect_files(&src_dir, has_cpp_extension)
+                        .into_iter()
+                        .map(|file| (file, root.as_path())),
+                );
             }
             // Read NAMESPACE content (cheap, one per package)
             if let Ok(ns_content) = std::fs::read_to_string(root.join("NAMESPACE")) {
@@ -157,14 +166,22 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
         }
     }
 
-    // Build the list of all files to scan in parallel, each tagged with its scope.
-    let all_files: Vec<(&Path, FileScope)> = r_dir_files
+    // Build the list of all files to scan in parallel, each tagged with its
+    // scope and the root of its package.
+    let all_files: Vec<(&Path, FileScope, &Path)> = r_dir_files
         .iter()
-        .map(|p| (p.as_path(), FileScope::R))
-        .chain(excluded_r_files.iter().map(|p| (p.as_path(), FileScope::R)))
-        .chain(extra_files.iter().map(|p| {
-            let scope = file_scope_from_path(p);
-            (p.as_path(), scope)
+        .filter_map(|p| {
+            let root = p.parent()?.parent()?;
+            Some((p.as_path(), FileScope::R, root))
+        })
+        .chain(
+            excluded_r_files
+                .iter()
+                .map(|(p, root)| (p.as_path(), FileScope::R, *root)),
+        )
+        .chain(extra_files.iter().map(|(p, root)| {
+            let scope = file_scope_from_path(p.strip_prefix(root).unwrap_or(p));
+            (p.as_path(), scope, *root)
         }))
         .collect();
 
@@ -172,7 +189,7 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     // scan_top_level_assignments; Src files only get scan_symbols.
     let shared_data: Vec<SharedFileData> = all_files
         .par_iter()
-        .filter_map(|(path, scope)| {
+        .filter_map(|(path, scope, package_root)| {
             let content = std::fs::read_to_string(path).ok()?;
             let symbol_counts = if check_unused {
                 scan_symbols(&content)
@@ -180,40 +197,25 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
                 HashMap::new()
             };
 
+            // Definitions in subdirectories of R/ (e.g. R/unix) or in a package
+            // nested in this one (e.g. a test fixture) are not definitions of
+            // this package, but what they use may be.
+            let r_dir = package_root.join("R");
             let assignments = match scope {
                 FileScope::Src => Vec::new(),
+                FileScope::R if path.parent() != Some(r_dir.as_path()) => Vec::new(),
+                _ if find_package_root(path).as_deref() != Some(*package_root) => Vec::new(),
                 _ => scan_top_level_assignments(&content),
             };
 
-            if *scope == FileScope::R {
-                let r_dir = path.parent()?;
-                let package_root = r_dir.parent()?.to_path_buf();
-                let rel_path = PathBuf::from(crate::fs::relativize_path(path));
-                let root_key = crate::fs::relativize_path(r_dir);
-                Some(SharedFileData {
-                    root_key,
-                    rel_path,
-                    package_root,
-                    assignments,
-                    symbol_counts,
-                    scope: FileScope::R,
-                })
-            } else {
-                // Extra file: figure out the package root. The file is
-                // somewhere under root/tests/, root/inst/, or root/src/.
-                let package_root = find_package_root(path)?;
-                let r_dir = package_root.join("R");
-                let rel_path = PathBuf::from(crate::fs::relativize_path(path));
-                let root_key = crate::fs::relativize_path(&r_dir);
-                Some(SharedFileData {
-                    root_key,
-                    rel_path,
-                    package_root,
-                    assignments,
-                    symbol_counts,
-                    scope: *scope,
-                })
-            }
+            Some(SharedFileData {
+                root_key: crate::fs::relativize_path(&r_dir),
+                rel_path: PathBuf::from(crate::fs::relativize_path(path)),
+                package_root: package_root.to_path_buf(),
+                assignments,
+                symbol_counts,
+                scope: *scope,
+            })
         })
         .collect();
 
@@ -236,7 +238,7 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     PackageAnalysis { duplicate_assignments, unused_functions }
 }
 
-/// Determine the `FileScope` for a non-R/ file based on its path.
+/// Determine the `FileScope` for a non-R/ file based on its path in the package.
 fn file_scope_from_path(path: &Path) -> FileScope {
     let components: Vec<_> = path
         .components()
@@ -321,7 +323,7 @@ pub(crate) fn scan_extra_package_paths(
             let content = std::fs::read_to_string(path).ok()?;
             let symbol_counts = scan_symbols(&content);
             let rel_path = PathBuf::from(crate::fs::relativize_path(path));
-            let scope = file_scope_from_path(path);
+            let scope = file_scope_from_path(path.strip_prefix(package_root).unwrap_or(path));
             let assignments = match scope {
                 FileScope::Src => Vec::new(),
                 _ => scan_top_level_assignments(&content),
-- 
2.43.0


From ed6e3e651528af1a310bb97c1e593024c52a74ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:24 +0000
Subject: [PATCH 35/83] fix: exports are read from the whole NAMESPACE file

---
 .../base/unused_function/unused_function.rs   | 171 +++++++++---------
 1 file changed, 82 insertions(+), 89 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 6613bf1..1333d28 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -55,30 +55,59 @@ use crate::package::{FileScope, SharedFileData};
 /// # `check_length()` isn't exported but and isn't used anywhere, so it is
 /// # reported.
 /// ```
-fn extract_directive<'a>(line: &'a str, directive: &str) -> Option<&'a str> {
-    // Find a NAMESPACE directive (e.g. `S3method`, `export`) in a line and
-    // return its parenthesized arguments. Handles lines where the directive is
-    // preceded by an `if (...)` guard, e.g.:
+fn namespace_directives(content: &str) -> Vec<(&str, Vec<String>)> {
+    // Find all NAMESPACE directives (e.g. `S3method`, `export`) and their
+    // arguments. A directive may take several lines, several directives may be
+    // on the same line, and they may be in the branches of an `if`, e.g.:
     //   `if (getRversion() >= "4.4.0") S3method(sort_by, data.table)`
-
-    // Find `directive(` in the line
-    let dir_with_paren = format!("{directive}(");
-    let start = line.find(&dir_with_paren)?;
-    let args_start = start + dir_with_paren.len();
-
-    // Make sure the directive is not part of a longer word
-    // (e.g. "exportPattern" should not match "export")
-    if start > 0 {
-        let prev = line.as_bytes()[start - 1];
-        if prev.is_ascii_alphanumeric() || prev == b'_' {
-            return None;
+    let mut found = Vec::new();
+    // Calls that are still open, with their arguments so far.
+    let mut open: Vec<(&str, Vec<String>)> = Vec::new();
+    let mut chars = content.char_indices().peekable();
+    let mut word: &str = "";
+
+    while let Some((start, c)) = chars.next() {
+        let last_word = std::mem::take(&mut word);
+        match c {
+            '#' => while chars.next_if(|(_, c)| *c != '\n').is_some() {},
+            '"' | '\'' | '`' => {
+                let mut text = String::new();
+                while let Some((_, d)) = chars.next() {
+                    match d {
+                        '\\' => text.extend(chars.next().map(|(_, e)| e)),
+                        _ if d == c => break,
+                        _ => text.push(d),
+                    }
+                }
+                if let Some((_, arguments)) = open.last_mut() {
+                    arguments.last_mut().unwrap().push_str(&text);
+                }
+            }
+            '(' => open.push((last_word, vec![String::new()])),
+            ')' => found.extend(open.pop()),
+            ',' => {
+                if let Some((_, arguments)) = open.last_mut() {
+                    arguments.push(String::new());
+                }
+            }
+            _ if c.is_whitespace() => word = last_word,
+            _ => {
+                let is_word = |c: char| c.is_alphanumeric() || c == '.' || c == '_';
+                let mut end = start + c.len_utf8();
+                if is_word(c) {
+                    while let Some((at, d)) = chars.next_if(|(_, d)| is_word(*d)) {
+                        end = at + d.len_utf8();
+                    }
+                    word = &content[start..end];
+                }
+                if let Some((_, arguments)) = open.last_mut() {
+                    arguments.last_mut().unwrap().push_str(&content[start..end]);
+                }
+            }
         }
     }
 
-    // Find the matching closing paren
-    let rest = &line[args_start..];
-    let end = rest.rfind(')')?;
-    Some(&rest[..end])
+    found
 }
 
 /// Parse a NAMESPACE file and return the set of exported function names.
@@ -89,83 +118,47 @@ fn extract_directive<'a>(line: &'a str, directive: &str) -> Option<&'a str> {
 pub fn parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<String> {
     let mut exports = HashSet::new();
 
-    for line in content.lines() {
-        let trimmed = line.trim();
-
-        // Skip comments and empty lines
-        if trimmed.is_empty() || trimmed.starts_with('#') {
-            continue;
-        }
-
-        // NAMESPACE directives may be wrapped in `if (...)` guards, e.g.
-        //   if (getRversion() >= "4.4.0") S3method(sort_by, data.table)
-        // We extract the inner `directive(...)` by finding the directive
-        // keyword anywhere in the line.
-        for directive in [
-            "export",
-            "exportPattern",
-            "S3method",
-            "exportMethods",
-            "exportClasses",
-        ] {
-            if let Some(inner) = extract_directive(trimmed, directive) {
-                match directive {
-                    "export" => {
-                        for name in inner.split(',') {
-                            let name = name.trim().trim_matches('"').trim_matches('\'');
-                            if !name.is_empty() {
-                                exports.insert(name.to_string());
-                            }
-                        }
-                    }
-                    "exportPattern" => {
-                        let pattern = inner.trim().trim_matches('"').trim_matches('\'');
-                        if let Ok(re) = Regex::new(pattern) {
-                            for &name in all_names {
-                                if re.is_match(name) {
-                                    exports.insert(name.to_string());
-                                }
-                            }
+    for (directive, arguments) in namespace_directives(content) {
+        match directive {
+            "export" | "exportMethods" | "exportClasses" => {
+                exports.extend(arguments.into_iter().filter(|name| !name.is_empty()));
+            }
+            "exportPattern" => {
+                for pattern in arguments.iter().filter(|pattern| !pattern.is_empty()) {
+                    // What a pattern that we cannot read exports is unknown:
+                    // assume that it is everything.
+                    let re = Regex::new(pattern).ok();
+                    for &name in all_names {
+                        if re.as_ref().is_none_or(|re| re.is_match(name)) {
+                            exports.insert(name.to_string());
                         }
                     }
-                    "S3method" => {
-                        // S3method(generic, class) or
-                        // S3method(pkg::generic, class) or
-                        // S3method(generic, class, method_fn)
-                        let parts: Vec<&str> = inner.splitn(4, ',').collect();
-                        if parts.len() >= 2 {
-                            let raw_generic = parts[0].trim().trim_matches('"').trim_matches('\'');
-                            let class = parts[1].trim().trim_matches('"').trim_matches('\'');
-
-                            // Strip optional pkg:: or pkg::: prefix
-                            let generic = raw_generic
-                                .rsplit_once("::")
-                                .map(|(_, g)| g)
-                                .unwrap_or(raw_generic);
-
-                            if parts.len() >= 3 {
-                                let method_fn =
-                                    parts[2].trim().trim_matches('"').trim_matches('\'');
-                                if !method_fn.is_empty() {
-                                    exports.insert(method_fn.to_string());
-                                }
-                            } else {
-                                exports.insert(format!("{generic}.{class}"));
+                }
+            }
+            "S3method" => {
+                // S3method(generic, class) or
+                // S3method(pkg::generic, class) or
+                // S3method(generic, class, method_fn)
+                if let [raw_generic, class, rest @ ..] = arguments.as_slice() {
+                    // Strip optional pkg:: or pkg::: prefix
+                    let generic = raw_generic
+                        .rsplit_once("::")
+                        .map(|(_, g)| g)
+                        .unwrap_or(raw_generic);
+
+                    match rest.first() {
+                        Some(method_fn) => {
+                            if !method_fn.is_empty() {
+                                exports.insert(method_fn.to_string());
                             }
                         }
-                    }
-                    "exportMethods" | "exportClasses" => {
-                        for name in inner.split(',') {
-                            let name = name.trim().trim_matches('"').trim_matches('\'');
-                            if !name.is_empty() {
-                                exports.insert(name.to_string());
-                            }
+                        None => {
+                            exports.insert(format!("{generic}.{class}"));
                         }
                     }
-                    _ => {}
                 }
-                break;
             }
+            _ => {}
         }
     }
 
-- 
2.43.0


From d3cd51fbeb88c4cf00115fecd1ae5e17acc5f684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 36/83] fix: symbols that are not ASCII are used as well

---
 .../base/unused_function/unused_function.rs   | 24 ++++---------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 1333d28..8138ac4 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -184,26 +184,12 @@ pub fn scan_symbols(content: &str) -> HashMap<String, usize> {
             continue;
         }
 
-        let bytes = line.as_bytes();
-        let len = bytes.len();
-        let mut i = 0;
-
-        while i < len {
-            let b = bytes[i];
-
-            // R identifiers start with a letter, `.`, or `_`
-            if b.is_ascii_alphabetic() || b == b'.' || b == b'_' {
-                let start = i;
-                i += 1;
-                while i < len
-                    && (bytes[i].is_ascii_alphanumeric() || bytes[i] == b'.' || bytes[i] == b'_')
-                {
-                    i += 1;
-                }
-                let name = &line[start..i];
+        // R identifiers start with a letter, `.`, or `_`
+        let is_symbol = |c: char| c.is_alphanumeric() || c == '.' || c == '_';
+        for word in line.split(|c: char| !is_symbol(c)) {
+            let name = word.trim_start_matches(char::is_numeric);
+            if !name.is_empty() {
                 *symbols.entry(name).or_insert(0) += 1;
-            } else {
-                i += 1;
             }
         }
     }
-- 
2.43.0


From 5ee839c807b3fe15603a8bb2b727107e88360749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:46 +0000
Subject: [PATCH 37/83] fix: directives of C files use functions

---
 .../base/unused_function/unused_function.rs   | 22 +++++++++++++------
 crates/jarl-core/src/package.rs               | 10 ++++-----
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 8138ac4..e941830 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -174,16 +174,24 @@ pub fn parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<Str
 /// `name(` call patterns, we also cover indirect references like
 /// `do.call("name", ...)`, `lapply(xs, name)`, `match.fun(name)`, etc.
 pub fn scan_symbols(content: &str) -> HashMap<String, usize> {
-    let mut symbols: HashMap<&str, usize> = HashMap::new();
-
-    for line in content.lines() {
+    count_symbols(content.lines().filter(|line| {
         let trimmed = line.trim_start();
         // Skip regular comments but keep roxygen comments (#') since they
         // may reference internal functions (e.g. via \Sexpr).
-        if trimmed.starts_with('#') && !trimmed.starts_with("#'") {
-            continue;
-        }
+        !trimmed.starts_with('#') || trimmed.starts_with("#'")
+    }))
+}
+
+/// Same as [`scan_symbols`] for C and C++ code, where lines that start with `#`
+/// are not comments but directives.
+pub(crate) fn scan_cpp_symbols(content: &str) -> HashMap<String, usize> {
+    count_symbols(content.lines())
+}
+
+fn count_symbols<'a>(lines: impl Iterator<Item = &'a str>) -> HashMap<String, usize> {
+    let mut symbols: HashMap<&str, usize> = HashMap::new();
 
+    for line in lines {
         // R identifiers start with a letter, `.`, or `_`
         let is_symbol = |c: char| c.is_alphanumeric() || c == '.' || c == '_';
         for word in line.split(|c: char| !is_symbol(c)) {
@@ -224,7 +232,7 @@ pub(crate) fn collect_files(dir: &Path, predicate: fn(&Path) -> bool) -> Vec<Pat
 pub(crate) fn has_cpp_extension(path: &Path) -> bool {
     matches!(
         path.extension().and_then(|e| e.to_str()),
-        Some("c" | "cpp" | "h" | "hpp")
+        Some("c" | "cc" | "cpp" | "cxx" | "h" | "hh" | "hpp" | "hxx")
     )
 }
 
diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index 0685d3b..0817b6b 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -10,7 +10,7 @@ use crate::lints::base::duplicated_function_definition::duplicated_function_defi
     compute_duplicates_from_shared, scan_top_level_assignments,
 };
 use crate::lints::base::unused_function::unused_function::{
-    collect_files, compute_unused_from_shared, has_cpp_extension, scan_symbols,
+    collect_files, compute_unused_from_shared, has_cpp_extension, scan_cpp_symbols, scan_symbols,
 };
 use crate::rule_set::Rule;
 
@@ -191,10 +191,10 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
         .par_iter()
         .filter_map(|(path, scope, package_root)| {
             let content = std::fs::read_to_string(path).ok()?;
-            let symbol_counts = if check_unused {
-                scan_symbols(&content)
-            } else {
-                HashMap::new()
+            let symbol_counts = match scope {
+                _ if !check_unused => HashMap::new(),
+                FileScope::Src => scan_cpp_symbols(&content),
+                _ => scan_symbols(&content),
             };
 
             // Definitions in subdirectories of R/ (e.g. R/unix) or in a package
-- 
2.43.0


From 8ec4cafee1d4057eb0cf3ad506f5c041c820a703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 38/83] fix: package files that are not UTF-8 use functions as
 well

---
 crates/jarl-core/src/package.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index 0817b6b..f785c38 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -160,7 +160,8 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
                 );
             }
             // Read NAMESPACE content (cheap, one per package)
-            if let Ok(ns_content) = std::fs::read_to_string(root.join("NAMESPACE")) {
+            if let Ok(ns_content) = std::fs::read(root.join("NAMESPACE")) {
+                let ns_content = String::from_utf8_lossy(&ns_content).into_owned();
                 namespace_contents.insert(root.clone(), ns_content);
             }
         }
@@ -190,7 +191,9 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     let shared_data: Vec<SharedFileData> = all_files
         .par_iter()
         .filter_map(|(path, scope, package_root)| {
-            let content = std::fs::read_to_string(path).ok()?;
+            // A file in another encoding still uses functions.
+            let content = std::fs::read(path).ok()?;
+            let content = String::from_utf8_lossy(&content);
             let symbol_counts = match scope {
                 _ if !check_unused => HashMap::new(),
                 FileScope::Src => scan_cpp_symbols(&content),
-- 
2.43.0


From fa433b9cda3b497fbabe31ead62dd814f61a620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 39/83] fix: links between directories of a package may form
 cycles

---
 .../src/lints/base/unused_function/unused_function.rs      | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index e941830..d191807 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -212,7 +212,14 @@ fn count_symbols<'a>(lines: impl Iterator<Item = &'a str>) -> HashMap<String, us
 pub(crate) fn collect_files(dir: &Path, predicate: fn(&Path) -> bool) -> Vec<PathBuf> {
     let mut files = Vec::new();
     let mut stack = vec![dir.to_path_buf()];
+    // Links may lead back to a directory.
+    let mut visited = HashSet::new();
     while let Some(current) = stack.pop() {
+        if let Ok(canonical) = std::fs::canonicalize(&current)
+            && !visited.insert(canonical)
+        {
+            continue;
+        }
         let entries = match std::fs::read_dir(&current) {
             Ok(entries) => entries,
             Err(_) => continue,
-- 
2.43.0


From 9af32a65fa1a3f09b0daba8fb24783ab23712499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 40/83] fix: unindented lines of strings and blocks are not top
 level

---
 .../duplicated_function_definition.rs         | 71 ++++++++++++++++++-
 1 file changed, 70 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/duplicated_function_definition/duplicated_function_definition.rs b/crates/jarl-core/src/lints/base/duplicated_function_definition/duplicated_function_definition.rs
index 4d3d0fc..dc21107 100644
--- a/crates/jarl-core/src/lints/base/duplicated_function_definition/duplicated_function_definition.rs
+++ b/crates/jarl-core/src/lints/base/duplicated_function_definition/duplicated_function_definition.rs
@@ -59,6 +59,7 @@ pub fn scan_top_level_assignments(content: &str) -> Vec<(String, TextRange, u32,
     let mut results = Vec::new();
     let mut byte_offset: usize = 0;
     let mut line_no: u32 = 1;
+    let mut nesting = Nesting::default();
 
     for line_with_ending in content.split_inclusive('\n') {
         // Strip \r\n or \n to get the line without its terminator
@@ -71,7 +72,12 @@ pub fn scan_top_level_assignments(content: &str) -> Vec<(String, TextRange, u32,
         // Only look at unindented lines. In R packages, all top-level function
         // definitions are at column 1. Indented lines are inside function bodies
         // or control-flow blocks and must not be collected.
-        if leading == 0 && !trimmed.is_empty() && !trimmed.starts_with('#') {
+        // The same goes for unindented lines of strings and blocks.
+        if leading == 0
+            && nesting.is_top_level()
+            && !trimmed.is_empty()
+            && !trimmed.starts_with('#')
+        {
             // Parse the leading identifier (R: alphanumeric + '.' + '_')
             let ident_end = trimmed
                 .find(|c: char| !c.is_alphanumeric() && c != '.' && c != '_')
@@ -112,6 +118,7 @@ pub fn scan_top_level_assignments(content: &str) -> Vec<(String, TextRange, u32,
             }
         }
 
+        nesting.read(line);
         byte_offset += line_with_ending.len();
         line_no += 1;
     }
@@ -119,6 +126,68 @@ pub fn scan_top_level_assignments(content: &str) -> Vec<(String, TextRange, u32,
     results
 }
 
+/// Strings and brackets that are open at the end of a line.
+#[derive(Default)]
+struct Nesting {
+    /// What closes the string, e.g. `"`, or `)-"` for a raw string.
+    string: Option<String>,
+    depth: usize,
+}
+
+impl Nesting {
+    fn is_top_level(&self) -> bool {
+        self.string.is_none() && self.depth == 0
+    }
+
+    fn read(&mut self, line: &str) {
+        let mut rest = line;
+        let mut last = ' ';
+
+        while let Some(c) = rest.chars().next() {
+            let mut width = c.len_utf8();
+            if let Some(end) = &self.string {
+                if rest.starts_with(end.as_str()) {
+                    width = end.len();
+                    self.string = None;
+                } else if c == '\\' && end.len() == 1 {
+                    // Only raw strings have no escapes.
+                    width += rest[width..].chars().next().map_or(0, char::len_utf8);
+                }
+            } else {
+                match c {
+                    '#' => return,
+                    '(' | '[' | '{' => self.depth += 1,
+                    ')' | ']' | '}' => self.depth = self.depth.saturating_sub(1),
+                    '"' | '\'' | '`' => self.string = Some(c.to_string()),
+                    'r' | 'R' if !last.is_alphanumeric() && last != '.' && last != '_' => {
+                        if let Some((end, start)) = raw_string(&rest[1..]) {
+                            self.string = Some(end);
+                            width += start;
+                        }
+                    }
+                    _ => {}
+                }
+            }
+            last = c;
+            rest = &rest[width..];
+        }
+    }
+}
+
+/// If a raw string starts with `text`, after its `r`, what closes it and the
+/// length of what opens it.
+fn raw_string(text: &str) -> Option<(String, usize)> {
+    let quote = text.chars().next().filter(|c| matches!(c, '"' | '\''))?;
+    let dashes = text[1..].len() - text[1..].trim_start_matches('-').len();
+    let close = match text[1 + dashes..].chars().next()? {
+        '(' => ')',
+        '[' => ']',
+        '{' => '}',
+        _ => return None,
+    };
+    Some((format!("{close}{}{quote}", "-".repeat(dashes)), dashes + 2))
+}
+
 /// Compute duplicate assignments from pre-scanned shared file data.
 ///
 /// This is the inner logic extracted from `compute_package_duplicate_assignments`,
-- 
2.43.0


From 617b64dee3a58ba741d8b72bdff8894a8967139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:49 +0000
Subject: [PATCH 41/83] fix: JSON and GitHub outputs stay valid when there are
 no R files

---
 crates/jarl/src/commands/check.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index cfe120f..6d8b615 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -71,11 +71,20 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         .collect::<Vec<_>>();
 
     if paths.is_empty() {
-        println!(
+        let warning = format!(
             "{}: {}",
             "Warning".yellow().bold(),
             "No R files found under the given path(s).".white().bold()
         );
+        match args.output_format {
+            // Do not corrupt structured output.
+            OutputFormat::Json => {
+                eprintln!("{warning}");
+                JsonEmitter.emit(&mut std::io::stdout(), &[], &[])?;
+            }
+            OutputFormat::Github => eprintln!("{warning}"),
+            OutputFormat::Concise | OutputFormat::Full => println!("{warning}"),
+        }
         return Ok(ExitStatus::Success);
     }
 
-- 
2.43.0


From afd6cc03d44f7f19ab531c1db11ce985e917e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:15 +0000
Subject: [PATCH 42/83] fix: statistics report files that could not be checked

---
 crates/jarl/src/commands/check.rs |  2 +-
 crates/jarl/src/output_format.rs  | 30 ++++++++++++++----------------
 crates/jarl/src/statistics.rs     | 12 ++++++++++++
 3 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 6d8b615..8c5ca78 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -155,7 +155,7 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     all_diagnostics_flat.sort();
 
     if args.statistics {
-        return print_statistics(&all_diagnostics_flat, parent_config_path);
+        return print_statistics(&all_diagnostics_flat, &all_errors, parent_config_path);
     }
 
     let mut stdout = std::io::stdout();
diff --git a/crates/jarl/src/output_format.rs b/crates/jarl/src/output_format.rs
index fee4fd7..83ff362 100644
--- a/crates/jarl/src/output_format.rs
+++ b/crates/jarl/src/output_format.rs
@@ -144,6 +144,18 @@ pub trait Emitter {
     ) -> anyhow::Result<()>;
 }
 
+/// Prints the errors met in some files (e.g. parsing errors) on stderr.
+pub fn print_errors(errors: &[(String, anyhow::Error)]) {
+    for (_path, err) in errors {
+        let root_cause = err.chain().last().unwrap();
+        if root_cause.is::<jarl_core::error::ParseError>() {
+            eprintln!("{}: {}", "Error".red().bold(), root_cause);
+        } else {
+            eprintln!("{}: {}", "Error".red().bold(), err);
+        }
+    }
+}
+
 pub struct ConciseEmitter;
 
 impl Emitter for ConciseEmitter {
@@ -158,14 +170,7 @@ impl Emitter for ConciseEmitter {
         // First, print all parsing errors
         if !errors.is_empty() {
             writer.flush()?; // Flush before writing to stderr
-            for (_path, err) in errors {
-                let root_cause = err.chain().last().unwrap();
-                if root_cause.is::<jarl_core::error::ParseError>() {
-                    eprintln!("{}: {}", "Error".red().bold(), root_cause);
-                } else {
-                    eprintln!("{}: {}", "Error".red().bold(), err);
-                }
-            }
+            print_errors(errors);
         }
 
         // Cache relativized paths to avoid repeated filesystem operations
@@ -308,14 +313,7 @@ impl Emitter for FullEmitter {
         // First, print all parsing errors
         if !errors.is_empty() {
             writer.flush()?; // Flush before writing to stderr
-            for (_path, err) in errors {
-                let root_cause = err.chain().last().unwrap();
-                if root_cause.is::<jarl_core::error::ParseError>() {
-                    eprintln!("{}: {}", "Error".red().bold(), root_cause);
-                } else {
-                    eprintln!("{}: {}", "Error".red().bold(), err);
-                }
-            }
+            print_errors(errors);
             if !diagnostics.is_empty() {
                 eprintln!(); // Add separator between errors and diagnostics
             }
diff --git a/crates/jarl/src/statistics.rs b/crates/jarl/src/statistics.rs
index 8d1345e..5e7d41b 100644
--- a/crates/jarl/src/statistics.rs
+++ b/crates/jarl/src/statistics.rs
@@ -2,12 +2,20 @@ use colored::Colorize;
 use jarl_core::diagnostic::Diagnostic;
 use std::{collections::HashMap, path::PathBuf};
 
+use crate::output_format::print_errors;
 use crate::status::ExitStatus;
 
 pub fn print_statistics(
     diagnostics: &[&Diagnostic],
+    errors: &[(String, anyhow::Error)],
     parent_config_path: Option<PathBuf>,
 ) -> anyhow::Result<ExitStatus> {
+    print_errors(errors);
+
+    if diagnostics.is_empty() && !errors.is_empty() {
+        return Ok(ExitStatus::Error);
+    }
+
     if diagnostics.is_empty() {
         println!("All checks passed!");
         return Ok(ExitStatus::Success);
@@ -46,5 +54,9 @@ pub fn print_statistics(
         println!("\nUsed '{}'", config_path.display());
     }
 
+    if !errors.is_empty() {
+        return Ok(ExitStatus::Error);
+    }
+
     Ok(ExitStatus::Failure)
 }
-- 
2.43.0


From 528f84c1ad4a6e20f1aea8990d9a501e77be980f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:52 +0000
Subject: [PATCH 43/83] fix: escape GitHub annotations

---
 crates/jarl/src/output_format.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/jarl/src/output_format.rs b/crates/jarl/src/output_format.rs
index 83ff362..baf1e3f 100644
--- a/crates/jarl/src/output_format.rs
+++ b/crates/jarl/src/output_format.rs
@@ -247,6 +247,20 @@ impl Emitter for JsonEmitter {
 
 pub struct GithubEmitter;
 
+/// Escapes the message of a GitHub workflow command, which ends at a newline.
+fn escape_github_data(text: &str) -> String {
+    text.replace('%', "%25")
+        .replace('\r', "%0D")
+        .replace('\n', "%0A")
+}
+
+/// Escapes a property of a GitHub workflow command.
+fn escape_github_property(text: &str) -> String {
+    escape_github_data(text)
+        .replace(':', "%3A")
+        .replace(',', "%2C")
+}
+
 impl Emitter for GithubEmitter {
     fn emit<W: Write>(
         &self,
@@ -272,11 +286,13 @@ impl Emitter for GithubEmitter {
             // - one after the "::" marker: this is so that the workflow shows
             //   the location of diagnostics when we inspect the workflow itself,
             //   without the Github annotations.
+            let file = diagnostic.filename.to_string_lossy();
             write!(
                 writer,
-                "::warning title=Jarl ({}),file={file},line={row},col={col}::{file}:{row}:{col} ",
+                "::warning title=Jarl ({}),file={},line={row},col={col}::{}:{row}:{col} ",
                 diagnostic.message.name,
-                file = diagnostic.filename.to_string_lossy()
+                escape_github_property(&file),
+                escape_github_data(&file),
             )?;
 
             let message = if let Some(suggestion) = &diagnostic.message.suggestion {
@@ -284,7 +300,12 @@ impl Emitter for GithubEmitter {
             } else {
                 diagnostic.message.body.clone()
             };
-            writeln!(writer, "[{}] {}", diagnostic.message.name, message)?;
+            writeln!(
+                writer,
+                "[{}] {}",
+                diagnostic.message.name,
+                escape_github_data(&message)
+            )?;
         }
 
         writer.flush()?;
-- 
2.43.0


From c8cf13155ddaec93155746296e3b794ad31f2318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:52 +0000
Subject: [PATCH 44/83] fix: output order does not depend on scheduling or hash
 seeds

---
 crates/jarl-core/src/discovery.rs |  1 +
 crates/jarl-core/src/toml.rs      |  4 ++--
 crates/jarl/src/commands/check.rs | 10 +++++++---
 crates/jarl/src/statistics.rs     |  4 ++--
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 2e36a02..8200438 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -136,6 +136,7 @@ fn discover_nested_settings(
         .git_ignore(true)
         .git_global(true)
         .git_exclude(true)
+        .sort_by_file_name(|a, b| a.cmp(b))
         .build();
 
     for result in walker {
diff --git a/crates/jarl-core/src/toml.rs b/crates/jarl-core/src/toml.rs
index 59e9bb4..aa3001a 100644
--- a/crates/jarl-core/src/toml.rs
+++ b/crates/jarl-core/src/toml.rs
@@ -6,7 +6,7 @@
 //
 // MIT License - Posit PBC
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::fmt::Display;
 use std::fmt::Formatter;
 use std::fs;
@@ -252,7 +252,7 @@ pub struct LinterTomlOptions {
     /// only lists the primary `[lint]` options (not every rule sub-table).
     #[serde(flatten)]
     #[cfg_attr(feature = "schemars", schemars(skip))]
-    pub(crate) unknown_fields: HashMap<String, toml::Value>,
+    pub(crate) unknown_fields: BTreeMap<String, toml::Value>,
 }
 
 /// Return the path to the `jarl.toml` or `.jarl.toml` file in a given directory.
diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 8c5ca78..4fc54e5 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -16,7 +16,6 @@ use anyhow::Result;
 use colored::Colorize;
 use std::collections::BTreeMap;
 use std::collections::BTreeSet;
-use std::collections::HashMap;
 use std::env;
 use std::path::PathBuf;
 use std::time::Instant;
@@ -65,11 +64,15 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         resolver.add(&ds.directory, ds.settings);
     }
 
-    let paths = discover_r_file_paths(&args.files, &resolver, true, args.no_default_exclude)
+    let mut paths = discover_r_file_paths(&args.files, &resolver, true, args.no_default_exclude)
         .into_iter()
         .filter_map(Result::ok)
         .collect::<Vec<_>>();
 
+    // Files are discovered by several threads, so their order isn't always the
+    // same.
+    paths.sort();
+
     if paths.is_empty() {
         let warning = format!(
             "{}: {}",
@@ -104,7 +107,7 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
 
     // Group paths by their closest resolved config directory, so each file is
     // checked with the settings from the nearest jarl.toml.
-    let mut groups: HashMap<Option<PathBuf>, Vec<PathBuf>> = HashMap::new();
+    let mut groups: BTreeMap<Option<PathBuf>, Vec<PathBuf>> = BTreeMap::new();
     for path in paths {
         let key = resolver
             .resolve(&path)
@@ -121,6 +124,7 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         let config = build_config(&check_config, settings, group_paths)?;
         file_results.extend(jarl_core::check::check(config));
     }
+    file_results.sort_by(|a, b| a.0.cmp(&b.0));
 
     let mut all_errors = Vec::new();
     let mut all_diagnostics = Vec::new();
diff --git a/crates/jarl/src/statistics.rs b/crates/jarl/src/statistics.rs
index 5e7d41b..3d1ce35 100644
--- a/crates/jarl/src/statistics.rs
+++ b/crates/jarl/src/statistics.rs
@@ -33,9 +33,9 @@ pub fn print_statistics(
         }
     }
 
+    // Rules with the same count are sorted by name.
     let mut sorted: Vec<_> = hm.iter().collect();
-    sorted.sort_by_key(|a| a.1.0);
-    sorted.reverse();
+    sorted.sort_by(|a, b| b.1.0.cmp(&a.1.0).then_with(|| a.0.cmp(b.0)));
 
     for (key, value) in sorted {
         let star = if value.1 { "*" } else { " " };
-- 
2.43.0


From f8654c3e4b0ceec089cab3a824b414960784b748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:52 +0000
Subject: [PATCH 45/83] fix: a file reached through several paths is checked
 once

---
 crates/jarl/src/commands/check.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 4fc54e5..abda7d5 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -72,6 +72,8 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     // Files are discovered by several threads, so their order isn't always the
     // same.
     paths.sort();
+    // The same file may be reached through several of the given paths.
+    paths.dedup();
 
     if paths.is_empty() {
         let warning = format!(
-- 
2.43.0


From c589a23dcbc7f2707651dbbd3d9af2ab1652e0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 46/83] fix: the package is analyzed after fixes have been
 applied

---
 crates/jarl-core/src/check.rs | 55 ++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index 55ec31d..e5bed48 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -22,8 +22,6 @@ use crate::fix::*;
 use crate::utils::*;
 
 pub fn check(config: Config) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
-    let pkg = compute_package_analysis(&config.paths, &config);
-
     // Ensure that all paths are covered by VCS. This is conservative because
     // technically we could apply fixes on those that are covered by VCS and
     // error for the others, but I'd rather be on the safe side and force the
@@ -38,28 +36,33 @@ pub fn check(config: Config) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Err
 
     // Wrap config and package analysis in Arc to avoid expensive clones in parallel execution
     let config = Arc::new(config);
-    let pkg = Arc::new(pkg);
 
-    config
+    // All files are fixed before the package is analyzed, because fixes move
+    // the code that the analysis refers to.
+    let fix_results: Vec<Result<()>> = if config.apply_fixes || config.apply_unsafe_fixes {
+        config
+            .paths
+            .par_iter()
+            .map(|file| fix_path(file, Arc::clone(&config)))
+            .collect()
+    } else {
+        config.paths.iter().map(|_| Ok(())).collect()
+    };
+
+    let pkg = Arc::new(compute_package_analysis(&config.paths, &config));
+
+    let lint_results: Vec<Result<Vec<Diagnostic>>> = config
         .paths
         .par_iter()
-        .map(|file| {
-            let res = check_path(file, Arc::clone(&config), Arc::clone(&pkg));
-            (relativize_path(file), res)
-        })
-        .collect()
-}
+        .map(|file| lint_only(file, Arc::clone(&config), Arc::clone(&pkg)))
+        .collect();
 
-pub fn check_path(
-    path: &PathBuf,
-    config: Arc<Config>,
-    pkg: Arc<PackageAnalysis>,
-) -> Result<Vec<Diagnostic>, anyhow::Error> {
-    if config.apply_fixes || config.apply_unsafe_fixes {
-        lint_fix(path, config, pkg)
-    } else {
-        lint_only(path, config, pkg)
-    }
+    config
+        .paths
+        .iter()
+        .zip(fix_results.into_iter().zip(lint_results))
+        .map(|(file, (fixed, linted))| (relativize_path(file), fixed.and(linted)))
+        .collect()
 }
 
 pub fn lint_only(
@@ -77,17 +80,15 @@ pub fn lint_only(
     Ok(checks)
 }
 
-pub fn lint_fix(
-    path: &PathBuf,
-    config: Arc<Config>,
-    pkg: Arc<PackageAnalysis>,
-) -> Result<Vec<Diagnostic>, anyhow::Error> {
+fn fix_path(path: &PathBuf, config: Arc<Config>) -> Result<(), anyhow::Error> {
     // Rmd/Qmd files never get autofixes applied.
     if crate::fs::has_rmd_extension(path) {
-        return lint_only(path, config, pkg);
+        return Ok(());
     }
 
     let path = relativize_path(path);
+    // No rule based on the analysis of the package has a fix.
+    let pkg = PackageAnalysis::default();
 
     // Fixes that overlap are left for the next pass, and the code written by a
     // fix may itself need fixing, so this continues until nothing changes.
@@ -100,7 +101,7 @@ pub fn lint_fix(
 
         let (_, fixed_text) = apply_fixes(&checks, &contents);
         if fixed_text == contents {
-            return Ok(checks);
+            return Ok(());
         }
 
         fs::write(&path, fixed_text).with_context(|| format!("Failed to write file: {path}",))?;
-- 
2.43.0


From 9a837eefa777091df4eac51f27f9af8218a1d5a6 Mon Sep 17 00:00:00 2001
From: a <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:47 +0000
Subject: [PATCH 47/83] fix: --fix-only implies --fix and applies no unsafe fix
 by itself

---
 crates/jarl-core/src/config.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/config.rs b/crates/jarl-core/src/config.rs
index 7e691db..6f6e281 100644
--- a/crates/jarl-core/src/config.rs
+++ b/crates/jarl-core/src/config.rs
@@ -106,9 +106,12 @@ pub fn build_config(
     // These will be stored in Config and checked when applying fixes.
     let (fixable_toml, unfixable_toml) = parse_fixable_toml(toml_settings)?;
 
+    // Using --fix-only implies using --fix.
+    let fix = check_config.fix || check_config.fix_only;
+
     // Resolve the interaction between --fix and --unsafe-fixes first. Using
     // --unsafe-fixes implies using --fix, but the opposite is not true.
-    let rules_to_apply = match (check_config.fix, check_config.unsafe_fixes) {
+    let rules_to_apply = match (fix, check_config.unsafe_fixes) {
         (false, false) => rules.clone(),
 
         (true, false) => rules
@@ -126,7 +129,7 @@ pub fn build_config(
     // --fix-only. This could maybe be done above but dealing with the three
     // args at the same time makes it much more complex.
     let rules_to_apply = if check_config.fix_only {
-        rules
+        rules_to_apply
             .iter()
             .filter(|r| !r.has_no_fix())
             .collect::<RuleSet>()
@@ -147,7 +150,7 @@ pub fn build_config(
         paths,
         rules,
         rules_to_apply,
-        apply_fixes: check_config.fix,
+        apply_fixes: fix,
         apply_unsafe_fixes: check_config.unsafe_fixes,
         minimum_r_version,
         allow_dirty: check_config.allow_dirty,
-- 
2.43.0


From 15bb27c26cbbaa0e1cd1c2469213eca6e662c582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:02 +0000
Subject: [PATCH 48/83] fix: nothing is fixed when another group of files has
 to be refused, or another config is invalid

---
 crates/jarl-core/src/check.rs     | 27 ++++++++++++++++++++-------
 crates/jarl/src/commands/check.rs |  7 ++++---
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index e5bed48..eeacb17 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -22,18 +22,31 @@ use crate::fix::*;
 use crate::utils::*;
 
 pub fn check(config: Config) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
+    check_all(vec![config])
+}
+
+/// Checks groups of files that each have their own config.
+pub fn check_all(configs: Vec<Config>) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
     // Ensure that all paths are covered by VCS. This is conservative because
     // technically we could apply fixes on those that are covered by VCS and
     // error for the others, but I'd rather be on the safe side and force the
-    // user to deal with that before applying any fixes.
-    if (config.apply_fixes || config.apply_unsafe_fixes) && !config.paths.is_empty() {
-        let path_strings: Vec<String> = config.paths.iter().map(relativize_path).collect();
-        if let Err(e) = check_version_control(&path_strings, &config) {
-            let first_path = path_strings.first().unwrap().clone();
-            return vec![(first_path, Err(e))];
-        }
+    // user to deal with that before applying any fixes. For the same reason,
+    // this comes before fixing the files of any config.
+    let path_strings: Vec<String> = configs
+        .iter()
+        .filter(|config| config.apply_fixes || config.apply_unsafe_fixes)
+        .flat_map(|config| config.paths.iter().map(relativize_path))
+        .collect();
+    if let (Some(first_path), Some(config)) = (path_strings.first(), configs.first())
+        && let Err(e) = check_version_control(&path_strings, config)
+    {
+        return vec![(first_path.clone(), Err(e))];
     }
 
+    configs.into_iter().flat_map(check_config).collect()
+}
+
+fn check_config(config: Config) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
     // Wrap config and package analysis in Arc to avoid expensive clones in parallel execution
     let config = Arc::new(config);
 
diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index abda7d5..12517bb 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -117,15 +117,16 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         groups.entry(key).or_default().push(path);
     }
 
-    let mut file_results = Vec::new();
+    // All configs have to be valid before anything is checked or fixed.
+    let mut configs = Vec::new();
     for (dir_key, group_paths) in groups {
         let settings = dir_key
             .as_deref()
             .and_then(|dir| resolver.items().iter().find(|item| item.path() == dir))
             .map(|item| item.value());
-        let config = build_config(&check_config, settings, group_paths)?;
-        file_results.extend(jarl_core::check::check(config));
+        configs.push(build_config(&check_config, settings, group_paths)?);
     }
+    let mut file_results = jarl_core::check::check_all(configs);
     file_results.sort_by(|a, b| a.0.cmp(&b.0));
 
     let mut all_errors = Vec::new();
-- 
2.43.0


From 2c714b525c2c886c057a3f17c90e5d5e868d665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:02 +0000
Subject: [PATCH 49/83] fix: --allow-no-vcs does not allow fixing files with
 uncommitted changes

---
 crates/jarl-core/src/vcs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/vcs.rs b/crates/jarl-core/src/vcs.rs
index 58381b9..65b57c3 100644
--- a/crates/jarl-core/src/vcs.rs
+++ b/crates/jarl-core/src/vcs.rs
@@ -17,7 +17,8 @@ use std::path::Path;
 /// by grouping files per repo first. Then, we go through the repos to get the
 /// statuses (only once per repo).
 pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
-    if config.allow_no_vcs {
+    // Each option is about its own case only.
+    if config.allow_no_vcs && config.allow_dirty {
         return Ok(());
     }
 
@@ -47,7 +48,7 @@ pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
     }
 
     // Check if any paths are not in a repo
-    if !paths_without_repo.is_empty() {
+    if !paths_without_repo.is_empty() && !config.allow_no_vcs {
         bail!(
             "`jarl check --fix` can potentially perform destructive changes but no \
             Version Control System (e.g. Git) was found on this project, so no fixes \
-- 
2.43.0


From afb4a488fa64c1f68854043919a401379ae173bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:02 +0000
Subject: [PATCH 50/83] fix: uncommitted changes in linked worktrees are seen
 before fixing

---
 crates/jarl-core/src/vcs.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/crates/jarl-core/src/vcs.rs b/crates/jarl-core/src/vcs.rs
index 65b57c3..1ffb6c5 100644
--- a/crates/jarl-core/src/vcs.rs
+++ b/crates/jarl-core/src/vcs.rs
@@ -1,7 +1,7 @@
 use crate::config::Config;
 use anyhow::{Result, bail};
-use std::collections::HashMap;
-use std::path::Path;
+use std::collections::BTreeMap;
+use std::path::{Path, PathBuf};
 
 /// Check version control status once for multiple paths.
 ///
@@ -23,25 +23,21 @@ pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
     }
 
     // Group paths by their repository root
-    let mut repo_to_paths: HashMap<String, Vec<String>> = HashMap::new();
+    let mut repo_to_paths: BTreeMap<PathBuf, Vec<String>> = BTreeMap::new();
     let mut paths_without_repo: Vec<String> = Vec::new();
 
     for path in paths {
-        match git2::Repository::discover(Path::new(path)) {
-            Ok(repo) => {
-                // Get the repository root path as a key
-                let repo_path = repo
-                    .path()
-                    .parent()
-                    .and_then(|p| p.to_str())
-                    .unwrap_or("")
-                    .to_string();
-                repo_to_paths
-                    .entry(repo_path)
-                    .or_default()
-                    .push(path.clone());
+        // The root of the working directory is the key. This isn't always the
+        // parent of the `.git` folder, e.g. in linked worktrees.
+        let workdir = git2::Repository::discover(Path::new(path))
+            .ok()
+            .and_then(|repo| repo.workdir().map(Path::to_path_buf));
+
+        match workdir {
+            Some(workdir) => {
+                repo_to_paths.entry(workdir).or_default().push(path.clone());
             }
-            Err(_) => {
+            None => {
                 paths_without_repo.push(path.clone());
             }
         }
@@ -65,7 +61,7 @@ pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
     let mut all_dirty_files = Vec::new();
 
     for (repo_path, _paths) in repo_to_paths {
-        let repo = git2::Repository::discover(Path::new(&repo_path))?;
+        let repo = git2::Repository::discover(&repo_path)?;
 
         let mut repo_opts = git2::StatusOptions::new();
         repo_opts.include_ignored(false);
-- 
2.43.0


From 86f687b5f9afd18133fdaf76c6dfe1c992fab30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:02 +0000
Subject: [PATCH 51/83] fix: files ignored by version control are not fixed
 without --allow-no-vcs

---
 crates/jarl-core/src/vcs.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/crates/jarl-core/src/vcs.rs b/crates/jarl-core/src/vcs.rs
index 1ffb6c5..12e84d6 100644
--- a/crates/jarl-core/src/vcs.rs
+++ b/crates/jarl-core/src/vcs.rs
@@ -31,6 +31,7 @@ pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
         // parent of the `.git` folder, e.g. in linked worktrees.
         let workdir = git2::Repository::discover(Path::new(path))
             .ok()
+            .filter(|repo| !is_ignored(repo, path))
             .and_then(|repo| repo.workdir().map(Path::to_path_buf));
 
         match workdir {
@@ -101,3 +102,23 @@ pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
 
     Ok(())
 }
+
+/// Files that are ignored by VCS and not tracked aren't covered by VCS, even if
+/// they are located in a repository.
+fn is_ignored(repo: &git2::Repository, path: &str) -> bool {
+    let (Some(workdir), Ok(path)) = (repo.workdir(), Path::new(path).canonicalize()) else {
+        return false;
+    };
+    let Ok(workdir) = workdir.canonicalize() else {
+        return false;
+    };
+    let Ok(relative) = path.strip_prefix(&workdir) else {
+        return false;
+    };
+
+    // The first one is faster but doesn't know about tracked files.
+    repo.is_path_ignored(relative).unwrap_or(false)
+        && repo
+            .status_file(relative)
+            .is_ok_and(|status| status.contains(git2::Status::IGNORED))
+}
-- 
2.43.0


From 8546cccb6e85803eecc45a62538ebe54c719e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 52/83] fix: a configuration that cannot be read is an error,
 not a crash

---
 crates/jarl-core/src/toml.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/toml.rs b/crates/jarl-core/src/toml.rs
index aa3001a..13e0293 100644
--- a/crates/jarl-core/src/toml.rs
+++ b/crates/jarl-core/src/toml.rs
@@ -49,7 +49,8 @@ impl Display for ParseTomlError {
 }
 
 pub fn parse_jarl_toml(path: &Path) -> Result<TomlOptions, ParseTomlError> {
-    let toml = fs::read_to_string(path).unwrap();
+    let toml =
+        fs::read_to_string(path).map_err(|err| ParseTomlError::Read(path.to_path_buf(), err))?;
     toml::from_str(&toml).map_err(|err| ParseTomlError::Deserialize(path.to_path_buf(), err))
 }
 
-- 
2.43.0


From b48100b5e4cafdf185117ed7213de57467401e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 53/83] fix: the user configuration applies to the files
 without a closer one

---
 crates/jarl-core/src/discovery.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 8200438..7d57696 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -56,7 +56,7 @@ fn get_user_config_dir() -> Option<PathBuf> {
 pub fn discover_settings<P: AsRef<Path>>(paths: &[P]) -> anyhow::Result<Vec<DiscoveredSettings>> {
     let paths: Vec<PathBuf> = paths.iter().map(fs::normalize_path).collect();
 
-    let mut seen = FxHashSet::default();
+    let mut already_found: FxHashSet<PathBuf> = FxHashSet::default();
     let mut discovered_settings = Vec::with_capacity(paths.len());
     let user_config_dir = get_user_config_dir();
 
@@ -65,15 +65,14 @@ pub fn discover_settings<P: AsRef<Path>>(paths: &[P]) -> anyhow::Result<Vec<Disc
         let mut found_config = false;
 
         for ancestor in path.ancestors() {
-            let is_new_ancestor = seen.insert(ancestor);
-
-            if !is_new_ancestor {
-                // We already visited this ancestor, we can stop here.
+            if already_found.contains(ancestor) {
+                found_config = true;
                 break;
             }
 
             if let Some(toml) = find_jarl_toml_in_directory(ancestor) {
                 let settings = parse_settings(&toml, ancestor)?;
+                already_found.insert(ancestor.to_path_buf());
                 discovered_settings.push(DiscoveredSettings {
                     directory: ancestor.to_path_buf(),
                     settings,
@@ -91,15 +90,18 @@ pub fn discover_settings<P: AsRef<Path>>(paths: &[P]) -> anyhow::Result<Vec<Disc
             }
         }
 
-        // If no config found in ancestors, check user config directory as fallback
+        // If no config found in ancestors, check user config directory as
+        // fallback. This applies to all files without a closer config, so it is
+        // stored as if it was at the root of the file system.
         if !found_config
             && let Some(ref config_dir) = user_config_dir
-            && seen.insert(config_dir.as_path())
             && let Some(toml) = find_jarl_toml_in_directory(config_dir)
+            && let Some(root) = path.ancestors().last()
         {
             let settings = parse_settings(&toml, config_dir)?;
+            already_found.insert(root.to_path_buf());
             discovered_settings.push(DiscoveredSettings {
-                directory: config_dir.clone(),
+                directory: root.to_path_buf(),
                 settings,
                 config_path: Some(toml),
             });
@@ -109,11 +111,6 @@ pub fn discover_settings<P: AsRef<Path>>(paths: &[P]) -> anyhow::Result<Vec<Disc
     // For directory inputs, also walk down to discover any nested jarl.toml files.
     // This enables hierarchical configuration: files in subdirectories use the
     // nearest jarl.toml above them rather than always falling back to the root one.
-    let mut already_found: FxHashSet<PathBuf> = discovered_settings
-        .iter()
-        .map(|ds| ds.directory.clone())
-        .collect();
-
     for path in &paths {
         if path.is_dir() {
             discover_nested_settings(path, &mut already_found, &mut discovered_settings)?;
-- 
2.43.0


From b4321d2a61abd127e4301c659bbf3a5b27857280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 54/83] fix: each file and folder is excluded or included by
 the patterns of the closest configuration

---
 crates/jarl-core/src/discovery.rs | 232 ++++++++++++++++++------------
 1 file changed, 138 insertions(+), 94 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 7d57696..abf1769 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -5,13 +5,17 @@
 // MIT License - Posit PBC
 
 use ignore::DirEntry;
+use ignore::overrides::Override;
+use ignore::overrides::OverrideBuilder;
 use rustc_hash::FxHashSet;
 use std::path::Path;
 use std::path::PathBuf;
+use std::sync::Arc;
 
 use crate::fs;
 use crate::fs::has_r_extension;
 use crate::fs::has_rmd_extension;
+use crate::settings::LinterSettings;
 use crate::settings::Settings;
 use crate::toml::find_jarl_toml_in_directory;
 use crate::toml::parse_jarl_toml;
@@ -199,6 +203,11 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
     no_default_exclude: bool,
 ) -> DiscoveredFiles {
     let paths: Vec<PathBuf> = paths.iter().map(fs::normalize_path).collect();
+    let explicit_files: FxHashSet<PathBuf> = paths
+        .iter()
+        .filter(|path| !path.is_dir())
+        .cloned()
+        .collect();
 
     let Some((first_path, paths)) = paths.split_first() else {
         // No paths provided
@@ -224,46 +233,19 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
     builder.git_global(true);
     builder.git_exclude(true);
 
-    // Add exclude patterns from settings if linter settings should be used
-    if use_linter_settings {
-        // Build custom ignore patterns
-        let mut patterns = Vec::new();
-
-        // Default root directory if no settings found
-        let mut root = Path::new(".");
-
-        if let Some(settings_item) = resolver.items().first() {
-            let settings = settings_item.value();
-            root = settings_item.path();
-
-            // Add custom exclude patterns from jarl.toml
-            if let Some(exclude_patterns) = &settings.linter.exclude {
-                for pattern in exclude_patterns {
-                    patterns.push(pattern.as_str());
-                }
-            }
-            if settings.linter.default_exclude.unwrap_or(true) {
-                // Add default exclude patterns
-                patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
-            }
-        } else if !no_default_exclude {
-            // Add default exclude patterns
-            patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
-        }
-
-        // If we have patterns, create an override and add it to the builder
-        if !patterns.is_empty() {
-            let mut override_builder = ignore::overrides::OverrideBuilder::new(root);
-            for pattern in patterns {
-                // Add as negation pattern (exclude)
-                if let Err(e) = override_builder.add(&format!("!{pattern}")) {
-                    tracing::warn!("Failed to add exclude pattern '{}': {}", pattern, e);
-                }
-            }
-            if let Ok(overrides) = override_builder.build() {
-                builder.overrides(overrides);
-            }
-        }
+    // Each file and folder is filtered with the patterns of the closest config.
+    let filters = use_linter_settings.then(|| Arc::new(Filters::new(resolver, no_default_exclude)));
+
+    if let Some(filters) = &filters {
+        let filters = Arc::clone(filters);
+        // This isn't called for the paths that were given by the user.
+        builder.filter_entry(move |entry| {
+            let is_directory = entry.file_type().is_some_and(|ft| ft.is_dir());
+            let path = entry.path();
+            !filters
+                .closest(path.parent().unwrap_or(path))
+                .is_some_and(|filter| filter.excludes(path, is_directory))
+        });
     }
 
     // Prefer `available_parallelism()`, with a max of 12 threads
@@ -282,76 +264,138 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
 
     let mut files = state.finish();
 
-    // Post-filter: apply per-config exclude and include patterns.
-    //
-    // The WalkBuilder above only applies the first config's exclude patterns.
-    // When there are multiple configs (e.g. root jarl.toml + mypkg/jarl.toml),
-    // nested configs' exclude/include patterns must be enforced here by
-    // resolving each file to its nearest config.
-    if use_linter_settings {
+    // Post-filter: apply what doesn't depend on the entry only, i.e. include
+    // patterns and exclude patterns that match a parent folder of the paths
+    // that were given by the user.
+    if let Some(filters) = &filters {
         files.retain(|result| {
             let Ok(path) = result else {
                 return true;
             };
 
-            let Some(item) = resolver.resolve(path) else {
+            let Some(filter) = filters.closest(path) else {
                 return true;
             };
 
-            let settings = item.value();
-            let root = item.path();
-
-            // Exclude filter: remove files matching any exclude pattern
-            if let Some(exclude_patterns) = &settings.linter.exclude
-                && !exclude_patterns.is_empty()
-            {
-                let mut override_builder = ignore::overrides::OverrideBuilder::new(root);
-                for pattern in exclude_patterns {
-                    if let Err(e) = override_builder.add(&format!("!{pattern}")) {
-                        tracing::warn!("Failed to add exclude pattern '{}': {}", pattern, e);
-                    }
-                }
-                if let Ok(overrides) = override_builder.build() {
-                    let relative = path.strip_prefix(root).unwrap_or(path.as_path());
-                    if matches!(overrides.matched(relative, false), ignore::Match::Ignore(_)) {
-                        return false;
-                    }
-                }
-            }
-
-            // Include filter: if set, only keep files matching at least one pattern
-            if let Some(include_patterns) = &settings.linter.include
-                && !include_patterns.is_empty()
-            {
-                let mut override_builder = ignore::overrides::OverrideBuilder::new(root);
-                for pattern in include_patterns {
-                    let file_pattern = if pattern.ends_with('/') {
-                        format!("{}**", pattern)
-                    } else {
-                        pattern.clone()
-                    };
-                    if let Err(e) = override_builder.add(&file_pattern) {
-                        tracing::warn!("Failed to add include pattern '{}': {}", pattern, e);
-                    }
-                }
-                if let Ok(overrides) = override_builder.build() {
-                    let relative = path.strip_prefix(root).unwrap_or(path.as_path());
-                    if !matches!(
-                        overrides.matched(relative, false),
-                        ignore::Match::Whitelist(_)
-                    ) {
-                        return false;
-                    }
-                }
+            if explicit_files.contains(path) {
+                // Default patterns don't apply to explicitly provided files.
+                return !filter.excludes_explicit(path) && filter.includes(path);
             }
 
-            true
+            !filter.excludes_file_or_parent(path) && filter.includes(path)
         });
     }
 
     files
 }
 
+/// The patterns of all configs
+struct Filters {
+    filters: Vec<Filter>,
+    /// For files without any config
+    fallback: Option<Filter>,
+}
+
+/// The patterns of a config, relative to the folder of this config
+struct Filter {
+    root: PathBuf,
+    exclude: Override,
+    default_exclude: Override,
+    include: Option<Override>,
+}
+
+impl Filters {
+    fn new(resolver: &PathResolver<Settings>, no_default_exclude: bool) -> Self {
+        let filters = resolver
+            .items()
+            .iter()
+            .map(|item| Filter::new(item.path(), &item.value().linter))
+            .collect();
+        let fallback = (!no_default_exclude)
+            .then(|| Filter::new(&fs::normalize_path("."), &LinterSettings::default()));
+
+        Self { filters, fallback }
+    }
+
+    fn closest(&self, path: &Path) -> Option<&Filter> {
+        self.filters
+            .iter()
+            .filter(|filter| path.starts_with(&filter.root))
+            .max_by_key(|filter| filter.root.components().count())
+            .or(self.fallback.as_ref())
+    }
+}
+
+impl Filter {
+    fn new(root: &Path, settings: &LinterSettings) -> Self {
+        let exclude = settings.exclude.iter().flatten().map(String::as_str);
+        let default_exclude = DEFAULT_EXCLUDE_PATTERNS
+            .iter()
+            .copied()
+            .filter(|_| settings.default_exclude.unwrap_or(true));
+        let include: Vec<&str> = settings
+            .include
+            .iter()
+            .flatten()
+            .map(String::as_str)
+            .collect();
+
+        Self {
+            root: root.to_path_buf(),
+            exclude: overrides(root, exclude, "!"),
+            default_exclude: overrides(root, default_exclude, "!"),
+            include: (!include.is_empty()).then(|| overrides(root, include.into_iter(), "")),
+        }
+    }
+
+    fn excludes(&self, path: &Path, is_directory: bool) -> bool {
+        let path = path.strip_prefix(&self.root).unwrap_or(path);
+        [&self.exclude, &self.default_exclude]
+            .iter()
+            .any(|overrides| overrides.matched(path, is_directory).is_ignore())
+    }
+
+    fn excludes_explicit(&self, path: &Path) -> bool {
+        let path = path.strip_prefix(&self.root).unwrap_or(path);
+        self.exclude.matched(path, false).is_ignore()
+    }
+
+    fn excludes_file_or_parent(&self, path: &Path) -> bool {
+        self.excludes(path, false) || self.parents(path).any(|parent| self.excludes(parent, true))
+    }
+
+    /// Are there no include patterns, or does one of them match the file or one
+    /// of its parent folders?
+    fn includes(&self, path: &Path) -> bool {
+        let Some(include) = &self.include else {
+            return true;
+        };
+        let included = |path: &Path, is_directory| {
+            let path = path.strip_prefix(&self.root).unwrap_or(path);
+            include.matched(path, is_directory).is_whitelist()
+        };
+        included(path, false) || self.parents(path).any(|parent| included(parent, true))
+    }
+
+    /// The folders between the folder of the config and `path`.
+    fn parents<'a>(&'a self, path: &'a Path) -> impl Iterator<Item = &'a Path> {
+        path.ancestors()
+            .skip(1)
+            .take_while(|parent| parent.starts_with(&self.root) && *parent != self.root)
+    }
+}
+
+/// `prefix` is "!" for patterns that exclude files.
+fn overrides<'a>(root: &Path, patterns: impl Iterator<Item = &'a str>, prefix: &str) -> Override {
+    let mut builder = OverrideBuilder::new(root);
+    for pattern in patterns {
+        if let Err(e) = builder.add(&format!("{prefix}{pattern}")) {
+            tracing::warn!("Failed to add pattern '{}': {}", pattern, e);
+        }
+    }
+    builder.build().unwrap_or_else(|_| Override::empty())
+}
+
 /// Shared state across the threads of the walker
 struct FilesState {
     files: std::sync::Mutex<DiscoveredFiles>,
-- 
2.43.0


From 48e96aaf58b72c69f1a88c2fe3ac1bae0160ad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:04 +0000
Subject: [PATCH 55/83] fix: suppression comments are inserted only where they
 hide the violation and change no code

---
 crates/jarl-core/src/suppression_edit.rs | 153 +++++++++++++++++++++--
 1 file changed, 144 insertions(+), 9 deletions(-)

diff --git a/crates/jarl-core/src/suppression_edit.rs b/crates/jarl-core/src/suppression_edit.rs
index be2d974..361eae1 100644
--- a/crates/jarl-core/src/suppression_edit.rs
+++ b/crates/jarl-core/src/suppression_edit.rs
@@ -9,6 +9,8 @@ use air_r_parser::RParserOptions;
 use air_r_syntax::RSyntaxKind;
 use biome_rowan::{AstNode, SyntaxNode, TextRange, TextSize};
 
+use crate::suppression::SuppressionManager;
+
 /// Information about where to insert a suppression comment
 #[derive(Debug, Clone)]
 pub struct SuppressionInsertPoint {
@@ -29,6 +31,16 @@ pub struct SuppressionEdit {
     pub insert_point: SuppressionInsertPoint,
     /// The formatted comment text (including newline)
     pub comment_text: String,
+    /// The range of the code in which the comment hides violations
+    pub suppressed_range: Option<TextRange>,
+}
+
+impl SuppressionEdit {
+    /// Check if the comment hides a violation (of its rule) in this range.
+    pub fn suppresses(&self, range: TextRange) -> bool {
+        self.suppressed_range
+            .is_some_and(|suppressed| suppressed.contains_range(range))
+    }
 }
 
 /// Format suppression comments for one or more rules (one comment per rule).
@@ -145,7 +157,8 @@ pub fn format_suppression_comments(
 /// * `diagnostic_end` - The end byte offset of the diagnostic
 ///
 /// # Returns
-/// The insertion point if the code can be parsed, None otherwise.
+/// The insertion point, None if there is no place where a comment suppresses
+/// the diagnostic.
 pub fn compute_suppression_insert_point(
     source: &str,
     diagnostic_start: usize,
@@ -165,13 +178,132 @@ pub fn compute_suppression_insert_point(
         TextSize::from(diagnostic_end as u32),
     );
 
-    // Find the smallest expression containing the diagnostic using covering_element
-    let covering = root.syntax().covering_element(diagnostic_range);
-    let start_node = match covering {
-        biome_rowan::NodeOrToken::Node(node) => node,
-        biome_rowan::NodeOrToken::Token(token) => token.parent()?,
+    // Nothing hides what is reported about comments
+    if let biome_rowan::NodeOrToken::Token(token) = root.syntax().covering_element(diagnostic_range)
+        && !token.text_trimmed_range().contains_range(diagnostic_range)
+    {
+        return None;
+    }
+
+    // Whitespace around the code doesn't matter
+    let text = source.get(diagnostic_start..diagnostic_end)?;
+    let start = diagnostic_start + (text.len() - text.trim_start().len());
+    let code_range = TextRange::at(
+        TextSize::from(start as u32),
+        TextSize::from(text.trim().len() as u32),
+    );
+    let suppresses = |point: &SuppressionInsertPoint| {
+        suppressed_range(source, point).is_some_and(|range| range.contains_range(code_range))
     };
 
+    // The preferred place isn't always one where the comment suppresses the
+    // diagnostic, for instance if it would be above another expression of the
+    // same line. Then, use the smallest expression for which it does.
+    compute_preferred_insert_point(source, root.syntax(), diagnostic_range)
+        .filter(|point| suppresses(point))
+        .or_else(|| {
+            covering_node(root.syntax(), diagnostic_range)?
+                .ancestors()
+                .filter(can_follow_newline)
+                .map(|node| compute_insert_point_before(source, &node))
+                .find(|point| suppresses(point))
+        })
+}
+
+/// The range of the code (in `source`) in which a suppression comment inserted
+/// at `point` hides violations. `None` if what is inserted there isn't a comment
+/// that applies to some code, for instance because it would be in a string.
+pub fn suppressed_range(source: &str, point: &SuppressionInsertPoint) -> Option<TextRange> {
+    let comment = format_suppression_comments(
+        &["any_is_na"],
+        "<reason>",
+        &point.indent,
+        point.needs_leading_newline,
+    );
+    let mut edited = source.to_string();
+    edited.insert_str(point.offset, &comment);
+
+    let parsed = air_r_parser::parse(&edited, RParserOptions::default());
+    if parsed.has_error() {
+        return None;
+    }
+
+    let comment_start = TextSize::from((point.offset + comment.find('#')?) as u32);
+    let inserted = TextSize::from(comment.len() as u32);
+    SuppressionManager::from_node(&parsed.syntax(), &edited)
+        .node_suppressions
+        .iter()
+        .find(|x| x.comment_range.start() == comment_start && !x.node_range.is_empty())
+        .map(|x| x.node_range - inserted)
+}
+
+/// Find the smallest node containing the range.
+fn covering_node(
+    root: &SyntaxNode<air_r_syntax::RLanguage>,
+    range: TextRange,
+) -> Option<SyntaxNode<air_r_syntax::RLanguage>> {
+    match root.covering_element(range) {
+        biome_rowan::NodeOrToken::Node(node) => Some(node),
+        biome_rowan::NodeOrToken::Token(token) => token.parent(),
+    }
+}
+
+/// Check if a newline can be inserted before a node without changing the code.
+fn can_follow_newline(node: &SyntaxNode<air_r_syntax::RLanguage>) -> bool {
+    node.parent().is_some_and(|parent| {
+        matches!(
+            parent.kind(),
+            RSyntaxKind::R_EXPRESSION_LIST
+                | RSyntaxKind::R_ARGUMENT
+                | RSyntaxKind::R_ARGUMENT_LIST
+                | RSyntaxKind::R_PARAMETER
+                | RSyntaxKind::R_PARAMETER_LIST
+                | RSyntaxKind::R_PARAMETER_DEFAULT
+                | RSyntaxKind::R_PARENTHESIZED_EXPRESSION
+                | RSyntaxKind::R_FUNCTION_DEFINITION
+                | RSyntaxKind::R_IF_STATEMENT
+                | RSyntaxKind::R_FOR_STATEMENT
+                | RSyntaxKind::R_WHILE_STATEMENT
+                | RSyntaxKind::R_REPEAT_STATEMENT
+                | RSyntaxKind::R_ELSE_CLAUSE
+        )
+    })
+}
+
+/// The insertion point right before a node, on its own line.
+fn compute_insert_point_before(
+    source: &str,
+    node: &SyntaxNode<air_r_syntax::RLanguage>,
+) -> SuppressionInsertPoint {
+    let node_start: usize = node.text_trimmed_range().start().into();
+    if is_on_own_line(source, node_start) {
+        let (offset, indent) = find_line_start_and_indent(source, node_start);
+        SuppressionInsertPoint {
+            offset,
+            indent,
+            line: count_lines_to(source, offset),
+            needs_leading_newline: false,
+        }
+    } else {
+        SuppressionInsertPoint {
+            offset: node_start,
+            indent: compute_inline_indent(source, node_start),
+            line: count_lines_to(source, node_start),
+            needs_leading_newline: true,
+        }
+    }
+}
+
+/// The place where a comment disturbs the code the least, see
+/// [compute_suppression_insert_point].
+fn compute_preferred_insert_point(
+    source: &str,
+    root: &SyntaxNode<air_r_syntax::RLanguage>,
+    diagnostic_range: TextRange,
+) -> Option<SuppressionInsertPoint> {
+    // Find the smallest expression containing the diagnostic using covering_element
+    let start_node = covering_node(root, diagnostic_range)?;
+
     // Walk up the tree to find meaningful expressions
     // Strategy:
     // 1. Inside control flow (if/for/while): use the LARGEST meaningful expression
@@ -276,7 +408,7 @@ pub fn compute_suppression_insert_point(
     }
 
     // Fallback to simple insertion
-    compute_simple_insert_point(source, diagnostic_start)
+    compute_simple_insert_point(source, diagnostic_range.start().into())
 }
 
 /// Check if a position is on its own line (preceded only by whitespace after a newline)
@@ -436,6 +568,8 @@ pub fn create_suppression_edit_in_rmd(
             let local_end = diagnostic_end.saturating_sub(chunk.start_byte);
             let mut insert_point =
                 compute_suppression_insert_point(&chunk.code, local_start, local_end)?;
+            let suppressed_range = suppressed_range(&chunk.code, &insert_point)
+                .map(|range| range + TextSize::from(chunk.start_byte as u32));
             // Remap chunk-local offset to file-level offset.
             insert_point.offset += chunk.start_byte;
             let comment_text = format_suppression_comments(
@@ -444,7 +578,7 @@ pub fn create_suppression_edit_in_rmd(
                 &insert_point.indent,
                 insert_point.needs_leading_newline,
             );
-            return Some(SuppressionEdit { insert_point, comment_text });
+            return Some(SuppressionEdit { insert_point, comment_text, suppressed_range });
         }
     }
     None
@@ -461,6 +595,7 @@ pub fn create_suppression_edit(
     explanation: &str,
 ) -> Option<SuppressionEdit> {
     let insert_point = compute_suppression_insert_point(source, diagnostic_start, diagnostic_end)?;
+    let suppressed_range = suppressed_range(source, &insert_point);
     let comment_text = format_suppression_comments(
         &[rule_name],
         explanation,
@@ -468,7 +603,7 @@ pub fn create_suppression_edit(
         insert_point.needs_leading_newline,
     );
 
-    Some(SuppressionEdit { insert_point, comment_text })
+    Some(SuppressionEdit { insert_point, comment_text, suppressed_range })
 }
 
 #[cfg(test)]
-- 
2.43.0


From a6be625b7280a3cfecf7645ef956fdc9f46c471d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:04 +0000
Subject: [PATCH 56/83] fix: --add-jarl-ignore adds no comment for what another
 added comment hides

---
 crates/jarl/src/commands/check.rs | 45 ++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 12517bb..8471836 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -8,7 +8,8 @@ use jarl_core::{
     fs::has_rmd_extension,
     settings::Settings,
     suppression_edit::{
-        create_suppression_edit, create_suppression_edit_in_rmd, format_suppression_comments,
+        SuppressionEdit, create_suppression_edit, create_suppression_edit_in_rmd,
+        format_suppression_comments,
     },
 };
 
@@ -331,10 +332,9 @@ fn add_jarl_ignore_comments(
         };
 
         // Compute suppression edits for each diagnostic
-        // Store (offset, indent, needs_leading_newline, rule_name) to merge rules at same offset
-        let mut raw_edits: Vec<(usize, String, bool, String)> = Vec::new();
         let is_rmd = has_rmd_extension(&path);
-        for diagnostic in &diagnostics {
+        let mut edits: Vec<(&Diagnostic, SuppressionEdit)> = Vec::new();
+        for diagnostic in diagnostics {
             let start: usize = diagnostic.range.start().into();
             let end: usize = diagnostic.range.end().into();
             let rule_name = &diagnostic.message.name;
@@ -346,13 +346,38 @@ fn add_jarl_ignore_comments(
             };
 
             if let Some(edit) = edit {
-                raw_edits.push((
-                    edit.insert_point.offset,
-                    edit.insert_point.indent,
-                    edit.insert_point.needs_leading_newline,
-                    rule_name.clone(),
-                ));
+                edits.push((diagnostic, edit));
+            }
+        }
+
+        // A comment above some code also hides the violations of the same rule inside
+        // this code, so those don't need their own comment. Consider the comments
+        // that apply to the most code first.
+        edits.sort_by_key(|(_, edit)| {
+            std::cmp::Reverse(
+                edit.suppressed_range
+                    .map_or(0, |range| u32::from(range.len())),
+            )
+        });
+
+        // Store (offset, indent, needs_leading_newline, rule_name) to merge rules at same offset
+        let mut raw_edits: Vec<(usize, String, bool, String)> = Vec::new();
+        let mut kept: Vec<(&str, SuppressionEdit)> = Vec::new();
+        for (diagnostic, edit) in edits {
+            let rule_name = diagnostic.message.name.as_str();
+            if kept
+                .iter()
+                .any(|(rule, x)| *rule == rule_name && x.suppresses(diagnostic.range))
+            {
+                continue;
             }
+            raw_edits.push((
+                edit.insert_point.offset,
+                edit.insert_point.indent.clone(),
+                edit.insert_point.needs_leading_newline,
+                rule_name.to_string(),
+            ));
+            kept.push((rule_name, edit));
         }
 
         if raw_edits.is_empty() {
-- 
2.43.0


From 016628a25382cbed986f5e8c6fc3d41366ef4d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:04 +0000
Subject: [PATCH 57/83] fix: --add-jarl-ignore refuses an empty reason, without
 which comments hide nothing

---
 crates/jarl/src/commands/check.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 8471836..6fb8618 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -297,6 +297,13 @@ fn add_jarl_ignore_comments(
         ));
     }
 
+    // Comments without a reason don't suppress anything
+    if reason.trim().is_empty() {
+        return Err(anyhow::anyhow!(
+            "--add-jarl-ignore=<reason> cannot be empty."
+        ));
+    }
+
     if all_diagnostics.is_empty() {
         println!(
             "{}: {}",
-- 
2.43.0


From ecd5ccd65d5bf24d667b8446a1705ce00e44eef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:24 +0000
Subject: [PATCH 58/83] fix: the server answers requests after a shutdown, and
 ends without an error when told to exit

---
 crates/jarl-lsp/src/server.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index fea1aa8..47a12a5 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -144,6 +144,18 @@ impl Server {
                 // Handle LSP messages from client
                 recv(self.connection.receiver) -> msg => {
                     match msg {
+                        Ok(Message::Notification(notification))
+                            if notification.method == types::notification::Exit::METHOD =>
+                        {
+                            if session.is_shutdown_requested() {
+                                tracing::info!("Clean shutdown requested");
+                            } else {
+                                tracing::warn!(
+                                    "Exit without shutdown - this is a protocol violation"
+                                );
+                            }
+                            break;
+                        }
                         Ok(msg) => {
                             if let Err(e) = self.handle_message(msg, &mut session, &task_sender) {
                                 tracing::error!("Error handling message: {}", e);
@@ -179,10 +191,6 @@ impl Server {
                     }
                 }
             }
-
-            if session.is_shutdown_requested() {
-                break;
-            }
         }
 
         tracing::info!("Main loop stopped");
@@ -217,6 +225,15 @@ impl Server {
     ) -> LspResult<()> {
         let client = session.client().clone();
 
+        // After a shutdown request, the only thing left to do is to exit.
+        if session.is_shutdown_requested() {
+            client.send_error_response(
+                request.id,
+                anyhow!("The server is shutting down").to_lsp_error_with_code(-32600),
+            )?;
+            return Ok(());
+        }
+
         match request.method.as_str() {
             types::request::Shutdown::METHOD => {
                 session.request_shutdown();
@@ -267,14 +284,6 @@ impl Server {
     ) -> LspResult<()> {
         tracing::debug!("Handling notification: {}", notification.method);
         match notification.method.as_str() {
-            types::notification::Exit::METHOD => {
-                if session.is_shutdown_requested() {
-                    tracing::info!("Clean shutdown requested");
-                } else {
-                    tracing::warn!("Exit without shutdown - this is a protocol violation");
-                }
-                std::process::exit(0);
-            }
             types::notification::DidOpenTextDocument::METHOD => {
                 let params: types::DidOpenTextDocumentParams =
                     serde_json::from_value(notification.params)?;
-- 
2.43.0


From 3010df154de71eec1825b8fef98c76ed6625088d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:57 +0000
Subject: [PATCH 59/83] fix: outdated diagnostics are not published after newer
 ones or after the document is closed

---
 crates/jarl-lsp/src/server.rs  | 71 +++++++++++++++++++++++++++++-----
 crates/jarl-lsp/src/session.rs |  9 +++++
 2 files changed, 70 insertions(+), 10 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 47a12a5..8700391 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -8,7 +8,10 @@ use crossbeam::channel;
 use lsp_server::{Connection, Message, Notification, Request, RequestId, Response};
 use lsp_types::{self as types, notification::Notification as _, request::Request as _};
 
+use rustc_hash::FxHashMap;
+
 use std::num::NonZeroUsize;
+use std::sync::{Arc, Mutex};
 use std::thread;
 use std::time::Instant;
 
@@ -42,6 +45,8 @@ pub enum Task {
     LintDocument {
         snapshot: Box<DocumentSnapshot>,
         client: Client,
+        revisions: Revisions,
+        revision: u64,
     },
     /// Handle a code action request
     HandleCodeActionRequest {
@@ -52,6 +57,39 @@ pub enum Task {
     },
 }
 
+/// For each document, the number of times that what is shown about it had to
+/// change. This is shared between threads so that outdated diagnostics aren't
+/// published, for example those of a document that was closed while it was
+/// linted.
+#[derive(Clone, Debug, Default)]
+pub struct Revisions(Arc<Mutex<FxHashMap<types::Url, u64>>>);
+
+impl Revisions {
+    /// What is known about a document is now outdated.
+    pub fn next(&self, uri: &types::Url) -> u64 {
+        let mut revisions = self.0.lock().unwrap_or_else(|e| e.into_inner());
+        let revision = revisions.entry(uri.clone()).or_default();
+        *revision += 1;
+        *revision
+    }
+
+    /// Publish the diagnostics of a document unless they are outdated.
+    fn publish(
+        &self,
+        revision: u64,
+        client: &Client,
+        uri: types::Url,
+        diagnostics: Vec<types::Diagnostic>,
+        version: Option<i32>,
+    ) -> LspResult<()> {
+        let revisions = self.0.lock().unwrap_or_else(|e| e.into_inner());
+        if revisions.get(&uri) == Some(&revision) {
+            client.publish_diagnostics(uri, diagnostics, version)?;
+        }
+        Ok(())
+    }
+}
+
 impl Server {
     /// Create a new server instance
     pub fn new(worker_threads: NonZeroUsize, connection: Connection) -> Result<Self> {
@@ -326,10 +364,14 @@ impl Server {
                 session.close_document(params.text_document.uri.clone())?;
 
                 // Clear diagnostics for the closed document
-                session
-                    .client()
-                    .publish_diagnostics(params.text_document.uri, vec![], None)?;
-                Ok(())
+                let revision = session.revisions().next(&params.text_document.uri);
+                session.revisions().publish(
+                    revision,
+                    session.client(),
+                    params.text_document.uri,
+                    vec![],
+                    None,
+                )
             }
             types::notification::DidSaveTextDocument::METHOD => {
                 let params: types::DidSaveTextDocumentParams =
@@ -338,9 +380,12 @@ impl Server {
                 tracing::debug!("Document saved: {}", params.text_document.uri);
 
                 if let Some(snapshot) = session.take_snapshot(params.text_document.uri) {
+                    let revision = session.revisions().next(snapshot.uri());
                     task_sender.send(Task::LintDocument {
                         snapshot: Box::new(snapshot),
                         client: session.client().clone(),
+                        revisions: session.revisions().clone(),
+                        revision,
                     })?;
                 }
                 Ok(())
@@ -360,8 +405,8 @@ impl Server {
     ) {
         while let Ok(task) = task_receiver.recv() {
             match task {
-                Task::LintDocument { snapshot, client } => {
-                    if let Err(e) = Self::handle_lint_task(*snapshot, client) {
+                Task::LintDocument { snapshot, client, revisions, revision } => {
+                    if let Err(e) = Self::handle_lint_task(*snapshot, client, revisions, revision) {
                         tracing::error!("Error in lint task: {}", e);
                     }
                 }
@@ -373,7 +418,12 @@ impl Server {
     }
 
     /// Handle linting a document and publishing diagnostics
-    fn handle_lint_task(snapshot: DocumentSnapshot, client: Client) -> LspResult<()> {
+    fn handle_lint_task(
+        snapshot: DocumentSnapshot,
+        client: Client,
+        revisions: Revisions,
+        revision: u64,
+    ) -> LspResult<()> {
         let start = Instant::now();
         let output = lint::lint_document(&snapshot)?;
         let elapsed = start.elapsed();
@@ -389,12 +439,13 @@ impl Server {
             let _ = client.notify_unused_fn_threshold_once(output.unused_fn_hidden_count);
         }
 
-        client.publish_diagnostics(
+        revisions.publish(
+            revision,
+            &client,
             snapshot.uri().clone(),
             output.diagnostics,
             Some(snapshot.version()),
-        )?;
-        Ok(())
+        )
     }
 
     /// Handle a code action request by providing quick fixes for diagnostics
diff --git a/crates/jarl-lsp/src/session.rs b/crates/jarl-lsp/src/session.rs
index d5d6279..a1bf0db 100644
--- a/crates/jarl-lsp/src/session.rs
+++ b/crates/jarl-lsp/src/session.rs
@@ -18,6 +18,7 @@ use std::path::PathBuf;
 use crate::LspResult;
 use crate::client::Client;
 use crate::document::{DocumentKey, DocumentVersion, PositionEncoding, TextDocument};
+use crate::server::Revisions;
 
 /// Initialization options sent by the client
 #[derive(Debug, Deserialize, Default)]
@@ -45,6 +46,8 @@ pub struct Session {
     client: Client,
     /// Whether we've shown the config notification
     config_notification_shown: bool,
+    /// Which of the diagnostics being computed are outdated
+    revisions: Revisions,
 }
 
 /// Immutable snapshot of a document and its context
@@ -75,6 +78,7 @@ impl Session {
             workspace_roots,
             client,
             config_notification_shown: false,
+            revisions: Revisions::default(),
         }
     }
 
@@ -239,6 +243,11 @@ impl Session {
         &self.client
     }
 
+    /// Get which of the diagnostics being computed are outdated
+    pub fn revisions(&self) -> &Revisions {
+        &self.revisions
+    }
+
     /// Get the number of open documents
     pub fn document_count(&self) -> usize {
         self.documents.len()
-- 
2.43.0


From 682cb4554fb2c4a4250a237cb7f694990d667955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:07 +0000
Subject: [PATCH 60/83] fix: requests with invalid parameters get an error
 instead of no response

---
 crates/jarl-lsp/src/server.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 8700391..ff8a539 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -281,7 +281,16 @@ impl Server {
             // Pull diagnostics are disabled: diagnostics are only published on save.
             // This avoids showing stale or partial diagnostics while typing.
             types::request::CodeActionRequest::METHOD => {
-                let params: types::CodeActionParams = serde_json::from_value(request.params)?;
+                let params: types::CodeActionParams = match serde_json::from_value(request.params) {
+                    Ok(params) => params,
+                    Err(e) => {
+                        client.send_error_response(
+                            request.id,
+                            anyhow!("Invalid parameters: {e}").to_lsp_error_with_code(-32602),
+                        )?;
+                        return Ok(());
+                    }
+                };
                 let uri = params.text_document.uri.clone();
 
                 if let Some(snapshot) = session.take_snapshot(uri) {
-- 
2.43.0


From 3cacef6e01a40f6c8a5f82eccb04f5878b7da723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:00 +0000
Subject: [PATCH 61/83] fix: diagnostics of the previous version are cleared
 when a saved document cannot be linted

---
 crates/jarl-lsp/src/server.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index ff8a539..ac46534 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -434,7 +434,21 @@ impl Server {
         revision: u64,
     ) -> LspResult<()> {
         let start = Instant::now();
-        let output = lint::lint_document(&snapshot)?;
+        let output = match lint::lint_document(&snapshot) {
+            Ok(output) => output,
+            Err(e) => {
+                // For instance a syntax error. The diagnostics of the previous
+                // version of the document don't apply to this one.
+                revisions.publish(
+                    revision,
+                    &client,
+                    snapshot.uri().clone(),
+                    vec![],
+                    Some(snapshot.version()),
+                )?;
+                return Err(e);
+            }
+        };
         let elapsed = start.elapsed();
 
         tracing::debug!(
-- 
2.43.0


From 65ce542b6af97441718d47f956284980ae7d241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:48 +0000
Subject: [PATCH 62/83] fix: a change without a range replaces the whole
 document

---
 crates/jarl-lsp/src/document.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index 10a0e5d..22f2654 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -137,11 +137,12 @@ impl TextDocument {
         // Work on a copy so that an invalid change leaves the document untouched.
         let mut updated = self.clone();
         for (i, change) in changes.iter().enumerate() {
-            let range = change.range.ok_or_else(|| {
-                anyhow!(
-                    "Full document replacement not supported - only incremental changes allowed"
-                )
-            })?;
+            // A change without a range replaces the whole document.
+            let Some(range) = change.range else {
+                updated.content = change.text.clone();
+                updated.line_starts = Self::compute_line_starts(&updated.content);
+                continue;
+            };
 
             let start_offset = updated.position_to_offset(range.start, encoding)?;
             let end_offset = updated.position_to_offset(range.end, encoding)?;
-- 
2.43.0


From 5b10f2cd8c8c4ecca77f7eaec980e6017856b877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 63/83] fix: functions in the tests of a package are checked
 even if no file of R/ is

---
 crates/jarl-core/src/package.rs | 40 ++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index f785c38..d0aac90 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -1,5 +1,6 @@
 use biome_rowan::TextRange;
 use rayon::prelude::*;
+use std::borrow::Cow;
 use std::collections::{HashMap, HashSet};
 use std::path::{Path, PathBuf};
 
@@ -28,6 +29,9 @@ pub(crate) enum FileScope {
     Src,
 }
 
+/// Directories of a package where functions are only checked within this directory.
+const TEST_DIRS: &[&str] = &["inst/tinytest", "inst/tests", "tests"];
+
 /// Shared per-file data collected during the single parallel scan.
 pub(crate) struct SharedFileData {
     pub root_key: String,
@@ -63,6 +67,16 @@ pub struct PackageAnalysis {
 /// the unused-function rule is enabled). The results are then dispatched to
 /// the duplicate and unused-function checkers.
 pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAnalysis {
+    compute_package_analysis_with_unsaved(paths, config, None)
+}
+
+/// Same as [compute_package_analysis()], where one of the files may have another
+/// content than on disk because it is being edited.
+pub fn compute_package_analysis_with_unsaved(
+    paths: &[PathBuf],
+    config: &Config,
+    unsaved: Option<(&Path, &str)>,
+) -> PackageAnalysis {
     let rules = &config.rules_to_apply;
     let check_duplicates = rules.contains(&Rule::DuplicatedFunctionDefinition);
     let check_unused = rules.contains(&Rule::UnusedFunction);
@@ -112,9 +126,25 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     let mut excluded_r_files: Vec<(PathBuf, &Path)> = Vec::new();
     let mut namespace_contents: HashMap<PathBuf, String> = HashMap::new();
 
+    // Functions defined in the tests of a package are also checked, whether or
+    // not files of its R/ directory are.
+    let test_dirs: HashSet<&Path> = paths
+        .iter()
+        .filter(|p| check_unused && has_r_extension(p))
+        .filter_map(|p| p.parent())
+        .collect();
+    let test_roots = test_dirs.into_iter().filter_map(|dir| {
+        let root = find_package_root(&dir.join("file.R"))?;
+        let is_test_dir = TEST_DIRS
+            .iter()
+            .any(|test_dir| dir.starts_with(root.join(test_dir)));
+        (is_test_dir && root.join("R").is_dir()).then_some(root)
+    });
+
     let package_roots: HashSet<PathBuf> = r_dir_files
         .iter()
         .filter_map(|p| p.parent().and_then(|r| r.parent()).map(|r| r.to_path_buf()))
+        .chain(test_roots)
         .collect();
 
     // Collect the set of R/ files already in paths (canonicalized for comparison).
@@ -140,7 +170,7 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
 
         if check_unused {
             // Collect test/tinytest R files
-            for dir_name in &["inst/tinytest", "inst/tests", "tests"] {
+            for dir_name in TEST_DIRS {
                 let dir = root.join(dir_name);
                 if dir.is_dir() {
                     extra_files.extend(
@@ -192,8 +222,12 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
         .par_iter()
         .filter_map(|(path, scope, package_root)| {
             // A file in another encoding still uses functions.
-            let content = std::fs::read(path).ok()?;
-            let content = String::from_utf8_lossy(&content);
+            let content = match unsaved {
+                Some((unsaved_path, content)) if unsaved_path == *path => {
+                    Cow::Borrowed(content)
+                }
+                _ => Cow::Owned(String::from_utf8_lossy(&std::fs::read(path).ok()?).into_owned()),
+            };
             let symbol_counts = match scope {
                 _ if !check_unused => HashMap::new(),
                 FileScope::Src => scan_cpp_symbols(&content),
-- 
2.43.0


From ad0ed1c31bb75b844d1ad36eaa9f579bb6bf2a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:59 +0000
Subject: [PATCH 64/83] fix: the server leaves out the same files as the
 command line, with the same meaning of patterns

---
 crates/jarl-core/src/discovery.rs | 10 +++++
 crates/jarl-core/src/package.rs   |  4 +-
 crates/jarl-lsp/src/lint.rs       |  7 ++--
 crates/jarl-lsp/src/utils.rs      | 64 -------------------------------
 4 files changed, 14 insertions(+), 71 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index abf1769..6cd58ed 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -289,6 +289,16 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
     files
 }
 
+/// Is a file (that wasn't explicitly given by the user) left out by the exclude
+/// and include patterns of the config it belongs to?
+pub fn is_excluded_by_settings(path: &Path, resolver: &PathResolver<Settings>) -> bool {
+    let path = fs::normalize_path(path);
+
+    Filters::new(resolver, false)
+        .closest(&path)
+        .is_some_and(|filter| filter.excludes_file_or_parent(&path) || !filter.includes(&path))
+}
+
 /// The patterns of all configs
 struct Filters {
     filters: Vec<Filter>,
diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index d0aac90..fd49938 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -223,9 +223,7 @@ pub fn compute_package_analysis_with_unsaved(
         .filter_map(|(path, scope, package_root)| {
             // A file in another encoding still uses functions.
             let content = match unsaved {
-                Some((unsaved_path, content)) if unsaved_path == *path => {
-                    Cow::Borrowed(content)
-                }
+                Some((unsaved_path, content)) if unsaved_path == *path => Cow::Borrowed(content),
                 _ => Cow::Owned(String::from_utf8_lossy(&std::fs::read(path).ok()?).into_owned()),
             };
             let symbol_counts = match scope {
diff --git a/crates/jarl-lsp/src/lint.rs b/crates/jarl-lsp/src/lint.rs
index 42ffbc1..3da7121 100644
--- a/crates/jarl-lsp/src/lint.rs
+++ b/crates/jarl-lsp/src/lint.rs
@@ -12,13 +12,12 @@ use std::path::{Path, PathBuf};
 use crate::DIAGNOSTIC_SOURCE;
 use crate::document::PositionEncoding;
 use crate::session::DocumentSnapshot;
-use crate::utils::should_exclude_file_based_on_settings;
 
 use air_workspace::resolve::PathResolver;
 use jarl_core::check::get_checks;
 use jarl_core::config::{ArgsConfig, build_config};
 use jarl_core::diagnostic::Diagnostic as JarlDiagnostic;
-use jarl_core::discovery::{DiscoveredSettings, discover_settings};
+use jarl_core::discovery::{DiscoveredSettings, discover_settings, is_excluded_by_settings};
 use jarl_core::fs::{has_r_extension, relativize_path};
 use jarl_core::package::{compute_package_analysis, is_in_r_package};
 use jarl_core::settings::Settings;
@@ -111,8 +110,8 @@ fn run_jarl_linting(content: &str, file_path: Option<&Path>) -> Result<LintInter
     }
 
     // Check if the file should be excluded based on settings in jarl.toml
-    // (`exclude` or `default-exclude`).
-    if should_exclude_file_based_on_settings(file_path, &resolver) {
+    // (`exclude`, `include` or `default-exclude`).
+    if is_excluded_by_settings(file_path, &resolver) {
         tracing::debug!("Skipping linting for excluded file: {:?}", file_path);
         return Ok(empty);
     }
diff --git a/crates/jarl-lsp/src/utils.rs b/crates/jarl-lsp/src/utils.rs
index 7c89bd6..d5a6ff8 100644
--- a/crates/jarl-lsp/src/utils.rs
+++ b/crates/jarl-lsp/src/utils.rs
@@ -2,10 +2,6 @@
 
 use std::path::Path;
 
-use air_workspace::resolve::PathResolver;
-use jarl_core::discovery::DEFAULT_EXCLUDE_PATTERNS;
-use jarl_core::settings::Settings;
-
 /// Check if a path string matches an exclusion pattern
 ///
 /// Patterns can be:
@@ -101,66 +97,6 @@ pub fn should_exclude_file(file_path: &Path, patterns: &[&str]) -> bool {
     false
 }
 
-/// Check if a file should be excluded based on settings from jarl.toml
-///
-/// This function checks both the `default-exclude` option (which is `true` by default)
-/// and any custom `exclude` patterns specified in the jarl.toml configuration.
-///
-/// # Arguments
-/// * `file_path` - The path to the file to check
-/// * `resolver` - The path resolver containing the discovered settings
-///
-/// # Returns
-/// `true` if the file should be excluded from linting, `false` otherwise
-pub fn should_exclude_file_based_on_settings(
-    file_path: &Path,
-    resolver: &PathResolver<Settings>,
-) -> bool {
-    // Get the first settings item (the one applicable to this file)
-    let Some(settings_item) = resolver.items().first() else {
-        // No settings found, don't exclude
-        return false;
-    };
-
-    let settings = settings_item.value();
-
-    // Check if default_exclude is enabled (true by default)
-    let use_default_exclude = settings.linter.default_exclude.unwrap_or(true);
-
-    let mut patterns = Vec::new();
-
-    if use_default_exclude {
-        patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
-    }
-
-    // Add custom exclude patterns from jarl.toml
-    if let Some(exclude_patterns) = &settings.linter.exclude {
-        for pattern in exclude_patterns {
-            patterns.push(pattern.as_str());
-        }
-    }
-
-    // Check if the file matches any exclusion pattern
-    if !patterns.is_empty() && should_exclude_file(file_path, &patterns) {
-        return true;
-    }
-
-    // Check include patterns: if set and the file doesn't match any, exclude it.
-    if let Some(include_patterns) = &settings.linter.include
-        && !include_patterns.is_empty()
-    {
-        let path_str = file_path.to_string_lossy();
-        let is_included = include_patterns
-            .iter()
-            .any(|p| matches_pattern(&path_str, p));
-        if !is_included {
-            return true;
-        }
-    }
-
-    false
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 4866071b909b3d2cbab514aafec9e91827748796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:59 +0000
Subject: [PATCH 65/83] fix: in the editor, package checks also apply to tests
 and know about unsaved changes

---
 crates/jarl-lsp/src/lint.rs | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/crates/jarl-lsp/src/lint.rs b/crates/jarl-lsp/src/lint.rs
index 3da7121..d169ca0 100644
--- a/crates/jarl-lsp/src/lint.rs
+++ b/crates/jarl-lsp/src/lint.rs
@@ -18,8 +18,8 @@ use jarl_core::check::get_checks;
 use jarl_core::config::{ArgsConfig, build_config};
 use jarl_core::diagnostic::Diagnostic as JarlDiagnostic;
 use jarl_core::discovery::{DiscoveredSettings, discover_settings, is_excluded_by_settings};
-use jarl_core::fs::{has_r_extension, relativize_path};
-use jarl_core::package::{compute_package_analysis, is_in_r_package};
+use jarl_core::fs::relativize_path;
+use jarl_core::package::compute_package_analysis_with_unsaved;
 use jarl_core::settings::Settings;
 
 /// Fix information that can be attached to a diagnostic for code actions
@@ -133,12 +133,13 @@ fn run_jarl_linting(content: &str, file_path: Option<&Path>) -> Result<LintInter
     let toml_settings = resolver.items().first().map(|item| item.value());
     let config = build_config(&check_config, toml_settings, vec![file_path.to_path_buf()])?;
 
-    // Compute package-level analysis using the real file's sibling R files.
-    let pkg = if let Some(package_files) = collect_sibling_r_files(file_path) {
-        compute_package_analysis(&package_files, &config)
-    } else {
-        Default::default()
-    };
+    // Compute package-level analysis of the package this file is in (if any),
+    // with the in-memory content of this file.
+    let pkg = compute_package_analysis_with_unsaved(
+        &[file_path.to_path_buf()],
+        &config,
+        Some((file_path, content)),
+    );
 
     // Call get_checks directly with the in-memory content and the real
     // (relativized) file path, avoiding the old tempfile round-trip.
@@ -189,22 +190,6 @@ fn run_jarl_linting(content: &str, file_path: Option<&Path>) -> Result<LintInter
     Ok(LintInternalOutput { diagnostics, unused_fn_hidden_count })
 }
 
-/// If `file_path` lives inside an R package's `R/` directory, return all
-/// `.R` files in that directory. Returns `None` otherwise.
-fn collect_sibling_r_files(file_path: &Path) -> Option<Vec<PathBuf>> {
-    if !is_in_r_package(file_path).unwrap_or(false) {
-        return None;
-    }
-    let r_dir = file_path.parent()?;
-    let entries = std::fs::read_dir(r_dir).ok()?;
-    let files = entries
-        .filter_map(|e| e.ok())
-        .map(|e| e.path())
-        .filter(|p| has_r_extension(p))
-        .collect();
-    Some(files)
-}
-
 /// Convert a Jarl diagnostic to LSP diagnostic format with fix information
 fn convert_to_lsp_diagnostic(
     jarl_diag: &JarlDiagnostic,
-- 
2.43.0


From 9c3c62d6df7be2d2658ad7d495d847a888028a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:14 +0000
Subject: [PATCH 66/83] fix: the editor doesn't offer fixes that would remove
 comments

---
 crates/jarl-lsp/src/lint.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-lsp/src/lint.rs b/crates/jarl-lsp/src/lint.rs
index d169ca0..c27f7d1 100644
--- a/crates/jarl-lsp/src/lint.rs
+++ b/crates/jarl-lsp/src/lint.rs
@@ -212,10 +212,17 @@ fn convert_to_lsp_diagnostic(
 
     // Extract fix information if available
     // Always include fix_data even if there's no actual fix, so we can access the rule_name
+    // Fixes that have to be skipped (e.g. because they would remove comments) are never applied.
+    let (fix_content, fix_start, fix_end) = if jarl_diag.fix.to_skip {
+        (String::new(), 0, 0)
+    } else {
+        let fix = &jarl_diag.fix;
+        (fix.content.clone(), fix.start, fix.end)
+    };
     let diagnostic_fix = DiagnosticFix {
-        content: jarl_diag.fix.content.clone(),
-        start: jarl_diag.fix.start,
-        end: jarl_diag.fix.end,
+        content: fix_content,
+        start: fix_start,
+        end: fix_end,
         is_safe: jarl_diag.has_safe_fix(),
         rule_name: jarl_diag.message.name.clone(),
         diagnostic_start: start_offset,
-- 
2.43.0


From f9eaa88f33f23fddc5dd581900c744c5d577f50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:26 +0000
Subject: [PATCH 67/83] fix: suppression comments are inserted by the editor
 where the command line does

---
 crates/jarl-lsp/src/server.rs | 99 ++++++++++-------------------------
 1 file changed, 28 insertions(+), 71 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index ac46534..32a1683 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -604,64 +604,30 @@ impl Server {
             .as_deref()
             .is_some_and(jarl_core::fs::has_rmd_extension);
 
-        let insert_point = if is_rmd {
-            suppression_edit::create_suppression_edit_in_rmd(
-                content,
-                fix.diagnostic_start,
-                fix.diagnostic_end,
-                rule_name,
-                "<reason>",
-            )?
-            .insert_point
+        // This takes care of the hoisting, and returns nothing if there is no place
+        // where a comment would suppress the violation.
+        let create_suppression_edit = if is_rmd {
+            suppression_edit::create_suppression_edit_in_rmd
         } else {
-            // Use the core infrastructure to compute the insertion point with proper hoisting
-            suppression_edit::compute_suppression_insert_point(
-                content,
-                fix.diagnostic_start,
-                fix.diagnostic_end,
-            )?
-        };
-
-        // Check if there's already a jarl-ignore comment that covers this rule
-        if insert_point.line > 0
-            && !insert_point.needs_leading_newline
-            && let Some(prev_line_text) = Self::get_line_text(content, insert_point.line - 1)
-            && let Some((_, existing_rules)) =
-                suppression_edit::parse_existing_suppression(&prev_line_text)
-        {
-            match existing_rules {
-                Some(rules) if rules.iter().any(|r| r == rule_name) => {
-                    // Rule already suppressed
-                    return None;
-                }
-                _ => {
-                    // No rules or other rules - we'll add a new line
-                }
-            }
-        }
-
-        // Always insert a new comment line (each rule gets its own comment with its own explanation)
-        let (insert_range, new_comment) = if insert_point.needs_leading_newline {
-            // Inline insertion: insert right at the expression with a leading newline
-            let insert_pos = Self::offset_to_position(content, insert_point.offset);
-            let comment = suppression_edit::format_suppression_comments(
-                &[rule_name],
-                "<reason>",
-                &insert_point.indent,
-                true,
-            );
-            (types::Range::new(insert_pos, insert_pos), comment)
-        } else {
-            // Insert new comment at line start
-            let line_start_pos = types::Position::new(insert_point.line as u32, 0);
-            let comment = suppression_edit::format_suppression_comments(
-                &[rule_name],
-                "<reason>",
-                &insert_point.indent,
-                false,
-            );
-            (types::Range::new(line_start_pos, line_start_pos), comment)
+            suppression_edit::create_suppression_edit
         };
+        let edit = create_suppression_edit(
+            content,
+            fix.diagnostic_start,
+            fix.diagnostic_end,
+            rule_name,
+            "<reason>",
+        )?;
+
+        // Always insert a new comment (each rule gets its own comment with its own explanation)
+        let insert_pos = crate::lint::byte_offset_to_lsp_position(
+            edit.insert_point.offset,
+            content,
+            snapshot.position_encoding(),
+        )
+        .ok()?;
+        let insert_range = types::Range::new(insert_pos, insert_pos);
+        let new_comment = edit.comment_text;
 
         let text_edit = types::TextEdit { range: insert_range, new_text: new_comment };
 
@@ -728,7 +694,12 @@ impl Server {
 
         // Insert at the very first byte of the chunk code (top of the chunk).
         // Use the Quarto-idiomatic YAML array form so the comment is valid YAML.
-        let insert_pos = Self::offset_to_position(content, chunk.start_byte);
+        let insert_pos = crate::lint::byte_offset_to_lsp_position(
+            chunk.start_byte,
+            content,
+            snapshot.position_encoding(),
+        )
+        .ok()?;
         let new_comment = format!("#| jarl-ignore-chunk:\n#|   - {rule_name}: <reason>\n");
         let insert_range = types::Range::new(insert_pos, insert_pos);
 
@@ -750,20 +721,6 @@ impl Server {
             data: None,
         })
     }
-
-    /// Convert a byte offset to an LSP Position
-    fn offset_to_position(content: &str, offset: usize) -> types::Position {
-        let before = &content[..offset.min(content.len())];
-        let line = before.matches('\n').count() as u32;
-        let line_start = before.rfind('\n').map(|p| p + 1).unwrap_or(0);
-        let character = (offset - line_start) as u32;
-        types::Position::new(line, character)
-    }
-
-    /// Get the text of a specific line
-    fn get_line_text(content: &str, line_number: usize) -> Option<String> {
-        content.lines().nth(line_number).map(|s| s.to_string())
-    }
 }
 
 /// Check if two ranges overlap
-- 
2.43.0


From df0bc4fc8c10f6d14271a0fcd4d59efde0b9a498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:03 +0000
Subject: [PATCH 68/83] fix: the R version of each file is the one of the
 project it belongs to

---
 crates/jarl-core/src/config.rs    | 53 ++++++++++++++++++-------------
 crates/jarl/src/commands/check.rs | 16 +++++++---
 2 files changed, 42 insertions(+), 27 deletions(-)

diff --git a/crates/jarl-core/src/config.rs b/crates/jarl-core/src/config.rs
index 6f6e281..54e0bbe 100644
--- a/crates/jarl-core/src/config.rs
+++ b/crates/jarl-core/src/config.rs
@@ -7,7 +7,11 @@ use crate::{
 };
 use air_r_syntax::RSyntaxKind;
 use anyhow::Result;
-use std::{collections::HashSet, fs, path::PathBuf};
+use std::{
+    collections::HashSet,
+    fs,
+    path::{Path, PathBuf},
+};
 
 use crate::rule_options::assignment::ResolvedAssignmentOptions;
 
@@ -518,29 +522,34 @@ fn determine_minimum_r_version(
         return Ok(Some(parse_r_version(version_string.clone())?));
     }
 
-    // Look for DESCRIPTION file in any of the project paths
-    // TODO: this seems wasteful but I don't have a good infrastructure for now
-    // for getting the common root of the paths.
-    for path in paths {
-        let desc_path = if path.is_dir() {
-            path.join("DESCRIPTION")
-        } else if let Some(parent) = path.parent() {
-            parent.join("DESCRIPTION")
-        } else {
-            continue;
-        };
+    // Rules have to be compatible with the R version of all files, so it is the
+    // lowest one that counts, and it is unknown if the one of a file is unknown.
+    let descriptions: HashSet<Option<PathBuf>> =
+        paths.iter().map(|path| find_description(path)).collect();
+    let versions: Option<Vec<(u32, u32, u32)>> = descriptions
+        .iter()
+        .map(|description| description_r_version(description.as_deref()?))
+        .collect();
 
-        if desc_path.exists() {
-            let desc = fs::read_to_string(&desc_path)?;
-            if let Ok(versions) = Description::get_depend_r_version(&desc)
-                && let Some(version_str) = versions.first()
-            {
-                return Ok(Some(parse_r_version(version_str.to_string())?));
-            }
-        }
-    }
+    Ok(versions.and_then(|versions| versions.into_iter().min()))
+}
+
+/// The DESCRIPTION file of the project that a file (or folder) belongs to, i.e.
+/// the closest one.
+pub fn find_description(path: &Path) -> Option<PathBuf> {
+    path.ancestors()
+        .map(|ancestor| ancestor.join("DESCRIPTION"))
+        .find(|description| description.is_file())
+}
 
-    Ok(None)
+/// The minimum R version of a DESCRIPTION file, if there is one that can be read.
+fn description_r_version(description: &Path) -> Option<(u32, u32, u32)> {
+    let content = fs::read(description).ok()?;
+    let versions = Description::get_depend_r_version(&String::from_utf8_lossy(&content)).ok()?;
+    versions
+        .into_iter()
+        .filter_map(|version| parse_r_version(version).ok())
+        .max()
 }
 
 /// Parse R version string in format "x.y" or "x.y.z" and return (major, minor, patch)
diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 6fb8618..7af466f 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -4,6 +4,7 @@ use jarl_core::rule_set::Rule;
 use jarl_core::{
     config::ArgsConfig,
     config::build_config,
+    config::find_description,
     diagnostic::Diagnostic,
     fs::has_rmd_extension,
     settings::Settings,
@@ -109,18 +110,23 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     };
 
     // Group paths by their closest resolved config directory, so each file is
-    // checked with the settings from the nearest jarl.toml.
-    let mut groups: BTreeMap<Option<PathBuf>, Vec<PathBuf>> = BTreeMap::new();
+    // checked with the settings from the nearest jarl.toml, and by their closest
+    // DESCRIPTION, so it is checked with the R version of its project.
+    let mut groups: BTreeMap<(Option<PathBuf>, Option<PathBuf>), Vec<PathBuf>> = BTreeMap::new();
     for path in paths {
-        let key = resolver
+        let config_dir = resolver
             .resolve(&path)
             .map(|item| item.path().to_path_buf());
-        groups.entry(key).or_default().push(path);
+        let description = find_description(&path);
+        groups
+            .entry((config_dir, description))
+            .or_default()
+            .push(path);
     }
 
     // All configs have to be valid before anything is checked or fixed.
     let mut configs = Vec::new();
-    for (dir_key, group_paths) in groups {
+    for ((dir_key, _), group_paths) in groups {
         let settings = dir_key
             .as_deref()
             .and_then(|dir| resolver.items().iter().find(|item| item.path() == dir))
-- 
2.43.0


From 163499571096000538ac01fbb0ac5c87d54d57c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:03 +0000
Subject: [PATCH 69/83] fix: the action to ignore a rule in a chunk is offered
 where it has an effect

---
 crates/jarl-lsp/src/server.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 32a1683..07ae7a8 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -682,13 +682,10 @@ impl Server {
             fix.diagnostic_start >= c.start_byte && fix.diagnostic_start <= chunk_end
         })?;
 
-        // Skip if this rule is already suppressed for the whole chunk.
-        // Check both the legacy single-line form and the YAML-array form.
-        let already_suppressed = chunk
-            .code
-            .contains(&format!("jarl-ignore-chunk {rule_name}"))
-            || chunk.code.contains(&format!("- {rule_name}:"));
-        if already_suppressed {
+        // Violations about comments can't be suppressed this way.
+        if jarl_core::rule_set::Rule::from_name(rule_name)
+            .is_some_and(|rule| rule.has_category(jarl_core::rule_set::Category::Comm))
+        {
             return None;
         }
 
-- 
2.43.0


From 90b6280f9f066c1a866a43058c95bf1185934547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:28 +0000
Subject: [PATCH 70/83] revert "fix: the editor doesn't offer fixes that would
 remove comments": get_checks already drops them

---
 crates/jarl-lsp/src/lint.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/crates/jarl-lsp/src/lint.rs b/crates/jarl-lsp/src/lint.rs
index c27f7d1..d169ca0 100644
--- a/crates/jarl-lsp/src/lint.rs
+++ b/crates/jarl-lsp/src/lint.rs
@@ -212,17 +212,10 @@ fn convert_to_lsp_diagnostic(
 
     // Extract fix information if available
     // Always include fix_data even if there's no actual fix, so we can access the rule_name
-    // Fixes that have to be skipped (e.g. because they would remove comments) are never applied.
-    let (fix_content, fix_start, fix_end) = if jarl_diag.fix.to_skip {
-        (String::new(), 0, 0)
-    } else {
-        let fix = &jarl_diag.fix;
-        (fix.content.clone(), fix.start, fix.end)
-    };
     let diagnostic_fix = DiagnosticFix {
-        content: fix_content,
-        start: fix_start,
-        end: fix_end,
+        content: jarl_diag.fix.content.clone(),
+        start: jarl_diag.fix.start,
+        end: jarl_diag.fix.end,
         is_safe: jarl_diag.has_safe_fix(),
         rule_name: jarl_diag.message.name.clone(),
         diagnostic_start: start_offset,
-- 
2.43.0


From 77fa9adaccaa97f0a76651fbd792d6b474066d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:31 +0000
Subject: [PATCH 71/83] fix: versions with plus signs (+4.5) are refused

---
 crates/jarl-core/src/config.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/config.rs b/crates/jarl-core/src/config.rs
index 54e0bbe..e52a07e 100644
--- a/crates/jarl-core/src/config.rs
+++ b/crates/jarl-core/src/config.rs
@@ -556,7 +556,8 @@ fn description_r_version(description: &Path) -> Option<(u32, u32, u32)> {
 pub fn parse_r_version(min_r_version: String) -> Result<(u32, u32, u32)> {
     let parts: Vec<&str> = min_r_version.split('.').collect();
 
-    if parts.len() < 2 || parts.len() > 3 {
+    // `parse()` would accept a plus sign
+    if !(2..=3).contains(&parts.len()) || min_r_version.contains('+') {
         return Err(anyhow::anyhow!(
             "Invalid version format. Expected 'x.y' or 'x.y.z', e.g., '4.3' or '4.3.0'"
         ));
-- 
2.43.0


From 0fcc18b394e2f02dbc35ec8e5fa1a3f60d393cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:03 +0000
Subject: [PATCH 72/83] fix: assignments in bodies of nested statements without
 braces are not implicit

---
 .../implicit_assignment.rs                    | 79 ++++---------------
 1 file changed, 16 insertions(+), 63 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/implicit_assignment/implicit_assignment.rs b/crates/jarl-core/src/lints/base/implicit_assignment/implicit_assignment.rs
index 78b248e..401027f 100644
--- a/crates/jarl-core/src/lints/base/implicit_assignment/implicit_assignment.rs
+++ b/crates/jarl-core/src/lints/base/implicit_assignment/implicit_assignment.rs
@@ -1,7 +1,6 @@
 use crate::check::Checker;
 use crate::diagnostic::*;
 use crate::utils::get_function_name;
-use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -105,69 +104,23 @@ pub fn implicit_assignment(
     // while (TRUE) x <- 1
     // ```
     // i.e., we want to skip cases that are in the body of RIfStatement /
-    // RForStatement / RWhileStatement.
-
-    let ancestor_is_if = {
-        let mut result = false;
-
-        let in_if_body = ast.parent_is_if_body();
-        let in_else_body = ast.parent_is_else_body();
-
-        if !in_if_body && !in_else_body {
-            for ancestor in ast.syntax().ancestors() {
-                if RBracedExpressions::can_cast(ancestor.kind()) {
-                    // Found braced expressions first, so skip
-                    result = false;
-                    break;
-                } else if RIfStatement::can_cast(ancestor.kind()) {
-                    // Found argument first, so include
-                    result = true;
-                    break;
-                }
-            }
-        }
-        result
-    };
-    let ancestor_is_while = {
-        let mut result = false;
-
-        let in_while_body = ast.parent_is_while_body();
-
-        if !in_while_body {
-            for ancestor in ast.syntax().ancestors() {
-                if RBracedExpressions::can_cast(ancestor.kind()) {
-                    // Found braced expressions first, so skip
-                    result = false;
-                    break;
-                } else if RWhileStatement::can_cast(ancestor.kind()) {
-                    // Found argument first, so include
-                    result = true;
-                    break;
-                }
-            }
-        }
-        result
-    };
-    let ancestor_is_for = {
-        let mut result = false;
-
-        let in_for_body = ast.parent_is_for_body();
-
-        if !in_for_body {
-            for ancestor in ast.syntax().ancestors() {
-                if RBracedExpressions::can_cast(ancestor.kind()) {
-                    // Found braced expressions first, so skip
-                    result = false;
-                    break;
-                } else if RForStatement::can_cast(ancestor.kind()) {
-                    // Found argument first, so include
-                    result = true;
-                    break;
-                }
-            }
-        }
-        result
+    // RForStatement / RWhileStatement, even if they are not the body itself,
+    // e.g. `for (i in 1:2) if (TRUE) x <- 1`. If an RBracedExpressions is a
+    // closer ancestor, then this is skipped too.
+    let is_before_body = |statement: RSyntaxKind, body: usize| {
+        ast.syntax()
+            .ancestors()
+            .take_while(|ancestor| !RBracedExpressions::can_cast(ancestor.kind()))
+            .any(|ancestor| {
+                ancestor.index() < body
+                    && ancestor
+                        .parent()
+                        .is_some_and(|parent| parent.kind() == statement)
+            })
     };
+    let ancestor_is_if = is_before_body(RSyntaxKind::R_IF_STATEMENT, 4);
+    let ancestor_is_while = is_before_body(RSyntaxKind::R_WHILE_STATEMENT, 4);
+    let ancestor_is_for = is_before_body(RSyntaxKind::R_FOR_STATEMENT, 6);
 
     if !ancestor_is_if && !ancestor_is_while && !ancestor_is_arg && !ancestor_is_for {
         return Ok(None);
-- 
2.43.0


From 981622785e779a58ad7a417d7fe3e8b5aef384b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 73/83] fix: duplicated arguments are listed in the same order
 in every run

---
 .../duplicated_arguments/duplicated_arguments.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
index 7a6248a..4c834d6 100644
--- a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
+++ b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 
 use crate::checker::Checker;
 use crate::diagnostic::*;
@@ -115,17 +115,15 @@ pub fn duplicated_arguments(ast: &RCall, checker: &Checker) -> anyhow::Result<Op
     Ok(None)
 }
 
+/// The values that occur several times, in the order of their first occurrence.
 fn get_duplicates(values: &[String]) -> Vec<String> {
     let mut counts = HashMap::new();
     for item in values {
         *counts.entry(item).or_insert(0) += 1;
     }
-    let duplicates: HashSet<String> = counts
-        .into_iter()
-        .filter(|(_, count)| *count > 1)
-        .map(|(item, _)| item.clone())
-        .collect();
-
-    let duplicates_vec: Vec<String> = duplicates.into_iter().collect();
-    duplicates_vec
+    values
+        .iter()
+        .filter(|item| counts.remove(item).is_some_and(|count| count > 1))
+        .cloned()
+        .collect()
 }
-- 
2.43.0


From 9a4638721aa76cb57d7f4c8fdc3104f5b8c8ac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:19 +0000
Subject: [PATCH 74/83] fix: quotes inside the names of arguments are not
 ignored when looking for duplicates

---
 .../base/duplicated_arguments/duplicated_arguments.rs    | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
index 4c834d6..53abb2c 100644
--- a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
+++ b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
@@ -70,11 +70,14 @@ pub fn duplicated_arguments(ast: &RCall, checker: &Checker) -> anyhow::Result<Op
                 && let Ok(name) = name_clause.name()
             {
                 let name = name.to_trimmed_string();
-                let name_no_quotes = name.replace(&['\'', '"', '`'][..], "");
-                if name_no_quotes.chars().count() == 0 {
+                let name_no_quotes = ['\'', '"', '`']
+                    .iter()
+                    .find_map(|&quote| name.strip_prefix(quote)?.strip_suffix(quote))
+                    .unwrap_or(&name);
+                if name_no_quotes.is_empty() {
                     Some(name)
                 } else {
-                    Some(name_no_quotes)
+                    Some(name_no_quotes.to_string())
                 }
             } else {
                 None
-- 
2.43.0


From 7aa5d2a510df39496d57d5fd8e1f96a780bf7d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 75/83] fix: assignments in calls and conditions are not turned
 into arguments and syntax errors by --assignment '='

---
 .../src/lints/base/assignment/assignment.rs   | 34 ++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/assignment/assignment.rs b/crates/jarl-core/src/lints/base/assignment/assignment.rs
index 8423725..0ab5301 100644
--- a/crates/jarl-core/src/lints/base/assignment/assignment.rs
+++ b/crates/jarl-core/src/lints/base/assignment/assignment.rs
@@ -107,6 +107,8 @@ pub fn assignment(
         || operator.has_trailing_comments()
         || rhs.has_leading_comments();
 
+    let cannot_be_equal = assignment == RSyntaxKind::EQUAL && !is_statement(ast.syntax());
+
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
         ViolationData::new("assignment".to_string(), msg.to_string(), None),
@@ -115,9 +117,39 @@ pub fn assignment(
             content: replacement,
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: drops_comments,
+            to_skip: drops_comments || cannot_be_equal,
         },
     );
 
     Ok(Some(diagnostic))
 }
+
+/// `=` is only an assignment in statements. Elsewhere, it names an argument
+/// (`f(x = 1)`, `x[y = 1]`) or is a syntax error (`if (x = 1) y`).
+fn is_statement(node: &RSyntaxNode) -> bool {
+    let Some(parent) = node.parent() else {
+        return false;
+    };
+    match parent.kind() {
+        RSyntaxKind::R_EXPRESSION_LIST | RSyntaxKind::R_PARENTHESIZED_EXPRESSION => true,
+        // Bodies are statements, if what they belong to is one.
+        RSyntaxKind::R_IF_STATEMENT | RSyntaxKind::R_WHILE_STATEMENT => {
+            node.index() >= 4 && is_statement(&parent)
+        }
+        RSyntaxKind::R_FOR_STATEMENT => node.index() == 6 && is_statement(&parent),
+        RSyntaxKind::R_ELSE_CLAUSE
+        | RSyntaxKind::R_REPEAT_STATEMENT
+        | RSyntaxKind::R_FUNCTION_DEFINITION => is_statement(&parent),
+        // In `x = y <- 1`
+        RSyntaxKind::R_BINARY_EXPRESSION => {
+            RBinaryExpression::cast(parent.clone()).is_some_and(|outer| {
+                outer
+                    .operator()
+                    .is_ok_and(|op| op.kind() == RSyntaxKind::EQUAL)
+                    && outer.right().is_ok_and(|right| right.syntax() == node)
+                    && is_statement(&parent)
+            })
+        }
+        _ => false,
+    }
+}
-- 
2.43.0


From a9b111bdebfb04baf26751f6d9790beec9303082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:27 +0000
Subject: [PATCH 76/83] fix: count the named arguments of `sprintf()` too

`sprintf("%s", x = 1)` passes `x` to `...`, it is not a mismatch.
---
 .../jarl-core/src/lints/base/sprintf/sprintf.rs   | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
index f8b7f12..c87d05d 100644
--- a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
+++ b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
@@ -1,6 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{
-    get_arg_by_name_then_position, get_function_name, get_unnamed_args, node_contains_comments,
+    get_arg_by_name_then_position, get_function_name, node_contains_comments,
 };
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
@@ -113,12 +113,13 @@ pub fn sprintf(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(Some(diagnostic));
     }
 
-    let dots = get_unnamed_args(&args);
-    let len_dots = if fmt.name_clause().is_some() {
-        dots.len()
-    } else {
-        dots.len() - 1
-    };
+    // All arguments other than `fmt`, named or not, are passed to `...`.
+    let dots = args
+        .iter()
+        .filter_map(|arg| arg.ok())
+        .filter(|arg| arg != &fmt)
+        .collect::<Vec<_>>();
+    let len_dots = dots.len();
 
     // If any specifier uses positional references, use max position
     // Otherwise, sum up all arguments consumed (including * for width/precision)
-- 
2.43.0


From 6ca5f9764b15521b0b758b930e778edab5d7424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:27 +0000
Subject: [PATCH 77/83] fix: don't count the arguments of `sprintf()` when they
 include `...`

---
 crates/jarl-core/src/lints/base/sprintf/sprintf.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
index c87d05d..a9bb4a4 100644
--- a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
+++ b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
@@ -119,6 +119,13 @@ pub fn sprintf(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         .filter_map(|arg| arg.ok())
         .filter(|arg| arg != &fmt)
         .collect::<Vec<_>>();
+    // We cannot know how many arguments `...` stands for.
+    if dots
+        .iter()
+        .any(|arg| matches!(arg.value(), Some(AnyRExpression::RDots(_))))
+    {
+        return Ok(None);
+    }
     let len_dots = dots.len();
 
     // If any specifier uses positional references, use max position
-- 
2.43.0


From 053188da1a117ed7acfbea34385003f13936b2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:47 +0000
Subject: [PATCH 78/83] fix: accept `*n$` in the format of `sprintf()`

`sprintf("%2$.*1$g", 3, pi)` was reported as having an invalid `%`.
---
 .../src/lints/base/sprintf/sprintf.rs         | 61 ++++++++++++-------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
index a9bb4a4..78b266d 100644
--- a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
+++ b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
@@ -1,7 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::{
-    get_arg_by_name_then_position, get_function_name, node_contains_comments,
-};
+use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
@@ -221,20 +219,10 @@ fn parse_sprintf_format(s: &str) -> SprintfParseResult {
             let mut args_consumed = 1; // At least 1 for the value itself
 
             // Parse optional position (e.g., "1$" in "%1$s")
-            let start = i;
-            while i < chars.len() && chars[i].is_ascii_digit() {
-                i += 1;
-            }
-            if i < chars.len() && chars[i] == '$' {
-                if let Ok(pos) = chars[start..i].iter().collect::<String>().parse::<usize>() {
-                    has_positional = true;
-                    if pos > max_position {
-                        max_position = pos;
-                    }
-                    i += 1; // Skip the '$'
-                }
-            } else {
-                i = start; // Reset, wasn't a position specifier
+            if let Some((pos, next)) = parse_position(&chars, i) {
+                has_positional = true;
+                max_position = max_position.max(pos);
+                i = next;
             }
 
             // Skip flags (-, +, space, 0, #)
@@ -248,22 +236,34 @@ fn parse_sprintf_format(s: &str) -> SprintfParseResult {
                 i += 1;
             }
 
-            // Parse width (can be * or digits)
+            // Parse width (can be *, *n$, or digits)
             if i < chars.len() && chars[i] == '*' {
-                args_consumed += 1; // * consumes an argument
                 i += 1;
+                if let Some((pos, next)) = parse_position(&chars, i) {
+                    has_positional = true;
+                    max_position = max_position.max(pos);
+                    i = next;
+                } else {
+                    args_consumed += 1; // * consumes an argument
+                }
             } else {
                 while i < chars.len() && chars[i].is_ascii_digit() {
                     i += 1;
                 }
             }
 
-            // Parse precision (. followed by * or digits)
+            // Parse precision (. followed by *, *n$, or digits)
             if i < chars.len() && chars[i] == '.' {
                 i += 1;
                 if i < chars.len() && chars[i] == '*' {
-                    args_consumed += 1; // .* consumes an argument
                     i += 1;
+                    if let Some((pos, next)) = parse_position(&chars, i) {
+                        has_positional = true;
+                        max_position = max_position.max(pos);
+                        i = next;
+                    } else {
+                        args_consumed += 1; // .* consumes an argument
+                    }
                 } else {
                     while i < chars.len() && chars[i].is_ascii_digit() {
                         i += 1;
@@ -295,3 +295,22 @@ fn parse_sprintf_format(s: &str) -> SprintfParseResult {
         output_string,
     }
 }
+
+// Parse a position such as "1$" starting at `start`. Returns the position and
+// the index of what follows it.
+fn parse_position(chars: &[char], start: usize) -> Option<(usize, usize)> {
+    let n_digits = chars[start..]
+        .iter()
+        .take_while(|c| c.is_ascii_digit())
+        .count();
+    let end = start + n_digits;
+    if chars.get(end) != Some(&'$') {
+        return None;
+    }
+    let pos = chars[start..end]
+        .iter()
+        .collect::<String>()
+        .parse::<usize>()
+        .ok()?;
+    Some((pos, end + 1))
+}
-- 
2.43.0


From dfddb09b9351ce48265c7687251043b48d196faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:48 +0000
Subject: [PATCH 79/83] fix: don't report `fixed_regex` when `ignore.case` may
 be true

`ignore.case` is ignored with `fixed = TRUE`, so that the fix of
`grepl("abc", x, ignore.case = ic)` changed its meaning.
---
 .../jarl-core/src/lints/base/fixed_regex/fixed_regex.rs   | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs b/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
index fbbc74c..8ad4232 100644
--- a/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
+++ b/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
@@ -79,10 +79,12 @@ pub fn fixed_regex(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     };
     if let Some(ignore_case_arg) =
         get_arg_by_name_then_position(&args, "ignore.case", ignore_case_position)
-        && let Some(value) = ignore_case_arg.value()
-        && value.syntax().text_trimmed() == "TRUE"
+        && ignore_case_arg
+            .value()
+            .is_none_or(|value| value.syntax().text_trimmed() != "FALSE")
     {
-        // ignore.case = TRUE implies regex interpretation is needed
+        // ignore.case = TRUE implies regex interpretation is needed, and it
+        // might be TRUE if it isn't literally FALSE
         return Ok(None);
     }
 
-- 
2.43.0


From 6813ed924e508d4e8d698690cacb6e49f454ac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:56 +0000
Subject: [PATCH 80/83] fix: match the arguments of regex functions by name
 before position

In `grepl("abc", x = y, TRUE)`, `TRUE` is `ignore.case`.
---
 .../src/lints/base/fixed_regex/fixed_regex.rs | 39 +++++++++++++------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs b/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
index 8ad4232..d44ecc6 100644
--- a/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
+++ b/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
@@ -1,6 +1,8 @@
 use crate::diagnostic::*;
 use crate::utils::drop_arg_by_name_or_position;
-use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
+use crate::utils::{
+    get_arg_by_name, get_arg_by_name_then_position, get_function_name, node_contains_comments,
+};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -53,12 +55,32 @@ pub fn fixed_regex(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     let fn_name = get_function_name(function);
     let args = ast.arguments()?.items();
 
-    // Determine the position of the 'fixed' argument based on the function
-    let fixed_position = match fn_name.as_str() {
-        "grep" | "gsub" | "sub" => 6,
-        "regexpr" | "gregexpr" | "regexec" | "grepl" => 5,
+    // The arguments of the function, up to the last one needed
+    let formals: &[&str] = match fn_name.as_str() {
+        "grep" => &["pattern", "x", "ignore.case", "perl", "value", "fixed"],
+        "grepl" => &["pattern", "x", "ignore.case", "perl", "fixed"],
+        "gsub" | "sub" => &[
+            "pattern",
+            "replacement",
+            "x",
+            "ignore.case",
+            "perl",
+            "fixed",
+        ],
+        "regexpr" | "gregexpr" | "regexec" => &["pattern", "text", "ignore.case", "perl", "fixed"],
         _ => return Ok(None),
     };
+    // Where to find an argument among the unnamed ones: those passed by name
+    // don't take a position.
+    let position = |name: &str| {
+        formals
+            .iter()
+            .take_while(|formal| **formal != name)
+            .filter(|formal| get_arg_by_name(&args, formal).is_none())
+            .count()
+            + 1
+    };
+    let fixed_position = position("fixed");
 
     // Check if fixed is already set to something else than FALSE
     let fixed_arg = get_arg_by_name_then_position(&args, "fixed", fixed_position);
@@ -72,13 +94,8 @@ pub fn fixed_regex(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     // Check if ignore.case is set to TRUE (implies regex interpretation)
-    let ignore_case_position = match fn_name.as_str() {
-        "gsub" | "sub" => 4,
-        "regexpr" | "gregexpr" | "regexec" | "grep" | "grepl" => 3,
-        _ => return Ok(None),
-    };
     if let Some(ignore_case_arg) =
-        get_arg_by_name_then_position(&args, "ignore.case", ignore_case_position)
+        get_arg_by_name_then_position(&args, "ignore.case", position("ignore.case"))
         && ignore_case_arg
             .value()
             .is_none_or(|value| value.syntax().text_trimmed() != "FALSE")
-- 
2.43.0


From 26201b0a79a9d9ae50080d33779cfcf8717ab3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:20 +0000
Subject: [PATCH 81/83] fix: don't count unused functions that are not
 reported, in the language server

---
 crates/jarl-lsp/src/lint.rs | 38 +++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-lsp/src/lint.rs b/crates/jarl-lsp/src/lint.rs
index d169ca0..2d63839 100644
--- a/crates/jarl-lsp/src/lint.rs
+++ b/crates/jarl-lsp/src/lint.rs
@@ -15,11 +15,11 @@ use crate::session::DocumentSnapshot;
 
 use air_workspace::resolve::PathResolver;
 use jarl_core::check::get_checks;
-use jarl_core::config::{ArgsConfig, build_config};
+use jarl_core::config::{ArgsConfig, Config, build_config};
 use jarl_core::diagnostic::Diagnostic as JarlDiagnostic;
 use jarl_core::discovery::{DiscoveredSettings, discover_settings, is_excluded_by_settings};
 use jarl_core::fs::relativize_path;
-use jarl_core::package::compute_package_analysis_with_unsaved;
+use jarl_core::package::{PackageAnalysis, compute_package_analysis_with_unsaved};
 use jarl_core::settings::Settings;
 
 /// Fix information that can be attached to a diagnostic for code actions
@@ -177,6 +177,14 @@ fn run_jarl_linting(content: &str, file_path: Option<&Path>) -> Result<LintInter
                 .min()
                 .unwrap_or(50);
 
+            // This includes those in excluded files and suppressed ones, which
+            // aren't reported, so count again in this case.
+            let total_unused = if total_unused > threshold {
+                count_unused_functions(&pkg, &config, &resolver, &rel_path, content)
+            } else {
+                total_unused
+            };
+
             if total_unused > threshold {
                 diagnostics.retain(|d| d.message.name != "unused_function");
                 total_unused
@@ -190,6 +198,32 @@ fn run_jarl_linting(content: &str, file_path: Option<&Path>) -> Result<LintInter
     Ok(LintInternalOutput { diagnostics, unused_fn_hidden_count })
 }
 
+/// Number of `unused_function` diagnostics reported in the whole package, using
+/// the in-memory content of the file `rel_path`.
+fn count_unused_functions(
+    pkg: &PackageAnalysis,
+    config: &Config,
+    resolver: &PathResolver<Settings>,
+    rel_path: &Path,
+    content: &str,
+) -> usize {
+    pkg.unused_functions
+        .keys()
+        .filter(|path| !is_excluded_by_settings(path, resolver))
+        .filter_map(|path| {
+            let diagnostics = if path == rel_path {
+                get_checks(content, path, config, pkg).ok()?
+            } else {
+                get_checks(&std::fs::read_to_string(path).ok()?, path, config, pkg).ok()?
+            };
+            let unused = diagnostics
+                .iter()
+                .filter(|d| d.message.name == "unused_function");
+            Some(unused.count())
+        })
+        .sum()
+}
+
 /// Convert a Jarl diagnostic to LSP diagnostic format with fix information
 fn convert_to_lsp_diagnostic(
     jarl_diag: &JarlDiagnostic,
-- 
2.43.0


From f1a7dcf9fed856a44ecb7d2525d4ee86daae2f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:14 +0000
Subject: [PATCH 82/83] fix: bring the JSON schema of the configuration up to
 date

---
 artifacts/jarl.schema.json                    | 233 +++++++++++++++++-
 .../jarl-core/src/rule_options/assignment.rs  |   1 +
 crates/jarl-core/src/toml.rs                  |   1 +
 3 files changed, 231 insertions(+), 4 deletions(-)

diff --git a/artifacts/jarl.schema.json b/artifacts/jarl.schema.json
index 19daacd..56fe9ff 100644
--- a/artifacts/jarl.schema.json
+++ b/artifacts/jarl.schema.json
@@ -16,16 +16,96 @@
   },
   "additionalProperties": false,
   "$defs": {
-    "LinterTomlOptions": {
+    "AssignmentConfig": {
+      "description": "Accepts either the legacy top-level string (`assignment = \"<-\"`) or the new\ntable form (`[lint.assignment]` with an `operator` field).\n\nTOML doesn't allow a key to be both a string and a table, but by trying the\ntable form first we can surface clear errors (like \"unknown field\") while\nstill falling back to the legacy string form.",
+      "anyOf": [
+        {
+          "description": "Legacy: `assignment = \"<-\"` (deprecated)",
+          "type": "string"
+        },
+        {
+          "description": "New: `[lint.assignment]` table with fields",
+          "$ref": "#/$defs/AssignmentOptions"
+        }
+      ]
+    },
+    "AssignmentOptions": {
+      "description": "TOML options for `[lint.assignment]`.\n\nUse `operator` to specify which assignment operator to enforce.\nValid values are `\"<-\"` (the default) and `\"=\"`.",
       "type": "object",
       "properties": {
-        "assignment": {
-          "title": "Assignment operator to use",
-          "description": "This can be either `\"<-\"` or `\"=\"`. Both are valid in R, so this\noption is useful to ensure consistency in a project.",
+        "operator": {
           "type": [
             "string",
             "null"
           ]
+        }
+      },
+      "additionalProperties": false
+    },
+    "DuplicatedArgumentsOptions": {
+      "description": "TOML options for `[lint.duplicated_arguments]`.\n\nUse `skipped-functions` to fully replace the default list of functions\nthat are allowed to have duplicated arguments. Use\n`extend-skipped-functions` to add to the default list.\nSpecifying both is an error.",
+      "type": "object",
+      "properties": {
+        "extend-skipped-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        },
+        "skipped-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        }
+      },
+      "additionalProperties": false
+    },
+    "ImplicitAssignmentOptions": {
+      "description": "TOML options for `[lint.implicit_assignment]`.\n\nUse `skipped-functions` to fully replace the default list of functions\nwhere implicit assignments are allowed. Use\n`extend-skipped-functions` to add to the default list.\nSpecifying both is an error.",
+      "type": "object",
+      "properties": {
+        "extend-skipped-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        },
+        "skipped-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        }
+      },
+      "additionalProperties": false
+    },
+    "LinterTomlOptions": {
+      "type": "object",
+      "properties": {
+        "assignment": {
+          "title": "Assignment operator to use",
+          "description": "Accepts either the legacy form `assignment = \"<-\"` (deprecated) or the\nnew table form `[lint.assignment]` with an `operator` field.",
+          "anyOf": [
+            {
+              "$ref": "#/$defs/AssignmentConfig"
+            },
+            {
+              "type": "null"
+            }
+          ]
         },
         "default-exclude": {
           "title": "Whether or not to use default exclude patterns",
@@ -35,6 +115,18 @@
             "null"
           ]
         },
+        "duplicated_arguments": {
+          "title": "Options for the `duplicated_arguments` rule",
+          "description": "Use `skipped-functions` to fully replace the default list of functions\nthat are allowed to have duplicated arguments. Use\n`extend-skipped-functions` to add to the default list.\nSpecifying both is an error.",
+          "anyOf": [
+            {
+              "$ref": "#/$defs/DuplicatedArgumentsOptions"
+            },
+            {
+              "type": "null"
+            }
+          ]
+        },
         "exclude": {
           "title": "Patterns to exclude from checking",
           "description": "By default, jarl will refuse to check files matched by patterns listed in\n`default-exclude`. Use this option to supply an additional list of exclude\npatterns.\n\nExclude patterns are modeled after what you can provide in a\n[.gitignore](https://git-scm.com/docs/gitignore), and are resolved relative to the\nparent directory that your `jarl.toml` is contained within. For example, if your\n`jarl.toml` was located at `root/jarl.toml`, then:\n\n- `file.R` excludes a file named `file.R` located anywhere below `root/`. This is\n  equivalent to `**/file.R`.\n\n- `folder/` excludes a directory named `folder` (and all of its children) located\n  anywhere below `root/`. You can also just use `folder`, but this would\n  technically also match a file named `folder`, so the trailing slash is preferred\n  when targeting directories. This is equivalent to `**/folder/`.\n\n- `/file.R` excludes a file named `file.R` located at `root/file.R`.\n\n- `/folder/` excludes a directory named `folder` (and all of its children) located\n  at `root/folder/`.\n\n- `file-*.R` excludes R files named like `file-this.R` and `file-that.R` located\n  anywhere below `root/`.\n\n- `folder/*.R` excludes all R files located at `root/folder/`. Note that R files\n  in directories under `folder/` are not excluded in this case (such as\n  `root/folder/subfolder/file.R`).\n\n- `folder/**/*.R` excludes all R files located anywhere below `root/folder/`.\n\n- `**/folder/*.R` excludes all R files located directly inside a `folder/`\n  directory, where the `folder/` directory itself can appear anywhere.\n\nSee the full [.gitignore](https://git-scm.com/docs/gitignore) documentation for\nall of the patterns you can provide.",
@@ -79,6 +171,29 @@
             "type": "string"
           }
         },
+        "implicit_assignment": {
+          "title": "Options for the `implicit_assignment` rule",
+          "description": "Use `skipped-functions` to fully replace the default list of functions\nthat are allowed to contain implicit assignment. Use\n`extend-skipped-functions` to add to the default list.\nSpecifying both is an error.",
+          "anyOf": [
+            {
+              "$ref": "#/$defs/ImplicitAssignmentOptions"
+            },
+            {
+              "type": "null"
+            }
+          ]
+        },
+        "include": {
+          "title": "Patterns to include in checking",
+          "description": "By default, jarl checks all files with a `.R`, `.qmd`, `.Rmd`, or `.rmd`\nextension discovered in the provided paths. Use this option to restrict\nchecking to files that match at least one of the supplied patterns. An\nempty list or a missing option means no restriction, i.e. all discovered\nfiles are checked.\n\nInclude patterns follow the same format as `exclude` patterns (gitignore\nstyle, resolved relative to the `jarl.toml` directory). For example:\n\n- `R/` only checks files inside the `R/` directory.\n\n- `test-*.R` only checks files whose name matches `test-*.R`.\n\n- `**/*.{Rmd,qmd}` only checks Rmd and qmd files.\n\nWhen both `include` and `exclude` are specified, a file is checked only\nif it matches at least one `include` pattern and does not match any\n`exclude` pattern.",
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        },
         "select": {
           "title": "Rules to select",
           "description": "If this is empty, then all rules that are provided by `jarl` are used,\nwith one limitation related to the minimum R version used in the project.\nBy default, if this minimum R version is unknown, then all rules that\nhave a version restriction are deactivated. This is for example the case\nof `grepv` since the eponymous function was introduced in R 4.5.0.\n\nThere are three ways to inform `jarl` about the minimum version used in\nthe project:\n1. pass the argument `--min-r-version` in the CLI, e.g.,\n   `jarl --min-r-version 4.3`;\n2. if the project is an R package, then `jarl` looks for mentions of a\n   minimum R version in the `Depends` field sometimes present in the\n   `DESCRIPTION` file.\n3. specify `min-r-version` in `jarl.toml`.",
@@ -90,6 +205,18 @@
             "type": "string"
           }
         },
+        "undesirable_function": {
+          "title": "Options for the `undesirable_function` rule",
+          "description": "Use `functions` to fully replace the default list of undesirable functions.\nUse `extend-functions` to add to the default list.\nSpecifying both is an error.",
+          "anyOf": [
+            {
+              "$ref": "#/$defs/UndesirableFunctionOptions"
+            },
+            {
+              "type": "null"
+            }
+          ]
+        },
         "unfixable": {
           "title": "Rule violations to never fix",
           "description": "A list of rules that are never fixed. This only matters if you pass\n`--fix` in the CLI.",
@@ -100,6 +227,104 @@
           "items": {
             "type": "string"
           }
+        },
+        "unreachable_code": {
+          "title": "Options for the `unreachable_code` rule",
+          "description": "Use `stopping-functions` to fully replace the default list of functions\nthat are considered to stop execution (never return). Use\n`extend-stopping-functions` to add to the default list.\nSpecifying both is an error.",
+          "anyOf": [
+            {
+              "$ref": "#/$defs/UnreachableCodeOptions"
+            },
+            {
+              "type": "null"
+            }
+          ]
+        },
+        "unused_function": {
+          "title": "Options for the `unused_function` rule",
+          "description": "Use `threshold-ignore` to control how many `unused_function`\nviolations are allowed before they are all hidden (likely false\npositives).\n\nUse `skipped-functions` to determine which functions won't be reported\neven if Jarl considers them unused.",
+          "anyOf": [
+            {
+              "$ref": "#/$defs/UnusedFunctionOptions"
+            },
+            {
+              "type": "null"
+            }
+          ]
+        }
+      },
+      "additionalProperties": false
+    },
+    "UndesirableFunctionOptions": {
+      "description": "TOML options for `[lint.undesirable_function]`.\n\nUse `functions` to fully replace the default list of undesirable functions.\nUse `extend-functions` to add to the default list.\nSpecifying both is an error.",
+      "type": "object",
+      "properties": {
+        "extend-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        },
+        "functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        }
+      },
+      "additionalProperties": false
+    },
+    "UnreachableCodeOptions": {
+      "description": "TOML options for `[lint.unreachable_code]`.\n\nUse `stopping-functions` to fully replace the default list of functions\nthat are considered to stop execution (never return). Use\n`extend-stopping-functions` to add to the default list.\nSpecifying both is an error.",
+      "type": "object",
+      "properties": {
+        "extend-stopping-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        },
+        "stopping-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        }
+      },
+      "additionalProperties": false
+    },
+    "UnusedFunctionOptions": {
+      "description": "TOML options for `[lint.unused_function]`.\n\nUse `threshold-ignore` to control when `unused_function`\ndiagnostics are hidden. When the number of violations exceeds this\nthreshold, they are suppressed with an informative note (likely false\npositives).\n\nUse `skipped-functions` to provide a list of regex patterns for\nfunctions that should be skipped by this rule.",
+      "type": "object",
+      "properties": {
+        "skipped-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        },
+        "threshold-ignore": {
+          "type": [
+            "integer",
+            "null"
+          ],
+          "format": "uint",
+          "minimum": 0
         }
       },
       "additionalProperties": false
diff --git a/crates/jarl-core/src/rule_options/assignment.rs b/crates/jarl-core/src/rule_options/assignment.rs
index 40a2871..b072273 100644
--- a/crates/jarl-core/src/rule_options/assignment.rs
+++ b/crates/jarl-core/src/rule_options/assignment.rs
@@ -20,6 +20,7 @@ pub struct AssignmentOptions {
 /// still falling back to the legacy string form.
 #[derive(Clone, Debug, PartialEq, Eq)]
 #[cfg_attr(feature = "schemars", derive(schemars::JsonSchema))]
+#[cfg_attr(feature = "schemars", schemars(untagged))]
 pub enum AssignmentConfig {
     /// Legacy: `assignment = "<-"` (deprecated)
     Legacy(String),
diff --git a/crates/jarl-core/src/toml.rs b/crates/jarl-core/src/toml.rs
index 13e0293..b76f7ac 100644
--- a/crates/jarl-core/src/toml.rs
+++ b/crates/jarl-core/src/toml.rs
@@ -70,6 +70,7 @@ pub struct GlobalTomlOptions {}
 
 #[derive(Clone, Debug, Default, serde::Deserialize)]
 #[cfg_attr(feature = "schemars", derive(schemars::JsonSchema))]
+#[cfg_attr(feature = "schemars", schemars(deny_unknown_fields))]
 #[serde(rename_all = "kebab-case")]
 pub struct LinterTomlOptions {
     /// # Rules to select
-- 
2.43.0


From ef66a978da8ea059bfc9a53db12e7ef7df48f9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:36 +0000
Subject: [PATCH 83/83] fix: report the files that --add-jarl-ignore cannot
 check or change

---
 crates/jarl/src/commands/check.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 7af466f..f737348 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -23,7 +23,9 @@ use std::path::PathBuf;
 use std::time::Instant;
 
 use crate::args::CheckCommand;
-use crate::output_format::{self, GithubEmitter, print_notes, print_summary, print_warnings};
+use crate::output_format::{
+    self, GithubEmitter, print_errors, print_notes, print_summary, print_warnings,
+};
 use crate::statistics::print_statistics;
 use crate::status::ExitStatus;
 
@@ -154,7 +156,7 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
 
     // Handle --add-jarl-ignore: insert suppression comments for all diagnostics
     if let Some(reason) = &args.add_jarl_ignore {
-        return add_jarl_ignore_comments(&all_diagnostics, reason, parent_config_path);
+        return add_jarl_ignore_comments(&all_diagnostics, &all_errors, reason, parent_config_path);
     }
 
     let (unused_fn_hidden, unused_fn_count) =
@@ -293,6 +295,7 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
 /// Insert `# jarl-ignore` comments for all diagnostics in the given files.
 fn add_jarl_ignore_comments(
     all_diagnostics: &[(String, Vec<Diagnostic>)],
+    all_errors: &[(String, anyhow::Error)],
     reason: &str,
     parent_config_path: Option<PathBuf>,
 ) -> Result<ExitStatus> {
@@ -310,13 +313,21 @@ fn add_jarl_ignore_comments(
         ));
     }
 
+    // Files that couldn't be checked or changed may still have violations
+    print_errors(all_errors);
+    let mut has_errors = !all_errors.is_empty();
+
     if all_diagnostics.is_empty() {
         println!(
             "{}: {}",
             "Info".cyan().bold(),
             "No violations found, no suppression comments added.".white()
         );
-        return Ok(ExitStatus::Success);
+        return Ok(if has_errors {
+            ExitStatus::Error
+        } else {
+            ExitStatus::Success
+        });
     }
 
     let mut total_suppressions = 0;
@@ -340,6 +351,7 @@ fn add_jarl_ignore_comments(
                     path.display(),
                     e
                 );
+                has_errors = true;
                 continue;
             }
         };
@@ -453,6 +465,7 @@ fn add_jarl_ignore_comments(
                     path.display(),
                     e
                 );
+                has_errors = true;
             }
         }
     }
@@ -472,6 +485,10 @@ fn add_jarl_ignore_comments(
         println!("\nUsed '{}'", config_path.display());
     }
 
+    if has_errors {
+        return Ok(ExitStatus::Error);
+    }
+
     Ok(ExitStatus::Success)
 }
 
-- 
2.43.0

