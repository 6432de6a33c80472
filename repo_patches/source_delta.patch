From 1da2e97bb9c81795d3ed42de184dc41b66883e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:03 +0000
Subject: [PATCH 01/10] fix: track splice positions in original document
 coordinates

Re-splicing a span after an earlier splice had deleted its content (or the
content of an adjacent span) inserted next to the previous replacement
instead of replacing it.
---
 src/splicer.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/splicer.rs b/src/splicer.rs
index 90182bb..5510a34 100644
--- a/src/splicer.rs
+++ b/src/splicer.rs
@@ -9,6 +9,7 @@ use crate::dockerfile_parser::Dockerfile;
 /// An offset used to adjust proceeding Spans after content has been spliced
 #[derive(Debug)]
 struct SpliceOffset {
+  /// start of the spliced span, relative to the original document
   position: usize,
   offset: isize
 }
@@ -38,11 +39,14 @@ impl Span {
     let mut start = self.start as isize;
     let mut end = self.end as isize;
 
+    // splice positions are relative to the original document, so they must be
+    // compared to this span's original bounds: the adjusted bounds of distinct
+    // spans may coincide once some content has been deleted
     for splice in offsets {
-      if splice.position < start as usize {
+      if splice.position < self.start {
         start += splice.offset;
         end += splice.offset;
-      } else if splice.position < end as usize {
+      } else if splice.position < self.end {
         end += splice.offset;
       }
     }
@@ -161,6 +165,7 @@ impl Splicer {
   /// Span offsets are recalculated at call-time to account for previous calls
   /// to `splice(...)` that may have shifted one or both of the span bounds.
   pub fn splice(&mut self, span: &Span, replacement: &str) {
+    let position = span.start;
     let span = span.adjust_offsets(&self.splice_offsets);
 
     // determine the splice offset (only used on subsequent splices)
@@ -168,7 +173,7 @@ impl Splicer {
     let new_len = replacement.len();
     let offset = new_len as isize - prev_len as isize;
     self.splice_offsets.push(
-      SpliceOffset { position: span.start, offset }
+      SpliceOffset { position, offset }
     );
 
     // split and rebuild the content with the replacement instead
-- 
2.43.0


From 0cb8c8ac03b6d49a5f2d12829fe791f206edca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:30 +0000
Subject: [PATCH 02/10] fix: do not recurse once per continued line when
 unpacking breakable strings

A shell-form instruction (or ENV value) continued over a few thousand lines
overflowed the call stack and aborted the process in optimized builds.
---
 src/util.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index e5c66c1..355b455 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -252,9 +252,22 @@ impl From<((usize, usize), &str)> for BreakableString {
 fn parse_any_breakable_inner(pair: Pair) -> Result<Vec<BreakableStringComponent>> {
   let mut components = Vec::new();
 
-  for field in pair.into_inner() {
+  // the grammar nests each continued line one level deeper than the last, so
+  // an explicit stack is used to avoid exhausting the call stack when an
+  // instruction spans many lines
+  let mut stack = vec![pair.into_inner()];
+
+  while let Some(fields) = stack.last_mut() {
+    let field = match fields.next() {
+      Some(field) => field,
+      None => {
+        stack.pop();
+        continue;
+      }
+    };
+
     match field.as_rule() {
-      Rule::any_breakable => components.extend(parse_any_breakable_inner(field)?),
+      Rule::any_breakable => stack.push(field.into_inner()),
       Rule::comment => components.push(SpannedComment {
         span: (&field).into(),
         content: field.as_str().to_string(),
-- 
2.43.0


From d62c4ea43f25083a845980ef5a022eb641c0af3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:01 +0000
Subject: [PATCH 03/10] fix: accept comments between RUN/CMD/ENTRYPOINT and
 their command

---
 src/instructions/cmd.rs        | 7 ++++++-
 src/instructions/entrypoint.rs | 7 ++++++-
 src/instructions/run.rs        | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/instructions/cmd.rs b/src/instructions/cmd.rs
index 523a71c..aecdfca 100644
--- a/src/instructions/cmd.rs
+++ b/src/instructions/cmd.rs
@@ -23,7 +23,12 @@ pub struct CmdInstruction {
 impl CmdInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<CmdInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    // comments may sit on continued lines between the keyword and the command
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .ok_or_else(|| Error::GenericParseError {
+        message: "CMD requires a command".into()
+      })?;
 
     match field.as_rule() {
       Rule::cmd_exec => Ok(CmdInstruction {
diff --git a/src/instructions/entrypoint.rs b/src/instructions/entrypoint.rs
index 9d68fce..5870ceb 100644
--- a/src/instructions/entrypoint.rs
+++ b/src/instructions/entrypoint.rs
@@ -23,7 +23,12 @@ pub struct EntrypointInstruction {
 impl EntrypointInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<EntrypointInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    // comments may sit on continued lines between the keyword and the command
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .ok_or_else(|| Error::GenericParseError {
+        message: "ENTRYPOINT requires a command".into()
+      })?;
 
     match field.as_rule() {
       Rule::entrypoint_exec => Ok(EntrypointInstruction {
diff --git a/src/instructions/run.rs b/src/instructions/run.rs
index 36a8991..b4862fd 100644
--- a/src/instructions/run.rs
+++ b/src/instructions/run.rs
@@ -23,7 +23,12 @@ pub struct RunInstruction {
 impl RunInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<RunInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    // comments may sit on continued lines between the keyword and the command
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .ok_or_else(|| Error::GenericParseError {
+        message: "RUN requires a command".into()
+      })?;
 
     match field.as_rule() {
       Rule::run_exec => Ok(RunInstruction {
-- 
2.43.0


From 6cf0d0c212663a3b80b26f1fec3d84751ac6b5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:00 +0000
Subject: [PATCH 04/10] fix: bound the work of nested variable substitution

The recursion limit alone does not stop ARGs that reference each other more
than once per level from expanding exponentially: 17 short lines were enough
for resolve_vars() never to return.
---
 src/image.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index f58ef54..2f55f8b 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -51,12 +51,30 @@ fn is_registry(token: &str) -> bool {
 /// references. A small number but reasonable is recommended by default, e.g.
 /// 16.
 /// If None is returned, substitution was impossible, either because a
-/// referenced variable did not exist, or recursion depth was exceeded.
+/// referenced variable did not exist, recursion depth was exceeded, or nested
+/// references expand to an excessive amount of text.
 pub fn substitute<'a, 'b>(
   s: &'a str,
   vars: &'b HashMap<&'b str, &'b str>,
   used_vars: &mut HashSet<String>,
   max_recursion_depth: u8
+) -> Option<String> {
+  let mut remaining = MAX_EXPANSION;
+  substitute_limited(s, vars, used_vars, max_recursion_depth, &mut remaining)
+}
+
+/// The total amount of text a single substitution may expand, in bytes.
+///
+/// Limiting the recursion depth alone still allows for exponential growth when
+/// several levels of variables reference each other more than once.
+const MAX_EXPANSION: usize = 65536;
+
+fn substitute_limited<'a, 'b>(
+  s: &'a str,
+  vars: &'b HashMap<&'b str, &'b str>,
+  used_vars: &mut HashSet<String>,
+  max_recursion_depth: u8,
+  remaining: &mut usize
 ) -> Option<String> {
   lazy_static! {
     static ref VAR: Regex = Regex::new(r"\$(?:([A-Za-z0-9_]+)|\{([A-Za-z0-9_]+)\})").unwrap();
@@ -78,11 +96,13 @@ pub fn substitute<'a, 'b>(
     let full_range = caps.get(0)?.range();
     let var_name = caps.get(1).or_else(|| caps.get(2))?;
     let var_content = vars.get(var_name.as_str())?;
-    let substituted_content = substitute(
+    *remaining = remaining.checked_sub(var_content.len() + 1)?;
+    let substituted_content = substitute_limited(
       var_content,
       vars,
       used_vars,
-      max_recursion_depth.saturating_sub(1)
+      max_recursion_depth.saturating_sub(1),
+      remaining
     )?;
     used_vars.insert(var_name.as_str().to_string());
 
-- 
2.43.0


From ab3b9d4ac7a9624c21fe96ebfd3de35ae41e9bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 05/10] fix: join quoted label lines that end in CRLF or CR

The grammar accepts any line ending after the escape, but only \\LF was
removed before unescaping, so such labels failed to parse in files with
CRLF line endings.
---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 355b455..0aa6564 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -46,11 +46,11 @@ pub(crate) fn parse_string(field: &Pair) -> Result<SpannedString> {
   })
 }
 
-/// Removes escaped line breaks (\\\n) from a string
+/// Removes escaped line breaks (\\\n, \\\r\n or \\\r) from a string
 ///
 /// This should be used to clean any input from the any_breakable rule
 pub(crate) fn clean_escaped_breaks(s: &str) -> String {
-  s.replace("\\\n", "")
+  s.replace("\\\r\n", "").replace("\\\n", "").replace("\\\r", "")
 }
 
 /// A string that may be broken across many lines or an array of strings.
-- 
2.43.0


From c270905b97aa8d260b1f6ef62d2219dbfe4c05ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:21 +0000
Subject: [PATCH 06/10] fix: join continued lines in quoted ENV, ARG and exec
 values

The grammar accepts an escaped line break in every quoted string, but only
labels removed it before unescaping, so a quoted value continued on the next
line failed with an unescape error.
---
 src/instructions/env.rs | 6 ++++--
 src/util.rs             | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/instructions/env.rs b/src/instructions/env.rs
index 97c7eac..00dcd4f 100644
--- a/src/instructions/env.rs
+++ b/src/instructions/env.rs
@@ -53,7 +53,8 @@ fn parse_env_pair(record: Pair) -> Result<EnvVar> {
         );
       },
       Rule::env_pair_quoted_value => {
-        let v = unquote(field.as_str()).context(UnescapeError)?;
+        let v = unquote(&clean_escaped_breaks(field.as_str()))
+          .context(UnescapeError)?;
 
         value = Some(
           BreakableString::new(&field).add_string(&field, v)
@@ -116,7 +117,8 @@ impl EnvInstruction {
         Rule::env_name => key = Some(parse_string(&field)?),
         Rule::env_single_value => value = Some(parse_any_breakable(field)?),
         Rule::env_single_quoted_value => {
-          let v = unquote(field.as_str()).context(UnescapeError)?;
+          let v = unquote(&clean_escaped_breaks(field.as_str()))
+            .context(UnescapeError)?;
 
           value = Some(
             BreakableString::new(&field).add_string(&field, v)
diff --git a/src/util.rs b/src/util.rs
index 0aa6564..2e01177 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -35,7 +35,7 @@ pub(crate) fn parse_string(field: &Pair) -> Result<SpannedString> {
   let str_span = Span::from_pair(field);
   let field_str = field.as_str();
   let content = if matches!(field_str.chars().next(), Some('"' | '\'' | '`')) {
-    unquote(field_str).context(UnescapeError)?
+    unquote(&clean_escaped_breaks(field_str)).context(UnescapeError)?
   } else {
     field_str.to_string()
   };
-- 
2.43.0


From 824f542c8ffb209a7bff857a82597f04e4a0867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:15 +0000
Subject: [PATCH 07/10] fix: record a splice only once it has been applied

Splicing an invalid span panics. The splicer counted the edit all the same, so
that a caller who caught the panic found later edits misplaced.
---
 src/splicer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/splicer.rs b/src/splicer.rs
index 5510a34..b2617de 100644
--- a/src/splicer.rs
+++ b/src/splicer.rs
@@ -172,14 +172,16 @@ impl Splicer {
     let prev_len = span.end - span.start;
     let new_len = replacement.len();
     let offset = new_len as isize - prev_len as isize;
-    self.splice_offsets.push(
-      SpliceOffset { position, offset }
-    );
 
     // split and rebuild the content with the replacement instead
     let (beginning, rest) = self.content.split_at(span.start);
     let (_, end) = rest.split_at(span.end - span.start);
     self.content = format!("{}{}{}", beginning, replacement, end);
+
+    // an invalid span panics above, and must not affect subsequent splices
+    self.splice_offsets.push(
+      SpliceOffset { position, offset }
+    );
   }
 }
 
-- 
2.43.0


From 22278a2b5cfa57d779f93c60ca6b59e2eb3c6f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:34 +0000
Subject: [PATCH 08/10] fix: find global arguments behind other instructions

get_global_arg gave up at the first instruction that is not an ARG, although
global_args holds every ARG before the first FROM.
---
 src/dockerfile_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dockerfile_parser.rs b/src/dockerfile_parser.rs
index 6387e39..06b42aa 100644
--- a/src/dockerfile_parser.rs
+++ b/src/dockerfile_parser.rs
@@ -408,7 +408,8 @@ impl Dockerfile {
             continue
           }
         },
-        _ => return None
+        Instruction::From(_) => return None,
+        _ => continue
       }
     }
 
-- 
2.43.0


From f1c8c4c7226f878496820272fff4ea0a9226b768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:14 +0000
Subject: [PATCH 09/10] fix: find the parents of very many stages in reasonable
 time

---
 src/stage.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/stage.rs b/src/stage.rs
index f2afd24..056c709 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -1,5 +1,6 @@
 // (C) Copyright 2020 Hewlett Packard Enterprise Development LP
 
+use std::collections::BTreeMap;
 use std::fmt;
 use std::ops::Index;
 
@@ -128,13 +129,17 @@ impl<'a> Stages<'a> {
     let mut stages = Stages { stages: vec![] };
     let mut next_stage_index = 0;
 
+    // the first stage of each name; searching all previous stages for every
+    // FROM takes far too long in files with very many of them
+    let mut stages_by_name: BTreeMap<String, usize> = BTreeMap::new();
+
     for ins in &dockerfile.instructions {
       if let Instruction::From(from) = ins {
         let image_name = from.image.as_ref().to_ascii_lowercase();
         let parent = if image_name == "scratch" {
           StageParent::Scratch
-        } else if let Some(stage) = stages.get_by_name(&image_name) {
-          StageParent::Stage(stage.index)
+        } else if let Some(index) = stages_by_name.get(&image_name) {
+          StageParent::Stage(*index)
         } else {
           StageParent::Image(&from.image_parsed)
         };
@@ -145,9 +150,14 @@ impl<'a> Stages<'a> {
           parent.clone()
         };
 
+        let name = from.alias.as_ref().map(|a| a.as_ref().to_ascii_lowercase());
+        if let Some(name) = &name {
+          stages_by_name.entry(name.clone()).or_insert(next_stage_index);
+        }
+
         stages.stages.push(Stage {
           index: next_stage_index,
-          name: from.alias.as_ref().map(|a| a.as_ref().to_ascii_lowercase()),
+          name,
           instructions: vec![ins],
           parent,
           root
-- 
2.43.0


From 3015a2e9bcc923888ff4c55064c384e3055a7081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:30 +0000
Subject: [PATCH 10/10] fix: substitute very many variables in reasonable time

---
 src/image.rs   | 16 +++++++++++-----
 src/splicer.rs |  7 -------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 2f55f8b..31d11f6 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -7,7 +7,7 @@ use std::iter::FromIterator;
 use lazy_static::lazy_static;
 use regex::Regex;
 
-use crate::{Dockerfile, Span, Splicer};
+use crate::Dockerfile;
 
 /// A parsed docker image reference
 ///
@@ -85,7 +85,10 @@ fn substitute_limited<'a, 'b>(
   //   FROM alpine:${tag:-3.12}
   // this isn't currently supported.
 
-  let mut splicer = Splicer::from_str(s);
+  // the text before each reference is copied only once, as rebuilding the whole
+  // string for every one of them takes far too long if there are very many
+  let mut output = String::new();
+  let mut copied = 0;
 
   for caps in VAR.captures_iter(s) {
     if max_recursion_depth == 0 {
@@ -106,11 +109,14 @@ fn substitute_limited<'a, 'b>(
     )?;
     used_vars.insert(var_name.as_str().to_string());
 
-    // splice the substituted content back into the output string
-    splicer.splice(&Span::new(full_range.start, full_range.end), &substituted_content);
+    output.push_str(&s[copied..full_range.start]);
+    output.push_str(&substituted_content);
+    copied = full_range.end;
   }
 
-  Some(splicer.content)
+  output.push_str(&s[copied..]);
+
+  Some(output)
 }
 
 impl ImageRef {
diff --git a/src/splicer.rs b/src/splicer.rs
index b2617de..8d62d84 100644
--- a/src/splicer.rs
+++ b/src/splicer.rs
@@ -149,13 +149,6 @@ impl Splicer {
     }
   }
 
-  pub(crate) fn from_str(s: &str) -> Splicer {
-    Splicer {
-      content: s.to_string(),
-      splice_offsets: Vec::new()
-    }
-  }
-
   /// Replaces a Span with the given replacement string, mutating the `content`
   /// string.
   ///
-- 
2.43.0

