From 1814fc65fab4c105803cadb287988f62b6961fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 1/5] fix: write escaped filename characters as the escape
 sequences the parser accepts

---
 src/patch/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 8b166bf..073e179 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -147,6 +147,18 @@ const ESCAPED_CHARS: &[char] = &['\n', '\t', '\0', '\r', '\"', '\\'];
 #[allow(clippy::byte_char_slices)]
 const ESCAPED_CHARS_BYTES: &[u8] = &[b'\n', b'\t', b'\0', b'\r', b'\"', b'\\'];
 
+// The byte that follows the `\` in the escape sequence of one of the `ESCAPED_CHARS`. Every other
+// byte stands for itself.
+fn escape_byte(b: u8) -> u8 {
+    match b {
+        b'\n' => b'n',
+        b'\t' => b't',
+        b'\0' => b'0',
+        b'\r' => b'r',
+        b => b,
+    }
+}
+
 impl Filename<'_, str> {
     fn needs_to_be_escaped(&self) -> bool {
         self.0.contains(ESCAPED_CHARS)
@@ -169,7 +181,7 @@ impl<T: ToOwned + AsRef<[u8]> + ?Sized> Filename<'_, T> {
                 if ESCAPED_CHARS_BYTES.contains(b) {
                     w.write_all(b"\\")?;
                 }
-                w.write_all(&[*b])?;
+                w.write_all(&[escape_byte(*b)])?;
             }
             w.write_all(b"\"")?;
         } else {
@@ -208,8 +220,10 @@ impl fmt::Display for Filename<'_, str> {
             for c in self.0.chars() {
                 if ESCAPED_CHARS.contains(&c) {
                     f.write_char('\\')?;
+                    f.write_char(escape_byte(c as u8).into())?;
+                } else {
+                    f.write_char(c)?;
                 }
-                f.write_char(c)?;
             }
             f.write_char('\"')?;
         } else {
-- 
2.43.0


From 6ce5dff8b1a6bb49c878db961f2d853108efce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 2/5] fix: keep a hunk's function context intact when
 formatting and reparsing a patch

---
 src/patch/format.rs | 3 +--
 src/patch/parse.rs  | 4 +++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/patch/format.rs b/src/patch/format.rs
index 0c815fc..7e829b8 100644
--- a/src/patch/format.rs
+++ b/src/patch/format.rs
@@ -196,7 +196,6 @@ impl<T: AsRef<[u8]> + ?Sized> HunkDisplay<'_, T> {
             if self.f.with_color {
                 write!(w, "{}", self.f.function_context.prefix())?;
             }
-            write!(w, " ")?;
             w.write_all(ctx.as_ref())?;
             if self.f.with_color {
                 write!(w, "{}", self.f.function_context.suffix())?;
@@ -227,7 +226,7 @@ impl Display for HunkDisplay<'_, str> {
             if self.f.with_color {
                 write!(f, "{}", self.f.function_context.prefix())?;
             }
-            write!(f, " {}", ctx)?;
+            write!(f, "{}", ctx)?;
             if self.f.with_color {
                 write!(f, "{}", self.f.function_context.suffix())?;
             }
diff --git a/src/patch/parse.rs b/src/patch/parse.rs
index 8bc5fb6..c075778 100644
--- a/src/patch/parse.rs
+++ b/src/patch/parse.rs
@@ -237,7 +237,9 @@ fn hunk_header<T: Text + ?Sized>(input: &T) -> Result<(HunkRange, HunkRange, Opt
     let (ranges, function_context) = input
         .split_at_exclusive(" @@")
         .ok_or_else(|| ParsePatchError::new("hunk header unterminated"))?;
-    let function_context = function_context.strip_prefix(" ");
+    let function_context = function_context
+        .strip_prefix(" ")
+        .map(|context| context.strip_suffix("\n").unwrap_or(context));
 
     let (range1, range2) = ranges
         .split_at_exclusive(" ")
-- 
2.43.0


From 7073e0368632fdcf06486e3c6203bb1ca1300a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 3/5] fix: reject hunk ranges whose end overflows instead of
 panicking

---
 src/patch/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/patch/parse.rs b/src/patch/parse.rs
index c075778..bf9f587 100644
--- a/src/patch/parse.rs
+++ b/src/patch/parse.rs
@@ -258,7 +258,7 @@ fn hunk_header<T: Text + ?Sized>(input: &T) -> Result<(HunkRange, HunkRange, Opt
 }
 
 fn range<T: Text + ?Sized>(s: &T) -> Result<HunkRange> {
-    let (start, len) = if let Some((start, len)) = s.split_at_exclusive(",") {
+    let (start, len): (usize, usize) = if let Some((start, len)) = s.split_at_exclusive(",") {
         (
             start
                 .parse()
@@ -274,6 +274,11 @@ fn range<T: Text + ?Sized>(s: &T) -> Result<HunkRange> {
         )
     };
 
+    // The end of the range must be representable
+    if start.checked_add(len).is_none() {
+        return Err(ParsePatchError::new("can't parse range"));
+    }
+
     Ok(HunkRange::new(start, len))
 }
 
-- 
2.43.0


From ca9845cdafdfb66b2a77096053f850309a42dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 4/5] fix: look for a hunk with an empty new range right after
 the line it names

---
 src/apply.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/apply.rs b/src/apply.rs
index 9b971cf..4eb5806 100644
--- a/src/apply.rs
+++ b/src/apply.rs
@@ -145,7 +145,14 @@ fn find_position<T: PartialEq + ?Sized>(
 ) -> Option<usize> {
     // In order to avoid searching through positions which are out of bounds of the image,
     // clamp the starting position based on the length of the image
-    let pos = std::cmp::min(hunk.new_range().start().saturating_sub(1), image.len());
+    let new_range = hunk.new_range();
+    let start = if new_range.is_empty() {
+        // The start of an empty range is the line which precedes it
+        new_range.start()
+    } else {
+        new_range.start().saturating_sub(1)
+    };
+    let pos = std::cmp::min(start, image.len());
 
     // Create an iterator that starts with 'pos' and then interleaves
     // moving pos backward/foward by one.
-- 
2.43.0


From 8ef698c08a4989fb5a9cb86157e49cbb87c41124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 5/5] fix: start conflict markers on a line of their own

---
 src/merge/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/merge/mod.rs b/src/merge/mod.rs
index 83b99fb..2ebd6ca 100644
--- a/src/merge/mod.rs
+++ b/src/merge/mod.rs
@@ -545,6 +545,11 @@ fn add_conflict_marker(
     marker_len: usize,
     filename: Option<&str>,
 ) {
+    // A marker always starts its own line, even if the preceding text isn't newline terminated
+    if !output.is_empty() && !output.ends_with('\n') {
+        output.push('\n');
+    }
+
     for _ in 0..marker_len {
         output.push(marker);
     }
@@ -625,6 +630,11 @@ fn add_conflict_marker_bytes(
     marker_len: usize,
     filename: Option<&[u8]>,
 ) {
+    // A marker always starts its own line, even if the preceding text isn't newline terminated
+    if !output.is_empty() && !output.ends_with(b"\n") {
+        output.push(b'\n');
+    }
+
     for _ in 0..marker_len {
         output.push(marker);
     }
-- 
2.43.0

