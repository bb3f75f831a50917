From 824ced5ceac23662b38b2bb409513b059c8442ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 1/5] fix: start the search at the right line for hunks with an
 empty new range

The start of an empty range names the line before it, so the position of
a hunk which only deletes lines (and has no context) was off by one and a
matching line two lines above it was deleted instead of the stated one.
---
 src/apply.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/apply.rs b/src/apply.rs
index 9b971cf..2f89169 100644
--- a/src/apply.rs
+++ b/src/apply.rs
@@ -145,7 +145,15 @@ fn find_position<T: PartialEq + ?Sized>(
 ) -> Option<usize> {
     // In order to avoid searching through positions which are out of bounds of the image,
     // clamp the starting position based on the length of the image
-    let pos = std::cmp::min(hunk.new_range().start().saturating_sub(1), image.len());
+    //
+    // Line numbers start at 1, except for an empty range which instead names the line before it
+    let new_range = hunk.new_range();
+    let pos = if new_range.is_empty() {
+        new_range.start()
+    } else {
+        new_range.start().saturating_sub(1)
+    };
+    let pos = std::cmp::min(pos, image.len());
 
     // Create an iterator that starts with 'pos' and then interleaves
     // moving pos backward/foward by one.
-- 
2.43.0


From 10c02d9e768268a605d90958e57b120b149f5567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 2/5] fix: escape control characters in quoted filenames

A newline, tab, NUL or carriage return in a filename was written as a
backslash followed by the raw character instead of the escape sequence
the parser reads, so such a patch couldn't be parsed again.
---
 src/patch/mod.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 8b166bf..694a7b5 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -166,10 +166,15 @@ impl<T: ToOwned + AsRef<[u8]> + ?Sized> Filename<'_, T> {
         if self.needs_to_be_escaped_bytes() {
             w.write_all(b"\"")?;
             for b in self.0.as_ref().as_ref() {
-                if ESCAPED_CHARS_BYTES.contains(b) {
-                    w.write_all(b"\\")?;
+                match *b {
+                    b'\n' => w.write_all(b"\\n")?,
+                    b'\t' => w.write_all(b"\\t")?,
+                    b'\0' => w.write_all(b"\\0")?,
+                    b'\r' => w.write_all(b"\\r")?,
+                    b'\"' => w.write_all(b"\\\"")?,
+                    b'\\' => w.write_all(b"\\\\")?,
+                    b => w.write_all(&[b])?,
                 }
-                w.write_all(&[*b])?;
             }
             w.write_all(b"\"")?;
         } else {
@@ -206,10 +211,15 @@ impl fmt::Display for Filename<'_, str> {
         if self.needs_to_be_escaped() {
             f.write_char('\"')?;
             for c in self.0.chars() {
-                if ESCAPED_CHARS.contains(&c) {
-                    f.write_char('\\')?;
+                match c {
+                    '\n' => f.write_str("\\n")?,
+                    '\t' => f.write_str("\\t")?,
+                    '\0' => f.write_str("\\0")?,
+                    '\r' => f.write_str("\\r")?,
+                    '\"' => f.write_str("\\\"")?,
+                    '\\' => f.write_str("\\\\")?,
+                    c => f.write_char(c)?,
                 }
-                f.write_char(c)?;
             }
             f.write_char('\"')?;
         } else {
-- 
2.43.0


From b42d8505e4f75dc10f894352e0d7c4388ce8600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 3/5] fix: reject hunk ranges whose end overflows

Parsing a patch with such a range panicked (or wrapped around) when the
order of its hunks was verified.
---
 src/patch/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/patch/parse.rs b/src/patch/parse.rs
index 8bc5fb6..406703a 100644
--- a/src/patch/parse.rs
+++ b/src/patch/parse.rs
@@ -256,7 +256,7 @@ fn hunk_header<T: Text + ?Sized>(input: &T) -> Result<(HunkRange, HunkRange, Opt
 }
 
 fn range<T: Text + ?Sized>(s: &T) -> Result<HunkRange> {
-    let (start, len) = if let Some((start, len)) = s.split_at_exclusive(",") {
+    let (start, len): (usize, usize) = if let Some((start, len)) = s.split_at_exclusive(",") {
         (
             start
                 .parse()
@@ -272,6 +272,11 @@ fn range<T: Text + ?Sized>(s: &T) -> Result<HunkRange> {
         )
     };
 
+    // The end of the range must be representable
+    start
+        .checked_add(len)
+        .ok_or_else(|| ParsePatchError::new("can't parse range"))?;
+
     Ok(HunkRange::new(start, len))
 }
 
-- 
2.43.0


From b71dd798e4cafd58327f26ea8cdf0e17b577938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 4/5] fix: format hunks with a function context so that they
 parse again

The parsed function context included the newline which ends the hunk
header, so formatting it wrote an empty line into the hunk body which
made the result unparseable. It also wrote a second space before it.
---
 src/patch/format.rs | 3 +--
 src/patch/parse.rs  | 4 +++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/patch/format.rs b/src/patch/format.rs
index 0c815fc..7e829b8 100644
--- a/src/patch/format.rs
+++ b/src/patch/format.rs
@@ -196,7 +196,6 @@ impl<T: AsRef<[u8]> + ?Sized> HunkDisplay<'_, T> {
             if self.f.with_color {
                 write!(w, "{}", self.f.function_context.prefix())?;
             }
-            write!(w, " ")?;
             w.write_all(ctx.as_ref())?;
             if self.f.with_color {
                 write!(w, "{}", self.f.function_context.suffix())?;
@@ -227,7 +226,7 @@ impl Display for HunkDisplay<'_, str> {
             if self.f.with_color {
                 write!(f, "{}", self.f.function_context.prefix())?;
             }
-            write!(f, " {}", ctx)?;
+            write!(f, "{}", ctx)?;
             if self.f.with_color {
                 write!(f, "{}", self.f.function_context.suffix())?;
             }
diff --git a/src/patch/parse.rs b/src/patch/parse.rs
index 406703a..34af0c3 100644
--- a/src/patch/parse.rs
+++ b/src/patch/parse.rs
@@ -237,7 +237,9 @@ fn hunk_header<T: Text + ?Sized>(input: &T) -> Result<(HunkRange, HunkRange, Opt
     let (ranges, function_context) = input
         .split_at_exclusive(" @@")
         .ok_or_else(|| ParsePatchError::new("hunk header unterminated"))?;
-    let function_context = function_context.strip_prefix(" ");
+    let function_context = function_context
+        .strip_prefix(" ")
+        .map(|ctx| ctx.strip_suffix("\n").unwrap_or(ctx));
 
     let (range1, range2) = ranges
         .split_at_exclusive(" ")
-- 
2.43.0


From 216e0721400a9701258269ed6ab4bbc5bc19455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 5/5] fix: start conflict markers on their own line

When a conflicting region included a last line without a newline the
following conflict marker was glued to the end of that line.
---
 src/merge/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/merge/mod.rs b/src/merge/mod.rs
index 83b99fb..a22aab2 100644
--- a/src/merge/mod.rs
+++ b/src/merge/mod.rs
@@ -545,6 +545,11 @@ fn add_conflict_marker(
     marker_len: usize,
     filename: Option<&str>,
 ) {
+    // A marker must start on its own line, even if the text before it doesn't end with a newline
+    if !output.is_empty() && !output.ends_with('\n') {
+        output.push('\n');
+    }
+
     for _ in 0..marker_len {
         output.push(marker);
     }
@@ -625,6 +630,11 @@ fn add_conflict_marker_bytes(
     marker_len: usize,
     filename: Option<&[u8]>,
 ) {
+    // A marker must start on its own line, even if the text before it doesn't end with a newline
+    if !output.is_empty() && !output.ends_with(b"\n") {
+        output.push(b'\n');
+    }
+
     for _ in 0..marker_len {
         output.push(marker);
     }
-- 
2.43.0

