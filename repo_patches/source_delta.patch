From 443e13e0f35f488447198327241c39f2eee723eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 01/27] fix: advance over whole characters in scalars and
 comments

Scanning a multi-byte character in a plain, quoted or block scalar, or in a
comment, split the buffer inside the character and panicked.
---
 src/scanner/mod.rs          |  2 +-
 src/scanner/scalar/block.rs | 10 ++++++----
 src/scanner/scalar/flow.rs  |  8 +++++---
 src/scanner/scalar/plain.rs |  8 +++++---
 4 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index f53d791..24083b1 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -1000,7 +1000,7 @@ fn eat_whitespace(opts: Flags, base: &str, stats: &mut MStats, comments: bool) -
         }
         else
         {
-            advance!(buffer, :stats, 1);
+            advance!(buffer, :stats, widthOf!(~buffer));
         }
     }
 
diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index f79c955..d026971 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -256,11 +256,13 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
         {
             cache!(~buffer, 1, opts)?;
 
+            let width = widthOf!(~buffer);
+
             if !can_borrow
             {
-                scratch.push(buffer.as_bytes()[0])
+                scratch.extend_from_slice(&buffer.as_bytes()[..width])
             }
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, width);
         }
 
         // Mark content end
@@ -363,7 +365,7 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
         while !isBreakZ!(~buffer)
         {
             cache!(~buffer, 1, opts)?;
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, widthOf!(~buffer));
         }
 
         // Eat the line break (if not EOF)
@@ -670,7 +672,7 @@ fn skip_blanks(opts: Flags, buffer: &mut &str, stats: &mut MStats, comments: boo
         while !isBreakZ!(~buffer)
         {
             cache!(~buffer, 1, opts)?;
-            advance!(*buffer, :stats, 1);
+            advance!(*buffer, :stats, widthOf!(~buffer));
         }
     }
 
diff --git a/src/scanner/scalar/flow.rs b/src/scanner/scalar/flow.rs
index b8aa1a0..01ecd0b 100644
--- a/src/scanner/scalar/flow.rs
+++ b/src/scanner/scalar/flow.rs
@@ -129,12 +129,14 @@ pub(in crate::scanner) fn scan_flow_scalar_eager<'de>(
             // Its a non blank character, add it
             else
             {
+                // Safety: !isBlankZ guarantees the slice is not empty
+                let width = widthOf!(~buffer);
+
                 if !can_borrow
                 {
-                    // Safety: !isBlankZ guarantees the slice is not empty
-                    scratch.push(buffer.as_bytes()[0])
+                    scratch.extend_from_slice(&buffer.as_bytes()[..width])
                 }
-                advance!(buffer, :stats, 1);
+                advance!(buffer, :stats, width);
             }
         }
 
diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index 3ac6a93..604ec40 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -147,11 +147,13 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
                 break;
             }
 
+            let width = widthOf!(~buffer);
+
             if !can_borrow
             {
-                scratch.push(buffer.as_bytes()[0])
+                scratch.extend_from_slice(&buffer.as_bytes()[..width])
             }
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, width);
         }
         // Save last non whitespace character position
         scalar_stats = local_stats.clone();
@@ -337,7 +339,7 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
                 break 'scalar;
             }
 
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, widthOf!(~buffer));
         }
         // Save last non whitespace character position
         scalar_stats = local_stats.clone();
-- 
2.43.0


From 20cb5a3920280946a0cbb5e6881b41c12221a869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 02/27] fix: reject escapes which are not unicode scalar values

"\uD800" or "\UFFFFFFFF" produced bytes that are not UTF8 and panicked.
---
 src/scanner/scalar/escape.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scanner/scalar/escape.rs b/src/scanner/scalar/escape.rs
index f816a68..e1b2ba5 100644
--- a/src/scanner/scalar/escape.rs
+++ b/src/scanner/scalar/escape.rs
@@ -176,6 +176,13 @@ fn write_unicode_point(base: &str, scratch: &mut Vec<u8>, codepoint_len: u8) ->
         advance!(buffer, 1, i);
     }
 
+    // Surrogates and values above U+10FFFF have no UTF8
+    // representation
+    if std::char::from_u32(value).is_none()
+    {
+        return Err(ScanError::UnknownEscape);
+    }
+
     // Bit shift the value into the correct byte configuration
     // for UTF8
     match value
-- 
2.43.0


From b5afaea91de196053587d09b6c36270b2d965912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 03/27] fix: reject percent escapes in tags which do not decode
 to UTF8

'!%C0%80' or '!%ED%A0%80' panicked.
---
 src/scanner/tag.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 7b35d10..15d9a28 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -329,7 +329,7 @@ pub(in crate::scanner) fn scan_tag_uri<'de>(
     }
     else
     {
-        let utf8 = String::from_utf8(scratch).unwrap();
+        let utf8 = String::from_utf8(scratch).map_err(|_| ScanError::UnknownEscape)?;
 
         Ok((cow!(utf8), advance))
     }
-- 
2.43.0


From 06925e30a6874978de75b0d2babc27b8cdaf5806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:55 +0000
Subject: [PATCH 04/27] fix: accept verbatim tags

The closing '>' was looked up one byte too far, so every verbatim tag was
rejected; and the parser then tried to resolve their empty handle.
---
 src/event/parser/mod.rs | 6 ++++++
 src/scanner/tag.rs      | 7 ++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index e48b664..a8b8493 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -1265,6 +1265,12 @@ fn validate_tag(tags: &TagDirectives, tag: &mut Option<(Slice, Slice)>, scalar:
 {
     if let Some((handle, suffix)) = tag.as_ref()
     {
+        // Verbatim tags have no handle, and are never resolved
+        if handle.is_empty()
+        {
+            return Ok(());
+        }
+
         // A YAML scalar tag may be marked as
         // 'non-resolvable', in which case we skip the
         // checks
diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 15d9a28..caed3d7 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -180,7 +180,7 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
     // If its a verbatim tag scan it
     let (token, amt) = if check!(~buffer => [b'!', b'<', ..])
     {
-        advance!(buffer, 2);
+        advance!(buffer, :stats, 2);
 
         // !<global:verbatim:tag:> "node"
         //   ^^^^^^^^^^^^^^^^^^^^
@@ -188,8 +188,9 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
 
         // !<global:verbatim:tag:> "node"
         //                       ^
-        cache!(~buffer, @amt + 1, 1, opts)?;
-        check!(~buffer, amt + 1 => b'>', else ScanError::InvalidTagSuffix)?;
+        cache!(~buffer, @amt, 1, opts)?;
+        check!(~buffer, amt => b'>', else ScanError::InvalidTagSuffix)?;
+        stats.update(1, 0, 1);
 
         let token = assemble_tag(&buffer[0..0], verbatim, can_borrow);
 
-- 
2.43.0


From ce475b9f94bd36770dc4c6e73bd01fd63c564a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:55 +0000
Subject: [PATCH 05/27] fix: let a document override the default tag directives

A %TAG directive for '!' or '!!' was reported as a duplicate of the default
it is documented to replace.
---
 src/event/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index a8b8493..a91375c 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -1112,7 +1112,7 @@ where
     #[allow(unused_assignments)]
     let (start, mut end, mut token) = peek!(tokens)?;
 
-    let mut directives = Directives::default();
+    let mut directives = Directives::empty();
     let mut seen_version = false;
 
     let tags = &mut directives.tags;
-- 
2.43.0


From 6ee939cf76f0bd9a689111c4c67f927b8a1bdc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 06/27] fix: only read a block scalar header where one is
 written

---
 src/scanner/scalar/block.rs | 51 ++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index d026971..b4f3936 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -409,36 +409,39 @@ fn scan_headers(
 
     cache!(~buffer, 2, opts)?;
 
-    // Set the explicit indent if it exists.
+    // The indent and chomp headers may each occur once, in
+    // either order
     //
     // Note that we silently eat an invalid indent (0) rather
     // than erroring
-    match buffer.as_bytes()
-    {
-        [i @ b'0'..=b'9', ..] | [_, i @ b'0'..=b'9', ..] =>
-        {
-            indent = atoi::<u8>(&[*i]).and_then(NonZeroU8::new);
-            skip += 1;
-        },
-        _ =>
-        {},
-    }
+    let mut seen_indent = false;
+    let mut seen_chomp = false;
 
-    // Set the chomping behavior of the scalar, if required
-    match buffer.as_bytes()
+    for header in buffer.as_bytes().iter().take(2)
     {
-        [c, ..] | [_, c, ..] if matches!(*c, b'+') =>
+        match header
         {
-            chomp = ChompStyle::Keep;
-            skip += 1;
-        },
-        [c, ..] | [_, c, ..] if matches!(*c, b'-') =>
-        {
-            chomp = ChompStyle::Strip;
-            skip += 1;
-        },
-        _ =>
-        {},
+            // Set the explicit indent if it exists.
+            i @ b'0'..=b'9' if !seen_indent =>
+            {
+                indent = atoi::<u8>(&[*i]).and_then(NonZeroU8::new);
+                seen_indent = true;
+            },
+            // Set the chomping behavior of the scalar, if required
+            b'+' if !seen_chomp =>
+            {
+                chomp = ChompStyle::Keep;
+                seen_chomp = true;
+            },
+            b'-' if !seen_chomp =>
+            {
+                chomp = ChompStyle::Strip;
+                seen_chomp = true;
+            },
+            _ => break,
+        }
+
+        skip += 1;
     }
 
     advance!(*buffer, :stats, skip);
-- 
2.43.0


From be5d16b91e570c5134bf68627b7c9429f83be632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:46 +0000
Subject: [PATCH 07/27] fix: skip the indentation of block scalars with an
 explicit indent

---
 src/scanner/scalar/block.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index b4f3936..775f221 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -147,7 +147,19 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     // from the indentation level
     match explicit.map(NonZeroU8::get)
     {
-        Some(explicit) => indent = base_indent + explicit as usize,
+        Some(explicit) =>
+        {
+            indent = base_indent + explicit as usize;
+
+            scan_indent(
+                opts,
+                &mut buffer,
+                &mut local_stats,
+                &mut lines,
+                &mut can_borrow,
+                indent,
+            )?;
+        },
         None =>
         {
             indent = detect_indent_level(
@@ -340,7 +352,19 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     // from the indentation level
     match explicit.map(NonZeroU8::get)
     {
-        Some(explicit) => indent = base_indent + explicit as usize,
+        Some(explicit) =>
+        {
+            indent = base_indent + explicit as usize;
+
+            scan_indent(
+                opts,
+                &mut buffer,
+                &mut local_stats,
+                &mut 0,
+                &mut false,
+                indent,
+            )?;
+        },
         None =>
         {
             indent = detect_indent_level(
-- 
2.43.0


From bf69204fd3fac0aff167b7f99ae8023b045a9432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:13 +0000
Subject: [PATCH 08/27] fix: scan block scalars which have no content

---
 src/scanner/scalar/block.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 775f221..f2adee3 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -173,11 +173,23 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
         },
     }
 
+    // Any preceding lines are a part of the content, but never of
+    // a borrow
+    if lines > 0
+    {
+        can_borrow = false
+    }
+
     // Add any preceding lines to the tracked borrow or scratch
     // space
     match can_borrow
     {
-        true => content_start = local_stats.read - stats.read,
+        // The scalar has no content until we find some
+        true =>
+        {
+            content_start = local_stats.read - stats.read;
+            content_end = content_start;
+        },
         false =>
         {
             for _ in 0..lines
-- 
2.43.0


From 321ae19328005ed897a31c26023aef49f180b5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:35 +0000
Subject: [PATCH 09/27] fix: normalize the line break which ends a block scalar

---
 src/scanner/scalar/block.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index f2adee3..b0b8199 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -555,13 +555,19 @@ fn scan_chomp<'de>(
             ChompStyle::Clip =>
             {
                 // Check if we had trailing lines, extending the borrow to
-                // include the first
-                if lines > 0
+                // include the first, if it doesn't need normalizing
+                match (lines, base[end..].starts_with('\n'))
                 {
-                    end += widthOf!(~base[end..], 1);
-                }
+                    (0, _) => scalar = cow!(&base[start..end]),
+                    (_, true) => scalar = cow!(&base[start..end + 1]),
+                    (_, false) =>
+                    {
+                        scratch.extend_from_slice(base[start..end].as_bytes());
+                        end = scratch.len();
 
-                scalar = cow!(&base[start..end])
+                        *can_borrow = false;
+                    },
+                }
             },
             // Ignore any trailing line breaks just returning the scalar
             ChompStyle::Strip => scalar = cow!(&base[start..end]),
@@ -571,7 +577,8 @@ fn scan_chomp<'de>(
             // didn't skip any spaces (only line breaks).
             ChompStyle::Keep => match lines
             {
-                n @ 0 | n @ 1 => scalar = cow!(&base[start..end + n]),
+                0 => scalar = cow!(&base[start..end]),
+                1 if base[end..].starts_with('\n') => scalar = cow!(&base[start..end + 1]),
                 // The only way to hit this branch is if the scalar could still be borrowed, and
                 // thus is a single line. In this case we have to copy the borrow to the scratch
                 // space, and append any trailing lines the previous scan_indent produced.
-- 
2.43.0


From 2ae7d5f03275998972d6809f4217a4eee5be8d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 10/27] fix: never extend a deferred block scalar

---
 src/scanner/scalar/block.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index b0b8199..a2af74c 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -45,7 +45,7 @@ use crate::{
         context::Context,
         entry::MaybeToken,
         error::{ScanError, ScanResult as Result},
-        flag::{Flags, O_LAZY},
+        flag::{Flags, O_EXTENDABLE, O_LAZY},
         scalar::as_maybe,
         stats::MStats,
     },
@@ -425,7 +425,15 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     let advance = base.len() - buffer.len();
     let slice = &base[..advance];
 
-    let lazy = Deferred::new(opts, slice, stats.clone(), base_indent, fold);
+    // Note we remove O_EXTENDABLE as we've already located the
+    // entire scalar
+    let lazy = Deferred::new(
+        opts & !O_EXTENDABLE,
+        slice,
+        stats.clone(),
+        base_indent,
+        fold,
+    );
 
     *stats = local_stats;
 
-- 
2.43.0


From 39db85b860e411dd0de51afb3d6e84c96420a47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:34 +0000
Subject: [PATCH 11/27] fix: skip escaped backslashes in deferred double quoted
 scalars

---
 src/scanner/scalar/flow.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/scanner/scalar/flow.rs b/src/scanner/scalar/flow.rs
index 01ecd0b..9e86b9b 100644
--- a/src/scanner/scalar/flow.rs
+++ b/src/scanner/scalar/flow.rs
@@ -281,7 +281,7 @@ pub(in crate::scanner) fn scan_flow_scalar_lazy<'de>(
 
     loop
     {
-        // Longest sequence we can hit is 2 characters ('' or \")
+        // Longest sequence we can hit is 2 characters ('', \" or \\)
         cache!(~buffer, 2, opts)?;
 
         if buffer.is_empty()
@@ -289,10 +289,12 @@ pub(in crate::scanner) fn scan_flow_scalar_lazy<'de>(
             return Err(ScanError::UnexpectedEOF);
         }
 
-        // Check for either of the quote escapes, skipping them if
-        // found
+        // Check for any of the quote escapes, skipping them if
+        // found. Note that an escaped backslash must be skipped
+        // too, as it cannot escape a quote
         if (kind == SingleQuote && check!(~buffer => [SINGLE, SINGLE, ..]))
-            || (kind == DoubleQuote && check!(~buffer => [BACKSLASH, DOUBLE, ..]))
+            || (kind == DoubleQuote
+                && check!(~buffer => [BACKSLASH, DOUBLE, ..] | [BACKSLASH, BACKSLASH, ..]))
         {
             advance!(buffer, :stats, 2);
         }
-- 
2.43.0


From 55159a0be29b4ff6beb39d8cd0cc1730fa034a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 12/27] fix: keep deferred plain scalars on character
 boundaries

---
 src/scanner/scalar/plain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index 604ec40..ddbec7d 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -329,7 +329,7 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
             {
                 let skip = match isWhiteSpace!(~buffer, 1)
                 {
-                    true => 2,
+                    true => 1 + widthOf!(~buffer, 1),
                     false => 1,
                 };
 
-- 
2.43.0


From 97ad6431170ef5950d652a5dbb7f197e26b77c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 13/27] fix: allow anchors to end at any whitespace or the
 stream's end

---
 src/scanner/anchor.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/scanner/anchor.rs b/src/scanner/anchor.rs
index 8d63c09..c6b03ef 100644
--- a/src/scanner/anchor.rs
+++ b/src/scanner/anchor.rs
@@ -38,14 +38,17 @@ pub(in crate::scanner) fn scan_anchor<'de>(
 
     // *anchor 'rest of the line'
     //        ^
-    // There does not necessarily need to be a whitespace so we
-    // also check against a list of valid starting
-    // tokens
+    // There does not necessarily need to be a whitespace (or
+    // the end of the stream) so we also check against a list
+    // of valid starting tokens
     cache!(~buffer, 1, opts)?;
-    check!(~buffer
-        => b' ' | b'\n' | b'?' | b',' | b']' | b'}' | b'%' | b'@' | b'`',
-        else ScanError::InvalidAnchorName
-    )?;
+    if !isWhiteSpaceZ!(~buffer)
+    {
+        check!(~buffer
+            => b'?' | b',' | b']' | b'}' | b'%' | b'@' | b'`',
+            else ScanError::InvalidAnchorName
+        )?;
+    }
 
     let token = match kind
     {
-- 
2.43.0


From 9905dd663aeb099dc9eb229536798ec0e0cc7042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:39 +0000
Subject: [PATCH 14/27] fix: read characters which span two chunks of an owned
 reader

---
 src/reader/owned.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/reader/owned.rs b/src/reader/owned.rs
index 5a3108d..fbd5f30 100644
--- a/src/reader/owned.rs
+++ b/src/reader/owned.rs
@@ -161,6 +161,9 @@ struct Impl
     head: String,
     tail: Vec<String>,
 
+    // The start of a character which .source hasn't finished yet
+    partial: Vec<u8>,
+
     source:    Box<dyn io::Read + 'static>,
     exhausted: bool,
 }
@@ -177,6 +180,8 @@ impl Impl
             head: String::new(),
             tail: Vec::new(),
 
+            partial: Vec::new(),
+
             source,
             exhausted: false,
         }
@@ -201,9 +206,27 @@ impl Impl
             new.extend_from_slice(&self.head.as_bytes()[mark..]);
         }
 
+        // Followed by any character the last chunk cut short
+        new.append(&mut self.partial);
+
         // Fill the new buffer, checking if .src has been exhausted
         self.exhausted = read_fill(Take::new(&mut self.source, cap), &mut new)?;
 
+        // A chunk may end in the middle of a character, in which
+        // case we hold its bytes back until the next chunk
+        if !self.exhausted
+        {
+            match std::str::from_utf8(&new)
+            {
+                Err(e) if e.error_len().is_none() =>
+                {
+                    self.partial = new.split_off(e.valid_up_to());
+                },
+                _ =>
+                {},
+            }
+        }
+
         // Validate buffer is UTF8
         let new = String::from_utf8(new).map_err(|e| e.utf8_error())?;
 
-- 
2.43.0


From c4c31b9a35a9da5f8d298a247f326df289b1f768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 15/27] fix: end the event stream after an error

---
 src/event/parser/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index a91375c..08cf1fa 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -136,7 +136,17 @@ impl Parser
         // is returned or we're marked as finished.
         while !self.done && event.is_none()
         {
-            event = self.state_transition(tokens)?;
+            event = match self.state_transition(tokens)
+            {
+                Ok(event) => event,
+                // The stream is corrupt, there is nothing left to find
+                Err(e) =>
+                {
+                    self.done = true;
+
+                    return Err(e);
+                },
+            };
         }
 
         Ok(event)
-- 
2.43.0


From 0d6906b30e8833a5d9d9166b8e86f75d358ea755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:41 +0000
Subject: [PATCH 16/27] fix: keep the line breaks around more indented folded
 lines

---
 src/scanner/scalar/block.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index a2af74c..1abe3d9 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -114,6 +114,9 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     // reconciled
     let mut lines: usize = 0;
 
+    // Does the current line's content start with a blank?
+    let mut blank = false;
+
     // The indentation level of this scalar
     let indent: usize;
 
@@ -223,8 +226,12 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
             can_borrow = false
         }
 
+        // Lines around one which starts with a blank are never
+        // folded
+        let last_blank = std::mem::replace(&mut blank, isBlank!(~buffer));
+
         // If its a folding ('>') block scalar
-        if fold
+        if fold && !blank && !last_blank
         {
             // Handle line joins as needed
             match lines
-- 
2.43.0


From ee5717b6b40158a8ff8d61f9918596737533a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:03 +0000
Subject: [PATCH 17/27] fix: let every document start its own indentation

---
 src/scanner/context.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scanner/context.rs b/src/scanner/context.rs
index 01a2c94..d01353a 100644
--- a/src/scanner/context.rs
+++ b/src/scanner/context.rs
@@ -160,6 +160,8 @@ impl Context
             Some(entry) =>
             {
                 self.indent = entry.indent;
+                // Nothing is indented once the last level is gone
+                self.started = !self.indents.is_empty();
 
                 f(self.indent)?;
 
-- 
2.43.0


From 11d290b3ae11f12368c8695da205c566977488fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 18/27] fix: do not assert what may follow a single pair
 mapping

---
 src/event/parser/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 08cf1fa..7f3d528 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -779,9 +779,7 @@ impl Parser
     where
         T: Read,
     {
-        let (start, end, token) = peek!(tokens)?;
-
-        debug_assert!(matches!(token, Marker::FlowEntry | Marker::FlowSequenceEnd));
+        let (start, end, _) = peek!(tokens)?;
 
         // Revert to parsing the next entry in the parent sequence
         state!(~self, -> State::FlowSequenceEntry(O_NIL));
-- 
2.43.0


From 6c682676a95e9c4b27f2c93d2bea5ee60fa1ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:42 +0000
Subject: [PATCH 19/27] fix: take lines of only their indentation as empty in
 block scalars

---
 src/scanner/scalar/block.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 1abe3d9..8d73636 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -517,7 +517,9 @@ fn scan_indent(
 
     cache!(~buffer, 1, opts)?;
 
-    while stats.column < indent && isWhiteSpace!(~buffer)
+    // A line which ends right after its indentation is as empty
+    // as one which ends before that
+    while isBreak!(~buffer) || (stats.column < indent && isBlank!(~buffer))
     {
         // Indentation space, chomp
         if check!(~buffer => b' ')
-- 
2.43.0


From 0ba15ddf7056163619f1b912560c9b5ef833b9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:36 +0000
Subject: [PATCH 20/27] fix: borrow plain scalars which end at a line break

A line break after the last word made the scanner copy the scalar,
though what follows the last word is not content; every value of a
block mapping was copied that way.
---
 src/scanner/scalar/plain.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index ddbec7d..0b93b2b 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -238,6 +238,10 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
     // Note we use the stats which point at the last word read
     let advance = scalar_stats.read - stats.read;
 
+    // Any line breaks after the last word are not content, so we
+    // may be able to borrow yet
+    can_borrow = can_borrow || scratch == base[..advance].as_bytes();
+
     let slice = match can_borrow
     {
         true => cow!(&base[..advance]),
-- 
2.43.0


From 6c3d73f1d4ef517ee136cf8b5aeaae896915ce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:40 +0000
Subject: [PATCH 21/27] fix: end zero indented sequences at keys which start
 with a dash

A plain scalar which starts with '-' was taken for a further entry of
a sequence which is indented like its parent mapping, so that the
mapping could not go on with such a key.
---
 src/scanner/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 24083b1..86f8275 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -834,7 +834,7 @@ impl Scanner
             if entry.line < self.stats.lines
                 && entry.zero_indented
                 && entry.kind == Marker::BlockSequenceStart
-                && (!check!(~base => b'-'))
+                && !(check!(~base => b'-') && isWhiteSpaceZ!(~base, 1))
             {
                 let read = self.stats.read;
 
-- 
2.43.0


From 1728c3e3cb7f69b5b610e6bea073bff1e0d65d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:39 +0000
Subject: [PATCH 22/27] fix: an entry of a sequence indented like its mapping
 may go on below

---
 src/scanner/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 86f8275..dcd753f 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -830,8 +830,12 @@ impl Scanner
              * 2. Current indentation is for a sequence
              * 3. The next byte sequence is not a block entry
              * 4. The entry was flagged zero_indented
+             * 5. We are in the block context, at its indentation
+             *    level, and not in one of its entries
              */
             if entry.line < self.stats.lines
+                && self.context.is_block()
+                && self.context.indent() == self.stats.column
                 && entry.zero_indented
                 && entry.kind == Marker::BlockSequenceStart
                 && !(check!(~base => b'-') && isWhiteSpaceZ!(~base, 1))
-- 
2.43.0


From 48b5b08a44ab9d87747c4b2f82801b9516ae4705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:15 +0000
Subject: [PATCH 23/27] fix: leave the indent alone at the comments and breaks
 of a flow collection

---
 src/scanner/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index dcd753f..f1c984c 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -939,10 +939,7 @@ impl Scanner
         let amt = eat_whitespace(opts, *buffer, &mut stats, comments)?;
 
         // A new line may start a key in the block context
-        //
-        // FIXME: we don't track flow/block contexts yet, add check
-        // here when we do
-        if stats.lines != 0
+        if stats.lines != 0 && self.context.is_block()
         {
             self.simple_key_allowed = true;
         }
-- 
2.43.0


From 1d0cc413660aeee9ae8c7daed781f8898eee7b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:10 +0000
Subject: [PATCH 24/27] fix: let a root plain scalar continue in the first
 column

---
 src/scanner/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner/context.rs b/src/scanner/context.rs
index d01353a..06782d8 100644
--- a/src/scanner/context.rs
+++ b/src/scanner/context.rs
@@ -317,7 +317,8 @@ impl Add<usize> for Indent
         match self.0
         {
             Some(indent) => indent + rhs,
-            None => rhs,
+            // The level below the first column
+            None => rhs.saturating_sub(1),
         }
     }
 }
-- 
2.43.0


From a0b8a17ff4f6554c8c49dbf4923307c302cd96d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:10 +0000
Subject: [PATCH 25/27] fix: end plain scalars at a value indicator before flow
 indicators

---
 src/scanner/scalar/plain.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index 0b93b2b..3bdae8c 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -121,8 +121,9 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
         // namely:
         //
         // ': '                         -> anywhere
-        // ',' | '[' | ']' | '{' | '}'  -> flow context
-        if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+        // ',' | '[' | ']' | '{' | '}'  -> flow context, also
+        //                                 after a ':'
+        if value_indicator(buffer, flow_context)
             || flow_context && flow_indicator(buffer, 0)
         {
             break 'scalar;
@@ -141,7 +142,7 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
         {
             cache!(~buffer, 2, opts)?;
 
-            if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+            if value_indicator(buffer, flow_context)
                 || flow_context && flow_indicator(buffer, 0)
             {
                 break;
@@ -316,8 +317,9 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
         // namely:
         //
         // ': '                         -> anywhere
-        // ',' | '[' | ']' | '{' | '}'  -> flow context
-        if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+        // ',' | '[' | ']' | '{' | '}'  -> flow context, also
+        //                                 after a ':'
+        if value_indicator(buffer, flow_context)
             || flow_context && flow_indicator(buffer, 0)
         {
             break 'scalar;
@@ -328,7 +330,7 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
         {
             cache!(~buffer, 2, opts)?;
 
-            if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+            if value_indicator(buffer, flow_context)
                 || flow_context && flow_indicator(buffer, 0)
             {
                 let skip = match isWhiteSpace!(~buffer, 1)
@@ -406,6 +408,14 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
     Ok((lazy, advance))
 }
 
+/// Have we hit a value indicator? In the flow context, a
+/// flow indicator is as good as whitespace after the ':'
+fn value_indicator(buffer: &str, flow_context: bool) -> bool
+{
+    check!(~buffer => b':')
+        && (isWhiteSpaceZ!(~buffer, 1) || (flow_context && flow_indicator(buffer, 1)))
+}
+
 /// Have we hit a flow context scalar end indicator?
 fn flow_indicator(buffer: &str, offset: usize) -> bool
 {
-- 
2.43.0


From 2769811229bd183229433fbecc7079c8a679365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:19 +0000
Subject: [PATCH 26/27] fix: skip extra document end markers between documents

---
 src/event/parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 7f3d528..72cc072 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -237,9 +237,9 @@ impl Parser
         let implicit = opts.contains(O_IMPLICIT);
         let first = opts.contains(O_FIRST);
 
-        // If the document is explicit we need to skip any extra
+        // If there was a document before we need to skip any extra
         // DocumentEnd tokens ('...')
-        if !implicit
+        if !first
         {
             while peek!(~tokens)? == Marker::DocumentEnd
             {
-- 
2.43.0


From bca191e5c5d3fddcc0649f662f58137b5cd05b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:33 +0000
Subject: [PATCH 27/27] fix: let tags end at the end of the stream

---
 src/scanner/tag.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index caed3d7..9450251 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -99,6 +99,11 @@ pub(in crate::scanner) fn scan_tag_directive<'de>(
     let (handle, amt) = match scan_tag_handle(opts, buffer, stats)?
     {
         Some((handle, amt)) => (handle.into_inner(), amt),
+        // The stream ended within the handle
+        None if buffer[1..].bytes().all(|b| b.is_ascii_alphanumeric()) =>
+        {
+            return Err(ScanError::UnexpectedEOF)
+        },
         None => return Err(ScanError::InvalidTagHandle),
     };
     advance!(buffer, amt);
@@ -315,8 +320,8 @@ pub(in crate::scanner) fn scan_tag_uri<'de>(
                 let amt = tag_uri_unescape(opts, buffer, &mut scratch, true)?;
                 advance!(buffer, :stats, amt);
             },
-            // EOF before loop end is an error
-            [] => return Err(ScanError::UnexpectedEOF),
+            // EOF before the closing '>' is an error
+            [] if verbatim => return Err(ScanError::UnexpectedEOF),
             // Otherwise we've finished the tag, exit the loop
             _ => break,
         }
@@ -379,7 +384,7 @@ pub(in crate::scanner) fn scan_tag_handle<'b>(
             Ok(Some(handle))
         },
         // Else check to see if this could be a primary handle (or non-resolving tag)
-        _ if name.is_empty() && isWhiteSpace!(~buffer, offset) =>
+        _ if name.is_empty() && isWhiteSpaceZ!(~buffer, offset) =>
         {
             let handle = (TagHandle::Primary(&buffer[..1]), 1);
             stats.update(1, 0, 1);
@@ -389,8 +394,7 @@ pub(in crate::scanner) fn scan_tag_handle<'b>(
         // Ambiguous sequence, we cannot determine if this is an error, or a local tag + suffix e.g
         // key: !suffix "value"
         //      ^^^^^^^
-        Some(_) => Ok(None),
-        None => Err(ScanError::UnexpectedEOF),
+        _ => Ok(None),
     }
 }
 
-- 
2.43.0

