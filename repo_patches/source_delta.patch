From 5c7b63e66d8b638dd1533e4093495d1242624ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:48 +0000
Subject: [PATCH 01/36] fix: terminate single-quoted strings at end of input

An unterminated single-quoted string made the parser loop forever, and grow
its scratch buffer without bound if the string contained an escaped quote.
Treat the end of input like the double-quoted parser does.
---
 src/yaml/parsing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 836afb1..0d763f9 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -327,6 +327,9 @@ impl<'a> Parser<'a> {
                 [b'\'', _] => {
                     break;
                 }
+                [EOF, _] if self.is_eof() => {
+                    break;
+                }
                 _ => {
                     self.bump(1);
                 }
@@ -353,6 +356,9 @@ impl<'a> Parser<'a> {
                 [b'\'', _] => {
                     break;
                 }
+                [EOF, _] if self.is_eof() => {
+                    break;
+                }
                 [b, _] => {
                     self.bump(1);
                     self.scratch.push(b);
-- 
2.43.0


From 88fd001b4a697524bbfd9fb14ec4e5efea609716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 02/36] fix: retain document headers

The %-directives and the --- marker were consumed when parsing, but never
written back. Store everything up to the marker in the document.
---
 src/yaml/document.rs | 12 ++++++++++--
 src/yaml/parsing.rs  | 15 +++++++++++----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/yaml/document.rs b/src/yaml/document.rs
index 85c7dde..1b966d3 100644
--- a/src/yaml/document.rs
+++ b/src/yaml/document.rs
@@ -30,6 +30,7 @@ use crate::yaml::{Value, ValueMut};
 #[derive(Clone)]
 #[cfg_attr(feature = "serde-edits", derive(Serialize, Deserialize))]
 pub struct Document {
+    header: StringId,
     suffix: StringId,
     pub(crate) root: Id,
     pub(crate) data: Data,
@@ -37,8 +38,13 @@ pub struct Document {
 
 impl Document {
     /// Construct a new document.
-    pub(crate) fn new(suffix: StringId, root: Id, data: Data) -> Self {
-        Self { suffix, root, data }
+    pub(crate) fn new(header: StringId, suffix: StringId, root: Id, data: Data) -> Self {
+        Self {
+            header,
+            suffix,
+            root,
+            data,
+        }
     }
 
     /// Get the document as a [`Value`].
@@ -267,6 +273,7 @@ impl Document {
     where
         O: io::Write,
     {
+        output.write_all(self.data.str(self.header))?;
         output.write_all(self.data.prefix(self.root))?;
         self.data.raw(self.root).write_to(&self.data, &mut output)?;
         output.write_all(self.data.str(self.suffix))?;
@@ -277,6 +284,7 @@ impl Document {
     fn display(&self, f: &mut fmt::Formatter) -> fmt::Result {
         use std::fmt::Display;
 
+        self.data.str(self.header).fmt(f)?;
         self.data.prefix(self.root).fmt(f)?;
         self.data.raw(self.root).display(&self.data, f, None)?;
         self.data.str(self.suffix).fmt(f)?;
diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 0d763f9..16e44f7 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -107,7 +107,7 @@ impl<'a> Parser<'a> {
 
     /// Parses a single value, and returns its kind.
     pub(crate) fn parse(mut self) -> Result<Document> {
-        let prefix = self.start_of_document();
+        let (header, prefix) = self.start_of_document();
 
         let (root, suffix) = self.value(&State::new(prefix).with_tabular())?;
 
@@ -120,13 +120,17 @@ impl<'a> Parser<'a> {
             return Err(Error::new(self.n..self.input.len(), ErrorKind::ExpectedEof));
         }
 
-        Ok(Document::new(suffix, root, self.data))
+        Ok(Document::new(header, suffix, root, self.data))
     }
 
     /// Process document delimiter.
     ///
     /// This is a `---` that is allowed to exist at the beginning of the document.
-    fn start_of_document(&mut self) -> StringId {
+    ///
+    /// Returns everything up until the end of the delimiter, and the whitespace
+    /// following it.
+    fn start_of_document(&mut self) -> (StringId, StringId) {
+        let mut header = 0;
         let mut prefix = self.ws();
 
         loop {
@@ -134,11 +138,13 @@ impl<'a> Parser<'a> {
                 // Process headers.
                 [b'%', _, _] => {
                     self.find(raw::NEWLINE);
+                    header = self.n;
                     prefix = self.ws();
                 }
                 // Process start-of-document.
                 [b'-', b'-', b'-'] => {
                     self.bump(3);
+                    header = self.n;
                     prefix = self.ws();
                     break;
                 }
@@ -148,7 +154,8 @@ impl<'a> Parser<'a> {
             }
         }
 
-        prefix
+        let header = self.input.get(..header).unwrap_or_default();
+        (self.data.insert_str(header), prefix)
     }
 
     /// Test if eof.
-- 
2.43.0


From 01c8605d9b89a6d0f551342a484ee3fd6c0e1a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 03/36] fix: retain whitespace and separators in inline
 collections

Whitespace in front of a separator or terminator of an inline mapping was
lost, and a separator which isn't there was added between the last two items.
Keep whitespace in front of a separator as part of the item preceding it, and
reject items which are not separated.
---
 src/yaml/mapping/mapping_mut.rs   |  8 +++--
 src/yaml/parsing.rs               | 52 +++++++++++++++++--------------
 src/yaml/raw.rs                   |  8 +++++
 src/yaml/sequence/sequence_mut.rs |  9 ++++--
 4 files changed, 49 insertions(+), 28 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index c1d4654..a6f55f4 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -198,8 +198,12 @@ impl<'a> MappingMut<'a> {
 
         let value = self.data.insert(value, value_prefix, Some(item_id));
 
-        self.data
-            .replace(item_id, Raw::MappingItem(raw::MappingItem { key, value }));
+        let suffix = self.data.insert_str("");
+
+        self.data.replace(
+            item_id,
+            Raw::MappingItem(raw::MappingItem { key, value, suffix }),
+        );
 
         self.data.mapping_mut(self.id).items.push(item_id);
         value
diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 16e44f7..bd42bf6 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -509,8 +509,8 @@ impl<'a> Parser<'a> {
 
         self.bump(1);
 
+        let empty = self.data.insert_str("");
         let mut items = Vec::new();
-        let mut last = false;
         let mut trailing = false;
         let mut item_prefix = self.ws();
 
@@ -522,23 +522,23 @@ impl<'a> Parser<'a> {
             let (value, next_prefix) =
                 self.value(&State::new(value_prefix).with_parent(item_id).with_inline())?;
 
-            self.data.replace(item_id, raw::SequenceItem { value });
-
             items.push(item_id);
+            item_prefix = next_prefix.unwrap_or_else(|| self.ws());
 
-            if last {
-                item_prefix = next_prefix.unwrap_or_else(|| self.ws());
+            if !matches!(self.peek1(), b',') {
+                let suffix = empty;
+                self.data
+                    .replace(item_id, raw::SequenceItem { value, suffix });
                 break;
             }
 
-            if matches!(self.peek1(), b',') {
-                self.bump(1);
-                trailing = true;
-            } else {
-                last = true;
-            }
+            let suffix = item_prefix;
+            self.data
+                .replace(item_id, raw::SequenceItem { value, suffix });
 
-            item_prefix = next_prefix.unwrap_or_else(|| self.ws());
+            self.bump(1);
+            trailing = true;
+            item_prefix = self.ws();
         }
 
         if !matches!(self.peek1(), b']') {
@@ -570,8 +570,8 @@ impl<'a> Parser<'a> {
         let id = self.placeholder(s.prefix, s.parent);
         self.bump(1);
 
+        let empty = self.data.insert_str("");
         let mut items = Vec::new();
-        let mut last = false;
         let mut trailing = false;
         let mut start = self.n;
         let mut item_prefix = self.ws();
@@ -589,22 +589,22 @@ impl<'a> Parser<'a> {
             let (value, next_prefix) =
                 self.value(&State::new(value_prefix).with_parent(item_id).with_inline())?;
 
-            self.data.replace(item_id, raw::MappingItem { key, value });
             items.push(item_id);
-
             item_prefix = next_prefix.unwrap_or_else(|| self.ws());
 
-            if last {
+            if !matches!(self.peek1(), b',') {
+                let suffix = empty;
+                self.data
+                    .replace(item_id, raw::MappingItem { key, value, suffix });
                 break;
             }
 
-            if matches!(self.peek1(), b',') {
-                self.bump(1);
-                trailing = true;
-            } else {
-                last = true;
-            }
+            let suffix = item_prefix;
+            self.data
+                .replace(item_id, raw::MappingItem { key, value, suffix });
 
+            self.bump(1);
+            trailing = true;
             start = self.n;
             item_prefix = self.ws();
         }
@@ -649,7 +649,9 @@ impl<'a> Parser<'a> {
             let (value, ws) =
                 self.value(&State::new(value_prefix).with_parent(item_id).with_tabular())?;
 
-            self.data.replace(item_id, raw::SequenceItem { value });
+            let suffix = empty;
+            self.data
+                .replace(item_id, raw::SequenceItem { value, suffix });
             items.push(item_id);
 
             let ws = ws.unwrap_or_else(|| self.ws());
@@ -718,7 +720,9 @@ impl<'a> Parser<'a> {
                     .with_parent_indent(indent),
             )?;
 
-            self.data.replace(item_id, raw::MappingItem { key, value });
+            let suffix = empty;
+            self.data
+                .replace(item_id, raw::MappingItem { key, value, suffix });
             items.push(item_id);
 
             let ws = ws.unwrap_or_else(|| self.ws());
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 25ebc81..3ff12ad 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -834,11 +834,14 @@ impl Sequence {
 #[cfg_attr(feature = "serde-edits", derive(Serialize, Deserialize))]
 pub(crate) struct SequenceItem {
     pub(crate) value: Id,
+    /// Whitespace between the value and the separator following it.
+    pub(crate) suffix: StringId,
 }
 
 impl SequenceItem {
     fn display(&self, data: &Data, f: &mut fmt::Formatter) -> fmt::Result {
         data.raw(self.value).display(data, f, Some(self.value))?;
+        write!(f, "{}", data.str(self.suffix))?;
         Ok(())
     }
 
@@ -848,6 +851,7 @@ impl SequenceItem {
     {
         o.write_all(data.prefix(self.value))?;
         data.raw(self.value).write_to(data, o)?;
+        o.write_all(data.str(self.suffix))?;
         Ok(())
     }
 }
@@ -973,6 +977,8 @@ impl Mapping {
 pub(crate) struct MappingItem {
     pub(crate) key: String,
     pub(crate) value: Id,
+    /// Whitespace between the value and the separator following it.
+    pub(crate) suffix: StringId,
 }
 
 impl MappingItem {
@@ -980,6 +986,7 @@ impl MappingItem {
         self.key.display(data, f)?;
         write!(f, ":")?;
         data.raw(self.value).display(data, f, Some(self.value))?;
+        write!(f, "{}", data.str(self.suffix))?;
         Ok(())
     }
 
@@ -991,6 +998,7 @@ impl MappingItem {
         write!(o, ":")?;
         o.write_all(data.prefix(self.value))?;
         data.raw(self.value).write_to(data, o)?;
+        o.write_all(data.str(self.suffix))?;
         Ok(())
     }
 }
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index c4397c6..8562a95 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -127,8 +127,13 @@ impl<'a> SequenceMut<'a> {
 
         let value = self.data.insert(value, value_prefix, Some(item_id));
 
-        self.data
-            .replace(item_id, Raw::SequenceItem(raw::SequenceItem { value }));
+        let suffix = self.data.insert_str("");
+
+        self.data.replace(
+            item_id,
+            Raw::SequenceItem(raw::SequenceItem { value, suffix }),
+        );
+
         self.data.sequence_mut(self.id).items.push(item_id);
         value
     }
-- 
2.43.0


From 8dbb1bfb59ff38a48354e15b74f73b4ed74294d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 04/36] fix: do not split inline scalars which start with a
 number

Scalars such as 1.6.3 or 2024-01-01 in inline collections were cut into a
number and something else. Only treat them as numbers if the item ends there.
---
 src/yaml/parsing.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index bd42bf6..8d9fb5e 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -265,6 +265,28 @@ impl<'a> Parser<'a> {
         true
     }
 
+    /// Test if current position contains nothing but whitespace until we reach
+    /// the end of an inline item.
+    fn is_inline_end(&self) -> bool {
+        let mut n = self.n;
+
+        while let Some(&b) = self.input.get(n) {
+            match b {
+                b',' | b']' | b'}' | b'#' => {
+                    return true;
+                }
+                ws!() => {
+                    n = n.wrapping_add(1);
+                }
+                _ => {
+                    return false;
+                }
+            }
+        }
+
+        true
+    }
+
     /// Consume a single number.
     fn number(&mut self, s: &State, start: usize) -> Option<Raw> {
         let mut hint = serde_hint::U64;
@@ -310,6 +332,10 @@ impl<'a> Parser<'a> {
             return None;
         }
 
+        if s.inline && !self.is_inline_end() {
+            return None;
+        }
+
         let string = self.data.insert_str(self.string(start));
         Some(Raw::Number(raw::Number::new(string, hint)))
     }
-- 
2.43.0


From 0cd2f7a6ab8c47c4bd528f4d99baaebd439a1f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 05/36] fix: do not drop nul bytes following keys in inline
 mappings

A nul byte ends the scan for a key, and was then skipped as if it were the
colon. Report that the colon is missing instead.
---
 src/yaml/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 8d9fb5e..ed4f197 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -814,7 +814,7 @@ impl<'a> Parser<'a> {
             self.bump(1);
         }
 
-        if self.is_eof() {
+        if self.peek1() != b':' {
             return None;
         }
 
-- 
2.43.0


From 2ead040ad28099f2b633fa07a1ada4c844ba2198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 06/36] fix: do not duplicate whitespace following an empty
 block scalar

If a block scalar ends at its first line and with it the input, the whitespace
that follows was made part of both the scalar and the suffix.
---
 src/yaml/parsing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index ed4f197..7f09396 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -836,6 +836,7 @@ impl<'a> Parser<'a> {
         let prefix = self.data.insert_str(self.string(start));
 
         let start = self.n;
+        let mut end = start;
         let (mut ws, mut nl) = self.ws_nl();
 
         if nl == 0 {
@@ -843,6 +844,7 @@ impl<'a> Parser<'a> {
             let out = self.input.get(start..self.n).unwrap_or_default().trim();
             self.scratch.extend_from_slice(out);
 
+            end = self.n;
             (ws, nl) = self.ws_nl();
 
             if !self.is_eof() {
@@ -850,7 +852,6 @@ impl<'a> Parser<'a> {
             }
         }
 
-        let mut end = self.n;
         let indent = self.indent();
 
         while !self.is_eof() {
-- 
2.43.0


From dcd0ffe932cd3cbc69b7b90a9a54095e00aef9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 07/36] fix: do not parse block scalars inside of inline
 collections

A block scalar in an inline collection swallowed the lines which follow it, and
the whitespace in front of the next separator was moved to after it. There are
no block scalars in inline collections, so treat the indicator as plain text.
---
 src/yaml/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 7f09396..5303f9c 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -921,7 +921,7 @@ impl<'a> Parser<'a> {
             }
             [b'[', _] => return Ok((self.inline_sequence(s)?, None)),
             [b'{', _] => return Ok((self.inline_mapping(s)?, None)),
-            [a @ (b'>' | b'|'), b] => self.block(
+            [a @ (b'>' | b'|'), b] if !s.inline => self.block(
                 matches!(b, b'-' | b'+').then_some(2).unwrap_or(1),
                 if a == b'>' { raw::SPACE } else { raw::NEWLINE },
                 a == b'>',
-- 
2.43.0


From 1eccf9f8ed72560a596e50fc7b90658197d2c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 08/36] fix: skip from the back in nth_back

The iterators over mappings and sequences skipped from the front.
---
 src/yaml/mapping/iter.rs  | 2 +-
 src/yaml/sequence/iter.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml/mapping/iter.rs b/src/yaml/mapping/iter.rs
index 36119a7..66d0eb6 100644
--- a/src/yaml/mapping/iter.rs
+++ b/src/yaml/mapping/iter.rs
@@ -59,7 +59,7 @@ impl DoubleEndedIterator for Iter<'_> {
 
     #[inline]
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        let item = self.data.mapping_item(*self.iter.nth(n)?);
+        let item = self.data.mapping_item(*self.iter.nth_back(n)?);
         let key = self.data.str(item.key.id);
         let value = Value::new(self.data, item.value);
         Some((key, value))
diff --git a/src/yaml/sequence/iter.rs b/src/yaml/sequence/iter.rs
index 5dc2de7..538141a 100644
--- a/src/yaml/sequence/iter.rs
+++ b/src/yaml/sequence/iter.rs
@@ -51,7 +51,7 @@ impl DoubleEndedIterator for Iter<'_> {
 
     #[inline]
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        let item = self.data.sequence_item(*self.iter.nth(n)?);
+        let item = self.data.sequence_item(*self.iter.nth_back(n)?);
         Some(Value::new(self.data, item.value))
     }
 }
-- 
2.43.0


From ad7d6803c36e9936b6b0365d384f990d0ac12920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 09/36] fix: write the prefix of sequence items as is

A comment in front of a sequence item which is not UTF-8 was written lossily.
---
 src/yaml/raw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 3ff12ad..6ffb408 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -801,7 +801,7 @@ impl Sequence {
         let mut it = self.items.iter().peekable();
 
         while let Some(item) = it.next() {
-            write!(o, "{}", data.prefix(*item))?;
+            o.write_all(data.prefix(*item))?;
 
             if let SequenceKind::Mapping = self.kind {
                 write!(o, "-")?;
-- 
2.43.0


From 5acb92083800a966374859ee1351ebf44dae2b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 10/36] fix: write the same whitespace around empty values as
 is displayed

Displaying a document leaves out the prefix of empty nulls and empty block
collections, writing it to an output didn't.
---
 src/yaml/raw.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 6ffb408..77ed1b5 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -308,6 +308,19 @@ impl Raw {
         Ok(())
     }
 
+    /// Test if the value has no text of its own, in which case its prefix is
+    /// not part of the document either.
+    pub(crate) fn is_blank(&self) -> bool {
+        match self {
+            Self::Null(Null::Empty) => true,
+            Self::Mapping(raw) => matches!(raw.kind, MappingKind::Mapping) && raw.items.is_empty(),
+            Self::Sequence(raw) => {
+                matches!(raw.kind, SequenceKind::Mapping) && raw.items.is_empty()
+            }
+            _ => false,
+        }
+    }
+
     pub(crate) fn is_tabular(&self) -> bool {
         matches!(
             self,
@@ -849,8 +862,13 @@ impl SequenceItem {
     where
         O: ?Sized + io::Write,
     {
-        o.write_all(data.prefix(self.value))?;
-        data.raw(self.value).write_to(data, o)?;
+        let raw = data.raw(self.value);
+
+        if !raw.is_blank() {
+            o.write_all(data.prefix(self.value))?;
+        }
+
+        raw.write_to(data, o)?;
         o.write_all(data.str(self.suffix))?;
         Ok(())
     }
@@ -996,8 +1014,13 @@ impl MappingItem {
     {
         self.key.write_to(data, o)?;
         write!(o, ":")?;
-        o.write_all(data.prefix(self.value))?;
-        data.raw(self.value).write_to(data, o)?;
+        let raw = data.raw(self.value);
+
+        if !raw.is_blank() {
+            o.write_all(data.prefix(self.value))?;
+        }
+
+        raw.write_to(data, o)?;
         o.write_all(data.str(self.suffix))?;
         Ok(())
     }
-- 
2.43.0


From 066b39a8fd130d30b69d50bffb8e2f1a4dc44d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:51 +0000
Subject: [PATCH 11/36] fix: make double-quoted strings read back as what they
 were set to

An escaped double quote as it is written was rejected when loading it, and a
backslash wasn't escaped at all.
---
 src/yaml/parsing.rs | 2 +-
 src/yaml/raw.rs     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 5303f9c..82f6c76 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -481,7 +481,7 @@ impl<'a> Parser<'a> {
             b'f' => b'\x0c',
             b'r' => b'\r',
             b'e' => b'\x1b',
-            b'\\' => b'\"',
+            b'\\' | b'"' => b'\"',
             b'x' => {
                 self.bump(1);
                 return self.unescape_unicode(start, 2, ErrorKind::BadHexEscape);
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 77ed1b5..0d9a8ff 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -579,6 +579,7 @@ impl String {
                     '\r' => "\\r",
                     '\u{1b}' => "\\e",
                     '\"' => "\\\"",
+                    '\\' => "\\x5c",
                     c if c.is_ascii_control() => {
                         write!(f, "{}\\x{:02x}", &string[start..index], c as u8)?;
                         start = end;
@@ -661,7 +662,7 @@ impl String {
             let mut s = 0;
 
             for (index, b) in string.bytes().enumerate() {
-                let esc = match b {
+                let esc: &[u8] = match b {
                     b'\0' => b"\\0",
                     0x07 => b"\\a",
                     0x08 => b"\\b",
@@ -672,6 +673,7 @@ impl String {
                     b'\r' => b"\\r",
                     0x1b => b"\\e",
                     b'\"' => b"\\\"",
+                    b'\\' => b"\\x5c",
                     c if c.is_ascii_control() => {
                         o.write_all(&string[s..index])?;
                         write!(o, "\\x{c:02x}")?;
-- 
2.43.0


From 3f4898e6aebc67d8c52afed68aa3bb12e62eae6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 12/36] fix: quote strings which would not read back as the
 same string

Empty strings, strings in the form of other scalars in any case, and strings
which start with an indicator or are surrounded by spaces were written bare, so
they changed or broke the document when loaded again.
---
 src/yaml/raw.rs | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 0d9a8ff..52e6589 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -490,18 +490,47 @@ pub(crate) enum RawStringKind {
 impl RawStringKind {
     /// Detect the appropriate kind to use for the given string.
     pub(crate) fn detect(string: &str) -> RawStringKind {
-        if matches!(string, "true" | "false" | "null") {
+        let mut kind = RawStringKind::Bare;
+        let keyword = |keyword: &str| string.eq_ignore_ascii_case(keyword);
+
+        if keyword("true") || keyword("false") || keyword("null") || string == "~" {
             return RawStringKind::Single;
         }
 
-        let mut kind = RawStringKind::Bare;
+        // Whitespace around a bare string is not part of it.
+        if string.is_empty() || string.ends_with(' ') {
+            kind = RawStringKind::Single;
+        }
+
         let mut first = true;
 
         for c in string.chars() {
             let first = mem::take(&mut first);
 
             match c {
-                '0'..='9' if first => {
+                // Indicators and anything that would make it a number.
+                '0'..='9'
+                | '-'
+                | '.'
+                | '?'
+                | ','
+                | '['
+                | ']'
+                | '{'
+                | '}'
+                | '#'
+                | '&'
+                | '*'
+                | '!'
+                | '|'
+                | '>'
+                | '"'
+                | '%'
+                | '@'
+                | '`'
+                | ' '
+                    if first =>
+                {
                     kind = RawStringKind::Single;
                 }
                 '\'' => {
-- 
2.43.0


From 184abffa5330cc75e290e9ac6effa81191511372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 13/36] fix: nest the lines of a block in the collection
 containing the value

Setting a nested value to a block indented its lines by two characters, so
they ended the collection when it is indented by more than that.
---
 src/yaml/raw.rs       | 18 ++++++++++++++++++
 src/yaml/value_mut.rs |  2 +-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 52e6589..b3d8d96 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -131,6 +131,24 @@ where
     Raw::String(String::new(kind, string, string))
 }
 
+/// Construct a block replacing the value with the given identifier.
+pub(crate) fn set_block<I>(data: &mut Data, id: Id, iter: I, block: Block) -> Raw
+where
+    I: IntoIterator,
+    I::Item: AsRef<str>,
+{
+    let item = data.layout(id).parent;
+
+    // NB: the text of the block has to be nested in the collection which
+    // contains the value, regardless of where in the line the value is.
+    let id = match item.and_then(|item| data.layout(item).parent) {
+        Some(container) => container,
+        None => id,
+    };
+
+    new_block(data, id, iter, block)
+}
+
 /// Construct a block with the given configuration.
 pub(crate) fn new_block<I>(data: &mut Data, id: Id, iter: I, block: Block) -> Raw
 where
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index 7e9c45d..e8e66e0 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -574,7 +574,7 @@ impl<'a> ValueMut<'a> {
         I: IntoIterator,
         I::Item: AsRef<str>,
     {
-        let value = raw::new_block(self.data, self.id, iter, block);
+        let value = raw::set_block(self.data, self.id, iter, block);
         self.data.replace(self.id, value);
     }
 
-- 
2.43.0


From 0396bdb1c7554663d29ae9a306dac7fc915d5c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:57 +0000
Subject: [PATCH 14/36] fix: clip and end block scalars correctly

A block scalar without a chomping indicator kept all trailing newlines, and one
at the end of the input was joined with a line which isn't there.
---
 src/yaml/parsing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 82f6c76..12789f6 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -863,7 +863,7 @@ impl<'a> Parser<'a> {
             end = self.n;
             (ws, nl) = self.ws_nl();
 
-            if self.indent() < indent {
+            if self.is_eof() || self.indent() < indent {
                 break;
             }
 
@@ -926,7 +926,7 @@ impl<'a> Parser<'a> {
                 if a == b'>' { raw::SPACE } else { raw::NEWLINE },
                 a == b'>',
                 b != b'-',
-                b == b'-',
+                b != b'+',
             ),
             _ => {
                 'default: {
-- 
2.43.0


From ba869626629750475963a4aab9822530afd878e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 15/36] fix: treat missing values as null

A value which is missing at the end of the input was read as an empty string,
and one in or in front of the next item of a block sequence took that item for
its value. Extend the handling of missing values in mappings to them.
---
 src/yaml/parsing.rs | 60 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 12789f6..590a33a 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -38,6 +38,7 @@ struct State {
     inline: bool,
     tabular: bool,
     parent_indent: Option<usize>,
+    sequence_indent: Option<usize>,
 }
 
 impl State {
@@ -49,6 +50,7 @@ impl State {
             inline: false,
             tabular: false,
             parent_indent: None,
+            sequence_indent: None,
         }
     }
 
@@ -83,6 +85,14 @@ impl State {
             ..self
         }
     }
+
+    #[inline]
+    fn with_sequence_indent(self, indent: usize) -> Self {
+        Self {
+            sequence_indent: Some(indent),
+            ..self
+        }
+    }
 }
 
 /// A YAML parser.
@@ -346,6 +356,13 @@ impl<'a> Parser<'a> {
             .insert(Raw::Null(raw::Null::Empty), prefix, parent)
     }
 
+    /// Insert a nul for a value which is not there. The whitespace in front of
+    /// it is returned, because it belongs to whatever follows.
+    fn nul(&mut self, s: &State) -> (Id, Option<StringId>) {
+        let empty = self.data.insert_str("");
+        (self.placeholder(empty, s.parent), Some(s.prefix))
+    }
+
     /// Read a double-quoted string.
     fn single_quoted(&mut self) -> raw::String {
         let original = self.n;
@@ -658,12 +675,20 @@ impl<'a> Parser<'a> {
 
     /// Parse a sequence.
     fn sequence(&mut self, s: &State) -> Result<(Id, Option<StringId>)> {
+        let indent = self.indent();
+
+        // Finding a sequence on a smaller indentation level than what is
+        // necessary for it to be nested in the parent means that we've
+        // encountered a nul value.
+        if matches!(s.sequence_indent, Some(i) if i > indent) {
+            return Ok(self.nul(s));
+        }
+
         let empty = self.data.insert_str("");
         let mapping_id = self.placeholder(s.prefix, s.parent);
 
         let mut items = Vec::new();
         let mut previous_ws = None;
-        let indent = self.indent();
 
         loop {
             let item_prefix = previous_ws.take().unwrap_or(empty);
@@ -672,8 +697,13 @@ impl<'a> Parser<'a> {
             self.bump(1);
 
             let value_prefix = self.ws();
-            let (value, ws) =
-                self.value(&State::new(value_prefix).with_parent(item_id).with_tabular())?;
+            let (value, ws) = self.value(
+                &State::new(value_prefix)
+                    .with_parent(item_id)
+                    .with_tabular()
+                    .with_parent_indent(indent)
+                    .with_sequence_indent(indent.saturating_add(1)),
+            )?;
 
             let suffix = empty;
             self.data
@@ -709,24 +739,22 @@ impl<'a> Parser<'a> {
         mut start: usize,
         key: raw::String,
     ) -> Result<(Id, Option<StringId>)> {
-        let empty = self.data.insert_str("");
-        let mapping_id = self.placeholder(s.prefix, s.parent);
-
-        let mut items = Vec::new();
-        let mut previous_ws = None;
-        let mut current_key = Some(key);
-
         let indent = self.indent_from(start);
 
         // Finding a mapping on a smaller indentation level than the parent
         // indentation means that we've encountered a nul value and need to rewind parsing.
         if matches!(s.parent_indent, Some(i) if i >= indent) {
             self.n = start;
-            self.data
-                .replace_with(mapping_id, empty, Raw::Null(raw::Null::Empty));
-            return Ok((mapping_id, Some(s.prefix)));
+            return Ok(self.nul(s));
         }
 
+        let empty = self.data.insert_str("");
+        let mapping_id = self.placeholder(s.prefix, s.parent);
+
+        let mut items = Vec::new();
+        let mut previous_ws = None;
+        let mut current_key = Some(key);
+
         while let Some(key) = current_key.take() {
             if !matches!(self.peek1(), b':') {
                 self.bump(1);
@@ -743,7 +771,8 @@ impl<'a> Parser<'a> {
                 &State::new(value_prefix)
                     .with_parent(item_id)
                     .with_tabular()
-                    .with_parent_indent(indent),
+                    .with_parent_indent(indent)
+                    .with_sequence_indent(indent),
             )?;
 
             let suffix = empty;
@@ -896,6 +925,9 @@ impl<'a> Parser<'a> {
     /// Consume a single value.
     fn value(&mut self, s: &State) -> Result<(Id, Option<StringId>)> {
         let (raw, ws) = match self.peek() {
+            [EOF, _] if !s.inline && s.parent.is_some() && self.is_eof() => {
+                return Ok(self.nul(s));
+            }
             [b'-', ws!()] if !s.inline => {
                 return self.sequence(s);
             }
-- 
2.43.0


From 3186e7cdd24230bb51d26e0695863b3b04ed44c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:44 +0000
Subject: [PATCH 16/36] fix: separate values from the key or dash in front of
 them

A value which is missing has no separator, so setting it wrote it directly
behind the colon or dash, as did pushing behind a missing value.
---
 src/yaml/data.rs                  | 21 +++++++++++++++++++++
 src/yaml/mapping/mapping_mut.rs   |  2 +-
 src/yaml/sequence/sequence_mut.rs | 20 ++++++++++++++++----
 src/yaml/value_mut.rs             | 14 +++++++-------
 4 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/yaml/data.rs b/src/yaml/data.rs
index 9207f74..e047cb1 100644
--- a/src/yaml/data.rs
+++ b/src/yaml/data.rs
@@ -306,6 +306,27 @@ impl Data {
         self.drop_kind(removed);
     }
 
+    /// Set a value, which replaces its text but not what separates it from the
+    /// key or dash in front of it. If there is no separator, because there was
+    /// nothing to separate, one is added.
+    pub(crate) fn set(&mut self, id: Id, raw: raw::Raw) {
+        let Some(value) = self.slab.get(id.get()) else {
+            return;
+        };
+
+        let prefix = value.layout.prefix;
+
+        let prefix =
+            if value.layout.parent.is_some() && value.raw.is_blank() && self.str(prefix).is_empty()
+            {
+                self.insert_str(" ")
+            } else {
+                prefix
+            };
+
+        self.replace_with(id, prefix, raw);
+    }
+
     /// Replace with indentation.
     pub(crate) fn replace_with(&mut self, id: Id, prefix: StringId, raw: raw::Raw) {
         let Some(value) = self.slab.get_mut(id.get()) else {
diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index a6f55f4..72643a0 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -160,7 +160,7 @@ impl<'a> MappingMut<'a> {
             .find(|item| item.key.id == key)
             .map(|item| item.value)
         {
-            self.data.replace(id, value);
+            self.data.set(id, value);
             return id;
         }
 
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index 8562a95..9c4ef97 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -114,14 +114,26 @@ impl<'a> SequenceMut<'a> {
             .insert(Raw::Null(raw::Null::Empty), item_prefix, Some(self.id));
 
         let value_prefix = match separator {
-            Separator::Auto => match self.data.sequence(self.id).items.last() {
-                Some(last) => {
+            Separator::Auto => {
+                let sequence = self.data.sequence(self.id);
+
+                let prefix = sequence.items.last().map(|last| {
                     self.data
                         .layout(self.data.sequence_item(*last).value)
                         .prefix
+                });
+
+                match prefix {
+                    // The last value might be empty, and not be separated.
+                    Some(prefix)
+                        if matches!(sequence.kind, raw::SequenceKind::Inline { .. })
+                            || !self.data.str(prefix).is_empty() =>
+                    {
+                        prefix
+                    }
+                    _ => self.data.insert_str(" "),
                 }
-                None => self.data.insert_str(" "),
-            },
+            }
             Separator::Custom(separator) => self.data.insert_str(separator),
         };
 
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index e8e66e0..2ec33e5 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -334,7 +334,7 @@ macro_rules! set_float {
         pub fn $name(&mut self, value: $ty) {
             let mut buffer = ryu::Buffer::new();
             let string = self.data.insert_str(buffer.format(value));
-            self.data.replace(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
+            self.data.set(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
         }
     };
 }
@@ -358,7 +358,7 @@ macro_rules! set_number {
         pub fn $name(&mut self, value: $ty) {
             let mut buffer = itoa::Buffer::new();
             let string = self.data.insert_str(buffer.format(value));
-            self.data.replace(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
+            self.data.set(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
         }
     };
 }
@@ -392,7 +392,7 @@ impl<'a> ValueMut<'a> {
             Null::Tilde => raw::Null::Tilde,
             Null::Empty => raw::Null::Empty,
         };
-        self.data.replace(self.id, Raw::Null(raw_kind));
+        self.data.set(self.id, Raw::Null(raw_kind));
     }
 
     /// Set the value as a string.
@@ -443,7 +443,7 @@ impl<'a> ValueMut<'a> {
         S: AsRef<str>,
     {
         let value = raw::new_string(self.data, string);
-        self.data.replace(self.id, value);
+        self.data.set(self.id, value);
     }
 
     /// Set the value as a string with a custom [`StringKind`].
@@ -469,7 +469,7 @@ impl<'a> ValueMut<'a> {
         S: AsRef<str>,
     {
         let value = raw::new_string_with(self.data, string, kind);
-        self.data.replace(self.id, value);
+        self.data.set(self.id, value);
     }
 
     /// Set the value as a literal block.
@@ -575,7 +575,7 @@ impl<'a> ValueMut<'a> {
         I::Item: AsRef<str>,
     {
         let value = raw::set_block(self.data, self.id, iter, block);
-        self.data.replace(self.id, value);
+        self.data.set(self.id, value);
     }
 
     /// Set the value as a boolean.
@@ -594,7 +594,7 @@ impl<'a> ValueMut<'a> {
     /// ```
     pub fn set_bool(&mut self, value: bool) {
         let value = raw::new_bool(self.data, value);
-        self.data.replace(self.id, value);
+        self.data.set(self.id, value);
     }
 
     set_float!(set_f32, f32, "32-bit float", 10.42, F32);
-- 
2.43.0


From 720c0219fd01c28d1722b03c2baacbfd9298ce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 17/36] fix: nest collections made in the first item of a
 sequence

The first item of a sequence has no indentation in front of it, so that a
collection made in it was indented by two characters wherever it is.
---
 src/yaml/raw.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index b3d8d96..a68fb4b 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -89,10 +89,11 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
         // - two: 2
         //   three: 3
         // ```
-        if let Some((Raw::SequenceItem(..), layout)) = parent.map(|id| data.pair(id)) {
-            let indent = self::count_indent(data.str(layout.prefix))
-                .saturating_add(2)
-                .saturating_add(extra);
+        //
+        // NB: the indentation of the sequence is used rather than what precedes
+        // the item, since the first item is not preceded by any.
+        if let Some(Raw::SequenceItem(..)) = parent.map(|id| data.raw(id)) {
+            let indent = indent.saturating_add(2).saturating_add(extra);
             return (indent, data.insert_str(" "));
         }
     }
-- 
2.43.0


From 055c9d139a1b14a9d6e94b584713713099e6735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 18/36] fix: do not retain the trailing separator of an emptied
 inline collection

A separator without any items is read back as an empty item.
---
 src/yaml/raw.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index a68fb4b..f4cc32a 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -843,7 +843,7 @@ impl Sequence {
         }
 
         if let SequenceKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(f, ",")?;
             }
 
@@ -880,7 +880,7 @@ impl Sequence {
         }
 
         if let SequenceKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(o, ",")?;
             }
 
@@ -994,7 +994,7 @@ impl Mapping {
         }
 
         if let MappingKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(f, ",")?;
             }
 
@@ -1027,7 +1027,7 @@ impl Mapping {
         }
 
         if let MappingKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(o, ",")?;
             }
 
-- 
2.43.0


From 3dea1dd0ca353d683e23670b5ec388b2650a7399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 19/36] fix: make inline collections inside of inline
 collections

A value in an inline collection was turned into a block collection, which can
not be nested in one.
---
 src/yaml/raw.rs       | 62 +++++++++++++++++++++++++++++++++++++++++++
 src/yaml/value_mut.rs | 26 +++---------------
 2 files changed, 66 insertions(+), 22 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index f4cc32a..78956c2 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -48,6 +48,68 @@ where
     Raw::String(String::new(kind, string, string))
 }
 
+/// Test if the value is contained in an inline collection.
+fn in_inline(data: &Data, id: Id) -> bool {
+    let container = data
+        .layout(id)
+        .parent
+        .and_then(|item| data.layout(item).parent);
+
+    match container.map(|id| data.raw(id)) {
+        Some(Raw::Mapping(raw)) => matches!(raw.kind, MappingKind::Inline { .. }),
+        Some(Raw::Sequence(raw)) => matches!(raw.kind, SequenceKind::Inline { .. }),
+        _ => false,
+    }
+}
+
+/// Construct an empty mapping replacing the value with the given identifier,
+/// and the prefix to use for it.
+pub(crate) fn make_mapping(data: &mut Data, id: Id) -> (StringId, Raw) {
+    let (indent, prefix, kind) = if in_inline(data, id) {
+        let suffix = data.insert_str("");
+        let trailing = false;
+        let prefix = data.layout(id).prefix;
+        (0, prefix, MappingKind::Inline { trailing, suffix })
+    } else {
+        let (indent, prefix) = make_indent(data, id, 0);
+        (indent, prefix, MappingKind::Mapping)
+    };
+
+    let items = Vec::new();
+
+    let raw = Raw::Mapping(Mapping {
+        indent,
+        kind,
+        items,
+    });
+
+    (prefix, raw)
+}
+
+/// Construct an empty sequence replacing the value with the given identifier,
+/// and the prefix to use for it.
+pub(crate) fn make_sequence(data: &mut Data, id: Id) -> (StringId, Raw) {
+    let (indent, prefix, kind) = if in_inline(data, id) {
+        let suffix = data.insert_str("");
+        let trailing = false;
+        let prefix = data.layout(id).prefix;
+        (0, prefix, SequenceKind::Inline { trailing, suffix })
+    } else {
+        let (indent, prefix) = make_indent(data, id, 0);
+        (indent, prefix, SequenceKind::Mapping)
+    };
+
+    let items = Vec::new();
+
+    let raw = Raw::Sequence(Sequence {
+        indent,
+        kind,
+        items,
+    });
+
+    (prefix, raw)
+}
+
 /// Construct an indentation prefix.
 pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, StringId) {
     let parent = data.layout(id).parent;
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index 2ec33e5..481f31e 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -691,17 +691,8 @@ impl<'a> ValueMut<'a> {
     #[must_use]
     pub fn make_mapping(self) -> MappingMut<'a> {
         if !matches!(self.data.raw(self.id), Raw::Mapping(..)) {
-            let (indent, prefix) = raw::make_indent(self.data, self.id, 0);
-
-            self.data.replace_with(
-                self.id,
-                prefix,
-                Raw::Mapping(raw::Mapping {
-                    indent,
-                    kind: raw::MappingKind::Mapping,
-                    items: Vec::new(),
-                }),
-            );
+            let (prefix, raw) = raw::make_mapping(self.data, self.id);
+            self.data.replace_with(self.id, prefix, raw);
         }
 
         MappingMut::new(self.data, self.id)
@@ -757,17 +748,8 @@ impl<'a> ValueMut<'a> {
     #[must_use]
     pub fn make_sequence(self) -> SequenceMut<'a> {
         if !matches!(self.data.raw(self.id), Raw::Sequence(..)) {
-            let (indent, prefix) = raw::make_indent(self.data, self.id, 0);
-
-            self.data.replace_with(
-                self.id,
-                prefix,
-                Raw::Sequence(raw::Sequence {
-                    indent,
-                    kind: raw::SequenceKind::Mapping,
-                    items: Vec::new(),
-                }),
-            );
+            let (prefix, raw) = raw::make_sequence(self.data, self.id);
+            self.data.replace_with(self.id, prefix, raw);
         }
 
         SequenceMut::new(self.data, self.id)
-- 
2.43.0


From 35e82daf594798e7e3703d2a04b0a2d21f7bb579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 20/36] fix: quote strings in inline collections which contain
 separators

The separator split the string when the document was loaded again.
---
 src/yaml/mapping/mapping_mut.rs   |  3 ++-
 src/yaml/raw.rs                   | 28 +++++++++++++++++++---------
 src/yaml/sequence/sequence_mut.rs |  3 ++-
 src/yaml/value_mut.rs             |  3 ++-
 4 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index 72643a0..1a2d16c 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -540,7 +540,8 @@ impl<'a> MappingMut<'a> {
         K: AsRef<[u8]>,
         S: AsRef<str>,
     {
-        let string = new_string(self.data, string);
+        let inline = self.data.raw(self.id).is_inline();
+        let string = new_string(self.data, string, inline);
         self.inner_insert(key.as_ref(), Separator::Auto, string);
     }
 
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 78956c2..254eaf2 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -39,27 +39,23 @@ pub(crate) fn new_bool(data: &mut Data, value: bool) -> Raw {
 }
 
 /// Construct a raw kind associated with a string.
-pub(crate) fn new_string<S>(data: &mut Data, string: S) -> Raw
+pub(crate) fn new_string<S>(data: &mut Data, string: S, inline: bool) -> Raw
 where
     S: AsRef<str>,
 {
-    let kind = RawStringKind::detect(string.as_ref());
+    let kind = RawStringKind::detect(string.as_ref(), inline);
     let string = data.insert_str(string.as_ref());
     Raw::String(String::new(kind, string, string))
 }
 
 /// Test if the value is contained in an inline collection.
-fn in_inline(data: &Data, id: Id) -> bool {
+pub(crate) fn in_inline(data: &Data, id: Id) -> bool {
     let container = data
         .layout(id)
         .parent
         .and_then(|item| data.layout(item).parent);
 
-    match container.map(|id| data.raw(id)) {
-        Some(Raw::Mapping(raw)) => matches!(raw.kind, MappingKind::Inline { .. }),
-        Some(Raw::Sequence(raw)) => matches!(raw.kind, SequenceKind::Inline { .. }),
-        _ => false,
-    }
+    container.is_some_and(|id| data.raw(id).is_inline())
 }
 
 /// Construct an empty mapping replacing the value with the given identifier,
@@ -402,6 +398,15 @@ impl Raw {
         }
     }
 
+    /// Test if this is an inline collection.
+    pub(crate) fn is_inline(&self) -> bool {
+        match self {
+            Self::Mapping(raw) => matches!(raw.kind, MappingKind::Inline { .. }),
+            Self::Sequence(raw) => matches!(raw.kind, SequenceKind::Inline { .. }),
+            _ => false,
+        }
+    }
+
     pub(crate) fn is_tabular(&self) -> bool {
         matches!(
             self,
@@ -570,7 +575,9 @@ pub(crate) enum RawStringKind {
 
 impl RawStringKind {
     /// Detect the appropriate kind to use for the given string.
-    pub(crate) fn detect(string: &str) -> RawStringKind {
+    ///
+    /// If `inline` is set, the string will be part of an inline collection.
+    pub(crate) fn detect(string: &str, inline: bool) -> RawStringKind {
         let mut kind = RawStringKind::Bare;
         let keyword = |keyword: &str| string.eq_ignore_ascii_case(keyword);
 
@@ -620,6 +627,9 @@ impl RawStringKind {
                 ':' => {
                     kind = RawStringKind::Single;
                 }
+                ',' | '[' | ']' | '{' | '}' if inline => {
+                    kind = RawStringKind::Single;
+                }
                 b if b.is_control() => {
                     return RawStringKind::Double;
                 }
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index 9c4ef97..e5cf801 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -443,7 +443,8 @@ impl<'a> SequenceMut<'a> {
     where
         S: AsRef<str>,
     {
-        let string = raw::new_string(self.data, string);
+        let inline = self.data.raw(self.id).is_inline();
+        let string = raw::new_string(self.data, string, inline);
         self.inner_push(Separator::Auto, string);
     }
 
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index 481f31e..bcd1c4c 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -442,7 +442,8 @@ impl<'a> ValueMut<'a> {
     where
         S: AsRef<str>,
     {
-        let value = raw::new_string(self.data, string);
+        let inline = raw::in_inline(self.data, self.id);
+        let value = raw::new_string(self.data, string, inline);
         self.data.set(self.id, value);
     }
 
-- 
2.43.0


From b946b16352a1806ff16d85fef9f3721d45b696d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 21/36] fix: do not write block scalars inside of inline
 collections

There are no blocks in inline collections, so write the text double-quoted.
---
 src/yaml/mapping/mapping_mut.rs   |  3 ++-
 src/yaml/raw.rs                   | 19 +++++++++++++------
 src/yaml/sequence/sequence_mut.rs |  3 ++-
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index 1a2d16c..177e32a 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -660,7 +660,8 @@ impl<'a> MappingMut<'a> {
         I: IntoIterator,
         I::Item: AsRef<str>,
     {
-        let value = raw::new_block(self.data, self.id, iter, block);
+        let inline = self.data.raw(self.id).is_inline();
+        let value = raw::new_block(self.data, self.id, iter, block, inline);
         self.inner_insert(key.as_ref(), Separator::Auto, value);
     }
 
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 254eaf2..18ca416 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -200,16 +200,18 @@ where
 
     // NB: the text of the block has to be nested in the collection which
     // contains the value, regardless of where in the line the value is.
-    let id = match item.and_then(|item| data.layout(item).parent) {
-        Some(container) => container,
-        None => id,
+    let (id, inline) = match item.and_then(|item| data.layout(item).parent) {
+        Some(container) => (container, data.raw(container).is_inline()),
+        None => (id, false),
     };
 
-    new_block(data, id, iter, block)
+    new_block(data, id, iter, block, inline)
 }
 
 /// Construct a block with the given configuration.
-pub(crate) fn new_block<I>(data: &mut Data, id: Id, iter: I, block: Block) -> Raw
+///
+/// If `inline` is set, the block will be part of an inline collection.
+pub(crate) fn new_block<I>(data: &mut Data, id: Id, iter: I, block: Block, inline: bool) -> Raw
 where
     I: IntoIterator,
     I::Item: AsRef<str>,
@@ -255,9 +257,14 @@ where
         out.push(NEWLINE);
     }
 
-    let original = data.insert_str(&original);
     let string = data.insert_str(out);
 
+    if inline {
+        // There are no blocks in inline collections.
+        return Raw::String(self::String::new(RawStringKind::Double, string, string));
+    }
+
+    let original = data.insert_str(&original);
     Raw::String(self::String::new(RawStringKind::Original, string, original))
 }
 
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index e5cf801..cf97a05 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -562,7 +562,8 @@ impl<'a> SequenceMut<'a> {
         I: IntoIterator,
         I::Item: AsRef<str>,
     {
-        let value = raw::new_block(self.data, self.id, iter, block);
+        let inline = self.data.raw(self.id).is_inline();
+        let value = raw::new_block(self.data, self.id, iter, block, inline);
         self.inner_push(Separator::Auto, value);
     }
 
-- 
2.43.0


From 1fa39ab75bb00b8115a57e9a6412d1decab1fb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 22/36] fix: treat missing values in inline collections as null

They were read as empty strings, other than those in block collections.
---
 src/yaml/parsing.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 590a33a..d5ffafa 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -928,6 +928,9 @@ impl<'a> Parser<'a> {
             [EOF, _] if !s.inline && s.parent.is_some() && self.is_eof() => {
                 return Ok(self.nul(s));
             }
+            [b',' | b']' | b'}', _] if s.inline => {
+                return Ok(self.nul(s));
+            }
             [b'-', ws!()] if !s.inline => {
                 return self.sequence(s);
             }
-- 
2.43.0


From d710621f7a47416b975ed2b0435a5483e33d3051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 23/36] fix: unquote keys regardless of their position

Only the first key of a block mapping was unquoted, so that keys changed when
the ones preceding them were removed and the document was loaded again.
---
 src/yaml/parsing.rs | 46 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index d5ffafa..df0db32 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -622,7 +622,7 @@ impl<'a> Parser<'a> {
         while !matches!(self.peek1(), b'}' | EOF) {
             trailing = false;
 
-            let Some(key) = self.until_colon(self.n) else {
+            let Some(key) = self.until_colon(self.n)? else {
                 return Err(Error::new(start..self.n, ErrorKind::BadMappingSeparator));
             };
 
@@ -788,7 +788,7 @@ impl<'a> Parser<'a> {
             }
 
             start = self.n;
-            current_key = self.next_mapping_key();
+            current_key = self.next_mapping_key()?;
         }
 
         self.data.replace(
@@ -837,18 +837,40 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// Process a quoted key, if there is one which is followed by `:`.
+    fn quoted_key(&mut self) -> Result<Option<raw::String>> {
+        let start = self.n;
+
+        let key = match self.peek1() {
+            b'"' => self.double_quoted()?,
+            b'\'' => self.single_quoted(),
+            _ => return Ok(None),
+        };
+
+        if self.peek1() != b':' {
+            self.n = start;
+            return Ok(None);
+        }
+
+        Ok(Some(key))
+    }
+
     /// Process a key up until `:`.
-    fn until_colon(&mut self, start: usize) -> Option<raw::String> {
+    fn until_colon(&mut self, start: usize) -> Result<Option<raw::String>> {
+        if let Some(key) = self.quoted_key()? {
+            return Ok(Some(key));
+        }
+
         while !matches!(self.peek1(), b':' | EOF) {
             self.bump(1);
         }
 
         if self.peek1() != b':' {
-            return None;
+            return Ok(None);
         }
 
         let key = self.data.insert_str(self.string(start));
-        Some(raw::String::new(raw::RawStringKind::Bare, key, key))
+        Ok(Some(raw::String::new(raw::RawStringKind::Bare, key, key)))
     }
 
     /// Process a block as a string.
@@ -1009,7 +1031,11 @@ impl<'a> Parser<'a> {
     }
 
     /// Parse next mapping key.
-    fn next_mapping_key(&mut self) -> Option<raw::String> {
+    fn next_mapping_key(&mut self) -> Result<Option<raw::String>> {
+        if let Some(key) = self.quoted_key()? {
+            return Ok(Some(key));
+        }
+
         let start = self.n;
 
         let string = loop {
@@ -1018,7 +1044,7 @@ impl<'a> Parser<'a> {
                     let string = self.string(start);
 
                     if string.is_empty() {
-                        return None;
+                        return Ok(None);
                     }
 
                     break string;
@@ -1030,6 +1056,10 @@ impl<'a> Parser<'a> {
         };
 
         let string = self.data.insert_str(string);
-        Some(raw::String::new(raw::RawStringKind::Bare, string, string))
+        Ok(Some(raw::String::new(
+            raw::RawStringKind::Bare,
+            string,
+            string,
+        )))
     }
 }
-- 
2.43.0


From 5afe0919387a1ce0ccd23bcf41280c291ae0cc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 24/36] fix: treat an empty document as null

It was read as an empty string, other than any other missing value.
---
 src/yaml/parsing.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index df0db32..09bdb4e 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -359,6 +359,11 @@ impl<'a> Parser<'a> {
     /// Insert a nul for a value which is not there. The whitespace in front of
     /// it is returned, because it belongs to whatever follows.
     fn nul(&mut self, s: &State) -> (Id, Option<StringId>) {
+        // NB: the whitespace in front of the root is always its own.
+        if s.parent.is_none() {
+            return (self.placeholder(s.prefix, s.parent), None);
+        }
+
         let empty = self.data.insert_str("");
         (self.placeholder(empty, s.parent), Some(s.prefix))
     }
@@ -947,7 +952,7 @@ impl<'a> Parser<'a> {
     /// Consume a single value.
     fn value(&mut self, s: &State) -> Result<(Id, Option<StringId>)> {
         let (raw, ws) = match self.peek() {
-            [EOF, _] if !s.inline && s.parent.is_some() && self.is_eof() => {
+            [EOF, _] if !s.inline && self.is_eof() => {
                 return Ok(self.nul(s));
             }
             [b',' | b']' | b'}', _] if s.inline => {
-- 
2.43.0


From 06d11b181ef63aff95c658b5422acd165a65b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:42 +0000
Subject: [PATCH 25/36] fix: read numbers with a signed exponent

Setting a small float writes it with a negative exponent, which was read back as
a string.
---
 src/yaml/parsing.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 09bdb4e..9b0df5a 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -310,9 +310,12 @@ impl<'a> Parser<'a> {
         let mut wants_e = true;
         let mut has_number = false;
         let mut any = false;
+        let mut last = EOF;
 
         loop {
-            match self.peek1() {
+            let b = self.peek1();
+
+            match b {
                 b'.' if wants_dot => {
                     hint = serde_hint::F64;
                     wants_dot = false;
@@ -325,12 +328,14 @@ impl<'a> Parser<'a> {
                 b'0'..=b'9' => {
                     has_number = true;
                 }
+                b'+' | b'-' if matches!(last, b'e' | b'E') => {}
                 _ => {
                     break;
                 }
             }
 
             any = true;
+            last = b;
             self.bump(1);
         }
 
-- 
2.43.0


From 198af584ee0dee5e3bf14bf3383f795790caa94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 26/36] fix: do not read whitespace following a bare scalar as
 part of it

The whitespace in front of a line end (including carriage returns) or in front
of a separator or terminator in inline collections became part of strings, and
keywords were read as strings because of it.
---
 src/yaml/parsing.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 9b0df5a..b1e9e21 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -1015,7 +1015,11 @@ impl<'a> Parser<'a> {
 
                     // NB: calling `key_or_eol` will have consumed up until end
                     // of line for us, so use the current span as the production
-                    // string.
+                    // string, except for any whitespace at the end of it.
+                    while self.n > start && matches!(self.input[self.n - 1], ws!()) {
+                        self.n -= 1;
+                    }
+
                     let string = self.string(start);
                     (
                         if string == b"~" {
-- 
2.43.0


From 3ff40e907b714953321c4a888a3b56db4e57f069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:14 +0000
Subject: [PATCH 27/36] fix: do not recurse forever deserializing numbers out
 of range

---
 src/yaml/serde/de.rs | 55 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index 5a146c4..7826527 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -39,20 +39,47 @@ impl<'de> Deserializer<'de> for Value<'de> {
         match self.data.raw(self.id) {
             raw::Raw::Null(..) => visitor.visit_none(),
             raw::Raw::Boolean(bool) => visitor.visit_bool(bool.value),
-            raw::Raw::Number(raw) => match raw.hint {
-                RawNumberHint::Float32 => self.deserialize_f32(visitor),
-                RawNumberHint::Float64 => self.deserialize_f64(visitor),
-                RawNumberHint::Unsigned8 => self.deserialize_u8(visitor),
-                RawNumberHint::Unsigned16 => self.deserialize_u16(visitor),
-                RawNumberHint::Unsigned32 => self.deserialize_u32(visitor),
-                RawNumberHint::Unsigned64 => self.deserialize_u64(visitor),
-                RawNumberHint::Unsigned128 => self.deserialize_u128(visitor),
-                RawNumberHint::Signed8 => self.deserialize_i8(visitor),
-                RawNumberHint::Signed16 => self.deserialize_i16(visitor),
-                RawNumberHint::Signed32 => self.deserialize_i32(visitor),
-                RawNumberHint::Signed64 => self.deserialize_i64(visitor),
-                RawNumberHint::Signed128 => self.deserialize_i128(visitor),
-            },
+            raw::Raw::Number(raw) => {
+                // NB: must not defer to the typed methods, since they defer to this
+                // one for numbers which they do not support.
+                macro_rules! number {
+                    ($($variant:ident => $as:ident, $visit:ident),* $(,)?) => {
+                        match raw.hint {
+                            $(RawNumberHint::$variant => {
+                                if let Some(value) = self.$as() {
+                                    return visitor.$visit(value);
+                                }
+                            })*
+                        }
+                    };
+                }
+
+                number! {
+                    Float32 => as_f32, visit_f32,
+                    Float64 => as_f64, visit_f64,
+                    Unsigned8 => as_u8, visit_u8,
+                    Unsigned16 => as_u16, visit_u16,
+                    Unsigned32 => as_u32, visit_u32,
+                    Unsigned64 => as_u64, visit_u64,
+                    Unsigned128 => as_u128, visit_u128,
+                    Signed8 => as_i8, visit_i8,
+                    Signed16 => as_i16, visit_i16,
+                    Signed32 => as_i32, visit_i32,
+                    Signed64 => as_i64, visit_i64,
+                    Signed128 => as_i128, visit_i128,
+                }
+
+                // The number is outside of the range of its hint.
+                if let Some(value) = self.as_u128() {
+                    visitor.visit_u128(value)
+                } else if let Some(value) = self.as_i128() {
+                    visitor.visit_i128(value)
+                } else if let Some(value) = self.as_f64() {
+                    visitor.visit_f64(value)
+                } else {
+                    visitor.visit_none()
+                }
+            }
             raw::Raw::String(raw) => {
                 let string = self.data.str(raw.id);
 
-- 
2.43.0


From c6611095d022f399e20a294d7ca33bac83ccdcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 28/36] fix: serialize numbers outside of the range of their
 hint

---
 src/yaml/serde/ser.rs | 89 +++++++++++++++++++------------------------
 1 file changed, 39 insertions(+), 50 deletions(-)

diff --git a/src/yaml/serde/ser.rs b/src/yaml/serde/ser.rs
index 6cc8218..8e17b26 100644
--- a/src/yaml/serde/ser.rs
+++ b/src/yaml/serde/ser.rs
@@ -15,56 +15,45 @@ impl Serialize for Value<'_> {
         match self.data.raw(self.id) {
             raw::Raw::Null(..) => serializer.serialize_none(),
             raw::Raw::Boolean(bool) => serializer.serialize_bool(bool.value),
-            raw::Raw::Number(raw) => match raw.hint {
-                RawNumberHint::Float32 => match self.as_f32() {
-                    Some(value) => serializer.serialize_f32(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Float64 => match self.as_f64() {
-                    Some(value) => serializer.serialize_f64(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Unsigned8 => match self.as_u8() {
-                    Some(value) => serializer.serialize_u8(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Unsigned16 => match self.as_u16() {
-                    Some(value) => serializer.serialize_u16(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Unsigned32 => match self.as_u32() {
-                    Some(value) => serializer.serialize_u32(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Unsigned64 => match self.as_u64() {
-                    Some(value) => serializer.serialize_u64(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Unsigned128 => match self.as_u128() {
-                    Some(value) => serializer.serialize_u128(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Signed8 => match self.as_i8() {
-                    Some(value) => serializer.serialize_i8(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Signed16 => match self.as_i16() {
-                    Some(value) => serializer.serialize_i16(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Signed32 => match self.as_i32() {
-                    Some(value) => serializer.serialize_i32(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Signed64 => match self.as_i64() {
-                    Some(value) => serializer.serialize_i64(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Signed128 => match self.as_i128() {
-                    Some(value) => serializer.serialize_i128(value),
-                    None => serializer.serialize_none(),
-                },
-            },
+            raw::Raw::Number(raw) => {
+                macro_rules! number {
+                    ($($variant:ident => $as:ident, $serialize:ident),* $(,)?) => {
+                        match raw.hint {
+                            $(RawNumberHint::$variant => {
+                                if let Some(value) = self.$as() {
+                                    return serializer.$serialize(value);
+                                }
+                            })*
+                        }
+                    };
+                }
+
+                number! {
+                    Float32 => as_f32, serialize_f32,
+                    Float64 => as_f64, serialize_f64,
+                    Unsigned8 => as_u8, serialize_u8,
+                    Unsigned16 => as_u16, serialize_u16,
+                    Unsigned32 => as_u32, serialize_u32,
+                    Unsigned64 => as_u64, serialize_u64,
+                    Unsigned128 => as_u128, serialize_u128,
+                    Signed8 => as_i8, serialize_i8,
+                    Signed16 => as_i16, serialize_i16,
+                    Signed32 => as_i32, serialize_i32,
+                    Signed64 => as_i64, serialize_i64,
+                    Signed128 => as_i128, serialize_i128,
+                }
+
+                // The number is outside of the range of its hint.
+                if let Some(value) = self.as_u128() {
+                    serializer.serialize_u128(value)
+                } else if let Some(value) = self.as_i128() {
+                    serializer.serialize_i128(value)
+                } else if let Some(value) = self.as_f64() {
+                    serializer.serialize_f64(value)
+                } else {
+                    serializer.serialize_none()
+                }
+            }
             raw::Raw::String(raw) => {
                 let string = self.data.str(raw.id);
 
-- 
2.43.0


From 0cf35eaaea93ed14dceaa01e372060e56a054b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:58 +0000
Subject: [PATCH 29/36] fix: do not read integers outside of the range of a
 type as other integers

---
 src/yaml/number.rs | 45 +++++++++++++++++++++++++++++++--------------
 src/yaml/value.rs  |  8 +-------
 2 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/src/yaml/number.rs b/src/yaml/number.rs
index 26d8a4c..f9b8873 100644
--- a/src/yaml/number.rs
+++ b/src/yaml/number.rs
@@ -1,4 +1,5 @@
 use core::fmt;
+use core::str::FromStr;
 
 use bstr::{BStr, ByteSlice};
 
@@ -6,7 +7,7 @@ use crate::yaml::data::Data;
 use crate::yaml::raw;
 
 macro_rules! as_number {
-    ($name:ident, $ty:ty, $doc:literal, $lit:literal) => {
+    ($name:ident, $ty:ty, $doc:literal, $lit:literal, $parse:expr) => {
         #[doc = concat!("Try and get the value as a ", $doc, ".")]
         ///
         /// # Examples
@@ -24,11 +25,27 @@ macro_rules! as_number {
         #[must_use]
         pub fn $name(&self) -> Option<$ty> {
             let string = self.data.str(self.raw.string);
-            lexical_core::parse(string).ok()
+            $parse(string)
         }
     };
 }
 
+/// NB: `lexical_core` reads integers which are outside of the range of the type
+/// as something else if they have as many digits as its largest value.
+fn parse_integer<T>(string: &BStr) -> Option<T>
+where
+    T: FromStr,
+{
+    string.to_str().ok()?.parse().ok()
+}
+
+fn parse_float<T>(string: &BStr) -> Option<T>
+where
+    T: lexical_core::FromLexical,
+{
+    lexical_core::parse(string).ok()
+}
+
 /// A YAML number.
 ///
 /// The value of the number can be accessed through the various `as_*` methods.
@@ -77,18 +94,18 @@ impl<'a> Number<'a> {
         self.data.str(self.raw.string)
     }
 
-    as_number!(as_f32, f32, "32-bit float", 10.42);
-    as_number!(as_f64, f64, "64-bit float", 10.42);
-    as_number!(as_u8, u8, "8-bit unsigned integer", 42);
-    as_number!(as_i8, i8, "8-bit signed integer", -42);
-    as_number!(as_u16, u16, "16-bit unsigned integer", 42);
-    as_number!(as_i16, i16, "16-bit signed integer", -42);
-    as_number!(as_u32, u32, "16-bit unsigned integer", 42);
-    as_number!(as_i32, i32, "32-bit signed integer", -42);
-    as_number!(as_u64, u64, "16-bit unsigned integer", 42);
-    as_number!(as_i64, i64, "64-bit signed integer", -42);
-    as_number!(as_u128, u128, "16-bit unsigned integer", 42);
-    as_number!(as_i128, i128, "128-bit signed integer", -42);
+    as_number!(as_f32, f32, "32-bit float", 10.42, parse_float);
+    as_number!(as_f64, f64, "64-bit float", 10.42, parse_float);
+    as_number!(as_u8, u8, "8-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i8, i8, "8-bit signed integer", -42, parse_integer);
+    as_number!(as_u16, u16, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i16, i16, "16-bit signed integer", -42, parse_integer);
+    as_number!(as_u32, u32, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i32, i32, "32-bit signed integer", -42, parse_integer);
+    as_number!(as_u64, u64, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i64, i64, "64-bit signed integer", -42, parse_integer);
+    as_number!(as_u128, u128, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i128, i128, "128-bit signed integer", -42, parse_integer);
 }
 
 impl fmt::Debug for Number<'_> {
diff --git a/src/yaml/value.rs b/src/yaml/value.rs
index 7d3423c..8bd6ad1 100644
--- a/src/yaml/value.rs
+++ b/src/yaml/value.rs
@@ -157,13 +157,7 @@ macro_rules! as_number {
         /// ```
         #[must_use]
         pub fn $name(&self) -> Option<$ty> {
-            match self.data.raw(self.id) {
-                Raw::Number(raw) => {
-                    let string = self.data.str(raw.string);
-                    lexical_core::parse(string).ok()
-                }
-                _ => None,
-            }
+            self.as_number()?.$name()
         }
     };
 }
-- 
2.43.0


From 52820166fab30b2592a9eaded4e3bdac920d83d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:26 +0000
Subject: [PATCH 30/36] fix: read a dash at the end of input as an empty
 sequence item

---
 src/yaml/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index b1e9e21..0785837 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -963,7 +963,7 @@ impl<'a> Parser<'a> {
             [b',' | b']' | b'}', _] if s.inline => {
                 return Ok(self.nul(s));
             }
-            [b'-', ws!()] if !s.inline => {
+            [b'-', ws!(EOF)] if !s.inline => {
                 return self.sequence(s);
             }
             [b'"', _] => {
-- 
2.43.0


From 097e605088b71d5a7f08347e3323457072805560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:28 +0000
Subject: [PATCH 31/36] fix: deserialize 128-bit integers

They can be set and serialized, but asking for one when deserializing was
reported as not supported.
---
 src/yaml/serde/de.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index 7826527..c869581 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -154,6 +154,17 @@ impl<'de> Deserializer<'de> for Value<'de> {
         }
     }
 
+    #[inline]
+    fn deserialize_i128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match self.as_i128() {
+            Some(value) => visitor.visit_i128(value),
+            None => self.deserialize_any(visitor),
+        }
+    }
+
     #[inline]
     fn deserialize_u8<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
@@ -198,6 +209,17 @@ impl<'de> Deserializer<'de> for Value<'de> {
         }
     }
 
+    #[inline]
+    fn deserialize_u128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match self.as_u128() {
+            Some(value) => visitor.visit_u128(value),
+            None => self.deserialize_any(visitor),
+        }
+    }
+
     #[inline]
     fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
-- 
2.43.0


From ac7ad91c737ca0ae72f41cfc04c57efa5f3ed1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:52 +0000
Subject: [PATCH 32/36] fix: reject documents which are nested too deep

Values are parsed and processed recursively, so that a damaged document of
many opening brackets overflowed the stack.
---
 src/yaml/error.rs   | 14 ++++++++++++++
 src/yaml/parsing.rs | 23 ++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/yaml/error.rs b/src/yaml/error.rs
index 0f1ec50..2b6b99e 100644
--- a/src/yaml/error.rs
+++ b/src/yaml/error.rs
@@ -164,6 +164,19 @@ pub enum ErrorKind {
     /// assert_eq!(&INPUT[error.span()], "\\ud800");
     /// ```
     BadUnicodeEscape,
+    /// Values are nested too deeply.
+    ///
+    /// # Examples
+    ///
+    /// ```
+    /// use nondestructive::yaml;
+    ///
+    /// let input = "[".repeat(100_000);
+    ///
+    /// let error = yaml::from_slice(input).unwrap_err();
+    /// assert_eq!(*error.kind(), yaml::ErrorKind::NestedTooDeep);
+    /// ```
+    NestedTooDeep,
 }
 
 impl fmt::Display for ErrorKind {
@@ -176,6 +189,7 @@ impl fmt::Display for ErrorKind {
             ErrorKind::BadEscape => write!(f, "bad escape"),
             ErrorKind::BadHexEscape => write!(f, "bad hex escape"),
             ErrorKind::BadUnicodeEscape => write!(f, "bad unicode escape"),
+            ErrorKind::NestedTooDeep => write!(f, "nested too deep"),
         }
     }
 }
diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 0785837..906c043 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -12,6 +12,10 @@ type Result<T, E = Error> = std::result::Result<T, E>;
 
 const EOF: u8 = b'\0';
 
+/// The deepest level of nesting which is supported, since documents are
+/// processed recursively.
+const MAX_DEPTH: usize = 256;
+
 /// Inline control characters which splits up data.
 macro_rules! ctl {
     () => {
@@ -102,6 +106,7 @@ pub struct Parser<'a> {
     data: Data,
     input: &'a [u8],
     n: usize,
+    depth: usize,
 }
 
 impl<'a> Parser<'a> {
@@ -112,6 +117,7 @@ impl<'a> Parser<'a> {
             data: Data::default(),
             input,
             n: 0,
+            depth: 0,
         }
     }
 
@@ -954,8 +960,23 @@ impl<'a> Parser<'a> {
         )
     }
 
-    /// Consume a single value.
+    /// Consume a single value, unless it's nested too deeply.
     fn value(&mut self, s: &State) -> Result<(Id, Option<StringId>)> {
+        if self.depth == MAX_DEPTH {
+            return Err(Error::new(
+                self.n..self.n.saturating_add(1).min(self.input.len()),
+                ErrorKind::NestedTooDeep,
+            ));
+        }
+
+        self.depth += 1;
+        let value = self.any_value(s)?;
+        self.depth -= 1;
+        Ok(value)
+    }
+
+    /// Consume a single value of any kind.
+    fn any_value(&mut self, s: &State) -> Result<(Id, Option<StringId>)> {
         let (raw, ws) = match self.peek() {
             [EOF, _] if !s.inline && self.is_eof() => {
                 return Ok(self.nul(s));
-- 
2.43.0


From 18604445374d4a92996c227affdee0206b6d1f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 33/36] fix: deserialize keys as strings

Keys were passed to visitors as transient bytes, so that keys could not be
deserialized as any type which wants a string, such as the ones borrowing it.
---
 src/yaml/serde/de.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index c869581..5ae52cc 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -448,7 +448,11 @@ impl<'de> Deserializer<'de> for BStrDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        visitor.visit_bytes(self.string)
+        if let Ok(string) = self.string.to_str() {
+            visitor.visit_borrowed_str(string)
+        } else {
+            visitor.visit_borrowed_bytes(self.string)
+        }
     }
 
     #[inline]
-- 
2.43.0


From fc4255dace805a2e2d5b23ffac11e8cd11c6c43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 34/36] fix: read numbers directly followed by a '#' in inline
 collections as strings

A comment has to be separated by whitespace from what precedes it, as it has
to be outside of inline collections, so that {a: 6#} was rejected.
---
 src/yaml/parsing.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 906c043..c16387d 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -288,7 +288,11 @@ impl<'a> Parser<'a> {
 
         while let Some(&b) = self.input.get(n) {
             match b {
-                b',' | b']' | b'}' | b'#' => {
+                b',' | b']' | b'}' => {
+                    return true;
+                }
+                // A comment is separated from what it follows.
+                b'#' if n > self.n => {
                     return true;
                 }
                 ws!() => {
-- 
2.43.0


From cbeecb6dc764fd1e1969e0ccd54413bb441a4414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 35/36] fix: do not repeat an unterminated comment as
 indentation

---
 src/yaml/raw.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 18ca416..5634b11 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -158,7 +158,10 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
 
     let indent = indent.saturating_add(2);
     // Take some pains to preserve the existing suffix, synthesize extra spaces characters where needed.
-    let mut existing = self::indent(data.str(layout.prefix)).chars();
+    // NB: the last line might be a comment, if it's not terminated.
+    let mut existing = self::indent(data.str(layout.prefix))
+        .chars()
+        .take_while(|c| c.is_whitespace());
 
     let mut prefix = Vec::new();
 
-- 
2.43.0


From 4f592b2e6d99a9f2be821439d2266ef6d6a49ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 36/36] fix: do not apply formatter options to the header and
 suffix of a document

---
 src/yaml/document.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/yaml/document.rs b/src/yaml/document.rs
index 1b966d3..b45e15a 100644
--- a/src/yaml/document.rs
+++ b/src/yaml/document.rs
@@ -282,12 +282,12 @@ impl Document {
 
     // Display helper for document.
     fn display(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        use std::fmt::Display;
-
-        self.data.str(self.header).fmt(f)?;
-        self.data.prefix(self.root).fmt(f)?;
+        // NB: options of the formatter, such as its width, do not apply to the
+        // parts of a document.
+        write!(f, "{}", self.data.str(self.header))?;
+        write!(f, "{}", self.data.prefix(self.root))?;
         self.data.raw(self.root).display(&self.data, f, None)?;
-        self.data.str(self.suffix).fmt(f)?;
+        write!(f, "{}", self.data.str(self.suffix))?;
         Ok(())
     }
 }
-- 
2.43.0

