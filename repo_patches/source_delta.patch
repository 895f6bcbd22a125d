From 7360a9833dcf2099ebc77fbfbc5a5a5e8b2e2c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 01/63] fix: JSON strings with escaped quotes or backslashes
 lose track of where they end

The escape counter was armed for four characters and only for \", so a string
ending with \" or \\ left the minifier in the wrong state and whitespace inside
later strings was removed.
---
 src/json/json_minifier.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/json/json_minifier.rs b/src/json/json_minifier.rs
index ad9fae2..ef32e13 100644
--- a/src/json/json_minifier.rs
+++ b/src/json/json_minifier.rs
@@ -22,23 +22,19 @@ impl JsonMinifier {
 }
 
 #[inline]
-pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, item2: Option<&char>) -> bool {
-    let remove_element =
-        item1.is_ascii_control() || is_whitespace_outside_string(minifier, item1, item2);
+pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, _item2: Option<&char>) -> bool {
+    let remove_element = item1.is_ascii_control() || is_whitespace_outside_string(minifier, item1);
     !remove_element
 }
 
 #[inline]
-fn is_whitespace_outside_string(
-    minifier: &mut JsonMinifier,
-    item1: &char,
-    item2: Option<&char>,
-) -> bool {
+fn is_whitespace_outside_string(minifier: &mut JsonMinifier, item1: &char) -> bool {
     if !minifier.is_string && item1.eq(&'"') {
         minifier.is_string = true;
     } else if minifier.is_string {
-        if item1.eq(&'\\') && item2.eq(&Some(&'"')) {
-            minifier.escaped_quotation = 4;
+        if item1.eq(&'\\') && minifier.escaped_quotation == 0 {
+            // This character and the one it escapes are skipped.
+            minifier.escaped_quotation = 2;
         }
         if minifier.escaped_quotation > 0 {
             minifier.escaped_quotation -= 1;
-- 
2.43.0


From b6256450b8669bbabfced547dd987e8f10461781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 02/63] fix: JSON minification removes DEL characters from
 strings

---
 src/json/json_minifier.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/json/json_minifier.rs b/src/json/json_minifier.rs
index ef32e13..2cd1ce7 100644
--- a/src/json/json_minifier.rs
+++ b/src/json/json_minifier.rs
@@ -21,9 +21,13 @@ impl JsonMinifier {
     }
 }
 
+/// Unlike the other ASCII control characters, this one is allowed in JSON strings.
+const DEL: char = '\x7f';
+
 #[inline]
 pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, _item2: Option<&char>) -> bool {
-    let remove_element = item1.is_ascii_control() || is_whitespace_outside_string(minifier, item1);
+    let remove_element = (item1.is_ascii_control() && *item1 != DEL)
+        || is_whitespace_outside_string(minifier, item1);
     !remove_element
 }
 
-- 
2.43.0


From 03829b4f33e1077dff229907f92e35184b7571c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 03/63] fix: streaming JSON minification takes a short read for
 the end of the data

A reader may return fewer bytes than asked for at any time; only a read of
zero bytes means that the data is over.
---
 src/json/read/internal_buffer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/json/read/internal_buffer.rs b/src/json/read/internal_buffer.rs
index 90eebcd..4832529 100644
--- a/src/json/read/internal_buffer.rs
+++ b/src/json/read/internal_buffer.rs
@@ -6,8 +6,8 @@ const ARRAY_DEFAULT: u8 = 0;
 pub struct Buffer {
     buffer: Vec<u8>,
     read_pos: usize,
-    buffer_size: usize,
     data_size: usize,
+    end_of_data: bool,
 }
 
 impl Buffer {
@@ -15,8 +15,8 @@ impl Buffer {
         Buffer {
             buffer: vec![ARRAY_DEFAULT; size],
             read_pos: 0,
-            buffer_size: size,
             data_size: 0,
+            end_of_data: false,
         }
     }
 
@@ -27,6 +27,7 @@ impl Buffer {
     pub fn update_metadata(&mut self, size: usize) {
         self.read_pos = 0;
         self.data_size = size;
+        self.end_of_data = size == 0;
     }
 
     pub fn next(&mut self) -> Option<u8> {
@@ -39,6 +40,6 @@ impl Buffer {
     }
 
     pub fn cont(&self) -> bool {
-        self.data_size == self.buffer_size
+        !self.end_of_data
     }
 }
-- 
2.43.0


From 03b66a75439c5ad4a753981164d70e72690cb786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 04/63] fix: streaming JSON minification drops bytes of a
 character that does not fit the buffer

---
 src/json/read/json_read.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index 338db13..5171c57 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -85,6 +85,12 @@ where
             self.initialized = true;
         }
 
+        // Bytes of the last character which did not fit into the previous buffer.
+        self.add_char_to_buffer(buf, &mut buf_pos);
+        if buf_pos >= buf.len() {
+            return Ok(buf_pos);
+        }
+
         while let Some(item) = self.item1.take() {
             self.item1 = self.get_next()?;
             if (self.predicate)(&mut self.minifier, &item, self.item1.as_ref()) {
-- 
2.43.0


From 5834aa9427f4b74926c9f0e994ce3797cd4825ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 05/63] fix: streaming JSON minification mishandles errors of
 its source

An error on the first read made the next read panic, any error lost the bytes
already produced and the look-ahead character, and every I/O error was reported
as invalid data. Interrupted reads are now retried, other errors are reported
with their own kind, after what precedes them has been delivered.
---
 src/json/read/byte_to_char.rs    |  8 ++++----
 src/json/read/internal_reader.rs | 19 +++++++++++--------
 src/json/read/json_read.rs       | 29 ++++++++++++++++++++++++-----
 3 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/json/read/byte_to_char.rs b/src/json/read/byte_to_char.rs
index a1ca6ec..c3df98a 100644
--- a/src/json/read/byte_to_char.rs
+++ b/src/json/read/byte_to_char.rs
@@ -13,10 +13,10 @@ pub struct ByteToChar<R> {
 
 impl<R: Read> ByteToChar<R> {
     #[inline]
-    pub fn new(read: R, buffer_size: usize) -> Result<Self, Error> {
-        Ok(ByteToChar {
-            iter: InternalReader::new(read, buffer_size)?,
-        })
+    pub fn new(read: R, buffer_size: usize) -> Self {
+        ByteToChar {
+            iter: InternalReader::new(read, buffer_size),
+        }
     }
 
     fn get_next(&mut self) -> Result<Option<u8>, CharsError> {
diff --git a/src/json/read/internal_reader.rs b/src/json/read/internal_reader.rs
index 45f178f..2480230 100644
--- a/src/json/read/internal_reader.rs
+++ b/src/json/read/internal_reader.rs
@@ -3,7 +3,7 @@
 use super::internal_buffer::Buffer;
 use std::{
     fmt,
-    io::{Error, Read},
+    io::{Error, ErrorKind, Read},
 };
 
 pub struct InternalReader<R> {
@@ -13,18 +13,21 @@ pub struct InternalReader<R> {
 }
 
 impl<R: Read> InternalReader<R> {
-    pub fn new(mut read: R, buffer_size: usize) -> Result<Self, Error> {
-        let mut buffer = Buffer::new(buffer_size);
-        InternalReader::read_data(&mut read, &mut buffer)?;
-        Ok(InternalReader {
+    pub fn new(read: R, buffer_size: usize) -> Self {
+        InternalReader {
             read,
             buffer_size,
-            buffer,
-        })
+            buffer: Buffer::new(buffer_size),
+        }
     }
 
     fn read_data(read: &mut R, buffer: &mut Buffer) -> Result<(), Error> {
-        let size = read.read(buffer.as_mut())?;
+        let size = loop {
+            match read.read(buffer.as_mut()) {
+                Err(err) if err.kind() == ErrorKind::Interrupted => continue,
+                res => break res?,
+            }
+        };
         buffer.update_metadata(size);
         Ok(())
     }
diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index 5171c57..9268e37 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -18,6 +18,7 @@ pub struct JsonRead<P, R> {
     initialized: bool,
     item_iter: Option<IntoIter<u8>>,
     item1: Option<char>,
+    pending_error: Option<CharsError>,
 }
 
 impl<P, R: Read> JsonRead<P, R> {
@@ -31,6 +32,7 @@ impl<P, R: Read> JsonRead<P, R> {
             initialized: false,
             item_iter: None,
             item1: None,
+            pending_error: None,
         }
     }
 
@@ -79,8 +81,14 @@ where
             return Ok(0);
         }
 
+        if let Some(err) = self.pending_error.take() {
+            return Err(err.into());
+        }
+
+        if let Some(read) = self.read.take() {
+            self.iter = Some(ByteToChar::new(read, buf.len()));
+        }
         if !self.initialized {
-            self.iter = Some(ByteToChar::new(self.read.take().unwrap(), buf.len())?);
             self.item1 = self.get_next()?;
             self.initialized = true;
         }
@@ -91,8 +99,16 @@ where
             return Ok(buf_pos);
         }
 
-        while let Some(item) = self.item1.take() {
-            self.item1 = self.get_next()?;
+        while let Some(item) = self.item1 {
+            self.item1 = match self.get_next() {
+                Ok(next) => next,
+                // What is already in the buffer must not be lost.
+                Err(err) if buf_pos > 0 => {
+                    self.pending_error = Some(err);
+                    return Ok(buf_pos);
+                }
+                Err(err) => return Err(err.into()),
+            };
             if (self.predicate)(&mut self.minifier, &item, self.item1.as_ref()) {
                 self.item_iter = Some(item.to_string().into_bytes().into_iter());
                 self.add_char_to_buffer(buf, &mut buf_pos);
@@ -106,7 +122,10 @@ where
 }
 
 impl From<CharsError> for Error {
-    fn from(_: CharsError) -> Self {
-        Error::from(ErrorKind::InvalidData)
+    fn from(err: CharsError) -> Self {
+        match err {
+            CharsError::NotUtf8 => Error::from(ErrorKind::InvalidData),
+            CharsError::Other(err) => err,
+        }
     }
 }
-- 
2.43.0


From 36bba59041950058515bfbbc9b610924d5b714ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 06/63] fix: JS line comment at the end of the source leaks
 into the output

---
 src/js/token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 1241141..cec8129 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -557,7 +557,10 @@ fn get_line_comment<'a>(
             }
         }
     }
-    None
+    // The comment goes up to the end of the source.
+    let ret = Some(Token::Comment(&source[*start_pos..]));
+    *start_pos = source.len();
+    ret
 }
 
 fn get_regex<'a>(
-- 
2.43.0


From 3117136038583396a39fbe8ae37bc4a65fd3b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 07/63] fix: unclosed JS comment ending with a non-ASCII
 character panics

---
 src/js/token.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index cec8129..04d1482 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -650,12 +650,12 @@ fn get_comment<'a>(
         Token::Comment
     };
 
-    let mut current_pos = *start_pos;
+    // Unclosed comment goes up to the end of the source.
+    let mut end = source.len();
     for (pos, c) in iterator {
-        current_pos = pos;
         if let Ok(c) = ReservedChar::try_from(c) {
             if c == ReservedChar::Slash && prev == ReservedChar::Star {
-                current_pos -= 2;
+                end = pos - 1;
                 break;
             }
             prev = c;
@@ -663,10 +663,8 @@ fn get_comment<'a>(
             prev = ReservedChar::Space;
         }
     }
-    // Unclosed comment so returning it anyway...
-    current_pos = std::cmp::min(current_pos, source.len() - 1);
-    let ret = builder(&source[*start_pos..=current_pos]);
-    *start_pos = current_pos + 2;
+    let ret = builder(&source[*start_pos..end]);
+    *start_pos = end + 1;
     ret
 }
 
-- 
2.43.0


From 14fbc5bef3c4b17c06b07ae9ae71cfaa270d611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 08/63] fix: JS source text is reordered after a failed attempt
 to read a regex

What had been read ahead was given back in the wrong order (and character by
character from the front of a vector, which is quadratic).
---
 src/js/token.rs | 52 +++++--------------------------------------------
 1 file changed, 5 insertions(+), 47 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 04d1482..72935ac 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -591,7 +591,7 @@ fn get_regex<'a>(
             _ => return None,
         }
     }
-    iterator.start_save();
+    let saved = iterator.clone();
     while let Some((pos, c)) = iterator.next() {
         if c == '\\' {
             // we skip next character
@@ -618,14 +618,14 @@ fn get_regex<'a>(
                     is_global,
                 });
                 *start_pos = pos + add;
-                iterator.drop_save();
                 return ret;
             } else if c == ReservedChar::Backline {
                 break;
             }
         }
     }
-    iterator.stop_save();
+    // Not a regex: what was read needs to be read again.
+    *iterator = saved;
     None
 }
 
@@ -844,52 +844,23 @@ fn check_if_number(iterator: &mut MyPeekable<'_>, start: usize, pos: usize, sour
     false
 }
 
+#[derive(Clone)]
 struct MyPeekable<'a> {
     inner: CharIndices<'a>,
-    saved: Vec<(usize, char)>,
     peeked: Option<(usize, char)>,
-    is_saving: bool,
 }
 
 impl<'a> MyPeekable<'a> {
     fn new(indices: CharIndices<'a>) -> MyPeekable<'a> {
         MyPeekable {
             inner: indices,
-            saved: Vec::with_capacity(500),
             peeked: None,
-            is_saving: false,
         }
     }
 
-    fn start_save(&mut self) {
-        self.is_saving = true;
-        if let Some(p) = self.peeked {
-            self.saved.push(p);
-        }
-    }
-
-    fn drop_save(&mut self) {
-        self.is_saving = false;
-        self.saved.clear();
-    }
-
-    fn stop_save(&mut self) {
-        self.is_saving = false;
-        if let Some(p) = self.peeked {
-            self.saved.push(p);
-        }
-        self.peeked = None;
-    }
-
-    /// Returns None if saving.
     fn peek(&mut self) -> Option<(usize, char)> {
         if self.peeked.is_none() {
             self.peeked = self.inner.next();
-            if self.is_saving {
-                if let Some(p) = self.peeked {
-                    self.saved.push(p);
-                }
-            }
         }
         self.peeked
     }
@@ -899,20 +870,7 @@ impl Iterator for MyPeekable<'_> {
     type Item = (usize, char);
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.peeked.is_some() {
-            self.peeked.take()
-        } else {
-            if !self.is_saving && !self.saved.is_empty() {
-                return Some(self.saved.remove(0));
-            }
-            match self.inner.next() {
-                Some(r) if self.is_saving => {
-                    self.saved.push(r);
-                    Some(r)
-                }
-                r => r,
-            }
-        }
+        self.peeked.take().or_else(|| self.inner.next())
     }
 }
 
-- 
2.43.0


From db3ed4431f92885a478669d99b2ed857254fe8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 09/63] fix: division after a JS postfix operator is taken for
 the start of a regex

---
 src/js/token.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 72935ac..254117a 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -563,6 +563,12 @@ fn get_line_comment<'a>(
     ret
 }
 
+/// Returns true if the tokens end with an even number of `+` (or of `-`), so with `++` (or `--`).
+fn ends_with_postfix_operator(v: &[Token<'_>], op: Operation) -> bool {
+    let nb = v.iter().rev().take_while(|t| t.eq_operation(op)).count();
+    matches!(op, Operation::Addition | Operation::Subtract) && nb % 2 == 0
+}
+
 fn get_regex<'a>(
     source: &'a str,
     iterator: &mut MyPeekable<'_>,
@@ -587,6 +593,8 @@ fn get_regex<'a>(
             | Token::Char(ReservedChar::Backline)
             | Token::Char(ReservedChar::Pipe)
             | Token::Char(ReservedChar::Ampersand) => break,
+            // `i++ / 2` or `i-- / 2`
+            Token::Operation(op) if ends_with_postfix_operator(&v[..=back], *op) => return None,
             t if t.is_operation() || t.is_condition() => break,
             _ => return None,
         }
-- 
2.43.0


From 783452ebeb3cd9ed9605f588ee0c2392a16765e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:48 +0000
Subject: [PATCH 10/63] fix: JS regex after a keyword is taken for a division

---
 src/js/token.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 254117a..f58b08e 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -163,6 +163,23 @@ impl Keyword {
     fn requires_before(&self) -> bool {
         matches!(*self, Keyword::In | Keyword::InstanceOf)
     }
+
+    /// Keywords which are followed by an expression, so after which a `/` starts a regex.
+    fn can_precede_regex(&self) -> bool {
+        matches!(
+            *self,
+            Keyword::Case
+                | Keyword::Default
+                | Keyword::Do
+                | Keyword::Else
+                | Keyword::In
+                | Keyword::InstanceOf
+                | Keyword::New
+                | Keyword::Return
+                | Keyword::Throw
+                | Keyword::Typeof
+        )
+    }
 }
 
 impl fmt::Display for Keyword {
@@ -563,6 +580,16 @@ fn get_line_comment<'a>(
     ret
 }
 
+/// Returns true if the token at `pos` comes right after a dot.
+fn is_property_name(v: &[Token<'_>], pos: usize) -> bool {
+    v[..pos]
+        .iter()
+        .rev()
+        .find(|t| !t.is_white_character() && !t.is_comment() && !t.is_license())
+        .map(|t| t.eq_char(ReservedChar::Dot))
+        .unwrap_or(false)
+}
+
 /// Returns true if the tokens end with an even number of `+` (or of `-`), so with `++` (or `--`).
 fn ends_with_postfix_operator(v: &[Token<'_>], op: Operation) -> bool {
     let nb = v.iter().rev().take_while(|t| t.eq_operation(op)).count();
@@ -593,6 +620,8 @@ fn get_regex<'a>(
             | Token::Char(ReservedChar::Backline)
             | Token::Char(ReservedChar::Pipe)
             | Token::Char(ReservedChar::Ampersand) => break,
+            // Not `a.in / 2`
+            Token::Keyword(k) if k.can_precede_regex() && !is_property_name(v, back) => break,
             // `i++ / 2` or `i-- / 2`
             Token::Operation(op) if ends_with_postfix_operator(&v[..=back], *op) => return None,
             t if t.is_operation() || t.is_condition() => break,
-- 
2.43.0


From df36ae291ae0ca3cb7c58207387d50012e8d2d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 11/63] fix: JS regex with a slash in a class is cut at the
 slash

---
 src/js/token.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index f58b08e..6fb0ee4 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -601,6 +601,7 @@ fn get_regex<'a>(
     iterator: &mut MyPeekable<'_>,
     start_pos: &mut usize,
     v: &[Token<'_>],
+    no_regex_before: &mut usize,
 ) -> Option<Token<'a>> {
     let mut back = v.len();
     while back > 0 {
@@ -629,6 +630,9 @@ fn get_regex<'a>(
         }
     }
     let saved = iterator.clone();
+    // A slash doesn't end the regex inside of a class: `/[/]/`.
+    let mut in_class = false;
+    let mut end = source.len();
     while let Some((pos, c)) = iterator.next() {
         if c == '\\' {
             // we skip next character
@@ -636,7 +640,17 @@ fn get_regex<'a>(
             continue;
         }
         if let Ok(c) = ReservedChar::try_from(c) {
-            if c == ReservedChar::Slash {
+            if matches!(c, ReservedChar::OpenBracket | ReservedChar::CloseBracket)
+                && pos < *no_regex_before
+            {
+                // From here on, it would end like the previous attempt.
+                *iterator = saved;
+                return None;
+            } else if c == ReservedChar::OpenBracket {
+                in_class = true;
+            } else if c == ReservedChar::CloseBracket {
+                in_class = false;
+            } else if c == ReservedChar::Slash && !in_class {
                 let mut is_global = false;
                 let mut is_interactive = false;
                 let mut add = 0;
@@ -657,10 +671,12 @@ fn get_regex<'a>(
                 *start_pos = pos + add;
                 return ret;
             } else if c == ReservedChar::Backline {
+                end = pos;
                 break;
             }
         }
     }
+    *no_regex_before = end;
     // Not a regex: what was read needs to be read again.
     *iterator = saved;
     None
@@ -915,6 +931,8 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
     let mut v = Vec::with_capacity(1000);
     let mut start = 0;
     let mut iterator = MyPeekable::new(source.char_indices());
+    // Up to there, the last attempt to read a regex didn't find its end.
+    let mut no_regex_before = 0;
 
     loop {
         let (mut pos, c) = match iterator.next() {
@@ -966,7 +984,9 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                         && iterator.peek().unwrap().1 != '*'
                         && !first_useful(&v).unwrap_or(&Token::String("")).is_other() =>
                 {
-                    if let Some(r) = get_regex(source, &mut iterator, &mut pos, &v) {
+                    if let Some(r) =
+                        get_regex(source, &mut iterator, &mut pos, &v, &mut no_regex_before)
+                    {
                         v.push(r);
                     } else {
                         v.push(Token::Operation(Operation::Divide));
-- 
2.43.0


From 3f0844ed8ce1d8a3c3e3d257c3bd02562a2036fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 12/63] fix: JS numbers with leading zeros lose them, words
 such as inf are taken for numbers

---
 src/js/token.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 6fb0ee4..0d97655 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -820,7 +820,14 @@ fn fill_other<'a>(source: &'a str, v: &mut Vec<Token<'a>>, start: usize, pos: us
     if start < pos {
         if let Ok(w) = Keyword::try_from(&source[start..pos]) {
             v.push(Token::Keyword(w));
-        } else if let Ok(n) = usize::from_str(&source[start..pos]) {
+        } else if !source[start..pos].starts_with(|c: char| c == '.' || c.is_ascii_digit()) {
+            // `f64::from_str` accepts words such as `inf` or `nan`.
+            v.push(Token::Other(&source[start..pos]));
+        } else if let (Ok(n), false) = (
+            usize::from_str(&source[start..pos]),
+            // The leading zeros have to be kept: `010` is 8.
+            pos - start > 1 && source[start..pos].starts_with('0'),
+        ) {
             v.push(Token::Number(n))
         } else if f64::from_str(&source[start..pos]).is_ok() {
             v.push(Token::FloatingNumber(&source[start..pos]))
-- 
2.43.0


From e31846e7c34aca370f27d22b2bcab0d5df8585f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 13/63] fix: JS line comment goes on after U+2028 and U+2029

---
 src/js/token.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 0d97655..31d0752 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -566,12 +566,11 @@ fn get_line_comment<'a>(
 ) -> Option<Token<'a>> {
     *start_pos += 1;
     for (pos, c) in iterator {
-        if let Ok(c) = ReservedChar::try_from(c) {
-            if c == ReservedChar::Backline {
-                let ret = Some(Token::Comment(&source[*start_pos..pos]));
-                *start_pos = pos;
-                return ret;
-            }
+        // All the line terminators of JS.
+        if matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}') {
+            let ret = Some(Token::Comment(&source[*start_pos..pos]));
+            *start_pos = pos + c.len_utf8() - 1;
+            return ret;
         }
     }
     // The comment goes up to the end of the source.
-- 
2.43.0


From fc5ccf6855ecc56ddc9aa606f63fb96e1fcaa5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 14/63] fix: created variable is glued to the word before it

`return"a"` became `returnr_aa`.
---
 src/js/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 31d0752..16bbe6a 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -545,6 +545,7 @@ impl Token<'_> {
             Token::Keyword(_)
             | Token::Other(_)
             | Token::CreatedVarDecl(_)
+            | Token::CreatedVar(_)
             | Token::Number(_)
             | Token::FloatingNumber(_) => Some(' '),
             _ => None,
-- 
2.43.0


From 2103dfd8f04ea32118c7510984f96958913e1c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 15/63] fix: needless space added between a license and in or
 instanceof

---
 src/js/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 16bbe6a..37a1284 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -1053,6 +1053,7 @@ macro_rules! tokens_writer {
                 && !tokens[i - 1].is_other()
                 && !tokens[i - 1].is_reserved_char()
                 && !tokens[i - 1].is_string()
+                && !tokens[i - 1].is_license()
             {
                 write!($w, " ")?;
             }
-- 
2.43.0


From 7c668c210fa5afff8fe56b14404d5ee4bbfb4af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 16/63] fix: JS minification merges tokens which only stay
 apart thanks to whitespace

`a + +b`, `a - -b`, `a / /b/`, `a < !--b`, `1 .x` and words followed by an
escaped identifier need a separator.
---
 src/js/utils.rs | 52 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index fd47c28..0f519a6 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -1,6 +1,6 @@
 // Take a look at the license at the top of the repository in the LICENSE file.
 
-use crate::js::token::{Keyword, Operation, ReservedChar, Token, Tokens};
+use crate::js::token::{Condition, Keyword, Operation, ReservedChar, Token, Tokens};
 use std::vec::IntoIter;
 
 pub(crate) struct VariableNameGenerator<'a> {
@@ -240,17 +240,47 @@ pub fn get_variable_name_and_value_positions<'a>(
     None
 }
 
+/// Returns the next token to keep, and whether anything before it was skipped.
 #[inline]
-fn get_next<'a>(it: &mut IntoIter<Token<'a>>) -> Option<Token<'a>> {
+fn get_next<'a>(it: &mut IntoIter<Token<'a>>) -> Option<(Token<'a>, bool)> {
+    let mut skipped = false;
     for t in it {
         if t.is_comment() || t.is_white_character() {
+            skipped = true;
             continue;
         }
-        return Some(t);
+        return Some((t, skipped));
     }
     None
 }
 
+/// Returns true if the two tokens would mean something else without anything in between.
+fn need_separation(first: &Token<'_>, second: &Token<'_>) -> bool {
+    let is_integer = |s: &str| {
+        s.starts_with(|c: char| c.is_ascii_digit())
+            && s.chars().all(|c| c.is_ascii_digit() || c == '_')
+    };
+    match (first, second) {
+        // `a + ++b`
+        (Token::Operation(Operation::Addition), Token::Operation(Operation::Addition))
+        | (Token::Operation(Operation::Subtract), Token::Operation(Operation::Subtract)) => true,
+        // `a / /b/` would become a line comment
+        (Token::Operation(Operation::Divide), Token::Regex { .. } | Token::License(_)) => true,
+        // `a < !--b` would become an HTML comment
+        (Token::Condition(Condition::InferiorThan), Token::Char(ReservedChar::ExclamationMark)) => {
+            true
+        }
+        // `1 .toString()`
+        (Token::Number(_), Token::Char(ReservedChar::Dot)) => true,
+        (Token::Other(s) | Token::FloatingNumber(s), Token::Char(ReservedChar::Dot)) => {
+            is_integer(s)
+        }
+        // `let \u0061`
+        (Token::Keyword(_) | Token::Other(_), Token::Char(ReservedChar::Backslash)) => true,
+        _ => false,
+    }
+}
+
 /// Convenient function used to clean useless tokens in a token list.
 ///
 /// # Example
@@ -271,14 +301,11 @@ pub fn clean_tokens(tokens: Tokens<'_>) -> Tokens<'_> {
     let mut it = tokens.0.into_iter();
 
     loop {
-        let token = get_next(&mut it);
-        if token.is_none() {
-            break;
-        }
-        let token = token.unwrap();
-        if token.is_white_character() {
-            continue;
-        } else if token.get_char() == Some(ReservedChar::SemiColon) {
+        let (token, skipped) = match get_next(&mut it) {
+            Some(x) => x,
+            None => break,
+        };
+        if token.get_char() == Some(ReservedChar::SemiColon) {
             if v.is_empty() {
                 continue;
             }
@@ -292,6 +319,9 @@ pub fn clean_tokens(tokens: Tokens<'_>) -> Tokens<'_> {
             // }
             // continue;
         }
+        if skipped && v.last().is_some_and(|last| need_separation(last, &token)) {
+            v.push(Token::Char(ReservedChar::Space));
+        }
         v.push(token);
     }
     v.into()
-- 
2.43.0


From 61f5fa1e324941f457bd56b0ef63a8aa5a9996bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 17/63] fix: template literals are moved by string aggregation

They may depend on the variables in scope, and become plain strings when moved
into an array.
---
 src/js/tools.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index d264c7c..d58ec37 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -205,6 +205,12 @@ impl fmt::Display for Minified<'_> {
     }
 }
 
+/// Returns the content of a string token, unless it's a template literal: this one is evaluated
+/// where it is, so it cannot be moved.
+fn get_string_literal<'a>(token: &'a Token<'_>) -> Option<&'a str> {
+    token.get_string().filter(|s| !s.starts_with('`'))
+}
+
 // TODO: No scope handling or anything. Might be nice as a second step to add it...
 fn get_variables_name<'a>(
     tokens: &'a Tokens<'a>,
@@ -226,7 +232,7 @@ fn get_variables_name<'a>(
                     }
                     ret.insert(var_name);
                 }
-                if let Some(s) = tokens[value_pos].get_string() {
+                if let Some(s) = get_string_literal(&tokens[value_pos]) {
                     variables.insert(s, (var_pos, value_pos));
                 }
             }
@@ -258,7 +264,7 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
 
         for pos in 0..tokens.len() {
             let token = &tokens[pos];
-            if let Some(str_token) = token.get_string() {
+            if let Some(str_token) = get_string_literal(token) {
                 if let Some((var_pos, string_pos)) = values.get(&str_token) {
                     if pos != *string_pos {
                         to_replace.push((pos, *var_pos));
@@ -412,7 +418,7 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
 
         let mut array_pos = 0;
         for s in current_array_values.iter() {
-            if let Some(st) = tokens.0[*s].get_string() {
+            if let Some(st) = get_string_literal(&tokens.0[*s]) {
                 strs.insert(&st[1..st.len() - 1], (array_pos, vec![], false));
                 array_pos += 1;
                 validated.insert(&st[1..st.len() - 1]);
@@ -426,7 +432,7 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
                 continue;
             }
             let token = &tokens[pos];
-            if let Some(str_token) = token.get_string() {
+            if let Some(str_token) = get_string_literal(token) {
                 if !filter(&tokens, pos) {
                     continue;
                 }
-- 
2.43.0


From a64f5c7b5b292f156948092d9217b42198cd81e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 18/63] fix: variable lookup returns the name and value of a
 later variable

---
 src/js/utils.rs | 39 +++++++++++++--------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index 0f519a6..44b3aee 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -176,26 +176,19 @@ pub fn get_variable_name_and_value_positions<'a>(
     if pos >= tokens.len() {
         return None;
     }
+    let is_useless =
+        |token: &Token<'_>| token.is_comment() || token.is_license() || token.is_white_character();
     let mut tmp = pos;
     match tokens[pos] {
         Token::Keyword(Keyword::Let) | Token::Keyword(Keyword::Var) => {
             tmp += 1;
         }
-        Token::Other(_) if pos > 0 => {
-            let mut pos = pos - 1;
-            while pos > 0 {
-                if tokens[pos].is_comment() || tokens[pos].is_white_character() {
-                    pos -= 1;
-                } else if tokens[pos] == Token::Char(ReservedChar::Comma)
-                    || tokens[pos] == Token::Keyword(Keyword::Let)
-                    || tokens[pos] == Token::Keyword(Keyword::Var)
-                {
-                    break;
-                } else {
-                    return None;
-                }
-            }
-        }
+        Token::Other(_) => match tokens[..pos].iter().rev().find(|t| !is_useless(t)) {
+            Some(Token::Char(ReservedChar::Comma))
+            | Some(Token::Keyword(Keyword::Let))
+            | Some(Token::Keyword(Keyword::Var)) => {}
+            _ => return None,
+        },
         _ => return None,
     }
     while tmp < tokens.len() {
@@ -213,27 +206,21 @@ pub fn get_variable_name_and_value_positions<'a>(
                             || token.is_floating_number()
                         {
                             return Some((tmp, Some(tmp2)));
-                        } else if !tokens[tmp2].is_comment() && !tokens[tmp2].is_white_character() {
+                        } else if !is_useless(token) {
                             break;
                         }
                         tmp2 += 1;
                     }
                     break;
-                } else if matches!(
-                    tokens[tmp2].get_char(),
-                    Some(ReservedChar::Comma) | Some(ReservedChar::SemiColon)
-                ) {
-                    return Some((tmp, None));
-                } else if !(tokens[tmp2].is_comment()
-                    || tokens[tmp2].is_white_character()
-                        && tokens[tmp2].get_char() != Some(ReservedChar::Backline))
-                {
+                } else if !is_useless(&tokens[tmp2]) {
                     break;
                 }
                 tmp2 += 1;
             }
-        } else {
+            return Some((tmp, None));
+        } else if !is_useless(&tokens[tmp]) {
             // We don't care about syntax errors.
+            return None;
         }
         tmp += 1;
     }
-- 
2.43.0


From 53e671d1f2035a69c743f6ece6647fc1e285c526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 19/63] fix: string aggregation declares variables with names
 already in use

---
 src/js/tools.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index d58ec37..6670e9d 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -211,11 +211,24 @@ fn get_string_literal<'a>(token: &'a Token<'_>) -> Option<&'a str> {
     token.get_string().filter(|s| !s.starts_with('`'))
 }
 
+/// Returns all the names starting with `prefix` which are used, whatever for.
+fn get_used_names<'a>(tokens: &'a Tokens<'a>, prefix: &str) -> HashSet<&'a str> {
+    tokens
+        .iter()
+        .filter_map(|token| match token {
+            Token::Other(s) => Some(*s),
+            Token::CreatedVar(s) | Token::CreatedVarDecl(s) => Some(s.as_str()),
+            // Template literals can contain code.
+            Token::String(s) if s.starts_with('`') => Some(*s),
+            _ => None,
+        })
+        .flat_map(|s| s.split(|c: char| !c.is_alphanumeric() && c != '_' && c != '$'))
+        .filter(|name| name.starts_with(prefix))
+        .collect()
+}
+
 // TODO: No scope handling or anything. Might be nice as a second step to add it...
-fn get_variables_name<'a>(
-    tokens: &'a Tokens<'a>,
-) -> (HashSet<&'a str>, HashMap<&'a str, (usize, usize)>) {
-    let mut ret = HashSet::new();
+fn get_variables_name<'a>(tokens: &'a Tokens<'a>) -> HashMap<&'a str, (usize, usize)> {
     let mut variables = HashMap::new();
     let mut pos = 0;
 
@@ -230,7 +243,6 @@ fn get_variables_name<'a>(
                         pos += 1;
                         continue;
                     }
-                    ret.insert(var_name);
                 }
                 if let Some(s) = get_string_literal(&tokens[value_pos]) {
                     variables.insert(s, (var_pos, value_pos));
@@ -239,7 +251,7 @@ fn get_variables_name<'a>(
         }
         pos += 1;
     }
-    (ret, variables)
+    variables
 }
 
 fn aggregate_strings_inner<'a, 'b: 'a>(
@@ -256,8 +268,9 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
         let mut var_gen = VariableNameGenerator::new(Some("r_"), 2);
         let mut next_name = var_gen.to_string();
 
-        let (all_variables, values) = get_variables_name(&tokens);
-        while all_variables.contains(&next_name.as_str()) {
+        let used_names = get_used_names(&tokens, "r_");
+        let values = get_variables_name(&tokens);
+        while used_names.contains(&next_name.as_str()) {
             var_gen.next();
             next_name = var_gen.to_string();
         }
@@ -284,7 +297,7 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
                         validated.insert(token, next_name.clone());
                         var_gen.next();
                         next_name = var_gen.to_string();
-                        while all_variables.contains(&next_name.as_str()) {
+                        while used_names.contains(&next_name.as_str()) {
                             var_gen.next();
                             next_name = var_gen.to_string();
                         }
-- 
2.43.0


From 814395debb7545cbafa26220488a0ecb09730765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 20/63] fix: string aggregation uses existing variables which
 don't hold the string there

---
 src/js/tools.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 6670e9d..65a4b8e 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -231,9 +231,24 @@ fn get_used_names<'a>(tokens: &'a Tokens<'a>, prefix: &str) -> HashSet<&'a str>
 fn get_variables_name<'a>(tokens: &'a Tokens<'a>) -> HashMap<&'a str, (usize, usize)> {
     let mut variables = HashMap::new();
     let mut pos = 0;
+    // Only variables declared at the top-level can be used everywhere after their declaration.
+    let mut depth = 0i32;
 
     while pos < tokens.len() {
-        if tokens[pos].is_keyword() || tokens[pos].is_other() {
+        match tokens[pos].get_char() {
+            Some(
+                ReservedChar::OpenCurlyBrace
+                | ReservedChar::OpenParenthese
+                | ReservedChar::OpenBracket,
+            ) => depth += 1,
+            Some(
+                ReservedChar::CloseCurlyBrace
+                | ReservedChar::CloseParenthese
+                | ReservedChar::CloseBracket,
+            ) => depth -= 1,
+            _ => {}
+        }
+        if depth == 0 && (tokens[pos].is_keyword() || tokens[pos].is_other()) {
             if let Some((var_pos, Some(value_pos))) =
                 get_variable_name_and_value_positions(tokens, pos)
             {
@@ -245,7 +260,16 @@ fn get_variables_name<'a>(tokens: &'a Tokens<'a>) -> HashMap<&'a str, (usize, us
                     }
                 }
                 if let Some(s) = get_string_literal(&tokens[value_pos]) {
-                    variables.insert(s, (var_pos, value_pos));
+                    // The string needs to be the whole value: not `var r_a = "a" + b;`.
+                    let next = tokens[value_pos + 1..]
+                        .iter()
+                        .find(|t| !t.is_comment() && !t.is_license() && !t.is_white_character());
+                    if matches!(
+                        next,
+                        None | Some(Token::Char(ReservedChar::Comma | ReservedChar::SemiColon))
+                    ) {
+                        variables.entry(s).or_insert((var_pos, value_pos));
+                    }
                 }
             }
         }
@@ -279,7 +303,8 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
             let token = &tokens[pos];
             if let Some(str_token) = get_string_literal(token) {
                 if let Some((var_pos, string_pos)) = values.get(&str_token) {
-                    if pos != *string_pos {
+                    // The variable doesn't have its value before that.
+                    if pos > *string_pos {
                         to_replace.push((pos, *var_pos));
                     }
                     continue;
-- 
2.43.0


From 5a634cb1dfdc9898a8b7bc47f43959ca367e9e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 21/63] fix: array aggregation breaks single quoted strings
 with double quotes inside

---
 src/js/tools.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 65a4b8e..3e9c413 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -537,7 +537,12 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             if !create_array_entry {
                 continue;
             }
-            to_insert.push((end_bracket, Token::CreatedVar(format!("\"{}\"", *s))));
+            let entry = match get_string_literal(&tokens[tokens_pos[0]]) {
+                // The double quotes it contains don't need to be escaped.
+                Some(entry) if entry.starts_with('\'') && entry.contains('"') => entry.to_owned(),
+                _ => format!("\"{}\"", *s),
+            };
+            to_insert.push((end_bracket, Token::CreatedVar(entry)));
             if iter.peek().is_none() && current_array_values.is_empty() {
                 continue;
             }
-- 
2.43.0


From 2f5abaeeea374fd1aa63c2911032d54054fea048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 22/63] fix: array aggregation miscounts the elements of an
 existing array

---
 src/js/tools.rs | 29 ++++++++++++++++-------------
 src/js/utils.rs | 43 ++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 3e9c413..bef13f5 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -443,7 +443,6 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
     let mut to_replace = Vec::with_capacity(100);
 
     {
-        let mut to_ignore = HashSet::new();
         // key: the token string
         // value: (position in the array, positions in the tokens list, need creation)
         let mut strs: HashMap<&str, (usize, Vec<usize>, bool)> = HashMap::with_capacity(1000);
@@ -454,21 +453,17 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             };
         let mut validated: HashSet<&str> = HashSet::new();
 
-        let mut array_pos = 0;
-        for s in current_array_values.iter() {
-            if let Some(st) = get_string_literal(&tokens.0[*s]) {
+        for (array_pos, s) in current_array_values.iter().enumerate() {
+            if let Some(st) = s.and_then(|s| get_string_literal(&tokens.0[s])) {
                 strs.insert(&st[1..st.len() - 1], (array_pos, vec![], false));
-                array_pos += 1;
                 validated.insert(&st[1..st.len() - 1]);
-                to_ignore.insert(*s);
             }
         }
 
+        let mut array_pos = current_array_values.len();
         let mut array_pos_str = array_pos.to_string();
-        for pos in 0..tokens.len() {
-            if to_ignore.contains(&pos) {
-                continue;
-            }
+        // The elements of an existing array are not available before its end.
+        for pos in end_bracket..tokens.len() {
             let token = &tokens[pos];
             if let Some(str_token) = get_string_literal(token) {
                 if !filter(&tokens, pos) {
@@ -527,8 +522,16 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             end_bracket = 2;
         }
 
-        let mut iter = validated.iter().peekable();
-        while let Some((array_pos, s)) = iter.next() {
+        // A trailing comma isn't an element.
+        let no_comma_before = need_recreate
+            || tokens[..end_bracket]
+                .iter()
+                .rev()
+                .find(|t| !t.is_comment() && !t.is_license() && !t.is_white_character())
+                .is_some_and(|t| {
+                    t.eq_char(ReservedChar::Comma) || t.eq_char(ReservedChar::OpenBracket)
+                });
+        for (array_pos, s) in validated.iter() {
             let (_, ref tokens_pos, create_array_entry) = strs[*s];
             let array_index = Token::CreatedVar(format!("{array_name}[{array_pos}]"));
             for token in tokens_pos.iter() {
@@ -543,7 +546,7 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
                 _ => format!("\"{}\"", *s),
             };
             to_insert.push((end_bracket, Token::CreatedVar(entry)));
-            if iter.peek().is_none() && current_array_values.is_empty() {
+            if no_comma_before && *array_pos == current_array_values.len() {
                 continue;
             }
             to_insert.push((end_bracket, Token::Char(ReservedChar::Comma)));
diff --git a/src/js/utils.rs b/src/js/utils.rs
index 44b3aee..4d144a0 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -413,11 +413,16 @@ pub fn clean_token_except<'a, F: Fn(&Token<'a>) -> bool>(
     }
 }
 
+/// Returns the elements of the array (for each of them, the position of its token if it has only
+/// one) and the position of its closing bracket.
 pub(crate) fn get_array<'a>(
     tokens: &'a Tokens<'a>,
     array_name: &str,
-) -> Option<(Vec<usize>, usize)> {
+) -> Option<(Vec<Option<usize>>, usize)> {
     let mut ret = Vec::new();
+    // The tokens of the current element.
+    let mut element: Vec<usize> = Vec::new();
+    let mut depth = 0;
 
     let mut looking_for_var = false;
     let mut looking_for_equal = false;
@@ -459,12 +464,40 @@ pub(crate) fn get_array<'a>(
             }
         } else if getting_values {
             match &tokens[pos] {
-                Token::Char(ReservedChar::CloseBracket) => {
+                Token::Char(ReservedChar::CloseBracket) if depth == 0 => {
+                    if !element.is_empty() {
+                        ret.push(if element.len() == 1 {
+                            Some(element[0])
+                        } else {
+                            None
+                        });
+                    }
                     return Some((ret, pos));
                 }
-                s if s.is_comment() || s.is_white_character() => {}
-                _ => {
-                    ret.push(pos);
+                Token::Char(ReservedChar::Comma) if depth == 0 => {
+                    ret.push(if element.len() == 1 {
+                        Some(element[0])
+                    } else {
+                        None
+                    });
+                    element.clear();
+                }
+                s if s.is_comment() || s.is_license() || s.is_white_character() => {}
+                s => {
+                    match s.get_char() {
+                        Some(
+                            ReservedChar::OpenBracket
+                            | ReservedChar::OpenParenthese
+                            | ReservedChar::OpenCurlyBrace,
+                        ) => depth += 1,
+                        Some(
+                            ReservedChar::CloseBracket
+                            | ReservedChar::CloseParenthese
+                            | ReservedChar::CloseCurlyBrace,
+                        ) => depth -= 1,
+                        _ => {}
+                    }
+                    element.push(pos);
                 }
             }
         } else {
-- 
2.43.0


From 3cf1b92cafafb3cb813ebd175e85ce6f7d4f3312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 23/63] fix: JS regex after void or delete is taken for a
 division

---
 src/js/token.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 37a1284..18058e8 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -623,6 +623,8 @@ fn get_regex<'a>(
             | Token::Char(ReservedChar::Ampersand) => break,
             // Not `a.in / 2`
             Token::Keyword(k) if k.can_precede_regex() && !is_property_name(v, back) => break,
+            // They're followed by an expression too.
+            Token::Other("delete" | "void") if !is_property_name(v, back) => break,
             // `i++ / 2` or `i-- / 2`
             Token::Operation(op) if ends_with_postfix_operator(&v[..=back], *op) => return None,
             t if t.is_operation() || t.is_condition() => break,
@@ -806,16 +808,6 @@ fn get_backtick_string<'a>(
     Ok(None)
 }
 
-fn first_useful<'a>(v: &'a [Token<'a>]) -> Option<&'a Token<'a>> {
-    for x in v.iter().rev() {
-        if x.is_white_character() {
-            continue;
-        }
-        return Some(x);
-    }
-    None
-}
-
 fn fill_other<'a>(source: &'a str, v: &mut Vec<Token<'a>>, start: usize, pos: usize) {
     if start < pos {
         if let Ok(w) = Keyword::try_from(&source[start..pos]) {
@@ -988,8 +980,7 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                 ReservedChar::Slash
                     if iterator.peek().is_some()
                         && iterator.peek().unwrap().1 != '/'
-                        && iterator.peek().unwrap().1 != '*'
-                        && !first_useful(&v).unwrap_or(&Token::String("")).is_other() =>
+                        && iterator.peek().unwrap().1 != '*' =>
                 {
                     if let Some(r) =
                         get_regex(source, &mut iterator, &mut pos, &v, &mut no_regex_before)
-- 
2.43.0


From 41da9e9500aa0164ac41441cab92dbc54750983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 24/63] fix: JS regex after ^, ~ or a spread is taken for a
 division

---
 src/js/token.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 18058e8..4b1e460 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -613,6 +613,8 @@ fn get_regex<'a>(
             Token::Char(ReservedChar::SemiColon)
             | Token::Char(ReservedChar::Colon)
             | Token::Char(ReservedChar::Comma)
+            // `.../a/`
+            | Token::Char(ReservedChar::Dot)
             | Token::Char(ReservedChar::OpenBracket)
             | Token::Char(ReservedChar::OpenParenthese)
             | Token::Char(ReservedChar::ExclamationMark)
@@ -625,6 +627,8 @@ fn get_regex<'a>(
             Token::Keyword(k) if k.can_precede_regex() && !is_property_name(v, back) => break,
             // They're followed by an expression too.
             Token::Other("delete" | "void") if !is_property_name(v, back) => break,
+            // Operators which are part of a word.
+            Token::Other(s) if s.ends_with(['^', '~']) => break,
             // `i++ / 2` or `i-- / 2`
             Token::Operation(op) if ends_with_postfix_operator(&v[..=back], *op) => return None,
             t if t.is_operation() || t.is_condition() => break,
-- 
2.43.0


From f0ec2348f7c2a7e5fea184980ab140c5fdcfe6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 25/63] fix: JS minification glues a dot to a number following
 ^ or ~

---
 src/js/utils.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index 4d144a0..a2c360f 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -244,6 +244,8 @@ fn get_next<'a>(it: &mut IntoIter<Token<'a>>) -> Option<(Token<'a>, bool)> {
 /// Returns true if the two tokens would mean something else without anything in between.
 fn need_separation(first: &Token<'_>, second: &Token<'_>) -> bool {
     let is_integer = |s: &str| {
+        // `^` and `~` are part of words.
+        let s = s.rsplit(['^', '~']).next().unwrap_or(s);
         s.starts_with(|c: char| c.is_ascii_digit())
             && s.chars().all(|c| c.is_ascii_digit() || c == '_')
     };
-- 
2.43.0


From 152a316f4b9eb189bfd2cd5b90fd1a0f4889367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 26/63] fix: JS number ending with a dot before a carriage
 return is split in two

---
 src/js/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 4b1e460..f2ac839 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -949,7 +949,7 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
             if c == ReservedChar::Dot && check_if_number(&mut iterator, start, pos, source) {
                 let mut cont = true;
                 if let Some(x) = iterator.peek() {
-                    if !"0123456789,; \t\n<>/*&|{}[]-+=~%^:!".contains(x.1) {
+                    if !"0123456789,; \t\n\r<>/*&|{}[]-+=~%^:!".contains(x.1) {
                         fill_other(source, &mut v, start, pos);
                         start = pos;
                         cont = false;
-- 
2.43.0


From 409b4f7b16cfecf4a60e144504cfa2e11435dd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 27/63] fix: JS ^ and ~ are taken for parts of words

Keywords next to them weren't recognized: `0 in~a` lost its space and the regex
of `~typeof /a b/` wasn't one.
---
 src/js/token.rs | 10 ++++++++--
 src/js/utils.rs |  2 --
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index f2ac839..c2d6cec 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -35,6 +35,8 @@ pub enum ReservedChar {
     Pipe,
     Ampersand,
     BackTick,
+    Caret,
+    Tilde,
 }
 
 impl ReservedChar {
@@ -80,6 +82,8 @@ impl fmt::Display for ReservedChar {
                 ReservedChar::Pipe => '|',
                 ReservedChar::Ampersand => '&',
                 ReservedChar::BackTick => '`',
+                ReservedChar::Caret => '^',
+                ReservedChar::Tilde => '~',
             }
         )
     }
@@ -119,6 +123,8 @@ impl TryFrom<char> for ReservedChar {
             '|' => Ok(ReservedChar::Pipe),
             '&' => Ok(ReservedChar::Ampersand),
             '`' => Ok(ReservedChar::BackTick),
+            '^' => Ok(ReservedChar::Caret),
+            '~' => Ok(ReservedChar::Tilde),
             _ => Err("Unknown reserved char"),
         }
     }
@@ -618,6 +624,8 @@ fn get_regex<'a>(
             | Token::Char(ReservedChar::OpenBracket)
             | Token::Char(ReservedChar::OpenParenthese)
             | Token::Char(ReservedChar::ExclamationMark)
+            | Token::Char(ReservedChar::Caret)
+            | Token::Char(ReservedChar::Tilde)
             | Token::Char(ReservedChar::OpenCurlyBrace)
             | Token::Char(ReservedChar::QuestionMark)
             | Token::Char(ReservedChar::Backline)
@@ -627,8 +635,6 @@ fn get_regex<'a>(
             Token::Keyword(k) if k.can_precede_regex() && !is_property_name(v, back) => break,
             // They're followed by an expression too.
             Token::Other("delete" | "void") if !is_property_name(v, back) => break,
-            // Operators which are part of a word.
-            Token::Other(s) if s.ends_with(['^', '~']) => break,
             // `i++ / 2` or `i-- / 2`
             Token::Operation(op) if ends_with_postfix_operator(&v[..=back], *op) => return None,
             t if t.is_operation() || t.is_condition() => break,
diff --git a/src/js/utils.rs b/src/js/utils.rs
index a2c360f..4d144a0 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -244,8 +244,6 @@ fn get_next<'a>(it: &mut IntoIter<Token<'a>>) -> Option<(Token<'a>, bool)> {
 /// Returns true if the two tokens would mean something else without anything in between.
 fn need_separation(first: &Token<'_>, second: &Token<'_>) -> bool {
     let is_integer = |s: &str| {
-        // `^` and `~` are part of words.
-        let s = s.rsplit(['^', '~']).next().unwrap_or(s);
         s.starts_with(|c: char| c.is_ascii_digit())
             && s.chars().all(|c| c.is_ascii_digit() || c == '_')
     };
-- 
2.43.0


From 304daeba7d1dd4c2ba120632413525869b3d96bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:29 +0000
Subject: [PATCH 28/63] fix: JS number starting with a dot is taken for a part
 of the word before it

---
 src/js/token.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index c2d6cec..640fb03 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -548,6 +548,8 @@ impl Token<'_> {
 
     fn get_required(&self) -> Option<char> {
         match *self {
+            // `return.5`
+            Token::FloatingNumber(s) if s.starts_with('.') => None,
             Token::Keyword(_)
             | Token::Other(_)
             | Token::CreatedVarDecl(_)
@@ -952,6 +954,13 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
             }
         };
         if let Ok(c) = ReservedChar::try_from(c) {
+            if c == ReservedChar::Dot
+                && !source[start..pos].starts_with(|c: char| c.is_ascii_digit())
+            {
+                // The word ends here, a number may start: `return.5`
+                fill_other(source, &mut v, start, pos);
+                start = pos;
+            }
             if c == ReservedChar::Dot && check_if_number(&mut iterator, start, pos, source) {
                 let mut cont = true;
                 if let Some(x) = iterator.peek() {
-- 
2.43.0


From 5c6bb5530b60a3fd8b2bc943c99c40fd79419657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:57 +0000
Subject: [PATCH 29/63] fix: JS number with a signed exponent is cut at the
 sign

---
 src/js/token.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 640fb03..17209fb 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -897,6 +897,16 @@ fn handle_equal_sign(v: &mut Vec<Token<'_>>, c: ReservedChar) -> bool {
     true
 }
 
+fn is_start_of_exponent(s: &str) -> bool {
+    match s.strip_suffix(['e', 'E']) {
+        Some(s) => {
+            s.starts_with(|c: char| c == '.' || c.is_ascii_digit())
+                && s.chars().all(|c| matches!(c, '0'..='9' | '.' | '_'))
+        }
+        None => false,
+    }
+}
+
 fn check_if_number(iterator: &mut MyPeekable<'_>, start: usize, pos: usize, source: &str) -> bool {
     if source[start..pos].find('.').is_some() {
         return false;
@@ -954,6 +964,12 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
             }
         };
         if let Ok(c) = ReservedChar::try_from(c) {
+            if matches!(c, ReservedChar::Plus | ReservedChar::Minus)
+                && is_start_of_exponent(&source[start..pos])
+            {
+                // `1e+3`
+                continue;
+            }
             if c == ReservedChar::Dot
                 && !source[start..pos].starts_with(|c: char| c.is_ascii_digit())
             {
-- 
2.43.0


From e03eaca50ec2842ab954d87e541ad2d0a998bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:00 +0000
Subject: [PATCH 30/63] fix: needless space added between an operator and in or
 instanceof

---
 src/js/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 17209fb..acd9246 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -1078,6 +1078,7 @@ macro_rules! tokens_writer {
                 && !tokens[i - 1].is_keyword()
                 && !tokens[i - 1].is_other()
                 && !tokens[i - 1].is_reserved_char()
+                && !tokens[i - 1].is_operation()
                 && !tokens[i - 1].is_string()
                 && !tokens[i - 1].is_license()
             {
-- 
2.43.0


From 69a0660ee63690767a0ab0667dbfe0b8ad7a2e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:28 +0000
Subject: [PATCH 31/63] fix: array aggregation doesn't find an existing array
 with a license in its declaration

---
 src/js/utils.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index 4d144a0..0a0a6c5 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -439,7 +439,7 @@ pub(crate) fn get_array<'a>(
                     }
                 }
                 ref s => {
-                    looking_for_var = s.is_comment() || s.is_white_character();
+                    looking_for_var = s.is_comment() || s.is_license() || s.is_white_character();
                 }
             }
         } else if looking_for_equal {
@@ -449,7 +449,7 @@ pub(crate) fn get_array<'a>(
                     looking_for_array_start = true;
                 }
                 ref s => {
-                    looking_for_equal = s.is_comment() || s.is_white_character();
+                    looking_for_equal = s.is_comment() || s.is_license() || s.is_white_character();
                 }
             }
         } else if looking_for_array_start {
@@ -459,7 +459,8 @@ pub(crate) fn get_array<'a>(
                     getting_values = true;
                 }
                 ref s => {
-                    looking_for_array_start = s.is_comment() || s.is_white_character();
+                    looking_for_array_start =
+                        s.is_comment() || s.is_license() || s.is_white_character();
                 }
             }
         } else if getting_values {
-- 
2.43.0


From 0835d1f18d7c5e4642c5d44ae43b7f2c7ac01ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 32/63] fix: CSS minification removes or adds whitespace which
 has a meaning

---
 src/css/token.rs | 228 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 157 insertions(+), 71 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 5645e3c..2de4db0 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -308,10 +308,6 @@ impl Token<'_> {
         matches!(*self, Token::SelectorElement(SelectorElement::Media(_)))
     }
 
-    fn is_a_selector_element(&self) -> bool {
-        matches!(*self, Token::SelectorElement(_))
-    }
-
     fn is_a_license(&self) -> bool {
         matches!(*self, Token::License(_))
     }
@@ -579,7 +575,149 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
     Ok(Tokens(clean_tokens(v)))
 }
 
+/// For each token, returns whether it's part of a selector (so not of the prelude of an at-rule
+/// nor of a declaration).
+fn get_selectors(v: &[Token<'_>]) -> Vec<bool> {
+    let mut selectors = vec![false; v.len()];
+    let mut start = 0;
+
+    for i in 0..=v.len() {
+        let is_block = match v.get(i) {
+            None | Some(Token::Char(ReservedChar::OpenCurlyBrace)) => true,
+            Some(Token::Char(ReservedChar::CloseCurlyBrace | ReservedChar::SemiColon)) => false,
+            Some(_) => continue,
+        };
+        let first = v[start..i]
+            .iter()
+            .find(|t| !t.is_useless() && !t.is_comment() && !t.is_a_license());
+        let is_at_rule = match first {
+            Some(Token::SelectorElement(SelectorElement::Media(name))) => *name != "scope",
+            Some(Token::Other(name)) => name.starts_with('@') && *name != "@scope",
+            _ => false,
+        };
+        if is_block && !is_at_rule {
+            selectors[start..i].fill(true);
+        } else if is_block {
+            // `@supports selector(.a :hover)`
+            let mut paren = 0;
+            for pos in start..i {
+                let is_function = matches!(
+                    v[pos],
+                    Token::Other("selector")
+                        | Token::SelectorElement(SelectorElement::Tag("selector"))
+                );
+                match v[pos].get_char() {
+                    Some(ReservedChar::CloseParenthese) if paren > 0 => paren -= 1,
+                    Some(ReservedChar::OpenParenthese) if paren > 0 => paren += 1,
+                    _ if is_function
+                        && v.get(pos + 1) == Some(&Token::Char(ReservedChar::OpenParenthese)) =>
+                    {
+                        selectors[pos + 1] = true;
+                    }
+                    Some(ReservedChar::OpenParenthese) if selectors[pos] => paren = 1,
+                    _ => {}
+                }
+                selectors[pos] = paren > 0;
+            }
+        }
+        start = i + 1;
+    }
+    selectors
+}
+
+/// Returns `true` if the whitespace (or the comment if `is_comment` is `true`) between the two
+/// tokens cannot be removed.
+fn need_space(
+    prev: &Token<'_>,
+    next: &Token<'_>,
+    is_comment: bool,
+    is_in_selector: bool,
+    is_in_parens: bool,
+) -> bool {
+    if prev.is_a_media() || prev.is_a_license() {
+        return false;
+    }
+    match (prev.get_char(), next.get_char()) {
+        (
+            Some(
+                ReservedChar::OpenCurlyBrace
+                | ReservedChar::CloseCurlyBrace
+                | ReservedChar::SemiColon
+                | ReservedChar::Comma
+                | ReservedChar::Colon
+                | ReservedChar::OpenParenthese
+                | ReservedChar::OpenBracket
+                | ReservedChar::SuperiorThan
+                | ReservedChar::EqualSign,
+            ),
+            _,
+        )
+        | (
+            _,
+            Some(
+                ReservedChar::OpenCurlyBrace
+                | ReservedChar::CloseCurlyBrace
+                | ReservedChar::SemiColon
+                | ReservedChar::Comma
+                | ReservedChar::CloseParenthese
+                | ReservedChar::CloseBracket
+                | ReservedChar::SuperiorThan
+                | ReservedChar::Tilde,
+            ),
+        ) => false,
+        // retain the space between an operator and an equal sign
+        (prev, Some(ReservedChar::EqualSign)) => matches!(
+            prev,
+            Some(
+                ReservedChar::Star
+                    | ReservedChar::Circumflex
+                    | ReservedChar::Dollar
+                    | ReservedChar::Tilde
+                    | ReservedChar::Pipe
+            )
+        ),
+        (Some(ReservedChar::Tilde), _) => false,
+        // this looks like a comment, but it is not
+        // retain the space between `/` and `*`
+        (Some(ReservedChar::Slash), Some(ReservedChar::Star)) => true,
+        (Some(ReservedChar::Slash), _) | (_, Some(ReservedChar::Slash)) => false,
+        // `.a :hover`
+        (_, Some(ReservedChar::Colon)) => is_in_selector && !is_comment,
+        // `.a + .b` but not `calc(1px + 2px)`
+        (Some(ReservedChar::Plus), _) | (_, Some(ReservedChar::Plus)) => !is_in_selector,
+        (Some(ReservedChar::Star), _) | (_, Some(ReservedChar::Star))
+            if !is_in_selector && !is_in_parens =>
+        {
+            false
+        }
+        // `.a/**/.b` isn't `.a .b`
+        (_, next_char) if is_in_selector && is_comment => !match next {
+            Token::SelectorElement(SelectorElement::Tag(_)) => false,
+            Token::SelectorElement(_) => true,
+            Token::Other(s) => s.starts_with(['.', '#']),
+            _ => matches!(
+                next_char,
+                Some(ReservedChar::OpenBracket | ReservedChar::Pipe)
+            ),
+        },
+        _ => true,
+    }
+}
+
 fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
+    // Each run of whitespace and comments becomes one token.
+    v.dedup_by(|next, prev| {
+        let is_removable = |t: &Token<'_>| t.is_useless() || t.is_comment();
+        if is_removable(next) && is_removable(prev) {
+            if next.is_useless() {
+                *prev = Token::Char(ReservedChar::Space);
+            }
+            true
+        } else {
+            false
+        }
+    });
+    let selectors = get_selectors(&v);
     // This function may remove multiple elements from the vector. Ideally we'd
     // use `Vec::retain`, but the traversal requires inspecting the previously
     // retained token and the next token, which `Vec::retain` doesn't allow. So
@@ -587,82 +725,30 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
     let mut i = 0;
     // Index of the previous retained token, if there is one.
     let mut previous_element_index: Option<usize> = None;
-    let mut is_in_calc = false;
     let mut paren = 0;
     // A vector of bools indicating which elements are to be retained.
     let mut b = Vec::with_capacity(v.len());
 
     while i < v.len() {
-        if v[i] == Token::Other("calc") {
-            is_in_calc = true;
-        } else if is_in_calc {
-            if v[i] == Token::Char(ReservedChar::CloseParenthese) {
-                paren -= 1;
-                is_in_calc = paren != 0;
-            } else if v[i] == Token::Char(ReservedChar::OpenParenthese) {
-                paren += 1;
-            }
+        match v[i].get_char() {
+            Some(ReservedChar::OpenParenthese) => paren += 1,
+            Some(ReservedChar::CloseParenthese) => paren -= 1,
+            Some(ReservedChar::OpenCurlyBrace | ReservedChar::CloseCurlyBrace) => paren = 0,
+            _ => {}
         }
 
         let mut retain = true;
         if v[i].is_useless() || v[i].is_comment() {
-            if let Some(previous_element_index) = previous_element_index {
-                #[allow(clippy::if_same_then_else)]
-                if v[previous_element_index] == Token::Char(ReservedChar::CloseBracket) {
-                    if i + 1 < v.len()
-                        && (v[i + 1].is_useless()
-                            || v[i + 1] == Token::Char(ReservedChar::OpenCurlyBrace))
-                    {
-                        retain = false;
-                    }
-                } else if matches!(v[previous_element_index], Token::Other(_))
-                    && matches!(
-                        v.get(i + 1),
-                        Some(Token::Other(_) | Token::Char(ReservedChar::OpenParenthese))
-                    )
-                {
-                    // retain the space between keywords
-                    // and the space that disambiguates functions from keyword-plus-parens
-                } else if v[previous_element_index].is_a_selector_element()
-                    && matches!(v.get(i + 1), Some(Token::Char(ReservedChar::Star)))
-                {
-                    // retain the space before `*` if it's preceded by a selector.
-                } else if matches!(v[previous_element_index], Token::Char(ReservedChar::Star))
-                    && v.get(i + 1)
-                        .is_some_and(|elem| elem.is_a_selector_element())
-                {
-                    // retain the space after `*` if it's followed by a selector.
-                } else if matches!(
-                    v[previous_element_index],
-                    Token::Char(
-                        ReservedChar::Star
-                            | ReservedChar::Circumflex
-                            | ReservedChar::Dollar
-                            | ReservedChar::Tilde
-                    )
-                ) && matches!(v.get(i + 1), Some(Token::Char(ReservedChar::EqualSign)))
-                {
-                    // retain the space between an operator and an equal sign
-                } else if matches!(v[previous_element_index], Token::Char(ReservedChar::Slash))
-                    && matches!(v.get(i + 1), Some(Token::Char(ReservedChar::Star)))
-                {
-                    // this looks like a comment, but it is not
-                    // retain the space between `/` and `*`
-                } else if is_in_calc && v[previous_element_index].is_useless() {
-                    retain = false;
-                } else if !is_in_calc {
-                    let prev = &v[previous_element_index];
-                    if ((prev.is_char() && prev != &Token::Char(ReservedChar::CloseParenthese))
-                        || prev.is_a_media()
-                        || prev.is_a_license())
-                        || (i < v.len() - 1
-                            && v[i + 1].is_char()
-                            && v[i + 1] != Token::Char(ReservedChar::OpenBracket))
-                    {
-                        retain = false;
-                    }
-                }
-            }
+            retain = match (previous_element_index, v.get(i + 1)) {
+                (Some(previous_element_index), Some(next)) => need_space(
+                    &v[previous_element_index],
+                    next,
+                    v[i].is_comment(),
+                    selectors[i],
+                    paren > 0,
+                ),
+                _ => false,
+            };
             if retain && v[i].is_comment() {
                 // convert comments to spaces when minifying
                 v[i] = Token::Char(ReservedChar::Space);
-- 
2.43.0


From 9bf6e6cec6bbd589507237540517863c8ce61813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 33/63] fix: unquoted CSS urls are cut into tokens

---
 src/css/token.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/css/token.rs b/src/css/token.rs
index 2de4db0..3e87a13 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -390,6 +390,27 @@ fn get_string<'a>(
     None
 }
 
+/// Returns the content of an unquoted url, without the whitespace around it. The iterator is left
+/// right before the closing parenthese.
+fn get_url<'a>(source: &'a str, iterator: &mut Peekable<CharIndices<'_>>) -> &'a str {
+    let is_whitespace = |c: char| matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c');
+
+    while iterator.next_if(|(_, c)| is_whitespace(*c)).is_some() {}
+    let start = iterator.peek().map_or(source.len(), |(pos, _)| *pos);
+    let mut end = start;
+    while let Some((pos, c)) = iterator.next_if(|(_, c)| *c != ')') {
+        if c == '\\' {
+            // we skip next character
+            end = iterator
+                .next()
+                .map_or(source.len(), |(pos, c)| pos + c.len_utf8());
+        } else if !is_whitespace(c) {
+            end = pos + c.len_utf8();
+        }
+    }
+    &source[start..end]
+}
+
 fn fill_other<'a>(
     source: &'a str,
     v: &mut Vec<Token<'a>>,
@@ -490,6 +511,17 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                         return Err("Unclosed comment");
                     }
                 }
+                ReservedChar::OpenParenthese
+                    if source[start..pos].eq_ignore_ascii_case("url")
+                        && !source[pos + 1..].trim_start().starts_with(['"', '\'']) =>
+                {
+                    v.push(Token::Char(c));
+                    let url = get_url(source, &mut iterator);
+                    if !url.is_empty() {
+                        v.push(Token::Other(url));
+                    }
+                    pos = iterator.peek().map_or(source.len(), |(pos, _)| *pos) - 1;
+                }
                 ReservedChar::OpenBracket => {
                     if is_in_attribute_selector {
                         return Err("Already in attribute selector");
-- 
2.43.0


From c2627e0660df17126b56af8c7fadc37e2269fa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 34/63] fix: whitespace which ends a CSS escape is taken for a
 separator

---
 src/css/token.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 3e87a13..0db7650 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -390,11 +390,13 @@ fn get_string<'a>(
     None
 }
 
+fn is_whitespace(c: char) -> bool {
+    matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c')
+}
+
 /// Returns the content of an unquoted url, without the whitespace around it. The iterator is left
 /// right before the closing parenthese.
 fn get_url<'a>(source: &'a str, iterator: &mut Peekable<CharIndices<'_>>) -> &'a str {
-    let is_whitespace = |c: char| matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c');
-
     while iterator.next_if(|(_, c)| is_whitespace(*c)).is_some() {}
     let start = iterator.peek().map_or(source.len(), |(pos, _)| *pos);
     let mut end = start;
@@ -491,7 +493,25 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
 
                     if let Some((idx, c)) = iterator.next() {
                         pos += c.len_utf8();
-                        v.push(Token::Other(&source[idx..idx + c.len_utf8()]));
+                        if c.is_ascii_hexdigit() {
+                            // at most six digits
+                            while pos - idx < 5
+                                && iterator.next_if(|(_, c)| c.is_ascii_hexdigit()).is_some()
+                            {
+                                pos += 1;
+                            }
+                        }
+                        v.push(Token::Other(&source[idx..pos + 1]));
+                        // whitespace ends an escape, so it's a part of it
+                        if c.is_ascii_hexdigit() {
+                            if let Some((_, c)) = iterator.next_if(|(_, c)| is_whitespace(*c)) {
+                                pos += 1;
+                                if c == '\r' && iterator.next_if(|(_, c)| *c == '\n').is_some() {
+                                    pos += 1;
+                                }
+                                v.push(Token::Other(" "));
+                            }
+                        }
                     }
                 }
                 ReservedChar::Quote | ReservedChar::DoubleQuote => {
@@ -513,7 +533,11 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                 }
                 ReservedChar::OpenParenthese
                     if source[start..pos].eq_ignore_ascii_case("url")
-                        && !source[pos + 1..].trim_start().starts_with(['"', '\'']) =>
+                        // `\61 url(` isn't an url
+                        && !matches!(v.iter().rev().nth(1), Some(Token::Other(_)))
+                        && !source[pos + 1..]
+                            .trim_start_matches(is_whitespace)
+                            .starts_with(['"', '\'']) =>
                 {
                     v.push(Token::Char(c));
                     let url = get_url(source, &mut iterator);
-- 
2.43.0


From ea1f4ab0adcc57b83553ad273f3190dad084a449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 35/63] fix: space before a declaration's colon, or unquoted
 url after it, is misread in CSS at-rules

---
 src/css/token.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 0db7650..bd60f8c 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -534,7 +534,10 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                 ReservedChar::OpenParenthese
                     if source[start..pos].eq_ignore_ascii_case("url")
                         // `\61 url(` isn't an url
-                        && !matches!(v.iter().rev().nth(1), Some(Token::Other(_)))
+                        && (matches!(
+                            v.last(),
+                            Some(Token::SelectorElement(SelectorElement::PseudoClass(_)))
+                        ) || !matches!(v.iter().rev().nth(1), Some(Token::Other(_))))
                         && !source[pos + 1..]
                             .trim_start_matches(is_whitespace)
                             .starts_with(['"', '\'']) =>
@@ -739,6 +742,13 @@ fn need_space(
         (Some(ReservedChar::Slash), _) | (_, Some(ReservedChar::Slash)) => false,
         // `.a :hover`
         (_, Some(ReservedChar::Colon)) => is_in_selector && !is_comment,
+        _ if matches!(
+            next,
+            Token::SelectorElement(SelectorElement::PseudoClass(_))
+        ) =>
+        {
+            is_in_selector && !is_comment
+        }
         // `.a + .b` but not `calc(1px + 2px)`
         (Some(ReservedChar::Plus), _) | (_, Some(ReservedChar::Plus)) => !is_in_selector,
         (Some(ReservedChar::Star), _) | (_, Some(ReservedChar::Star))
-- 
2.43.0


From 3fcebcdcc8ebfd37717cd972e32ff01cc7f37aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:39 +0000
Subject: [PATCH 36/63] fix: selectors in the supports condition of a CSS
 import lose their whitespace

---
 src/css/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index bd60f8c..531bc1f 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -656,7 +656,7 @@ fn get_selectors(v: &[Token<'_>]) -> Vec<bool> {
         };
         if is_block && !is_at_rule {
             selectors[start..i].fill(true);
-        } else if is_block {
+        } else if is_at_rule {
             // `@supports selector(.a :hover)`
             let mut paren = 0;
             for pos in start..i {
-- 
2.43.0


From f138b8ca77a64c2d8997b9ce1db368f6bf803862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 37/63] fix: HTML minification removes the type of modules and
 data blocks

---
 src/html.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index b6fa993..fed1934 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -16,10 +16,17 @@ fn condense_whitespace(source: &str) -> String {
 }
 
 fn condense(source: &str) -> String {
-    let re = Regex::new(r"<(style|script)[\w|\s].*?>").unwrap();
-    let type_reg = Regex::new(r#"\s*?type="[\w|\s].*?""#).unwrap();
+    let re = Regex::new(r"<(style|script)\s.*?>").unwrap();
+    // Only the default types can be removed.
+    let css_type = Regex::new(r#"\stype="text/css"(\s|>)"#).unwrap();
+    let js_type = Regex::new(r#"\stype="text/javascript"(\s|>)"#).unwrap();
     re.replace_all(source, |caps: &Captures| {
-        type_reg.replace_all(&caps[0], "").into_owned()
+        let type_reg = if &caps[1] == "style" {
+            &css_type
+        } else {
+            &js_type
+        };
+        type_reg.replace_all(&caps[0], "$1").into_owned()
     })
     .into_owned()
 }
-- 
2.43.0


From b60b1e6d45a43d23094262d292768200615a19df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 38/63] fix: HTML comment removal splits words and cuts
 scripts, styles, textareas and attributes

---
 src/html.rs | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index fed1934..56b0ab3 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -2,6 +2,21 @@
 
 use regex::{Captures, Regex};
 
+const ATTRIBUTES: &str = r#"(?:[^>"']|"[^"]*"|'[^']*')*"#;
+
+/// Regex matching the parts of a document which aren't text. The groups are: a script, style or
+/// textarea element, a comment and a tag.
+fn get_markup_regex() -> Regex {
+    let element = |name| format!(r"<{name}(?:[\s/]{ATTRIBUTES})?>.*?</{name}\s*>");
+    Regex::new(&format!(
+        r"(?is)({}|{}|{})|(<!--.*?-->)|(</?[a-z]{ATTRIBUTES}>)",
+        element("script"),
+        element("style"),
+        element("textarea"),
+    ))
+    .unwrap()
+}
+
 fn condense_whitespace(source: &str) -> String {
     let lower_source = source.to_lowercase();
     if lower_source.find("<textarea").is_none() && lower_source.find("<pre").is_none() {
@@ -74,15 +89,19 @@ fn clean_unneeded_tags(source: &str) -> String {
 
 fn remove_comments(source: &str) -> String {
     // "build" and "endbuild" should be matched case insensitively.
-    let re = Regex::new("<!--(.|\n)*?-->").unwrap();
-    re.replace_all(source, |caps: &Captures| {
-        if caps[0].replace("<!--", " ").trim().starts_with("[") {
-            caps[0].to_owned()
-        } else {
-            " ".to_owned()
-        }
-    })
-    .into_owned()
+    get_markup_regex()
+        .replace_all(source, |caps: &Captures| {
+            let is_conditional = |comment: &str| {
+                let comment = comment["<!--".len()..].trim_start();
+                // `<!--<![endif]-->` ends a conditional comment.
+                comment.starts_with('[') || comment.starts_with("<![endif]")
+            };
+            match caps.get(2) {
+                Some(comment) if !is_conditional(comment.as_str()) => String::new(),
+                _ => caps[0].to_owned(),
+            }
+        })
+        .into_owned()
 }
 
 fn unquote_attributes(source: &str) -> String {
-- 
2.43.0


From a12c1a94ac7cfbe77f040bdbb139ad75423cc408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 39/63] fix: HTML minification removes text which looks like a
 needless tag from scripts and attributes

---
 src/html.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 56b0ab3..2b7ed7f 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -17,6 +17,24 @@ fn get_markup_regex() -> Regex {
     .unwrap()
 }
 
+/// Replaces each tag of the document with what `func` returns for it.
+fn replace_tags<F: Fn(&str) -> String>(source: &str, func: F) -> String {
+    let first_tag = Regex::new(&format!("^<{ATTRIBUTES}>")).unwrap();
+    get_markup_regex()
+        .replace_all(source, |caps: &Captures| {
+            if let Some(element) = caps.get(1) {
+                first_tag
+                    .replace(element.as_str(), |caps: &Captures| func(&caps[0]))
+                    .into_owned()
+            } else if let Some(tag) = caps.get(3) {
+                func(tag.as_str())
+            } else {
+                caps[0].to_owned()
+            }
+        })
+        .into_owned()
+}
+
 fn condense_whitespace(source: &str) -> String {
     let lower_source = source.to_lowercase();
     if lower_source.find("<textarea").is_none() && lower_source.find("<pre").is_none() {
@@ -80,11 +98,13 @@ fn clean_unneeded_tags(source: &str) -> String {
         "</isindex>",
         "</param>",
     ];
-    let mut res = source.to_owned();
-    for useless_tag in &useless_tags {
-        res = res.replace(useless_tag, "");
-    }
-    res
+    replace_tags(source, |tag| {
+        if useless_tags.contains(&tag) {
+            String::new()
+        } else {
+            tag.to_owned()
+        }
+    })
 }
 
 fn remove_comments(source: &str) -> String {
-- 
2.43.0


From d4071c38dfc4de44f71a9fc23064ae8c27ab575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:51 +0000
Subject: [PATCH 40/63] fix: HTML minification removes types from the text of
 scripts and attributes

---
 src/html.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 2b7ed7f..2ddfb99 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -49,19 +49,15 @@ fn condense_whitespace(source: &str) -> String {
 }
 
 fn condense(source: &str) -> String {
-    let re = Regex::new(r"<(style|script)\s.*?>").unwrap();
+    let re = Regex::new(r"^<(style|script)\s").unwrap();
     // Only the default types can be removed.
     let css_type = Regex::new(r#"\stype="text/css"(\s|>)"#).unwrap();
     let js_type = Regex::new(r#"\stype="text/javascript"(\s|>)"#).unwrap();
-    re.replace_all(source, |caps: &Captures| {
-        let type_reg = if &caps[1] == "style" {
-            &css_type
-        } else {
-            &js_type
-        };
-        type_reg.replace_all(&caps[0], "$1").into_owned()
+    replace_tags(source, |tag| match re.captures(tag) {
+        Some(caps) if &caps[1] == "style" => css_type.replace_all(tag, "$1").into_owned(),
+        Some(_) => js_type.replace_all(tag, "$1").into_owned(),
+        None => tag.to_owned(),
     })
-    .into_owned()
 }
 
 fn clean_unneeded_tags(source: &str) -> String {
-- 
2.43.0


From a638476d234cf0959b9bb8c94d64eae61fcdc032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:44 +0000
Subject: [PATCH 41/63] fix: HTML attribute values lose whitespace, get cut or
 swallow the slash of their tag

---
 src/html.rs | 87 ++++++++++++++---------------------------------------
 1 file changed, 23 insertions(+), 64 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 2ddfb99..33a0a1b 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -122,72 +122,31 @@ fn remove_comments(source: &str) -> String {
 
 fn unquote_attributes(source: &str) -> String {
     // Some attributes like width, height, etc... don't need quotes.
-    let any_tag = Regex::new(r"<\w.*?>").unwrap();
-    let extra_spaces = Regex::new(r" \s+|\s +").unwrap();
-    let between_words = Regex::new(r"\w\s+\w").unwrap();
-    let spaces_before_close = Regex::new(r##""\s+>"##).unwrap();
-    let spaces_before_close2 = Regex::new(r"'\s+>").unwrap();
-    let extra_spaces2 = Regex::new(r##""\s\s+\w+="|'\s\s+\w+='|"\s\s+\w+=|'\s\s+\w+="##).unwrap();
-    let extra_spaces3 = Regex::new(r"\d\s+>").unwrap();
-    let quotes_in_tag = Regex::new(r##"([a-zA-Z]+)="([a-zA-Z0-9-_\.]+)""##).unwrap();
+    let extra_spaces = Regex::new(r#"("[^"]*"|'[^']*')|[ \t\n\x0C\r]+"#).unwrap();
+    let spaces_before_close = Regex::new(r#"(["']) >$"#).unwrap();
+    let quotes_in_tag =
+        Regex::new(r#" (width|height)="([a-zA-Z0-9-_\.]+)"|"[^"]*"|'[^']*'"#).unwrap();
 
-    any_tag
-        .replace_all(source, |caps: &Captures| {
-            let cap = format!("{}", &caps[0]);
-            if cap.starts_with("<!") || cap.find("</").is_some() {
-                cap
-            } else {
-                let tag = spaces_before_close.replace_all(&cap, "\">").into_owned();
-                let mut tag = spaces_before_close2.replace_all(&tag, "'>").into_owned();
-                let tag_c = tag.clone();
-
-                let space1_matches: Vec<_> = between_words.find_iter(&tag_c).collect();
-                let space6_matches: Vec<_> = extra_spaces3.find_iter(&tag_c).collect();
-                let mut pos = 0;
-                loop {
-                    let replacement = match (space1_matches.get(pos), space6_matches.get(pos)) {
-                        (Some(a), Some(b)) => format!("{}{}", a.as_str(), b.as_str()),
-                        (None, Some(b)) => format!("{}", b.as_str()),
-                        (Some(a), None) => format!("{}", a.as_str()),
-                        _ => break,
-                    };
-                    pos += 1;
-                    tag = tag.replace(
-                        &replacement,
-                        &extra_spaces.replace_all(&replacement, " ").into_owned(),
-                    );
-                }
-                let mut output = tag.clone();
-                for caps in extra_spaces2.find_iter(&tag) {
-                    let c = caps.as_str().chars().next().unwrap_or('\0');
-                    output = output.replace(
-                        caps.as_str(),
-                        &format!(
-                            "{} {}",
-                            if c == '\0' {
-                                String::new()
-                            } else {
-                                format!("{}", c)
-                            },
-                            caps.as_str()[1..].trim_start()
-                        ),
-                    );
-                }
-                tag = quotes_in_tag
-                    .replace_all(&output, |caps: &Captures| match &caps[1] {
-                        "width" | "height" => format!("{}={}", &caps[1], &caps[2]),
-                        x => format!("{}=\"{}\"", x, &caps[2]),
-                    })
-                    .into_owned();
-                if cap != tag {
-                    tag
-                } else {
-                    cap
+    replace_tags(source, |tag| {
+        if tag.starts_with("</") {
+            return tag.to_owned();
+        }
+        let tag = extra_spaces.replace_all(tag, |caps: &Captures| {
+            caps.get(1).map_or(" ", |value| value.as_str()).to_owned()
+        });
+        let tag = spaces_before_close.replace(&tag, "$1>");
+        quotes_in_tag
+            .replace_all(&tag, |caps: &Captures| match caps.get(1) {
+                // In `width="100"/>`, the slash would become a part of the value.
+                Some(name) if tag[caps.get(0).map_or(0, |m| m.end())..].starts_with([' ', '>']) => {
+                    format!(" {}={}", name.as_str(), &caps[2])
                 }
-            }
-        })
-        .trim()
-        .to_owned()
+                _ => caps[0].to_owned(),
+            })
+            .into_owned()
+    })
+    .trim()
+    .to_owned()
 }
 
 /// Returns a minified version of the provided HTML source.
-- 
2.43.0


From 8bf8e2357f75737f788dc0df5d10947e8823f7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:58 +0000
Subject: [PATCH 42/63] fix: HTML whitespace collapse changes scripts, strings
 of styles, attribute values and no-break spaces

---
 src/html.rs | 54 ++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 33a0a1b..6b57b8d 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -35,16 +35,54 @@ fn replace_tags<F: Fn(&str) -> String>(source: &str, func: F) -> String {
         .into_owned()
 }
 
+fn is_whitespace(c: char) -> bool {
+    matches!(c, ' ' | '\t' | '\n' | '\x0C' | '\r')
+}
+
+/// Condenses the whitespace of the code of a script or style element.
+fn condense_code(element: &str, first_tag: &Regex) -> String {
+    let start = first_tag.find(element).map_or(0, |tag| tag.end());
+    let end = element.rfind("</").unwrap_or(element.len());
+    let (tag, code, end_tag) = (&element[..start], &element[start..end], &element[end..]);
+    let code = if end_tag[2..].to_lowercase().starts_with("script") {
+        // Whitespace in the code can be anything: the end of a line comment, a part of a string...
+        let trimmed = code.trim_matches(is_whitespace);
+        let space = |has_space| if has_space { " " } else { "" };
+        format!(
+            "{}{trimmed}{}",
+            space(code.starts_with(is_whitespace)),
+            space(code.ends_with(is_whitespace) && !trimmed.is_empty()),
+        )
+    } else {
+        Regex::new(r#"(?s)("(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')|[ \t\n\x0C\r]+"#)
+            .unwrap()
+            .replace_all(code, |caps: &Captures| {
+                caps.get(1).map_or(" ", |string| string.as_str()).to_owned()
+            })
+            .into_owned()
+    };
+    format!("{tag}{code}{end_tag}")
+}
+
 fn condense_whitespace(source: &str) -> String {
     let lower_source = source.to_lowercase();
     if lower_source.find("<textarea").is_none() && lower_source.find("<pre").is_none() {
         // maybe should be better not to recreate Regex every time?
-        let re = Regex::new(r">\s+<").unwrap();
-        let source = re.replace_all(source, "> <").into_owned();
-        let re = Regex::new(r"\s{2,}|[\r\n]").unwrap();
-        re.replace_all(&source, " ").into_owned()
+        let re = Regex::new(&format!(r"{}|[ \t\n\x0C\r]+", get_markup_regex())).unwrap();
+        let first_tag = Regex::new(&format!("^<{ATTRIBUTES}>")).unwrap();
+        re.replace_all(source, |caps: &Captures| {
+            if let Some(element) = caps.get(1) {
+                condense_code(element.as_str(), &first_tag)
+            } else if let Some(comment) = caps.get(2) {
+                let content = &comment.as_str()["<!--".len()..comment.len() - "-->".len()];
+                format!("<!--{}-->", condense_whitespace(content))
+            } else {
+                caps.get(3).map_or(" ", |tag| tag.as_str()).to_owned()
+            }
+        })
+        .into_owned()
     } else {
-        source.trim().to_owned()
+        source.trim_matches(is_whitespace).to_owned()
     }
 }
 
@@ -145,7 +183,7 @@ fn unquote_attributes(source: &str) -> String {
             })
             .into_owned()
     })
-    .trim()
+    .trim_matches(is_whitespace)
     .to_owned()
 }
 
@@ -155,7 +193,9 @@ pub fn minify(source: &str) -> String {
     let source = condense(&source);
     let source = clean_unneeded_tags(&source);
     let source = condense_whitespace(&source);
-    unquote_attributes(&source).trim().to_owned()
+    unquote_attributes(&source)
+        .trim_matches(is_whitespace)
+        .to_owned()
 }
 
 #[test]
-- 
2.43.0


From 9c34fab8d59dde40f57b124e8fd229d3ba8d66ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 43/63] fix: HTML minification removes a type inside of another
 attribute

---
 src/html.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 6b57b8d..179f9a9 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -89,11 +89,11 @@ fn condense_whitespace(source: &str) -> String {
 fn condense(source: &str) -> String {
     let re = Regex::new(r"^<(style|script)\s").unwrap();
     // Only the default types can be removed.
-    let css_type = Regex::new(r#"\stype="text/css"(\s|>)"#).unwrap();
-    let js_type = Regex::new(r#"\stype="text/javascript"(\s|>)"#).unwrap();
+    let css_type = Regex::new(r#"\stype="text/css"(\s|>)|("[^"]*"|'[^']*')"#).unwrap();
+    let js_type = Regex::new(r#"\stype="text/javascript"(\s|>)|("[^"]*"|'[^']*')"#).unwrap();
     replace_tags(source, |tag| match re.captures(tag) {
-        Some(caps) if &caps[1] == "style" => css_type.replace_all(tag, "$1").into_owned(),
-        Some(_) => js_type.replace_all(tag, "$1").into_owned(),
+        Some(caps) if &caps[1] == "style" => css_type.replace_all(tag, "$1$2").into_owned(),
+        Some(_) => js_type.replace_all(tag, "$1$2").into_owned(),
         None => tag.to_owned(),
     })
 }
-- 
2.43.0


From e4bf55cb5191fc49bab0d7abbb76400c0daf8fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 44/63] fix: writing a regex goes on with its flags after an
 error

---
 src/js/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index acd9246..baa3cc0 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -418,14 +418,14 @@ impl fmt::Display for Token<'_> {
                 is_global,
                 is_interactive,
             } => {
-                let x = write!(f, "/{regex}/");
+                write!(f, "/{regex}/")?;
                 if is_global {
                     write!(f, "g")?;
                 }
                 if is_interactive {
                     write!(f, "i")?;
                 }
-                x
+                Ok(())
             }
             Token::Condition(x) => write!(f, "{x}"),
             Token::Operation(x) => write!(f, "{x}"),
-- 
2.43.0


From b2263fe606f07612034476ac7a4b5951d91d1c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 45/63] fix: the command line panics on a file which is a
 directory or not UTF-8

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 7625228..d981ea1 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -123,7 +123,7 @@ impl From<&PathBuf> for FileType {
 pub fn get_all_data<T: AsRef<Path>>(file_path: T) -> io::Result<String> {
     let mut file = File::open(file_path)?;
     let mut data = String::new();
-    file.read_to_string(&mut data).unwrap();
+    file.read_to_string(&mut data)?;
     Ok(data)
 }
 
-- 
2.43.0


From 3c0a7ef462c874d3eedd39ea28bdad06ad66ab40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 46/63] fix: the command line panics on a file extension which
 is not UTF-8

---
 src/cli.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index d981ea1..ca5c688 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -111,10 +111,10 @@ impl From<&PathBuf> for FileType {
         if ext.is_none() {
             return Self::Unknown;
         };
-        match ext.unwrap().to_ascii_lowercase().to_str().unwrap() {
-            "css" => Self::Css,
-            "js" => Self::Js,
-            "json" => Self::Json,
+        match ext.unwrap().to_ascii_lowercase().to_str() {
+            Some("css") => Self::Css,
+            Some("js") => Self::Js,
+            Some("json") => Self::Json,
             _ => Self::Unknown,
         }
     }
-- 
2.43.0


From f718b156414fbac756851aeb6c8f8ce28691affa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 47/63] fix: the command line destroys the output and stops
 when a file is rejected

---
 src/cli.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index ca5c688..1b57eed 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -139,6 +139,25 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
     };
     match get_all_data(file_path) {
         Ok(content) => {
+            let func = |s: &str| -> Result<String, &'static str> {
+                Ok(match file_ext {
+                    FileType::Css => css::minify(s)?.to_string(),
+                    FileType::Js => js::minify(s)?.to_string(),
+                    FileType::Json => json::minify(s).to_string(),
+                    FileType::Unknown => panic!("{file_path:?}: unknow file extension..."),
+                })
+            };
+            // The output must not be touched if there is nothing to be written into it.
+            let minified = match func(&content) {
+                Ok(minified) => minified,
+                Err(e) => {
+                    eprintln!(
+                        "{file_path:?}: {} minification failed: {e}",
+                        file_ext.as_str()
+                    );
+                    return;
+                }
+            };
             let out = match out_path {
                 Some(op) => {
                     let mut op = op.clone();
@@ -163,17 +182,7 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                 .create(true)
                 .open(&out)
             {
-                let func = |s: &str| -> String {
-                    match file_ext {
-                        FileType::Css => {
-                            css::minify(s).expect("css minification failed").to_string()
-                        }
-                        FileType::Js => js::minify(s).expect("js minification failed").to_string(),
-                        FileType::Json => json::minify(s).to_string(),
-                        FileType::Unknown => panic!("{file_path:?}: unknow file extension..."),
-                    }
-                };
-                if let Err(e) = write!(file, "{}", func(&content)) {
+                if let Err(e) = write!(file, "{}", minified) {
                     eprintln!("Impossible to write into {out:?}: {e}");
                 } else {
                     println!("{file_path:?}: done -> generated into {out:?}");
-- 
2.43.0


From f7f22e1e4355fe6f893d0892f3ff34303d5405f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 48/63] fix: the command line panics when the directory of an
 output cannot be created

---
 src/cli.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 1b57eed..17560c3 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -166,7 +166,12 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                         op.set_extension(format!("min.{}", file_ext.as_str()));
                     };
                     if op.parent().is_some() && !op.parent().unwrap().is_dir() {
-                        std::fs::create_dir_all(op.parent().unwrap()).unwrap();
+                        if let Err(e) = std::fs::create_dir_all(op.parent().unwrap()) {
+                            eprintln!(
+                                "{file_path:?}: impossible to create the directory of {op:?}: {e}"
+                            );
+                            return;
+                        }
                     };
                     op
                 }
-- 
2.43.0


From 4c3c63190eefa89c496c09ebcdbadfbc62a54b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 49/63] fix: the command line writes outside of the output
 directory for absolute and parent paths

---
 src/cli.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 17560c3..aadd058 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -2,7 +2,7 @@ use std::convert::From;
 use std::env;
 use std::fs::{File, OpenOptions};
 use std::io::{self, Read, Write};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 use clap::builder::PossibleValue;
 use clap::{command, value_parser, Arg, ArgAction, ValueEnum};
@@ -162,7 +162,12 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                 Some(op) => {
                     let mut op = op.clone();
                     if op.is_dir() {
-                        op.push(file_path);
+                        // Stay inside of the directory, whatever the path of the file is.
+                        op.extend(
+                            file_path
+                                .components()
+                                .filter(|c| matches!(c, Component::Normal(_))),
+                        );
                         op.set_extension(format!("min.{}", file_ext.as_str()));
                     };
                     if op.parent().is_some() && !op.parent().unwrap().is_dir() {
-- 
2.43.0


From 0dda815ab7a05c24c4ae9c52412dd46b22a0838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:15 +0000
Subject: [PATCH 50/63] fix: string to array aggregation takes quadratic time

---
 src/js/tools.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index bef13f5..6fb3db8 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -439,14 +439,16 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
     separation_token: Option<Token<'b>>,
     filter: T,
 ) -> Tokens<'a> {
+    // The new tokens, the last one first.
     let mut to_insert = Vec::with_capacity(100);
     let mut to_replace = Vec::with_capacity(100);
+    let insert_pos;
 
     {
         // key: the token string
         // value: (position in the array, positions in the tokens list, need creation)
         let mut strs: HashMap<&str, (usize, Vec<usize>, bool)> = HashMap::with_capacity(1000);
-        let (current_array_values, need_recreate, mut end_bracket) =
+        let (current_array_values, need_recreate, end_bracket) =
             match get_array(&tokens, array_name) {
                 Some((s, p)) => (s, false, p),
                 None => (Vec::new(), true, 0),
@@ -510,16 +512,13 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
         let mut validated = validated.iter().map(|v| (strs[v].0, v)).collect::<Vec<_>>();
         validated.sort_unstable_by(|(p1, _), (p2, _)| p2.cmp(p1));
 
-        if need_recreate && !validated.is_empty() {
+        let create_array = need_recreate && !validated.is_empty();
+        if create_array {
             if let Some(token) = separation_token {
-                to_insert.push((0, token));
+                to_insert.push(token);
             }
-            to_insert.push((0, Token::Char(ReservedChar::SemiColon)));
-            to_insert.push((0, Token::Char(ReservedChar::CloseBracket)));
-            to_insert.push((0, Token::Char(ReservedChar::OpenBracket)));
-            to_insert.push((0, Token::CreatedVarDecl(format!("var {array_name}="))));
-
-            end_bracket = 2;
+            to_insert.push(Token::Char(ReservedChar::SemiColon));
+            to_insert.push(Token::Char(ReservedChar::CloseBracket));
         }
 
         // A trailing comma isn't an element.
@@ -545,19 +544,25 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
                 Some(entry) if entry.starts_with('\'') && entry.contains('"') => entry.to_owned(),
                 _ => format!("\"{}\"", *s),
             };
-            to_insert.push((end_bracket, Token::CreatedVar(entry)));
+            to_insert.push(Token::CreatedVar(entry));
             if no_comma_before && *array_pos == current_array_values.len() {
                 continue;
             }
-            to_insert.push((end_bracket, Token::Char(ReservedChar::Comma)));
+            to_insert.push(Token::Char(ReservedChar::Comma));
+        }
+        if create_array {
+            to_insert.push(Token::Char(ReservedChar::OpenBracket));
+            to_insert.push(Token::CreatedVarDecl(format!("var {array_name}=")));
         }
+        insert_pos = end_bracket;
     }
     for (pos, rep) in to_replace.into_iter() {
         tokens.0[pos] = rep;
     }
-    for (pos, rep) in to_insert.into_iter() {
-        tokens.0.insert(pos, rep);
-    }
+    // All at once: each insertion moves the rest of the tokens.
+    tokens
+        .0
+        .splice(insert_pos..insert_pos, to_insert.into_iter().rev());
     tokens
 }
 
-- 
2.43.0


From ea8405720a21f9ecf1b7464f90aab2e56c6308da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 51/63] fix: string aggregation replaces names of properties,
 methods and modules

---
 src/js/tools.rs | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 6fb3db8..e467a28 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -2,7 +2,7 @@
 
 use std::{fmt, io};
 
-use crate::js::token::{self, Keyword, ReservedChar, Token, Tokens};
+use crate::js::token::{self, Keyword, Operation, ReservedChar, Token, Tokens};
 use crate::js::utils::{get_array, get_variable_name_and_value_positions, VariableNameGenerator};
 
 use std::collections::{HashMap, HashSet};
@@ -211,6 +211,42 @@ fn get_string_literal<'a>(token: &'a Token<'_>) -> Option<&'a str> {
     token.get_string().filter(|s| !s.starts_with('`'))
 }
 
+/// Returns `true` if the string literal at the given position is an expression, so if a variable can
+/// take its place. It is not if it's the name of a property, a method or a module, nor if it's a
+/// statement of its own (such as `"use strict";`).
+fn is_expression(tokens: &Tokens<'_>, pos: usize) -> bool {
+    let is_useful = |t: &&Token<'_>| !t.is_comment() && !t.is_license() && !t.is_white_character();
+    let prev = tokens[..pos].iter().rev().find(is_useful);
+    let next = tokens[pos + 1..].iter().find(is_useful);
+    !matches!(
+        (prev, next),
+        // `{"a": b, "c": d}`
+        (
+            Some(Token::Char(ReservedChar::OpenCurlyBrace | ReservedChar::Comma)),
+            Some(Token::Char(ReservedChar::Colon)),
+        )
+        // `{"a"() {}}` or `class A {"a" = b;}`
+        | (
+            _,
+            Some(Token::Char(ReservedChar::OpenParenthese) | Token::Operation(Operation::Equal)),
+        )
+        // `import a from "b"` or `class A {static "a";}`
+        | (
+            Some(Token::Other("from" | "import") | Token::Keyword(Keyword::Static)),
+            _,
+        )
+        | (
+            None
+            | Some(Token::Char(
+                ReservedChar::OpenCurlyBrace
+                | ReservedChar::CloseCurlyBrace
+                | ReservedChar::SemiColon
+            )),
+            None | Some(Token::Char(ReservedChar::CloseCurlyBrace | ReservedChar::SemiColon)),
+        )
+    )
+}
+
 /// Returns all the names starting with `prefix` which are used, whatever for.
 fn get_used_names<'a>(tokens: &'a Tokens<'a>, prefix: &str) -> HashSet<&'a str> {
     tokens
@@ -302,6 +338,9 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
         for pos in 0..tokens.len() {
             let token = &tokens[pos];
             if let Some(str_token) = get_string_literal(token) {
+                if !is_expression(&tokens, pos) {
+                    continue;
+                }
                 if let Some((var_pos, string_pos)) = values.get(&str_token) {
                     // The variable doesn't have its value before that.
                     if pos > *string_pos {
-- 
2.43.0


From 1d1ec53c15a200e052977ba6a1a8f0ecbe30d527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:56 +0000
Subject: [PATCH 52/63] fix: string aggregation declares its variables before
 the directives

---
 src/js/tools.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index e467a28..29a4238 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -247,6 +247,25 @@ fn is_expression(tokens: &Tokens<'_>, pos: usize) -> bool {
     )
 }
 
+/// Returns the number of tokens of the directives (such as `"use strict";`) the code starts with.
+/// They have to stay first.
+fn get_directives_len(tokens: &Tokens<'_>) -> usize {
+    let mut len = 0;
+    let mut is_directive = false;
+
+    for (pos, token) in tokens.iter().enumerate() {
+        if get_string_literal(token).is_some() && !is_directive {
+            is_directive = true;
+        } else if token.eq_char(ReservedChar::SemiColon) && is_directive {
+            is_directive = false;
+            len = pos + 1;
+        } else if !token.is_comment() && !token.is_license() && !token.is_white_character() {
+            break;
+        }
+    }
+    len
+}
+
 /// Returns all the names starting with `prefix` which are used, whatever for.
 fn get_used_names<'a>(tokens: &'a Tokens<'a>, prefix: &str) -> HashSet<&'a str> {
     tokens
@@ -408,8 +427,10 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
     if let Some(token) = separation_token {
         new_vars.push(token);
     }
-    new_vars.append(&mut tokens.0);
-    Tokens(new_vars)
+    let mut code = tokens.0.split_off(get_directives_len(&tokens));
+    tokens.0.append(&mut new_vars);
+    tokens.0.append(&mut code);
+    tokens
 }
 
 /// Aggregate litteral strings. For instance, if the string litteral "Oh look over there!"
@@ -490,7 +511,7 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
         let (current_array_values, need_recreate, end_bracket) =
             match get_array(&tokens, array_name) {
                 Some((s, p)) => (s, false, p),
-                None => (Vec::new(), true, 0),
+                None => (Vec::new(), true, get_directives_len(&tokens)),
             };
         let mut validated: HashSet<&str> = HashSet::new();
 
-- 
2.43.0


From 7d8ed56aec71455f95f02407059530dd385c6816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 53/63] fix: string becomes a directive as the semicolon before
 it is removed

---
 src/js/utils.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index 0a0a6c5..7b9f944 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -294,7 +294,15 @@ pub fn clean_tokens(tokens: Tokens<'_>) -> Tokens<'_> {
         };
         if token.get_char() == Some(ReservedChar::SemiColon) {
             if v.is_empty() {
-                continue;
+                // Without it, a string would become a directive: `;"use strict";`
+                let is_before_string = it
+                    .as_slice()
+                    .iter()
+                    .find(|t| !t.is_comment() && !t.is_license() && !t.is_white_character())
+                    .is_some_and(|t| t.is_string());
+                if !is_before_string {
+                    continue;
+                }
             }
             // FIXME: `for` and `while` loops can have their block replaced by a `;`. So as long
             // as we don't have an AST, we cannot keep this optimization.
-- 
2.43.0


From 4c4f1429595ef01b4ad7b38ff5e39d44c6a3eb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 54/63] fix: string aggregation uses existing variables in
 functions called before their declaration

A function called ahead of the declaration of such a variable doesn't see its
value: f();var r_aa="...";function f(){g("...");} so only variables declared
ahead of the code can be used.
---
 src/js/tools.rs | 54 ++++++++++++++++++++++---------------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 29a4238..3b8ed2b 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -285,28 +285,23 @@ fn get_used_names<'a>(tokens: &'a Tokens<'a>, prefix: &str) -> HashSet<&'a str>
 // TODO: No scope handling or anything. Might be nice as a second step to add it...
 fn get_variables_name<'a>(tokens: &'a Tokens<'a>) -> HashMap<&'a str, (usize, usize)> {
     let mut variables = HashMap::new();
-    let mut pos = 0;
-    // Only variables declared at the top-level can be used everywhere after their declaration.
-    let mut depth = 0i32;
+    let mut pos = get_directives_len(tokens);
 
+    // Only variables declared ahead of the code can be used everywhere after their declaration: a
+    // function called before it doesn't see their value.
     while pos < tokens.len() {
-        match tokens[pos].get_char() {
-            Some(
-                ReservedChar::OpenCurlyBrace
-                | ReservedChar::OpenParenthese
-                | ReservedChar::OpenBracket,
-            ) => depth += 1,
-            Some(
-                ReservedChar::CloseCurlyBrace
-                | ReservedChar::CloseParenthese
-                | ReservedChar::CloseBracket,
-            ) => depth -= 1,
-            _ => {}
-        }
-        if depth == 0 && (tokens[pos].is_keyword() || tokens[pos].is_other()) {
-            if let Some((var_pos, Some(value_pos))) =
-                get_variable_name_and_value_positions(tokens, pos)
-            {
+        if let Some((var_pos, value_pos)) = get_variable_name_and_value_positions(tokens, pos) {
+            if let Some(value_pos) = value_pos {
+                // The value needs to be a single token: not `var r_a = "a" + b;`.
+                let next = tokens[value_pos + 1..]
+                    .iter()
+                    .find(|t| !t.is_comment() && !t.is_license() && !t.is_white_character());
+                if !matches!(
+                    next,
+                    None | Some(Token::Char(ReservedChar::Comma | ReservedChar::SemiColon))
+                ) {
+                    break;
+                }
                 pos = value_pos;
                 if let Some(var_name) = tokens[var_pos].get_other() {
                     if !var_name.starts_with("r_") {
@@ -315,18 +310,17 @@ fn get_variables_name<'a>(tokens: &'a Tokens<'a>) -> HashMap<&'a str, (usize, us
                     }
                 }
                 if let Some(s) = get_string_literal(&tokens[value_pos]) {
-                    // The string needs to be the whole value: not `var r_a = "a" + b;`.
-                    let next = tokens[value_pos + 1..]
-                        .iter()
-                        .find(|t| !t.is_comment() && !t.is_license() && !t.is_white_character());
-                    if matches!(
-                        next,
-                        None | Some(Token::Char(ReservedChar::Comma | ReservedChar::SemiColon))
-                    ) {
-                        variables.entry(s).or_insert((var_pos, value_pos));
-                    }
+                    variables.entry(s).or_insert((var_pos, value_pos));
                 }
             }
+        } else if !matches!(
+            tokens[pos].get_char(),
+            Some(ReservedChar::Comma | ReservedChar::SemiColon)
+        ) && !tokens[pos].is_comment()
+            && !tokens[pos].is_license()
+            && !tokens[pos].is_white_character()
+        {
+            break;
         }
         pos += 1;
     }
-- 
2.43.0


From bd7ffcb138b776369c092afc4afcb9459b4a0afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 55/63] fix: integers which don't fit into 64 bits and those
 with separators lose a final dot

---
 src/js/token.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index baa3cc0..a00c941 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -908,9 +908,13 @@ fn is_start_of_exponent(s: &str) -> bool {
 }
 
 fn check_if_number(iterator: &mut MyPeekable<'_>, start: usize, pos: usize, source: &str) -> bool {
-    if source[start..pos].find('.').is_some() {
+    let s = &source[start..pos];
+    if s.find('.').is_some() {
         return false;
-    } else if u64::from_str(&source[start..pos]).is_ok() {
+    } else if s.starts_with(|c: char| c.is_ascii_digit())
+        && s.bytes().all(|c| c.is_ascii_digit() || c == b'_')
+    {
+        // Whatever its value: it might not fit into an integer.
         return true;
     } else if let Some((_, x)) = iterator.peek() {
         return x as u8 >= b'0' && x as u8 <= b'9';
-- 
2.43.0


From 8baae7dae5389f922ae03e471d61f084a8983df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:05 +0000
Subject: [PATCH 56/63] fix: HTML minification changes what looks like markup
 in titles

---
 src/html.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 179f9a9..eae9b04 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -4,14 +4,15 @@ use regex::{Captures, Regex};
 
 const ATTRIBUTES: &str = r#"(?:[^>"']|"[^"]*"|'[^']*')*"#;
 
-/// Regex matching the parts of a document which aren't text. The groups are: a script, style or
-/// textarea element, a comment and a tag.
+/// Regex matching the parts of a document which aren't text. The groups are: a script, style, title
+/// or textarea element (which have no tags inside), a comment and a tag.
 fn get_markup_regex() -> Regex {
     let element = |name| format!(r"<{name}(?:[\s/]{ATTRIBUTES})?>.*?</{name}\s*>");
     Regex::new(&format!(
-        r"(?is)({}|{}|{})|(<!--.*?-->)|(</?[a-z]{ATTRIBUTES}>)",
+        r"(?is)({}|{}|{}|{})|(<!--.*?-->)|(</?[a-z]{ATTRIBUTES}>)",
         element("script"),
         element("style"),
+        element("title"),
         element("textarea"),
     ))
     .unwrap()
@@ -39,12 +40,16 @@ fn is_whitespace(c: char) -> bool {
     matches!(c, ' ' | '\t' | '\n' | '\x0C' | '\r')
 }
 
-/// Condenses the whitespace of the code of a script or style element.
+/// Condenses the whitespace of the code of a script or style element or the text of a title.
 fn condense_code(element: &str, first_tag: &Regex) -> String {
     let start = first_tag.find(element).map_or(0, |tag| tag.end());
     let end = element.rfind("</").unwrap_or(element.len());
     let (tag, code, end_tag) = (&element[..start], &element[start..end], &element[end..]);
-    let code = if end_tag[2..].to_lowercase().starts_with("script") {
+    let name = end_tag[2..].to_lowercase();
+    let code = if name.starts_with("title") {
+        let spaces = Regex::new(r"[ \t\n\x0C\r]+").unwrap();
+        spaces.replace_all(code, " ").into_owned()
+    } else if name.starts_with("script") {
         // Whitespace in the code can be anything: the end of a line comment, a part of a string...
         let trimmed = code.trim_matches(is_whitespace);
         let space = |has_space| if has_space { " " } else { "" };
-- 
2.43.0


From 1c2e5df078853ad5aa817fc8513c67e26ecd9ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:26 +0000
Subject: [PATCH 57/63] fix: string aggregation replaces the names and
 attributes of imports and exports

---
 src/js/tools.rs | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 3b8ed2b..4a59d39 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -230,11 +230,8 @@ fn is_expression(tokens: &Tokens<'_>, pos: usize) -> bool {
             _,
             Some(Token::Char(ReservedChar::OpenParenthese) | Token::Operation(Operation::Equal)),
         )
-        // `import a from "b"` or `class A {static "a";}`
-        | (
-            Some(Token::Other("from" | "import") | Token::Keyword(Keyword::Static)),
-            _,
-        )
+        // `class A {static "a";}`
+        | (Some(Token::Keyword(Keyword::Static)), _)
         | (
             None
             | Some(Token::Char(
@@ -247,6 +244,25 @@ fn is_expression(tokens: &Tokens<'_>, pos: usize) -> bool {
     )
 }
 
+/// Returns `true` if the declaration of an import or an export starts at the given position. The
+/// strings up to its end are names and modules.
+fn is_module_declaration(tokens: &Tokens<'_>, pos: usize) -> bool {
+    let is_import = match tokens[pos].get_other() {
+        Some("import") => true,
+        Some("export") => false,
+        _ => return false,
+    };
+    let next = tokens[pos + 1..]
+        .iter()
+        .find(|t| !t.is_comment() && !t.is_license() && !t.is_white_character());
+    // Neither `import("a")`, `import.meta`, `export default "a"` nor `export var a = "b"`.
+    next.is_some_and(|t| {
+        t.eq_char(ReservedChar::OpenCurlyBrace)
+            || t.eq_operation(Operation::Multiply)
+            || (is_import && (t.is_string() || t.is_other()))
+    })
+}
+
 /// Returns the number of tokens of the directives (such as `"use strict";`) the code starts with.
 /// They have to stay first.
 fn get_directives_len(tokens: &Tokens<'_>) -> usize {
@@ -348,10 +364,16 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
             next_name = var_gen.to_string();
         }
 
+        let mut is_in_declaration = false;
         for pos in 0..tokens.len() {
             let token = &tokens[pos];
+            if is_module_declaration(&tokens, pos) {
+                is_in_declaration = true;
+            } else if token.eq_char(ReservedChar::SemiColon) {
+                is_in_declaration = false;
+            }
             if let Some(str_token) = get_string_literal(token) {
-                if !is_expression(&tokens, pos) {
+                if is_in_declaration || !is_expression(&tokens, pos) {
                     continue;
                 }
                 if let Some((var_pos, string_pos)) = values.get(&str_token) {
@@ -519,10 +541,16 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
         let mut array_pos = current_array_values.len();
         let mut array_pos_str = array_pos.to_string();
         // The elements of an existing array are not available before its end.
+        let mut is_in_declaration = false;
         for pos in end_bracket..tokens.len() {
             let token = &tokens[pos];
+            if is_module_declaration(&tokens, pos) {
+                is_in_declaration = true;
+            } else if token.eq_char(ReservedChar::SemiColon) {
+                is_in_declaration = false;
+            }
             if let Some(str_token) = get_string_literal(token) {
-                if !filter(&tokens, pos) {
+                if is_in_declaration || !filter(&tokens, pos) {
                     continue;
                 }
                 let s = &str_token[1..str_token.len() - 1];
-- 
2.43.0


From 8e959d0d47813c12e6d5c18c6b6727e9ea233ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 58/63] fix: string aggregation takes a spread in an existing
 array for one element

---
 src/js/tools.rs |  4 +++-
 src/js/utils.rs | 10 +++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 4a59d39..94f3af0 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -526,7 +526,9 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
         let mut strs: HashMap<&str, (usize, Vec<usize>, bool)> = HashMap::with_capacity(1000);
         let (current_array_values, need_recreate, end_bracket) =
             match get_array(&tokens, array_name) {
-                Some((s, p)) => (s, false, p),
+                // The positions of the elements aren't known: `var R = [...a, "b"];`
+                Some((_, _, true)) => return tokens,
+                Some((s, p, false)) => (s, false, p),
                 None => (Vec::new(), true, get_directives_len(&tokens)),
             };
         let mut validated: HashSet<&str> = HashSet::new();
diff --git a/src/js/utils.rs b/src/js/utils.rs
index 7b9f944..f856714 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -422,12 +422,14 @@ pub fn clean_token_except<'a, F: Fn(&Token<'a>) -> bool>(
 }
 
 /// Returns the elements of the array (for each of them, the position of its token if it has only
-/// one) and the position of its closing bracket.
+/// one), the position of its closing bracket and whether some of its elements come from another one
+/// (`...a`).
 pub(crate) fn get_array<'a>(
     tokens: &'a Tokens<'a>,
     array_name: &str,
-) -> Option<(Vec<Option<usize>>, usize)> {
+) -> Option<(Vec<Option<usize>>, usize, bool)> {
     let mut ret = Vec::new();
+    let mut has_spread = false;
     // The tokens of the current element.
     let mut element: Vec<usize> = Vec::new();
     let mut depth = 0;
@@ -481,7 +483,7 @@ pub(crate) fn get_array<'a>(
                             None
                         });
                     }
-                    return Some((ret, pos));
+                    return Some((ret, pos, has_spread));
                 }
                 Token::Char(ReservedChar::Comma) if depth == 0 => {
                     ret.push(if element.len() == 1 {
@@ -504,6 +506,8 @@ pub(crate) fn get_array<'a>(
                             | ReservedChar::CloseParenthese
                             | ReservedChar::CloseCurlyBrace,
                         ) => depth -= 1,
+                        // `...a`
+                        Some(ReservedChar::Dot) if element.is_empty() => has_spread = true,
                         _ => {}
                     }
                     element.push(pos);
-- 
2.43.0


From e493f99e462233fa5ae4c73259a911916ec31117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:05 +0000
Subject: [PATCH 59/63] fix: JS regex after await, yield, of or extends is
 taken for a division

---
 src/js/token.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index a00c941..323d4fd 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -590,12 +590,27 @@ fn get_line_comment<'a>(
 
 /// Returns true if the token at `pos` comes right after a dot.
 fn is_property_name(v: &[Token<'_>], pos: usize) -> bool {
+    get_previous_token(v, pos)
+        .map(|t| t.eq_char(ReservedChar::Dot))
+        .unwrap_or(false)
+}
+
+/// Returns true if the token at `pos` comes right after a name or an element, so that the word
+/// `of` cannot be a name.
+fn is_after_operand(v: &[Token<'_>], pos: usize) -> bool {
+    match get_previous_token(v, pos) {
+        Some(Token::Other(s)) => !matches!(*s, "delete" | "void" | "await" | "yield" | "extends"),
+        Some(t) => t.eq_char(ReservedChar::CloseBracket),
+        None => false,
+    }
+}
+
+/// Returns the last token before `pos` which is neither a whitespace nor a comment.
+fn get_previous_token<'a, 'b>(v: &'b [Token<'a>], pos: usize) -> Option<&'b Token<'a>> {
     v[..pos]
         .iter()
         .rev()
         .find(|t| !t.is_white_character() && !t.is_comment() && !t.is_license())
-        .map(|t| t.eq_char(ReservedChar::Dot))
-        .unwrap_or(false)
 }
 
 /// Returns true if the tokens end with an even number of `+` (or of `-`), so with `++` (or `--`).
@@ -636,7 +651,13 @@ fn get_regex<'a>(
             // Not `a.in / 2`
             Token::Keyword(k) if k.can_precede_regex() && !is_property_name(v, back) => break,
             // They're followed by an expression too.
-            Token::Other("delete" | "void") if !is_property_name(v, back) => break,
+            Token::Other("delete" | "void" | "await" | "yield" | "extends")
+                if !is_property_name(v, back) =>
+            {
+                break
+            }
+            // `for (const a of /b/.exec(c))`
+            Token::Other("of") if is_after_operand(v, back) => break,
             // `i++ / 2` or `i-- / 2`
             Token::Operation(op) if ends_with_postfix_operator(&v[..=back], *op) => return None,
             t if t.is_operation() || t.is_condition() => break,
-- 
2.43.0


From a30a2274fadd1128fb87af8465ac50ba00aef49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:05 +0000
Subject: [PATCH 60/63] fix: string aggregation replaces the module of an
 import whose name starts with an escape

---
 src/js/tools.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 94f3af0..130166c 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -259,7 +259,9 @@ fn is_module_declaration(tokens: &Tokens<'_>, pos: usize) -> bool {
     next.is_some_and(|t| {
         t.eq_char(ReservedChar::OpenCurlyBrace)
             || t.eq_operation(Operation::Multiply)
-            || (is_import && (t.is_string() || t.is_other()))
+            // A name can start with an escape: `import \u0061 from "b"`.
+            || (is_import
+                && (t.is_string() || t.is_other() || t.eq_char(ReservedChar::Backslash)))
     })
 }
 
-- 
2.43.0


From 7d343c620f654775879953c6607ffff9731349bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:54 +0000
Subject: [PATCH 61/63] fix: CSS semicolon inside of parentheses ends the
 prelude of an at-rule

---
 src/css/token.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 531bc1f..46c7f81 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -639,13 +639,25 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
 fn get_selectors(v: &[Token<'_>]) -> Vec<bool> {
     let mut selectors = vec![false; v.len()];
     let mut start = 0;
+    let mut parens = 0u32;
 
     for i in 0..=v.len() {
-        let is_block = match v.get(i) {
-            None | Some(Token::Char(ReservedChar::OpenCurlyBrace)) => true,
-            Some(Token::Char(ReservedChar::CloseCurlyBrace | ReservedChar::SemiColon)) => false,
+        let is_block = match v.get(i).map(|t| t.get_char()) {
+            None | Some(Some(ReservedChar::OpenCurlyBrace)) => true,
+            Some(Some(ReservedChar::CloseCurlyBrace)) => false,
+            // `@supports (a: if(b: c; else: d))`
+            Some(Some(ReservedChar::SemiColon)) if parens == 0 => false,
+            Some(Some(ReservedChar::OpenParenthese)) => {
+                parens += 1;
+                continue;
+            }
+            Some(Some(ReservedChar::CloseParenthese)) => {
+                parens = parens.saturating_sub(1);
+                continue;
+            }
             Some(_) => continue,
         };
+        parens = 0;
         let first = v[start..i]
             .iter()
             .find(|t| !t.is_useless() && !t.is_comment() && !t.is_a_license());
-- 
2.43.0


From 5670ec5f8fa49f295c59fdcd053ca42fb7287d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 62/63] fix: a quote, a backtick or a brace in a regex or a
 comment inside of ${} of a template literal

---
 src/js/token.rs | 64 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 8 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 323d4fd..535f039 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -624,7 +624,6 @@ fn get_regex<'a>(
     iterator: &mut MyPeekable<'_>,
     start_pos: &mut usize,
     v: &[Token<'_>],
-    no_regex_before: &mut usize,
 ) -> Option<Token<'a>> {
     let mut back = v.len();
     while back > 0 {
@@ -676,7 +675,7 @@ fn get_regex<'a>(
         }
         if let Ok(c) = ReservedChar::try_from(c) {
             if matches!(c, ReservedChar::OpenBracket | ReservedChar::CloseBracket)
-                && pos < *no_regex_before
+                && pos < iterator.no_regex_before
             {
                 // From here on, it would end like the previous attempt.
                 *iterator = saved;
@@ -711,9 +710,9 @@ fn get_regex<'a>(
             }
         }
     }
-    *no_regex_before = end;
     // Not a regex: what was read needs to be read again.
     *iterator = saved;
+    iterator.no_regex_before = end;
     None
 }
 
@@ -785,6 +784,32 @@ fn get_string<'a>(
 // Legitimate code never nests anywhere near this deep.
 const MAX_BACKTICK_NESTING: usize = 1000;
 
+/// Returns true if a slash which follows the given code starts a regex.
+fn can_precede_regex(code: &str) -> bool {
+    let word = code
+        .rsplit(|c: char| {
+            c.is_whitespace()
+                || (c.is_ascii() && !c.is_ascii_alphanumeric() && c != '_' && c != '$')
+        })
+        .next()
+        .unwrap_or("");
+    if !word.is_empty() {
+        return !code[..code.len() - word.len()]
+            .trim_end_matches([' ', '\t'])
+            .ends_with(['.', '#'])
+            && (matches!(word, "delete" | "void" | "await" | "yield")
+                || Keyword::try_from(word)
+                    .map(|k| k.can_precede_regex())
+                    .unwrap_or(false));
+    }
+    // `i++ / 2` and `1. / 2`, but `.../a/`
+    let is_operand = code.ends_with([')', ']', '}', '"', '\'', '`', '/'])
+        || code.ends_with("++")
+        || code.ends_with("--")
+        || (code.ends_with('.') && !code.ends_with("..."));
+    !is_operand
+}
+
 fn get_backtick_string<'a>(
     source: &'a str,
     iterator: &mut MyPeekable<'_>,
@@ -799,6 +824,9 @@ fn get_backtick_string<'a>(
         }
         if c == '$' && iterator.peek().map(|(_, c)| c == '{').unwrap_or(false) {
             let mut count = 0;
+            // Where the last thing which is neither a whitespace nor a comment ends.
+            let start = pos + 2;
+            let mut last = start;
 
             loop {
                 if let Some((mut pos, c)) = iterator.next() {
@@ -806,6 +834,24 @@ fn get_backtick_string<'a>(
                         // we skip next character
                         iterator.next();
                         continue;
+                    } else if c == '/' {
+                        match iterator.peek() {
+                            Some((_, c @ ('/' | '*'))) => {
+                                // Quotes and braces are nothing but text in there.
+                                iterator.next();
+                                pos += 1;
+                                if c == '/' {
+                                    get_line_comment(source, iterator, &mut pos);
+                                } else {
+                                    get_comment(source, iterator, &mut pos);
+                                }
+                                continue;
+                            }
+                            Some(_) if can_precede_regex(&source[start..last]) => {
+                                get_regex(source, iterator, &mut pos, &[]);
+                            }
+                            _ => {}
+                        }
                     } else if c == '"' || c == '\'' {
                         // We don't care about the result
                         get_string(
@@ -827,7 +873,10 @@ fn get_backtick_string<'a>(
                         if count == 0 {
                             break;
                         }
+                    } else if c.is_whitespace() {
+                        continue;
                     }
+                    last = pos + c.len_utf8();
                 } else {
                     return Ok(None);
                 }
@@ -947,6 +996,8 @@ fn check_if_number(iterator: &mut MyPeekable<'_>, start: usize, pos: usize, sour
 struct MyPeekable<'a> {
     inner: CharIndices<'a>,
     peeked: Option<(usize, char)>,
+    // Up to there, the last attempt to read a regex didn't find its end.
+    no_regex_before: usize,
 }
 
 impl<'a> MyPeekable<'a> {
@@ -954,6 +1005,7 @@ impl<'a> MyPeekable<'a> {
         MyPeekable {
             inner: indices,
             peeked: None,
+            no_regex_before: 0,
         }
     }
 
@@ -977,8 +1029,6 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
     let mut v = Vec::with_capacity(1000);
     let mut start = 0;
     let mut iterator = MyPeekable::new(source.char_indices());
-    // Up to there, the last attempt to read a regex didn't find its end.
-    let mut no_regex_before = 0;
 
     loop {
         let (mut pos, c) = match iterator.next() {
@@ -1042,9 +1092,7 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                         && iterator.peek().unwrap().1 != '/'
                         && iterator.peek().unwrap().1 != '*' =>
                 {
-                    if let Some(r) =
-                        get_regex(source, &mut iterator, &mut pos, &v, &mut no_regex_before)
-                    {
+                    if let Some(r) = get_regex(source, &mut iterator, &mut pos, &v) {
                         v.push(r);
                     } else {
                         v.push(Token::Operation(Operation::Divide));
-- 
2.43.0


From 2dfdc62805d3782ca9b88d0edb7b24439b9443eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:58 +0000
Subject: [PATCH 63/63] fix: streaming JSON minification loses the start of a
 character if the source fails inside of it and goes on later

---
 src/json/read/byte_to_char.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/json/read/byte_to_char.rs b/src/json/read/byte_to_char.rs
index c3df98a..439225a 100644
--- a/src/json/read/byte_to_char.rs
+++ b/src/json/read/byte_to_char.rs
@@ -9,6 +9,8 @@ use std::{
 
 pub struct ByteToChar<R> {
     iter: InternalReader<R>,
+    /// The first bytes of a character inside of which the source failed, and their number.
+    partial: Option<([u8; 4], usize)>,
 }
 
 impl<R: Read> ByteToChar<R> {
@@ -16,6 +18,7 @@ impl<R: Read> ByteToChar<R> {
     pub fn new(read: R, buffer_size: usize) -> Self {
         ByteToChar {
             iter: InternalReader::new(read, buffer_size),
+            partial: None,
         }
     }
 
@@ -40,24 +43,28 @@ impl<R: Read> Iterator for ByteToChar<R> {
     type Item = Result<char, CharsError>;
 
     fn next(&mut self) -> Option<Result<char, CharsError>> {
-        let first_byte = match self.get_next() {
-            Err(err) => return Some(Err(err)),
-            Ok(item) => item?,
+        let (mut buf, mut start) = match self.partial.take() {
+            Some(partial) => partial,
+            None => match self.get_next() {
+                Err(err) => return Some(Err(err)),
+                Ok(item) => ([item?, 0, 0, 0], 1),
+            },
         };
 
-        let width = utf8_char_width(first_byte);
+        let width = utf8_char_width(buf[0]);
         if width == 1 {
-            return Some(Ok(first_byte as char));
+            return Some(Ok(buf[0] as char));
         }
         if width == 0 {
             return Some(Err(CharsError::NotUtf8));
         }
-        let mut buf = [first_byte, 0, 0, 0];
         {
-            let mut start = 1;
             while start < width {
                 let byte = match self.get_next() {
-                    Err(err) => return Some(Err(err)),
+                    Err(err) => {
+                        self.partial = Some((buf, start));
+                        return Some(Err(err));
+                    }
                     Ok(item) => match item {
                         Some(item) => item,
                         None => return Some(Err(CharsError::NotUtf8)),
-- 
2.43.0

