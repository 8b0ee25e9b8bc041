From acf99df8579d7b4520b453d3880b4c71ee399d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 01/17] fix: keep the token after an empty explicit key in a
 flow sequence

An explicit '?' with an empty key inside a flow sequence consumed the
following ':', ',' or ']' token, so '[ ? : x ]' and '[ ? ]' were rejected.
---
 yam-core/src/parsing/parser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 6efa55c..2bc8255 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -1538,7 +1538,6 @@ impl<'input, T: Source> Parser<'input, T> {
             token_type: TokenType::Value | TokenType::FlowEntry | TokenType::FlowSequenceEnd,
         } = *self.peek_token()?
         {
-            self.skip();
             self.state = State::FlowSequenceEntryMappingValue;
             Ok((Event::empty_scalar(), span))
         } else {
-- 
2.43.0


From 9fca20262edb7d876a62d851143f7009ca2185d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 02/17] fix: report the end of a flow mapping with a trailing
 comma at its '}'

The MappingEnd event of '{a: b,}' carried the span of the comma.
---
 yam-core/src/parsing/parser.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 2bc8255..228b913 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -1284,7 +1284,7 @@ impl<'input, T: Source> Parser<'input, T> {
                     span,
                     token_type: TokenType::FlowMappingEnd,
                 } => span,
-                Token { span, .. } => {
+                _ => {
                     if key_flow.is_non_first() {
                         match *self.peek_token()? {
                             Token {
@@ -1335,16 +1335,15 @@ impl<'input, T: Source> Parser<'input, T> {
                         self.state = State::FlowMappingValue;
                         return Ok((Event::empty_scalar(), span));
                     } else if let Token {
+                        span,
                         token_type: TokenType::FlowMappingEnd,
-                        ..
                     } = *self.peek_token()?
                     {
+                        span
                     } else {
                         self.push_state(State::FlowMappingEmptyValue);
                         return self.parse_node(false, false);
                     }
-
-                    span
                 }
             }
         };
-- 
2.43.0


From f1244503d1712b5807d3b54cc66c1824142ac86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 03/17] fix: let load() deliver a stream start that was only
 peeked at

load() decided from the scanner's progress, not from what was delivered,
whether the stream start was still to come, so peek() followed by load()
failed; it also invented a stream end of its own once the scanner was done.
---
 yam-core/src/parsing/parser.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 228b913..833020d 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -626,7 +626,10 @@ impl<'input, T: Source> Parser<'input, T> {
     where
         R: SpannedEventReceiver<'input>,
     {
-        if !self.scanner.stream_start_produced {
+        // The stream start may have been peeked at, but not consumed, before.
+        if self.state == State::StreamStart
+            || matches!(self.current, Some((Event::StreamStart, _)))
+        {
             let (ev, span) = self.next_event_impl()?;
             if ev != Event::StreamStart {
                 return Err(YamlError::new_str(
@@ -637,11 +640,6 @@ impl<'input, T: Source> Parser<'input, T> {
             recv.on_event(ev, span);
         }
 
-        if self.scanner.stream_end_produced {
-            // XXX has parsed?
-            recv.on_event(Event::StreamEnd, Span::empty(self.scanner.mark));
-            return Ok(());
-        }
         loop {
             let (ev, span) = self.next_event_impl()?;
             if ev == Event::StreamEnd {
-- 
2.43.0


From 3413ea4faecf95c11fa45c0ab8b2f04eb5e227b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 04/17] fix: forward alias events from ParserIter

An alias node was dropped silently, so that deserialising '{a: *x, b: 1}'
paired key 'a' with 'b' and shifted everything after it.  The description
of the stream end event named another event.
---
 yam-core/src/parsing/parser_iter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/parser_iter.rs b/yam-core/src/parsing/parser_iter.rs
index bb248be..a81fa46 100644
--- a/yam-core/src/parsing/parser_iter.rs
+++ b/yam-core/src/parsing/parser_iter.rs
@@ -38,7 +38,7 @@ impl YamEvent<'_> {
         match self {
             YamEvent::DocStart => "DocStart",
             YamEvent::DocEnd => "DocEnd",
-            YamEvent::StreamEnd => "StreamStart",
+            YamEvent::StreamEnd => "StreamEnd",
             YamEvent::Alias(_) => "Alias",
             YamEvent::Scalar(_) => "Scalar",
             YamEvent::SeqStart(_, _) => "SeqStart",
@@ -130,7 +130,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
         };
         match ev {
             // Ignored events
-            Event::Nothing | Event::Alias(_) | Event::Comment(_) => ControlFlow::Continue(()),
+            Event::Nothing | Event::Comment(_) => ControlFlow::Continue(()),
             // Unexpected events
             Event::StreamStart => ControlFlow::Break(Err(YamlError::UnExpectedEvent {
                 expected: "StreamStart",
@@ -150,6 +150,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
                 ControlFlow::Break(Ok(YamEvent::DocEnd))
             }
 
+            Event::Alias(id) => ControlFlow::Break(Ok(YamEvent::Alias(id))),
             Event::Scalar(a) => ControlFlow::Break(Ok(YamEvent::Scalar(a))),
             Event::SequenceStart(alias, tag) => {
                 ControlFlow::Break(Ok(YamEvent::SeqStart(alias, tag)))
-- 
2.43.0


From 589e60fd801a91fd642e7d84dcb61957ff05cf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 05/17] fix: forget anchors at the end of their document when
 pulling events

Only load() cleared them, so with the pull interface an alias could refer
to an anchor of an earlier document.
---
 yam-core/src/parsing/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 833020d..12ca6fb 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -974,6 +974,8 @@ impl<'input, T: Source> Parser<'input, T> {
             Token { span, .. } => span,
         };
 
+        // Anchors are only visible in the document that defines them.
+        self.anchors.clear();
         if !self.keep_tags {
             self.tags.clear();
         }
-- 
2.43.0


From ebc8bc049860d651da6b86fcf95f852842f2be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 06/17] fix: keep every %TAG directive of a document

The map of tag handles was recreated for every directive, so only the last
%TAG was effective, duplicate handles were not rejected, and any directive
dropped the handles kept by keep_tags.
---
 yam-core/src/parsing/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 12ca6fb..16036dd 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -873,8 +873,8 @@ impl<'input, T: Source> Parser<'input, T> {
 
     fn parser_process_directives(&mut self) -> Result<(), YamlError> {
         let mut version_directive_received = false;
+        let mut tags = BTreeMap::new();
         loop {
-            let mut tags = BTreeMap::new();
             match self.peek_token()? {
                 Token {
                     span,
@@ -907,9 +907,9 @@ impl<'input, T: Source> Parser<'input, T> {
                 }
                 _ => break,
             }
-            self.tags = tags;
             self.skip();
         }
+        self.tags.extend(tags);
         Ok(())
     }
 
-- 
2.43.0


From 99d90b6b907ed4e26936c1a5850a704fca5a4662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:10 +0000
Subject: [PATCH 07/17] fix: treat a lone carriage return as a line break in
 skip_linebreak

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 5c9bacd..8bc87c7 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -827,7 +827,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 self.leading_whitespace = true;
                 self.src.skip(2);
             }
-            [b'\n', _] => {
+            [b'\r' | b'\n', _] => {
                 self.mark.pos += 1;
                 self.mark.col = 1;
                 self.mark.line += 1;
-- 
2.43.0


From 54acb7ffe0c85152011d2d1b5fc99c786329d05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:14 +0000
Subject: [PATCH 08/17] fix: reject a NUL byte inside a quoted scalar instead
 of looping forever

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 8bc87c7..50c1ae2 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1121,7 +1121,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ));
             }
 
-            if self.src.peek_checked(0).is_none() {
+            if self.src.peekz(0) == b'\0' {
                 return Err(YamlError::new_str(
                     start_mark,
                     "while scanning a quoted scalar, found unexpected end of stream",
-- 
2.43.0


From ef640bc13acdef639a6a725c6804c0d6b51d7d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:16 +0000
Subject: [PATCH 09/17] fix: stop skipping block scalar indentation at the end
 of the input

---
 yam-core/src/parsing/scanner.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 50c1ae2..5aefdc2 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1702,21 +1702,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                     self.skip_blank();
                 }
             } else {
-                loop {
-                    while !self.src.buf_is_empty()
-                        && self.mark.col < indent
-                        && self.src.peekz(0) == b' '
-                    {
-                        self.skip_blank();
-                    }
-                    // If we reached our indent, we can break. We must also break if we have
-                    // reached content or EOF; that is, the buffer is not empty and the next
-                    // character is not a space.
-                    if self.mark.col == indent
-                        || (!self.src.buf_is_empty() && self.src.peekz(0) != b' ')
-                    {
-                        break;
-                    }
+                while !self.src.buf_is_empty()
+                    && self.mark.col < indent
+                    && self.src.peekz(0) == b' '
+                {
+                    self.skip_blank();
                 }
             }
 
-- 
2.43.0


From 7ff5673074930e000bcccce96623d57287698b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 10/17] fix: do not count a line twice at the end of a
 terminated input

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 5aefdc2..5625d67 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -278,7 +278,7 @@ impl<'input, S: Source> Scanner<'input, S> {
 
     fn fetch_stream_end(&mut self) -> ScanResult {
         // force new line
-        if self.mark.col != 0 {
+        if self.mark.col != 1 {
             self.mark.col = 1;
             self.mark.line += 1;
         }
-- 
2.43.0


From 66e714a29a9be470d5198246630b26c6a9f607a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 11/17] fix: end the event iteration after an error

Iterating over a parser past an error returned errors forever.
---
 yam-core/src/parsing/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 16036dd..39b270e 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -484,7 +484,8 @@ impl<'input, T: Source> Parser<'input, T> {
         }
 
         let tok = self.next_event_impl();
-        if matches!(tok, Ok((Event::StreamEnd, _))) {
+        // Nothing follows the end of the stream, nor an error.
+        if matches!(tok, Ok((Event::StreamEnd, _)) | Err(_)) {
             self.stream_end_emitted = true;
         }
         Some(tok)
-- 
2.43.0


From 2f712fd51a4438462b44079a3598b7542423e97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:49 +0000
Subject: [PATCH 12/17] fix: report an out-of-range %YAML version number
 instead of overflowing

---
 yam-core/src/parsing/scanner.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 5625d67..f4d9bdd 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -2124,7 +2124,7 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn scan_version_directive_number(&mut self, mark: &Marker) -> Result<u8, YamlError> {
-        let mut val = 0;
+        let mut val = 0u8;
         let mut length = 0usize;
         while self.src.peekz(0).is_ascii_digit() {
             let digit = self.src.peekz(0) - b'0';
@@ -2135,7 +2135,15 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ));
             }
             length += 1;
-            val = val * 10 + digit;
+            val = match val.checked_mul(10).and_then(|x| x.checked_add(digit)) {
+                Some(x) => x,
+                None => {
+                    return Err(YamlError::new_str(
+                        *mark,
+                        "while scanning a YAML directive, found a version number out of range",
+                    ));
+                }
+            };
             self.skip_non_blank();
         }
 
-- 
2.43.0


From 161bc8e61cfe1938ed8d3d36cec904847bc3657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:53 +0000
Subject: [PATCH 13/17] fix: decode multi-byte percent escapes of tags as UTF-8

---
 yam-core/src/parsing/scanner.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index f4d9bdd..97cd36f 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1982,7 +1982,7 @@ impl<'input, S: Source> Scanner<'input, S> {
 
     fn scan_uri_escapes(&mut self, mark: &Marker) -> Result<Vec<u8>, YamlError> {
         let mut width = 0usize;
-        let mut code = 0u32;
+        let mut bytes = Vec::new();
         loop {
             // self.src.lookahead(3);
 
@@ -2010,16 +2010,13 @@ impl<'input, S: Source> Scanner<'input, S> {
                         ));
                     }
                 };
-                code = byte;
-            } else {
-                if byte & 0xc0 != 0x80 {
-                    return Err(YamlError::new_str(
-                        *mark,
-                        "while parsing a tag, found an incorrect trailing UTF-8 byte",
-                    ));
-                }
-                code = (code << 8) + byte;
+            } else if byte & 0xc0 != 0x80 {
+                return Err(YamlError::new_str(
+                    *mark,
+                    "while parsing a tag, found an incorrect trailing UTF-8 byte",
+                ));
             }
+            bytes.push(byte as u8);
 
             self.skip_n_non_blank(3);
 
@@ -2029,9 +2026,9 @@ impl<'input, S: Source> Scanner<'input, S> {
             }
         }
 
-        match char::from_u32(code) {
-            Some(ch) => Ok(ch.to_string().as_bytes().to_vec()),
-            None => Err(YamlError::new_str(
+        match str::from_utf8(&bytes) {
+            Ok(_) => Ok(bytes),
+            Err(_) => Err(YamlError::new_str(
                 *mark,
                 "while parsing a tag, found an invalid UTF-8 codepoint",
             )),
-- 
2.43.0


From 3c3ef3120d6791073b4bf4c799f98f354678a92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 14/17] fix: do not read past the end of the input in
 StrSource::peek_char

---
 yam-core/src/parsing/source.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/yam-core/src/parsing/source.rs b/yam-core/src/parsing/source.rs
index cd7ce6a..f86fff1 100644
--- a/yam-core/src/parsing/source.rs
+++ b/yam-core/src/parsing/source.rs
@@ -272,11 +272,13 @@ unsafe impl Source for StrSource<'_> {
     }
 
     fn peek_char(&self) -> char {
-        // TODO make it ACTUALLY safe
-        let mut bytes = unsafe {
-            str::from_utf8_unchecked(self.input.get_unchecked(self.pos..self.pos + 4)).chars()
-        };
-        bytes.next().unwrap_or('\u{FFFD}')
+        let start = self.pos.min(self.input.len());
+        let end = (start + 4).min(self.input.len());
+        self.input[start..end]
+            .utf8_chunks()
+            .next()
+            .and_then(|chunk| chunk.valid().chars().next())
+            .unwrap_or('\u{FFFD}')
     }
 
     fn buf_is_empty(&self) -> bool {
-- 
2.43.0


From 1efb413ad6e1b3a3a82ed4333046889eef412872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:27 +0000
Subject: [PATCH 15/17] fix: a comment indented with tabs ends a multi-line
 plain scalar

---
 yam-core/src/parsing/scanner.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 97cd36f..4cdc7cf 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1042,9 +1042,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                         self.skip_blank();
                     } else if self.mark.col < indent && self.src.peekz(0) == b'\t' {
                         // Tabs in an indentation columns are allowed if and only if the line is
-                        // empty. Skip to the end of the line.
-                        self.skip_ws_to_eol(SkipTabs::Yes, false)?;
-                        if !is_breakz(self.src.peekz(0)) {
+                        // empty, or ends the scalar with a comment. Skip to its first character.
+                        while is_blank(self.src.peekz(0)) {
+                            self.skip_blank();
+                        }
+                        if !is_breakz(self.src.peekz(0)) && self.src.peekz(0) != b'#' {
                             return Err(YamlError::new_str(
                                 start_mark,
                                 "while scanning a plain scalar, found a tab",
-- 
2.43.0


From 8741ce3631ae6f9257f0d986b967fd9275634c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:49 +0000
Subject: [PATCH 16/17] fix: a tagged or invalid node as mapping key is no
 longer taken for a missing key

---
 yam-core/src/prelude/loader.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/yam-core/src/prelude/loader.rs b/yam-core/src/prelude/loader.rs
index 9ac7bbc..dfdc9d5 100644
--- a/yam-core/src/prelude/loader.rs
+++ b/yam-core/src/prelude/loader.rs
@@ -37,7 +37,7 @@ where
 {
     docs: Vec<Node>,
     doc_stack: Vec<(Node, usize, Option<Cow<'input, Tag>>)>,
-    key_stack: Vec<Node>,
+    key_stack: Vec<Option<Node>>,
     anchor_map: BTreeMap<usize, Node>,
 }
 
@@ -141,12 +141,9 @@ where
             } else if parent_node.is_mapping() {
                 let curr_key = self.key_stack.last_mut().unwrap();
 
-                if curr_key.is_bad_value() {
-                    *curr_key = node;
-                } else {
-                    parent_node
-                        .mapping_mut()
-                        .push_mapping(curr_key.take(), node);
+                match curr_key.take() {
+                    None => *curr_key = Some(node),
+                    Some(key) => parent_node.mapping_mut().push_mapping(key, node),
                 }
             }
         } else {
@@ -429,7 +426,7 @@ where
             Event::MappingStart(aid, tag) => {
                 let node: Node = YamlData::Mapping(Vec::new()).into();
                 self.doc_stack.push((node.with_start(mark), aid, tag));
-                self.key_stack.push(YamlData::BadValue.into());
+                self.key_stack.push(None);
             }
             Event::MappingEnd | Event::SequenceEnd => {
                 if ev == Event::MappingEnd {
-- 
2.43.0


From a6ff99181843578769283d26237588f5da43a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:59 +0000
Subject: [PATCH 17/17] fix: indexing a mapping mutably by number yields the
 value, not the key

---
 yam-core/src/node/yaml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/node/yaml.rs b/yam-core/src/node/yaml.rs
index 1f1f64e..89e95ea 100644
--- a/yam-core/src/node/yaml.rs
+++ b/yam-core/src/node/yaml.rs
@@ -383,7 +383,7 @@ where
                     .iter_mut()
                     .find(|x| x.key == ind)
                     .unwrap()
-                    .key
+                    .value
             }
             NodeType::Sequence => self.sequence_mut().index_mut(index),
             _ => panic!("Expected Mapping and Sequence got {0:?} instead", typ),
-- 
2.43.0

