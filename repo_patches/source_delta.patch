From 98683601432ec89a6523893545ac4b11c4794c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 01/35] fix: attributes consumed by a heading, link definition
 or container no longer leak to later ones

---
 src/lib.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f54dd63..e7d82b7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2193,10 +2193,8 @@ impl<'s> PrePass<'s> {
                     // All link definition tags have to be obtained initially, as references can
                     // appear before the definition.
                     let attrs = attr_prev
-                        .iter()
-                        .flat_map(|sp| {
-                            Attributes::try_from(&src[sp.clone()]).expect("should be valid")
-                        })
+                        .drain(..)
+                        .flat_map(|sp| Attributes::try_from(&src[sp]).expect("should be valid"))
                         .collect::<Attributes>();
                     let url = if let Some(block::Event {
                         kind: block::EventKind::Inline,
@@ -2240,10 +2238,8 @@ impl<'s> PrePass<'s> {
                     //
                     // We choose to parse all headers twice instead of caching them.
                     let attrs = attr_prev
-                        .iter()
-                        .flat_map(|sp| {
-                            Attributes::try_from(&src[sp.clone()]).expect("should be valid")
-                        })
+                        .drain(..)
+                        .flat_map(|sp| Attributes::try_from(&src[sp]).expect("should be valid"))
                         .collect::<Attributes>();
                     let id_override = attrs.get_value("id").map(|s| s.to_string());
 
@@ -2323,7 +2319,9 @@ impl<'s> PrePass<'s> {
                 block::EventKind::Atom(block::Atom::Attributes) => {
                     attr_prev.push(e.span.clone());
                 }
-                block::EventKind::Enter(..)
+                block::EventKind::Enter(block::Node::Container(block::Container::Section {
+                    ..
+                }))
                 | block::EventKind::Exit(block::Node::Container(block::Container::Section {
                     ..
                 })) => {}
-- 
2.43.0


From d8453adfcb0eefcc3f87741f0a7f59f565f9df1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 02/35] fix: separate the task-list and math class from user
 classes

---
 src/html.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/html.rs b/src/html.rs
index 8c87508..6748126 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -753,6 +753,9 @@ where
         Container::Math { display: true } => Some("math display"),
         _ => None,
     } {
+        if first_written {
+            out.write_char(' ')?;
+        }
         first_written = true;
         out.write_str(cls)?;
     }
-- 
2.43.0


From 1ec347dc389039bcf4091ed163bf5215d3166b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 03/35] fix: write line breaks in image alt text without markup
 and indentation

---
 src/html.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/html.rs b/src/html.rs
index 6748126..a4772ab 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -658,6 +658,9 @@ impl<'s> Renderer<'s> {
             Event::EnDash => out.write_str("–")?,
             Event::EmDash => out.write_str("—")?,
             Event::NonBreakingSpace => out.write_str("&nbsp;")?,
+            Event::Hardbreak | Event::Softbreak if self.img_alt_text > 0 => {
+                out.write_char('\n')?;
+            }
             Event::Hardbreak => {
                 out.write_str("<br>")?;
                 self.block(out, 0)?;
-- 
2.43.0


From 0298d109c2bd840ec597812b3c48da3cb05b4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 04/35] fix: do not number footnote references in image alt
 text, which have no link

---
 src/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index a4772ab..ec04a2b 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -640,8 +640,8 @@ impl<'s> Renderer<'s> {
                 Raw::Other => {}
             },
             Event::FootnoteReference(label) => {
-                let number = self.footnotes.reference(label);
                 if self.img_alt_text == 0 {
+                    let number = self.footnotes.reference(label);
                     write!(
                         out,
                         r##"<a id="fnref{}" href="#fn{}" role="doc-noteref"><sup>{}</sup></a>"##,
-- 
2.43.0


From 9ebe67a7c39c3826b7e7adb5887fa0ee2c3ce040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 05/35] fix: use a single hyphen for a line break in a heading
 id

---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e7d82b7..f43d2a0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2280,9 +2280,14 @@ impl<'s> PrePass<'s> {
                                     }
                                 }
                             }
-                            inline::EventKind::Atom(inline::Atom::Softbreak) => {
+                            inline::EventKind::Atom(
+                                inline::Atom::Softbreak | inline::Atom::Hardbreak,
+                            ) => {
                                 text.push(' ');
-                                id_auto.push('-');
+                                if !last_whitespace {
+                                    last_whitespace = true;
+                                    id_auto.push('-');
+                                }
                             }
                             _ => {}
                         });
-- 
2.43.0


From c066cff31061b075b9f1efd53a262be002e7015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 06/35] fix: let references match headings with smart
 punctuation and symbols

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f43d2a0..c879be2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2289,6 +2289,8 @@ impl<'s> PrePass<'s> {
                                     id_auto.push('-');
                                 }
                             }
+                            inline::EventKind::Atom(inline::Atom::Escape) => {}
+                            inline::EventKind::Atom(_) => text.push_str(&src[ev.span]),
                             _ => {}
                         });
                         if span_inline.is_none() {
-- 
2.43.0


From d02fb37811b0a2e88573d76686674e5a2a82db87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 07/35] fix: keep escapes at and after line breaks in quoted
 attribute values

---
 src/attr.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/attr.rs b/src/attr.rs
index e56773e..d9f5617 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -746,8 +746,14 @@ impl<'s> Parser<'s> {
 
             let st = std::mem::replace(&mut self.state, state_next);
 
-            if st != self.state && !matches!((st, self.state), (ValueEscape, _) | (_, ValueEscape))
-            {
+            let escape = matches!(
+                (st, self.state),
+                (ValueQuoted, ValueEscape)
+                    | (ValueEscape, ValueQuoted)
+                    | (ValueContinued, ValueContinuedEscape)
+                    | (ValueContinuedEscape, ValueContinued)
+            );
+            if st != self.state && !escape {
                 let content = &input[pos_prev..pos];
                 pos_prev = pos;
                 match st {
@@ -759,11 +765,10 @@ impl<'s> Parser<'s> {
                         },
                         "".into(),
                     )),
-                    Value | ValueQuoted | ValueContinued => {
+                    Value | ValueQuoted | ValueEscape | ValueContinued | ValueContinuedEscape => {
                         let last = self.attrs.len() - 1;
-                        self.attrs.0[last]
-                            .1
-                            .extend(&content[usize::from(matches!(st, ValueQuoted))..]);
+                        let quote = matches!(st, ValueQuoted | ValueEscape);
+                        self.attrs.0[last].1.extend(&content[usize::from(quote)..]);
                     }
                     Comment | CommentNewline => {
                         let last = self.attrs.len() - 1;
@@ -815,6 +820,7 @@ enum State {
     ValueEscape,
     ValueNewline,
     ValueContinued,
+    ValueContinuedEscape,
     Done,
     Invalid,
 }
@@ -854,10 +860,15 @@ impl State {
             ValueFirst if c == b'"' => ValueQuoted,
             ValueFirst => Invalid,
             ValueQuoted | ValueNewline | ValueContinued if c == b'"' => Whitespace,
-            ValueQuoted | ValueNewline | ValueContinued | ValueEscape if c == b'\n' => ValueNewline,
+            ValueQuoted | ValueNewline | ValueContinued | ValueEscape | ValueContinuedEscape
+                if c == b'\n' =>
+            {
+                ValueNewline
+            }
             ValueQuoted if c == b'\\' => ValueEscape,
             ValueQuoted | ValueEscape => ValueQuoted,
-            ValueNewline | ValueContinued => ValueContinued,
+            ValueNewline | ValueContinued if c == b'\\' => ValueContinuedEscape,
+            ValueNewline | ValueContinued | ValueContinuedEscape => ValueContinued,
             Invalid | Done => panic!("{self:?}"),
         }
     }
-- 
2.43.0


From 2ba238a1362d609b69cf011c4aeec02f0aee9e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 08/35] fix: a lone pipe does not continue a table

---
 src/block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index cf43e85..560092f 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -1298,7 +1298,8 @@ impl<'s> Kind<'s> {
                     true
                 } else {
                     !*blankline
-                        && (line_t.starts_with('|')
+                        && (line_t.len() >= 2
+                            && line_t.starts_with('|')
                             && line_t.ends_with('|')
                             && !line_t.ends_with("\\|"))
                 }
-- 
2.43.0


From 6581485fd8b5ec62d26b86835b7d98dadd296b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 09/35] fix: an unmatched explicitly opening single quote is a
 left quote

---
 src/inline.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/inline.rs b/src/inline.rs
index c09f477..488fef9 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -888,7 +888,8 @@ impl<'s> Parser<'s> {
                 Some(self.push(match opener {
                     Opener::SingleQuoted => EventKind::Atom(Quote {
                         ty: QuoteType::Single,
-                        left: false,
+                        // apostrophe, unless explicitly opening
+                        left: matches!(first.kind, lex::Kind::Open(Delimiter::BraceQuote1)),
                     }),
                     Opener::DoubleQuoted => EventKind::Atom(Quote {
                         ty: QuoteType::Double,
-- 
2.43.0


From 7575434667756271fa31f0b41669cc79b13f98b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 10/35] fix: do not include indentation in the span of
 definition markers

---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 560092f..696289e 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -1026,7 +1026,7 @@ impl<'s> IdentifiedBlock<'s> {
                             label: &label[usize::from(footnote)..],
                             last_blankline: false,
                         },
-                        0..(indent + 3 + l),
+                        indent..(indent + 3 + l),
                     ))
                 } else {
                     None
-- 
2.43.0


From c0f96161ca73fc050a17eb7972f2d2abe24c6ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 11/35] fix: do not panic on a heading with more than 65535
 number signs

---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 696289e..691e6e6 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -425,7 +425,7 @@ impl<'s> TreeParser<'s> {
                 Kind::Atom(a) => Block::Atom(a),
                 Kind::Paragraph => Block::Leaf(Paragraph),
                 Kind::Heading { level } => Block::Leaf(Heading {
-                    level: level.try_into().unwrap(),
+                    level: level.try_into().unwrap_or(u16::MAX),
                     has_section: top_level,
                     pos: span_start.start as u32,
                 }),
-- 
2.43.0


From b1587fdb0bcf016913ee3151888d74cf89aefe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 12/35] fix: do not drop the caret of a bracketed text that is
 not a footnote reference

---
 src/inline.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index 488fef9..e7b0177 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -655,20 +655,13 @@ impl<'s> Parser<'s> {
                 })
             )
         {
-            let tok = self.input.eat();
-            debug_assert_eq!(
-                tok,
-                Some(lex::Token {
-                    kind: lex::Kind::Sym(Symbol::Caret),
-                    len: 1,
-                })
-            );
             let mut end = false;
             let len = self
                 .input
                 .lexer
                 .ahead()
                 .iter()
+                .skip(1) // ^
                 .take_while(|c| {
                     if **c == b'[' {
                         return false;
@@ -680,6 +673,14 @@ impl<'s> Parser<'s> {
                 })
                 .count();
             if end {
+                let tok = self.input.eat();
+                debug_assert_eq!(
+                    tok,
+                    Some(lex::Token {
+                        kind: lex::Kind::Sym(Symbol::Caret),
+                        len: 1,
+                    })
+                );
                 self.input.lexer.skip_ahead(len + 1);
                 let span_label = self.input.span.end..(self.input.span.end + len);
                 let label = &self.input.src[span_label.clone()];
-- 
2.43.0


From 1bebcfb594ff3989a640846f7e0d663362d2dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 13/35] fix: honor an escape directly after a verbatim

---
 src/inline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inline.rs b/src/inline.rs
index e7b0177..31f9372 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -308,6 +308,7 @@ impl<'s> Parser<'s> {
             if usize::from(len_opener) == first.len
                 && matches!(first.kind, lex::Kind::Seq(Sequence::Backtick))
             {
+                self.input.lexer.verbatim = false; // before peeking at what follows
                 let raw_format = self.input.ahead_raw_format();
                 if let Some(span_format) = raw_format.clone() {
                     self.events[event_opener].kind = EventKind::Enter(RawFormat {
@@ -327,7 +328,6 @@ impl<'s> Parser<'s> {
                     self.events.drain(*event_skip..);
                 }
                 self.push(EventKind::Exit(ty_opener));
-                self.input.lexer.verbatim = false;
                 self.verbatim = None;
                 if raw_format.is_none()
                     && self
-- 
2.43.0


From d3caf341fb39e7e0f8816fef168beab3941f5e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:41 +0000
Subject: [PATCH 14/35] fix: do not include container prefixes in text after
 attributes followed by an invalid group

---
 src/inline.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index 31f9372..1aaf0c8 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -521,12 +521,14 @@ impl<'s> Parser<'s> {
             parser.finish()
         };
 
-        for _ in 0..line_next {
+        for _ in 0..state.valid_lines {
             let l = self.input.ahead.pop_front().unwrap();
             self.input.set_current_line(l);
         }
         self.input.span = start_attr..state.end_attr;
-        self.input.lexer = lex::Lexer::new(&self.input.src.as_bytes()[state.end_attr..line_end]);
+        self.input.lexer = lex::Lexer::new(
+            &self.input.src.as_bytes()[state.end_attr..self.input.span_line.end],
+        );
 
         if attrs.is_empty() {
             if matches!(state.elem_ty, AttributesElementType::Container { .. }) {
-- 
2.43.0


From e2cc850fd85e849b73037782074e02ba65a034ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:50 +0000
Subject: [PATCH 15/35] fix: do not repeat attributes inside a link destination
 or label over several lines

---
 src/inline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/inline.rs b/src/inline.rs
index 1aaf0c8..92492d5 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -804,6 +804,9 @@ impl<'s> Parser<'s> {
                             };
 
                             for ev in self.events.iter().skip(e_opener + 1) {
+                                if matches!(ev.kind, EventKind::Attributes { .. }) {
+                                    continue; // included in span of element
+                                }
                                 if span.end == ev.span.start {
                                     span.end = ev.span.end;
                                 } else {
-- 
2.43.0


From 8f9be9e746c8c6b40ae36efb91cffccf89b3a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:59 +0000
Subject: [PATCH 16/35] fix: an escaped backslash before a dollar sign does not
 escape it

---
 src/inline.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index 92492d5..7ff2b8f 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -149,6 +149,16 @@ impl<'s> Input<'s> {
         self.span.start = self.span.end;
     }
 
+    /// Whether the character at the position is preceded by a backslash that is not itself escaped.
+    fn is_escaped(&self, pos: usize) -> bool {
+        let backslashes = self.src.as_bytes()[..pos]
+            .iter()
+            .rev()
+            .take_while(|c| **c == b'\\')
+            .count();
+        backslashes % 2 == 1
+    }
+
     fn ahead_raw_format(&mut self) -> Option<std::ops::Range<usize>> {
         if matches!(
             self.lexer.peek().map(|t| &t.kind),
@@ -376,17 +386,11 @@ impl<'s> Parser<'s> {
                 .filter(|sp| {
                     sp.end == self.input.span.start
                         && self.input.src.as_bytes()[sp.start + sp.len() - 1] == b'$'
-                        && sp
-                            .end
-                            .checked_sub(2)
-                            .is_none_or(|i| self.input.src.as_bytes()[i] != b'\\')
+                        && !self.input.is_escaped(sp.end - 1)
                 }) {
                 let (ty, num_dollar) = if sp.len() > 1
                     && self.input.src.as_bytes()[sp.start + sp.len() - 2] == b'$'
-                    && sp
-                        .end
-                        .checked_sub(3)
-                        .is_none_or(|i| self.input.src.as_bytes()[i] != b'\\')
+                    && !self.input.is_escaped(sp.end - 2)
                 {
                     (DisplayMath, 2)
                 } else {
-- 
2.43.0


From d7371b0f30fadf1adc153838398c4cdcc00cec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 17/35] fix: a line whose last pipe is within verbatim is not a
 table row

---
 src/block.rs | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 691e6e6..9baa8fd 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -1003,7 +1003,7 @@ impl<'s> IdentifiedBlock<'s> {
                 (attr::valid(line) == lt).then(|| (Kind::Atom(Attributes), indent..(indent + l)))
             }
             '|' => {
-                if lt >= 2 && line_t.ends_with('|') && !line_t.ends_with("\\|") {
+                if is_table_row(line_t) {
                     Some((
                         Kind::Table {
                             caption: false,
@@ -1297,17 +1297,42 @@ impl<'s> Kind<'s> {
                     *caption = true;
                     true
                 } else {
-                    !*blankline
-                        && (line_t.len() >= 2
-                            && line_t.starts_with('|')
-                            && line_t.ends_with('|')
-                            && !line_t.ends_with("\\|"))
+                    !*blankline && is_table_row(line_t)
                 }
             }
         }
     }
 }
 
+/// Whether a trimmed line starts and ends with pipes that are neither escaped nor within verbatim.
+fn is_table_row(line: &str) -> bool {
+    if line.len() < 2 || !line.starts_with('|') || !line.ends_with('|') {
+        return false;
+    }
+    let mut lex = lex::Lexer::new(line.as_bytes());
+    let mut verbatim = None;
+    let mut end = false;
+    while let Some(lex::Token { kind, len }) = lex.next() {
+        end = false;
+        match kind {
+            lex::Kind::Seq(lex::Sequence::Backtick) => match verbatim {
+                Some(l) if l == len => {
+                    verbatim = None;
+                    lex.verbatim = false;
+                }
+                Some(_) => {}
+                None => {
+                    verbatim = Some(len);
+                    lex.verbatim = true;
+                }
+            },
+            lex::Kind::Sym(lex::Symbol::Pipe) => end = verbatim.is_none(),
+            _ => {}
+        }
+    }
+    end
+}
+
 /// Similar to `std::str::split('\n')` but newline is included and spans are used instead of `str`.
 fn lines(src: &str) -> impl Iterator<Item = std::ops::Range<usize>> + '_ {
     let mut chars = src.chars();
-- 
2.43.0


From 80a44969be00b1678d19c75952ca16751d0d76d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:51 +0000
Subject: [PATCH 18/35] fix: keep consecutive line breaks in attribute comments

---
 src/attr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/attr.rs b/src/attr.rs
index d9f5617..02ef5c7 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -772,10 +772,10 @@ impl<'s> Parser<'s> {
                     }
                     Comment | CommentNewline => {
                         let last = self.attrs.len() - 1;
-                        self.attrs.0[last].1.extend_raw(if matches!(st, Comment) {
-                            content
+                        self.attrs.0[last].1.extend_raw(if content.is_empty() {
+                            "\n" // on the previous line
                         } else {
-                            "\n"
+                            content
                         });
                     }
                     CommentFirst => self.attrs.push((AttributeKind::Comment, "".into())),
-- 
2.43.0


From 1787fefab1f128c248b7a49e87881a61bc92cac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:01 +0000
Subject: [PATCH 19/35] fix: get the value of an empty class attribute

---
 src/attr.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/attr.rs b/src/attr.rs
index 02ef5c7..47e0431 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -351,17 +351,15 @@ impl<'s> Attributes<'s> {
     #[must_use]
     pub fn get_value(&self, key: &str) -> Option<AttributeValue<'_>> {
         if key == "class" {
-            let mut value = AttributeValue::new();
+            let mut value = None;
             for (k, v) in &self.0 {
                 if k.key() == Some("class") {
-                    value.extend(&v.raw);
+                    value
+                        .get_or_insert_with(AttributeValue::new)
+                        .extend(&v.raw);
                 }
             }
-            if value.raw.is_empty() {
-                None
-            } else {
-                Some(value)
-            }
+            value
         } else {
             self.0
                 .iter()
-- 
2.43.0


From 9d3f5953a958dacdf0f9a866812201ae20a70b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:18 +0000
Subject: [PATCH 20/35] fix: an empty heading line at the end adds no line
 break or number sign

---
 src/block.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 9baa8fd..15c7f4e 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -347,7 +347,7 @@ impl<'s> TreeParser<'s> {
                         let l = &l[hash..];
                         let post_ws = l.iter().take_while(|c| c.is_ascii_whitespace()).count();
                         let l = &l[post_ws..];
-                        if post_ws > 0 {
+                        if post_ws > 0 || (hash > 0 && l.is_empty()) {
                             debug_assert_eq!(level, hash);
                             line.start += line.len() - l.len();
                         }
@@ -526,9 +526,12 @@ impl<'s> TreeParser<'s> {
             }
 
             // trim ending whitespace of block
-            let l = lines.len();
-            if l > 0 {
-                lines[l - 1] = self.trim_end(lines[l - 1].clone());
+            while let Some(last) = lines.len().checked_sub(1) {
+                lines[last] = self.trim_end(lines[last].clone());
+                if !lines[last].is_empty() {
+                    break;
+                }
+                lines = &mut lines[..last];
             }
         }
 
-- 
2.43.0


From 49ccfa67ae9aff3ccc8a8f5f95adb6d4a6b26c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:26 +0000
Subject: [PATCH 21/35] fix: a backslash does not escape in verbatim text after
 a line break

---
 src/inline.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/inline.rs b/src/inline.rs
index 7ff2b8f..dd0504a 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -118,7 +118,9 @@ impl<'s> Input<'s> {
     }
 
     fn set_current_line(&mut self, line: std::ops::Range<usize>) {
+        let verbatim = self.lexer.verbatim;
         self.lexer = lex::Lexer::new(&self.src.as_bytes()[line.clone()]);
+        self.lexer.verbatim = verbatim;
         self.span = line.start..line.start;
         self.span_line = line;
     }
-- 
2.43.0


From 4924608a688b25407977d4744a8bf6ccf0aa48ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 22/35] fix: remove the indentation of a div also from its
 first line

---
 src/block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 15c7f4e..36d1ec0 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -589,7 +589,8 @@ impl<'s> TreeParser<'s> {
         lines: &mut [std::ops::Range<usize>],
     ) {
         // update spans, remove indentation / container prefix
-        lines.iter_mut().skip(1).for_each(|sp| {
+        let skip_first = usize::from(!matches!(k, Kind::Fenced { .. }));
+        lines.iter_mut().skip(skip_first).for_each(|sp| {
             let src = &self.src[sp.clone()];
             let src_t = src.trim_matches(|c: char| c.is_ascii_whitespace());
             let whitespace = src_t.as_ptr() as usize - src.as_ptr() as usize;
-- 
2.43.0


From 3104c0f5357c25e682c866f125c52c6bc1cfea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 23/35] fix: an empty first line of a list item does not make
 the list loose

---
 src/block.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 36d1ec0..f13c05a 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -399,7 +399,11 @@ impl<'s> TreeParser<'s> {
 
             // set list to loose if blankline discovered
             if matches!(kind, Kind::Atom(Atom::Blankline)) {
-                self.prev_blankline = true;
+                // the rest of the line of a container marker is not a blankline
+                self.prev_blankline |= !matches!(
+                    self.events.last().map(|e| &e.kind),
+                    Some(EventKind::Enter(Node::Container(_)))
+                );
             } else {
                 self.prev_loose = false;
                 if self.prev_blankline {
-- 
2.43.0


From 8d3fdcf2814f865a57dd7340d45d32914775c032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:07 +0000
Subject: [PATCH 24/35] fix: a backslash before a tab is literal unless at the
 end of the line

---
 src/lex.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lex.rs b/src/lex.rs
index bfc0b8c..c3e5f6d 100644
--- a/src/lex.rs
+++ b/src/lex.rs
@@ -181,9 +181,13 @@ impl<'s> Lexer<'s> {
                     b'\n' => Newline,
 
                     b'\\' => {
-                        if self
-                            .peek_byte()
-                            .is_some_and(|c| c.is_ascii_whitespace() || c.is_ascii_punctuation())
+                        let ahead = &self.src[self.pos..];
+                        let hardbreak =
+                            ahead.iter().find(|c| !matches!(c, b' ' | b'\t')) == Some(&b'\n');
+                        if hardbreak
+                            || ahead
+                                .first()
+                                .is_some_and(|c| *c == b' ' || c.is_ascii_punctuation())
                         {
                             self.escape = !self.verbatim;
                             Escape
-- 
2.43.0


From 137688909f143bd9b0ba8a4685c923ff1df6205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 25/35] fix: two colons are not a symbol

---
 src/inline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inline.rs b/src/inline.rs
index dd0504a..db879ae 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -641,7 +641,7 @@ impl<'s> Parser<'s> {
                     !end && !c.is_ascii_whitespace()
                 })
                 .count();
-            if end && valid {
+            if end && valid && len > 0 {
                 self.input.lexer.skip_ahead(len + 1);
                 let span_symbol = self.input.span.end..(self.input.span.end + len);
                 self.input.span.end = span_symbol.end + 1;
-- 
2.43.0


From 61d14c78febc9f7d0733b13be349ff75ce58c559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 26/35] fix: remove the indentation and prefix of a container
 also from lines of white space

---
 src/block.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index f13c05a..bc641c6 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -596,8 +596,8 @@ impl<'s> TreeParser<'s> {
         let skip_first = usize::from(!matches!(k, Kind::Fenced { .. }));
         lines.iter_mut().skip(skip_first).for_each(|sp| {
             let src = &self.src[sp.clone()];
-            let src_t = src.trim_matches(|c: char| c.is_ascii_whitespace());
-            let whitespace = src_t.as_ptr() as usize - src.as_ptr() as usize;
+            let src_t = src.trim_start_matches(|c: char| c.is_ascii_whitespace());
+            let whitespace = src.len() - src_t.len();
             let skip = match k {
                 Kind::Blockquote => {
                     if src_t == ">" {
-- 
2.43.0


From 31e669f12965dd8e495177d663b9762eb4ae7be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 27/35] fix: do not include an empty attribute group in the
 text before it

---
 src/inline.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/inline.rs b/src/inline.rs
index db879ae..9b6d10a 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -539,7 +539,10 @@ impl<'s> Parser<'s> {
         if attrs.is_empty() {
             if matches!(state.elem_ty, AttributesElementType::Container { .. }) {
                 let last = self.events.len() - 1;
-                self.events[last].span.end = self.input.span.end;
+                // brackets without attributes are text, the empty group is not a part of it
+                if !matches!(self.events[last].kind, EventKind::Str) {
+                    self.events[last].span.end = self.input.span.end;
+                }
             }
         } else {
             let attr_index = self.store_attributes.len() as AttributesIndex;
-- 
2.43.0


From 879557916724a6c1d68cd42a1844bb1fa979c8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 28/35] fix: a link definition continues only over lines that
 are indented more than it

---
 src/block.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index bc641c6..12f8611 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -1262,11 +1262,10 @@ impl<'s> Kind<'s> {
                 *last_blankline = matches!(next, Self::Atom(Blankline));
                 whitespace > *indent || *last_blankline || cont_para
             }
-            Self::Definition { .. } => {
-                let blankline = line
-                    .trim_matches(|c: char| c.is_ascii_whitespace())
-                    .is_empty();
-                line.starts_with(' ') && !blankline
+            Self::Definition { indent, .. } => {
+                let line_t = line.trim_start_matches(|c: char| c.is_ascii_whitespace());
+                let whitespace = line.len() - line_t.len();
+                line.starts_with(' ') && whitespace > *indent && !line_t.is_empty()
             }
             Self::Fenced {
                 fence_length,
-- 
2.43.0


From 195a827867ad25346a1e950de859d1f9ac7cf811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:49 +0000
Subject: [PATCH 29/35] fix: a link definition continues also over lines that
 are indented by a tab

---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 12f8611..fdb23f8 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -1265,7 +1265,7 @@ impl<'s> Kind<'s> {
             Self::Definition { indent, .. } => {
                 let line_t = line.trim_start_matches(|c: char| c.is_ascii_whitespace());
                 let whitespace = line.len() - line_t.len();
-                line.starts_with(' ') && whitespace > *indent && !line_t.is_empty()
+                whitespace > *indent && !line_t.is_empty()
             }
             Self::Fenced {
                 fence_length,
-- 
2.43.0


From d809ea02fdb5d2be1661400f2e4ceb95e544e223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:12 +0000
Subject: [PATCH 30/35] fix: remove the indentation of the lines of a table
 caption

---
 src/block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index fdb23f8..d2a4f73 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -737,7 +737,8 @@ impl<'s> TreeParser<'s> {
                 lines[caption_line].start += 2;
                 lines[lines.len() - 1] = self.trim_end(lines[lines.len() - 1].clone());
                 for line in &lines[caption_line..] {
-                    self.inline(line.clone());
+                    let line = self.trim_start(line.clone());
+                    self.inline(line);
                 }
                 self.exit(span_end.clone());
                 caption_line
-- 
2.43.0


From e5c66bd2a464dc80061181fae1dccb5abacae3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:28 +0000
Subject: [PATCH 31/35] fix: number repeated heading identifiers in linear time

---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c879be2..e6dbab3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2183,6 +2183,7 @@ impl<'s> PrePass<'s> {
         let mut link_definitions = Map::new();
         let mut headings: Vec<Heading> = Vec::new();
         let mut used_ids: Set<String> = Set::new();
+        let mut used_nums: Map<String, usize> = Map::new();
 
         let mut attr_prev: Vec<std::ops::Range<usize>> = Vec::new();
         while let Some(e) = blocks.next() {
@@ -2304,12 +2305,14 @@ impl<'s> PrePass<'s> {
                         if id_auto.is_empty() {
                             id_auto.push('s');
                         }
-                        let mut num = 1;
+                        // lower numbers are already taken
+                        let num = used_nums.entry(id_auto.clone()).or_insert(0);
                         id_auto.push('-');
                         let i_num = id_auto.len();
+                        *num += 1;
                         write!(id_auto, "{num}").unwrap();
                         while used_ids.contains::<str>(&id_auto) {
-                            num += 1;
+                            *num += 1;
                             id_auto.drain(i_num..);
                             write!(id_auto, "{num}").unwrap();
                         }
-- 
2.43.0


From d44f3559a4954f2568c37313c7672f936b4d728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:00 +0000
Subject: [PATCH 32/35] fix: number footnotes in linear time

---
 src/html.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index ec04a2b..17d1fd2 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -823,6 +823,8 @@ struct Footnotes<'s> {
     open: Vec<(CowStr<'s>, Vec<Event<'s>>)>,
     /// Footnote references in the order they were first encountered.
     references: Vec<CowStr<'s>>,
+    /// Number of each reference.
+    numbers: Map<CowStr<'s>, usize>,
     /// Events for each footnote.
     events: Map<CowStr<'s>, Vec<Event<'s>>>,
     /// Number of last footnote that was emitted.
@@ -842,16 +844,10 @@ impl<'s> Footnotes<'s> {
 
     /// Add a footnote reference.
     fn reference(&mut self, label: CowStr<'s>) -> usize {
-        self.references
-            .iter()
-            .position(|t| *t == label)
-            .map_or_else(
-                || {
-                    self.references.push(label);
-                    self.references.len()
-                },
-                |i| i + 1,
-            )
+        *self.numbers.entry(label).or_insert_with_key(|label| {
+            self.references.push(label.clone());
+            self.references.len()
+        })
     }
 
     /// Start aggregating a footnote.
-- 
2.43.0


From d91faa6bfbec847d3e3454e14fa5dc6726fb7310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:03 +0000
Subject: [PATCH 33/35] fix: report errors from writing to standard output

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 4ea4aec..3720633 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -15,6 +15,7 @@ struct App {
 fn run() -> Result<(), std::io::Error> {
     use jotdown::Render;
     use std::io::Read;
+    use std::io::Write;
 
     let app: App = clap::Parser::parse();
 
@@ -39,7 +40,11 @@ fn run() -> Result<(), std::io::Error> {
 
     match app.output {
         Some(path) => renderer.write_events(parser, std::fs::File::create(path)?)?,
-        None => renderer.write_events(parser, std::io::BufWriter::new(std::io::stdout()))?,
+        None => {
+            let mut out = std::io::BufWriter::new(std::io::stdout());
+            renderer.write_events(parser, &mut out)?;
+            out.flush()?;
+        }
     }
 
     Ok(())
-- 
2.43.0


From 72cf30888aec7086a2c6dc4ce4241a77be2d88ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:53 +0000
Subject: [PATCH 34/35] fix: escape classes of divs and symbols

---
 src/html.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 17d1fd2..b8b4525 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -649,7 +649,15 @@ impl<'s> Renderer<'s> {
                     )?;
                 }
             }
-            Event::Symbol(sym) => write!(out, ":{sym}:")?,
+            Event::Symbol(sym) => {
+                out.write_char(':')?;
+                if self.img_alt_text > 0 {
+                    write_attr(&sym, out)?;
+                } else {
+                    write_text(&sym, out)?;
+                }
+                out.write_char(':')?;
+            }
             Event::LeftSingleQuote => out.write_str("‘")?,
             Event::RightSingleQuote => out.write_str("’")?,
             Event::LeftDoubleQuote => out.write_str("“")?,
@@ -767,7 +775,7 @@ where
             if first_written {
                 out.write_char(' ')?;
             }
-            out.write_str(class)?;
+            write_attr(class, out)?;
         }
     }
     Ok(())
-- 
2.43.0


From 03d575726ae1e85290806937b01f50293ecf1dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:53 +0000
Subject: [PATCH 35/35] fix: a renderer can be used for several documents

---
 src/html.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/html.rs b/src/html.rs
index b8b4525..45cfab2 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -747,6 +747,10 @@ impl<'s> Renderer<'s> {
             out.write_char('\n')?;
         }
 
+        // the renderer may be used for another document
+        self.footnotes = Footnotes::default();
+        self.first_line = true;
+
         Ok(())
     }
 }
-- 
2.43.0

