"""Sources of the planted bugs in /verif/seeded (development only)."""
SEEDS = {
"c01-twenty-digits": dict(property="C01",
  edits=[("src/block.rs", "Decimal => 19,", "Decimal => 20,")],
  needs="an ordered list marker of 20 digits above 2^64",
  breaks="the marker's number is parsed with unwrap() into a u64: parsing panics instead of treating the line as a paragraph",
  demo='    assert_eq!(html("99999999999999999999. a\\n"), "<p>99999999999999999999. a</p>");'),
"c02-section-exit-order": dict(property="C02",
  edits=[("src/block.rs", "self.attr_start.map_or(self.events.len(), |a| a + i),", "self.attr_start.map_or(self.events.len(), |a| a + i.min(1)),")],
  needs="a heading preceded by block attributes that closes three or more open sections",
  breaks="the ends of the sections are inserted in the wrong order, so the stream is no longer a balanced tree",
  demo='''    let ev = events("# a\\n\\n## b\\n\\n### c\\n\\n{.x}\\n# d\\n");
    let mut open = Vec::new();
    for e in ev {
        match e {
            Event::Start(c, _) => open.push(c),
            Event::End(c) => assert_eq!(open.pop(), Some(c)),
            _ => {}
        }
    }'''),
"c03-break-span": dict(property="C03",
  edits=[("src/block.rs", "Some((Kind::Atom(ThematicBreak), indent..(indent + lt)))", "Some((Kind::Atom(ThematicBreak), indent..(indent + line.trim_end_matches('\\n').len())))")],
  needs="a thematic break with trailing blanks or a carriage return",
  breaks="the span of the thematic break includes the blanks after its markup",
  demo='''    for (e, r) in Parser::new("a\\n\\n***  \\nb").into_offset_iter() {
        if matches!(e, Event::ThematicBreak(_)) {
            assert_eq!(r, 3..6);
        }
    }'''),
"c04-language-quote": dict(property="C04",
  edits=[("src/html.rs", "write_attr(&language, out)?;", "write_text(&language, out)?;")],
  needs="a double quote in the language of a code block",
  breaks="the quote reaches the class attribute unescaped and ends it",
  demo='''    assert_eq!(html("```a\\"b\\nc\\n```\\n"), r##"<pre><code class="language-a&quot;b">c\n</code></pre>"##.replace("\\\\n", "\\n"));'''),
"c05-tight-footnote": dict(property="C05",
  edits=[("src/html.rs", """                    unclosed_para = matches!(e, Event::End(Container::Paragraph { .. }))
                        && !matches!(self.list_tightness.last(), Some(true));""", """                    unclosed_para = matches!(e, Event::End(Container::Paragraph { .. }))
                        && self.list_tightness.len() < 2;""")],
  needs="a footnote containing a tight list",
  breaks="a closing paragraph tag is written that was never opened",
  demo='''    let h = html("a[^n]\\n\\n[^n]: b\\n\\n  - c\\n");
    assert_eq!(h.matches("<p>").count(), h.matches("</p>").count(), "{h}");'''),
"c06-task-indent": dict(property="C06",
  edits=[("src/html.rs", """                        out.write_char('>')?;
                        self.block(out, 0)?;
                        if checked {""", """                        out.write_char('>')?;
                        if self.indent.is_some() {
                            out.write_char('\\n')?;
                        }
                        if checked {""")],
  needs="a task list rendered in an indented layout with a non-empty indentation string or initial level",
  breaks="the line of the check box is not indented",
  demo='''    let mut o = String::new();
    html::Renderer::indented(html::Indentation { string: "  ".to_string(), initial_level: 0 })
        .push_events(Parser::new("- [x] a\\n"), &mut o).unwrap();
    assert!(o.contains("\\n    <input"), "{o}");'''),
"c07-hr-attributes": dict(property="C07",
  edits=[("src/html.rs", """                for (a, v) in attrs.unique_pairs() {
                    write!(out, r#" {a}=""#)?;
                    v.parts().try_for_each(|part| write_attr(part, out))?;
                    out.write_char('"')?;
                }
                out.write_str(">")?;""", """                for (k, v) in &attrs {
                    if let Some(a) = k.key() {
                        write!(out, r#" {a}=""#)?;
                        v.parts().try_for_each(|part| write_attr(part, out))?;
                        out.write_char('"')?;
                    }
                }
                out.write_str(">")?;""")],
  needs="a thematic break with two attributes of the same key",
  breaks="classes of a thematic break are not merged, the attribute is written twice",
  demo='    assert_eq!(html("{.a}\\n{.b #i}\\n***\\n"), "<hr class=\\"a b\\" id=\\"i\\">");'),
"c08-short-write": dict(property="C08",
  edits=[("src/lib.rs", """                self.inner.write_all(s.as_bytes()).map_err(|e| {
                    self.error = Err(e);
                    std::fmt::Error
                })""", """                let mut b = s.as_bytes();
                while !b.is_empty() {
                    match self.inner.write(b) {
                        Ok(0) => break,
                        Ok(n) => b = &b[n..],
                        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                        Err(e) => {
                            self.error = Err(e);
                            return Err(std::fmt::Error);
                        }
                    }
                }
                Ok(())""")],
  needs="a byte sink that accepts no more bytes by returning Ok(0), such as a full fixed-size slice",
  breaks="success is reported although only a part of the output was written",
  demo='''    let mut buf = [0u8; 4];
    let r = html::Renderer::default().write_events(Parser::new("hello"), &mut buf[..]);
    assert!(r.is_err());'''),
"c24-heading-tie": dict(property="C24",
  edits=[("src/lib.rs", """        let mut headings_lex = (0..headings.len()).collect::<Vec<_>>();
        headings_lex.sort_by_key(|i| &headings[*i].text);""", """        let mut headings_lex = used_ids
            .iter()
            .filter_map(|id| headings.iter().position(|h| h.id_auto == *id))
            .collect::<Vec<_>>();
        headings_lex.sort_by_key(|i| &headings[*i].text);""")],
  needs="two headings of equal text and a reference to them, in the default build (randomly seeded hash set)",
  breaks="which of the headings the reference resolves to varies between parses of the same input",
  demo='''    let s = "# a\\n\\n# a\\n\\n# a\\n\\n# a\\n\\n[a][]\\n";
    let first = html(s);
    for _ in 0..50 {
        assert_eq!(html(s), first);
    }'''),
"c10-third-value": dict(property="C10",
  edits=[("src/attr.rs", """            if let Some((_, v)) = self.attrs[self.pos..]
                .iter()
                .rfind(|(k, _)| k.key() == Some(key))""", """            if let Some((_, v)) = self.attrs[self.pos..]
                .iter()
                .find(|(k, _)| k.key() == Some(key))""")],
  needs="an attribute set with three values of one key",
  breaks="the unique pairs hold the second value instead of the last one",
  demo='''    let a = Attributes::try_from("{a=1 a=2 a=3}").unwrap();
    assert_eq!(a.unique_pairs().next().unwrap().1.to_string(), "3");'''),
"c10-id-lookup": dict(property="C10",
  edits=[("src/attr.rs", """            self.0
                .iter()
                .rfind(|(k, _)| k.key() == Some(key))
                .map(|(_, v)| v.clone())""", """            self.0
                .iter()
                .rev()
                .take_while(|(k, _)| !matches!(k, AttributeKind::Comment))
                .find(|(k, _)| k.key() == Some(key))
                .map(|(_, v)| v.clone())""")],
  needs="a comment after the attribute that is looked up",
  breaks="get_value finds no attribute before a comment, though contains_key does",
  demo='''    let a = Attributes::try_from("{#x %c% .y}").unwrap();
    assert_eq!(a.get_value("id").unwrap().to_string(), "x");'''),
"c11-word-tab": dict(property="C11",
  edits=[("src/inline.rs", """            .bytes()
            .rposition(|c| c.is_ascii_whitespace())
        {
            let word_start""", """            .bytes()
            .rposition(|c| c == b' ')
        {
            let word_start""")],
  needs="inline attributes on a word that follows a tab",
  breaks="the attributes attach to the word before the tab as well",
  demo='    assert_eq!(html("a\\tb{.x}"), "<p>a\\t<span class=\\"x\\">b</span></p>");'),
"c12-tab-id": dict(property="C12",
  edits=[("src/lib.rs", "                                    if c.is_ascii_whitespace() {\n                                        while chars", "                                    if c == ' ' {\n                                        while chars")],
  needs="a tab between the words of a heading",
  breaks="the tab becomes a part of the identifier",
  demo='    assert_eq!(html("# a\\tb"), "<section id=\\"a-b\\"><h1>a\\tb</h1></section>");'),
"c12-suffix-collision": dict(property="C12",
  edits=[("src/lib.rs", """                        while used_ids.contains::<str>(&id_auto) {
                            *num += 1;
                            id_auto.drain(i_num..);
                            write!(id_auto, "{num}").unwrap();
                        }""", """                        while headings.iter().any(|h| h.text == text && h.id_auto == id_auto) {
                            *num += 1;
                            id_auto.drain(i_num..);
                            write!(id_auto, "{num}").unwrap();
                        }""")],
  needs="a generated suffix that equals the identifier of a heading with other text",
  breaks="two headings get the same identifier",
  demo='''    let h = html("# a-1\\n\\n# a\\n\\n# a\\n");
    assert_eq!(h.matches("id=\\"a-1\\"").count(), 1, "{h}");'''),
"c13-long-definition": dict(property="C13",
  edits=[("src/lib.rs", """                            while let Some(block::Event {
                                kind: block::EventKind::Inline,
                                span,
                            }) = blocks.next()""", """                            if let Some(block::Event {
                                kind: block::EventKind::Inline,
                                span,
                            }) = blocks.next()""")],
  needs="a link definition whose destination spans four lines",
  breaks="the last line of the destination is missing from links that refer to it",
  demo='    assert_eq!(html("[a][]\\n\\n[a]: b\\n c\\n d\\n e\\n"), "<p><a href=\\"bcde\\">a</a></p>");'),
"c15-case-ambiguity": dict(property="C15",
  edits=[("src/block.rs", "if n0.numbering == na1.numbering && n0.value + 1 == na1.value {", "if n0.value + 1 == na1.value {")],
  needs="an item h. followed by an item I. of the other case",
  breaks="the upper case item continues the lower case list",
  demo='    assert_eq!(html("h. a\\nI. b\\n").matches("<ol").count(), 2);'),
"c16-task-bullet": dict(property="C16",
  edits=[("src/block.rs", "            _ if self == other => Some((*self, *other)),", "            (ListType::Task(..), ListType::Task(..)) => Some((*self, *other)),\n            _ if other == self => Some((*self, *other)),")],
  needs="two adjacent task lists with different bullets",
  breaks="the items of the second list are put into the first one",
  demo='    assert_eq!(html("- [ ] a\\n+ [ ] b\\n").matches("<ul").count(), 2);'),
"c17-raw-trim": dict(property="C17",
  edits=[("src/block.rs", "            if spec.starts_with('=') {\n                if let Some(last)", "            if spec.contains('=') {\n                if let Some(last)")],
  needs="a code block whose language contains an equals sign",
  breaks="blanks at the end of the code are dropped",
  demo='    assert_eq!(html("```a=b\\nc  \\n```\\n"), "<pre><code class=\\"language-a=b\\">c  \\n</code></pre>");'),
"c18-long-separator": dict(property="C18",
  edits=[("src/block.rs", "&& cell.bytes().skip(1).take(l - 2).all(|c| c == b'-')", "&& cell.bytes().take(l - 1).skip(2).all(|c| c == b'-')")],
  needs="a cell of hyphens with another character at the second place",
  breaks="the line is taken for a separator",
  demo='    assert_eq!(html("|-a-|\\n"), "<table><tr><td>-a-</td></tr></table>");'),
"c20-tab-closer": dict(property="C20",
  edits=[("src/inline.rs", """                    .get(self.input.span.start.saturating_sub(1))
                    .is_some_and(u8::is_ascii_whitespace);""", """                    .get(self.input.span.start.saturating_sub(1))
                    .is_some_and(|c| matches!(c, b' ' | b'\\n'));""")],
  needs="a tab before a closing delimiter",
  breaks="the delimiter closes though whitespace precedes it",
  demo='    assert_eq!(html("_a\\t_"), "<p>_a\\t_</p>");'),
"c20-closed-over": dict(property="C20",
  edits=[("src/inline.rs", "                self.openers.drain(o..);", "                self.openers.drain(o..(o + 2).min(self.openers.len()));")],
  needs="two openers inside a matched pair, the closer of the second one after the pair",
  breaks="containers overlap: an opener inside a closed container is matched after it",
  demo='    assert_eq!(html("_a *b ^c_ d^"), "<p><em>a *b ^c</em> d^</p>");'),
"c21-url-break": dict(property="C21",
  edits=[("src/inline.rs", "                                        if !inline && !first_part {", "                                        if !first_part && (!inline || s.starts_with('/')) {")],
  needs="a destination broken over two lines, the second one starting with a slash",
  breaks="a space is put into the destination",
  demo='    assert_eq!(html("[a](b\\n/c)"), "<p><a href=\\"b/c\\">a</a></p>");'),
"c21-autolink-nested": dict(property="C21",
  edits=[("src/inline.rs", """                .ahead()
                .iter()
                .take_while(|c| {
                    if **c == b'<' {
                        return false;
                    }
                    if **c == b'>' {""", """                .ahead()
                .iter()
                .take_while(|c| {
                    if **c == b'>' {""")],
  needs="an angle bracket inside the text of what would be an autolink",
  breaks="the autolink starts at the wrong bracket",
  demo='    assert_eq!(html("<a<b:c>"), "<p>&lt;a<a href=\\"b:c\\">b:c</a></p>");'),
"c22-nested-fence": dict(property="C22",
  edits=[("src/block.rs", "if FenceKind::CodeBlock(*c) == k && l >= *nested_l && spec.is_empty() {", "if FenceKind::CodeBlock(*c) == k && l == *nested_l && spec.is_empty() {")],
  needs="a code block in a div closed by a fence longer than its opening fence",
  breaks="the div does not end at its closing fence",
  demo='    assert_eq!(html(":::\\n```\\na\\n````\\n:::\\nb\\n"), "<div><pre><code>a\\n</code></pre></div><p>b</p>");'),
"c22-tilde-info": dict(property="C22",
  edits=[("src/block.rs", """                    !spec.bytes().any(|c| c.is_ascii_whitespace())
                        && !spec.bytes().any(|c| c == b'`')""", """                    !spec.bytes().any(|c| c.is_ascii_whitespace())
                        && !spec.ends_with('`')""")],
  needs="a line of verbatim text and other text that begins with three backticks",
  breaks="the line begins a code block instead of a paragraph",
  demo='    assert_eq!(html("```a```b\\n"), "<p><code>a</code>b</p>");'),
"c23-div-indent": dict(property="C23",
  edits=[("src/block.rs", "                Kind::Fenced { indent, .. } => whitespace.min(*indent),\n                _ => panic!", "                Kind::Fenced { indent, .. } => whitespace.min(*indent + 1),\n                _ => panic!")],
  needs="a line indented by one blank inside a div, where the blank matters",
  breaks="the indentation of lines inside the div is lost",
  demo='    assert_eq!(html(":::\\n- a\\n\\n b\\n:::\\n"), "<div><ul><li><p>a</p><p>b</p></li></ul></div>");'),
"c23-quote-break": dict(property="C23",
  edits=[("src/block.rs", """                    if src_t == ">" {
                        whitespace + 1""", """                    if src_t == ">" {
                        whitespace""")],
  needs="a document that ends in a bare quote marker without a line end",
  breaks="the marker appears as nested block quote",
  demo='    assert_eq!(html("> a\\n>"), "<blockquote><p>a</p></blockquote>");'),
"c09-class-return": dict(property="C09",
  edits=[("src/attr.rs", "            Class | Identifier | Value if c.is_ascii_whitespace() => Whitespace,", "            Class | Identifier | Value if matches!(c, b' ' | b'\\t' | b'\\n') => Whitespace,")],
  needs="a class, identifier or bare value followed by a carriage return (Windows line ends)",
  breaks="the attribute set is rejected",
  demo=r"""    assert!(Attributes::try_from("{.a\r\n.b}").is_ok());"""),
"c09-line-start-quote": dict(property="C09",
  edits=[("src/attr.rs", "            ValueQuoted | ValueNewline | ValueContinued if c == b'\"' => Whitespace,", "            ValueQuoted | ValueContinued if c == b'\"' => Whitespace,")],
  needs="a quoted value whose closing quote is the first character of a line",
  breaks="the quote is taken for content and the set is rejected or runs on",
  demo=r"""    assert!(Attributes::try_from("{a=\"b\n\"}").is_ok());"""),
"c14-case-label": dict(property="C14",
  edits=[("src/html.rs", "        self.open.push((label, events));", "        self.open.push((label.to_ascii_lowercase().into(), events));")],
  needs="a footnote whose label has an upper case letter",
  breaks="its text is not rendered",
  demo=r"""    let h = html("a[^x] b[^Xy]\n\n[^x]: c\n\n[^Xy]: d\n");
    assert!(h.contains("<p>d"), "{h}");"""),
"c14-first-definition": dict(property="C14",
  edits=[("src/html.rs", "        self.events.insert(label, stage);", "        self.events.entry(label).or_insert(stage);")],
  needs="a footnote label defined twice",
  breaks="the first definition is rendered instead of the last",
  demo=r"""    assert!(html("a[^x]\n\n[^x]: c\n\n[^x]: d\n").contains("<p>d"));"""),
"c19-tab-quote": dict(property="C19",
  edits=[("src/inline.rs", "                    self.input.src.as_bytes()[self.input.span.start - 1].is_ascii_whitespace()", "                    self.input.src.as_bytes()[self.input.span.start - 1] == b' '")],
  needs="a single quoted phrase after a tab",
  breaks="the opening quote becomes an apostrophe",
  demo=r"""    assert_eq!(html("a\t'b'"), "<p>a\t‘b’</p>");"""),
"c25-case-fallback": dict(property="C25",
  edits=[("src/lib.rs", "                                self.pre_pass.link_definitions.get(tag.as_ref()).cloned();", """                                self.pre_pass.link_definitions.get(tag.as_ref()).cloned().or_else(|| {
                                    self.pre_pass
                                        .link_definitions
                                        .iter()
                                        .find(|(l, _)| l.eq_ignore_ascii_case(tag.as_ref()))
                                        .map(|(_, d)| d.clone())
                                });""")],
  needs="a reference that matches two definitions in all but case, neither exactly",
  breaks="the definition found first in the iteration order of the map is used: it depends on the kind of the map and its keys",
  demo=r"""    let s = "[x][AB]\n\n[Ab]: u\n\n[aB]: v\n\n[ab]: w\n";
    let first = html(s);
    for _ in 0..50 {
        assert_eq!(html(s), first);
    }"""),
"c25-missing-note": dict(property="C25",
  edits=[("src/html.rs", "            (self.number, self.events.remove(label))", """            let label = if self.events.contains_key(label) {
                label.clone()
            } else {
                // a note with a longer label
                self.events.keys().find(|l| l.starts_with(label.as_ref())).cloned().unwrap_or_default()
            };
            (self.number, self.events.remove(&label))""")],
  needs="a reference without a definition and two notes whose labels start with its label",
  breaks="which of the notes is rendered depends on the iteration order of the map",
  demo=r"""    let s = "x[^a]\n\n[^ab]: u\n\n[^ac]: v\n\n[^ad]: w\n";
    let first = html(s);
    for _ in 0..50 {
        assert_eq!(html(s), first);
    }"""),
"c26-location-scan": dict(property="C26",
  edits=[("src/lib.rs", """            .binary_search_by_key(&location, |h| h.location)
            .ok()
            .map(|i| self.heading_id(i))""", """            .iter()
            .position(|h| h.location == location)
            .map(|i| self.heading_id(i))""")],
  needs='documents with very many headings',
  breaks='the time grows with the square of the number of headings',
  demo=r"""    let time = |n: usize| {
        let s: String = (0..n).map(|i| format!("# h{i}\n\n")).collect();
        (0..3).map(|_| { let t = std::time::Instant::now(); let h = html(&s); assert!(!h.is_empty()); t.elapsed().as_secs_f64() }).fold(f64::MAX, f64::min)
    };
    let mut n = 500;
    while time(n) < 0.05 { n *= 2; }
    let r = (time(4 * n) / time(n)).min(time(8 * n) / time(2 * n));
    assert!(r < 9.0, "{r}");"""),
"c26-definition-scan": dict(property="C26",
  edits=[("src/lib.rs", "self.pre_pass.link_definitions.get(tag.as_ref()).cloned();", "self.pre_pass.link_definitions.iter().find(|(l, _)| l.len() == tag.len() && **l == tag.as_ref()).map(|(_, d)| d.clone());")],
  needs='very many definitions and references to them',
  breaks='each reference takes time proportional to the number of definitions',
  demo=r"""    let time = |n: usize| {
        let s: String = (0..n).map(|i| format!("[a][l{i}]\n\n[l{i}]: u\n\n")).collect();
        (0..3).map(|_| { let t = std::time::Instant::now(); let h = html(&s); assert!(!h.is_empty()); t.elapsed().as_secs_f64() }).fold(f64::MAX, f64::min)
    };
    let mut n = 500;
    while time(n) < 0.05 { n *= 2; }
    let r = (time(4 * n) / time(n)).min(time(8 * n) / time(2 * n));
    assert!(r < 9.0, "{r}");"""),
"c26-used-scan": dict(property="C26",
  edits=[("src/lib.rs", "if used_ids.contains::<str>(&id_auto) || id_auto.is_empty()", "if headings.iter().any(|h| h.id_auto == id_auto) || id_auto.is_empty()")],
  needs='very many headings with different texts',
  breaks='the time grows with the square of the number of headings',
  demo=r"""    let time = |n: usize| {
        let s: String = (0..n).map(|i| format!("# h{i}\n\n")).collect();
        (0..3).map(|_| { let t = std::time::Instant::now(); let h = html(&s); assert!(!h.is_empty()); t.elapsed().as_secs_f64() }).fold(f64::MAX, f64::min)
    };
    let mut n = 500;
    while time(n) < 0.05 { n *= 2; }
    let r = (time(4 * n) / time(n)).min(time(8 * n) / time(2 * n));
    assert!(r < 9.0, "{r}");"""),
"c27-exit-status": dict(property="C27", script=True,
  edits=[("src/main.rs", "            std::process::exit(1);", "            std::process::exit(e.raw_os_error().unwrap_or(0));")],
  needs="input that is not UTF-8",
  breaks="the tool reports success",
  demo=r"""printf 'a\377b' | "$tool" >out 2>err && fail "success for bytes that are not UTF-8"
"$tool" nonexistent 2>err && fail "success for a missing file"
"""),
"c27-keep-tail": dict(property="C27", script=True,
  edits=[("src/main.rs", "std::fs::File::create(path)?", "std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(path)?")],
  needs="an existing output file that is longer than the new content",
  breaks="the end of the previous content remains",
  demo=r"""echo "a long first text" | "$tool" -o out
echo b | "$tool" -o out
[ "$(cat out)" = "<p>b</p>" ] || fail "$(cat out)"
"""),
"c27-short-read": dict(property="C27", script=True,
  edits=[("src/main.rs", "std::io::stdin().read_to_string(&mut s)?;", "std::io::stdin().take(u16::MAX as u64).read_to_string(&mut s)?;")],
  needs="more than 65535 bytes of standard input",
  breaks="the rest of the input is dropped",
  demo=r"""head -c 70000 /dev/zero | tr '\0' a | "$tool" >out
[ "$(wc -c <out)" -ge 70007 ] || fail "$(wc -c <out) bytes"
"""),
"c27-lines": dict(property="C27", script=True,
  edits=[("src/main.rs", "std::io::stdin().read_to_string(&mut s)?;", "for l in std::io::stdin().lines() {\n                s.push_str(&l?);\n                s.push('\\n');\n            }"),
   ("src/main.rs", "    use std::io::Read;\n", "")],
  needs="a carriage return before a line end",
  breaks="it is dropped",
  demo=r"""printf '```\na\r\nb\n```\n' | "$tool" >out
grep -q "$(printf 'a\r')" out || fail "$(cat out)"
"""),
"c27-indent": dict(property="C27", script=True,
  edits=[("src/main.rs", "            initial_level: app.start_indent,", "            initial_level: app.start_indent.min(9),")],
  needs="a start indentation above nine levels",
  breaks="the output is indented by nine levels",
  demo=r"""echo a | "$tool" --start-indent 10 --indent-string x >out
[ "$(cat out)" = "xxxxxxxxxx<p>a</p>" ] || fail "$(cat out)"
"""),
"c28-section-id": dict(property="C28",
  edits=[("src/html.rs", "write_attr(id, out)?;", "out.write_str(id)?;")],
  needs="a section or heading whose identifier was replaced by one with a quote",
  breaks="the identifier reaches the attribute unescaped and ends it",
  demo=r"""    let ev = Parser::new("# a\n").map(|e| match e {
        Event::Start(Container::Section { .. }, a) => Event::Start(Container::Section { id: "a\"b".into() }, a),
        e => e,
    });
    let h = html::render_to_string(ev);
    assert!(h.contains("id=\"a&quot;b\""), "{h}");"""),
"c28-raw-pieces": dict(property="C28",
  edits=[("src/html.rs", "                Raw::Html => out.write_str(&s)?,", """                Raw::Html => {
                    out.write_str(&s)?;
                    if !s.ends_with('\\n') {
                        self.raw = Raw::Other;
                    }
                }""")],
  needs="raw html in several text events, none of which ends a line",
  breaks="all but the first piece are dropped",
  demo=r"""    let ev = [
        Event::Start(Container::RawInline { format: "html".into() }, Attributes::new()),
        Event::Str("<i>".into()),
        Event::Str("</i>".into()),
        Event::End(Container::RawInline { format: "html".into() }),
    ];
    assert_eq!(html::render_to_string(ev.into_iter()), "<i></i>");"""),
"c28-mail": dict(property="C28",
  edits=[("src/html.rs", "if matches!(ty, LinkType::Email) {", "if matches!(ty, LinkType::Email) && dst.contains('@') {")],
  needs="a link of the mail kind whose target was replaced by one without at sign",
  breaks="the target is not marked as a mail address",
  demo=r"""    let ev = Parser::new("<a@b>").map(|e| match e {
        Event::Start(Container::Link(_, t), a) => Event::Start(Container::Link("root".into(), t), a),
        e => e,
    });
    let h = html::render_to_string(ev);
    assert!(h.contains("mailto:root"), "{h}");"""),
"c11-two-blocks": dict(property="C11",
  edits=[("src/block.rs", "self.attr_start = self.attr_start.or_else(|| Some(self.events.len() - 1));", "self.attr_start = Some(self.events.len() - 1);")],
  needs="two groups of attributes on lines of their own before a heading that ends a section",
  breaks="the attributes of the first group are dropped: the section before ends between them",
  demo=r"""    let h = html("# a\n\n{.x}\n{k=v}\n# b\n");
    assert!(h.contains("class=\"x\"") && h.contains("k=\"v\""), "{h}");"""),
}
