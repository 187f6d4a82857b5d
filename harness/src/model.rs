//! Reference for whole documents: a tree of blocks from the lines, then events.

use crate::attrs::{group, merged, shown, to_event, Elem};
use crate::minline::{self, C, K};
use jotdown::{
    Alignment, Attributes, Container, Event, LinkType, ListBulletType, ListKind, OrderedListNumbering as Num,
    OrderedListStyle as Style, SpanLinkType,
};

#[derive(Clone, Copy, PartialEq)]
pub enum Ty {
    Bullet(u8),
    Task(u8),
    Ordered(Num, Style, u64),
    Description,
}

enum Kind<'s> {
    Blank,
    Attributes,
    Break,
    Heading(usize),
    Quote,
    Definition { foot: bool, label: &'s str },
    Item(Ty, bool),
    /// Fence character, length and what follows it.
    Fence(u8, usize, &'s str),
    Table,
    Paragraph,
}

struct Line<'s> {
    kind: Kind<'s>,
    indent: usize,
    /// End of the marker.
    mark: usize,
}

pub enum Node<'s> {
    Blank,
    Attributes(Vec<Elem>),
    Break,
    Paragraph(String),
    Heading(usize, String),
    Code(&'s str, String),
    Link(&'s str, String),
    Quote(Vec<Node<'s>>),
    Div(&'s str, Vec<Node<'s>>),
    Footnote(&'s str, Vec<Node<'s>>),
    Item(Ty, bool, Vec<Node<'s>>),
    Table(Option<String>, Vec<(bool, Vec<(Alignment, String)>)>),
}

fn blank(l: &str) -> bool {
    l.trim_ascii().is_empty()
}

fn space_or_end(b: &[u8], i: usize) -> bool {
    b.get(i).is_none_or(u8::is_ascii_whitespace)
}

fn classify(line: &str) -> Line<'_> {
    let indent = line.bytes().take_while(|c| *c != b'\n' && c.is_ascii_whitespace()).count();
    let l = &line[indent..];
    let t = l.trim_ascii_end();
    let b = l.as_bytes();
    let same = |c: u8| b.iter().take_while(|x| **x == c).count();
    let mut mark = 0;
    let kind = match b.first() {
        None | Some(b'\n') => Kind::Blank,
        Some(b'#') if space_or_end(b, same(b'#')) => {
            mark = same(b'#');
            Kind::Heading(mark)
        }
        Some(b'>') if space_or_end(b, 1) => {
            mark = 1;
            Kind::Quote
        }
        Some(b'{') if group(t, t.as_bytes(), 0, &mut Vec::new()) == Ok(t.len()) => Kind::Attributes,
        Some(b'|') if row(t).is_some() => Kind::Table,
        Some(b'[') => match l.find(']') {
            Some(e) if b.get(e + 1) == Some(&b':') => {
                mark = e + 2;
                let foot = b[1] == b'^';
                Kind::Definition { foot, label: &l[1 + usize::from(foot)..e] }
            }
            _ => Kind::Paragraph,
        },
        Some(b'-' | b'*')
            if b.iter().all(|c| b"-*".contains(c) || c.is_ascii_whitespace())
                && b.iter().filter(|c| b"-*".contains(c)).count() >= 3 =>
        {
            Kind::Break
        }
        Some(c @ (b'-' | b'*' | b'+')) if b.len() == 1 || b[1] == b' ' => {
            let task = b.len() >= 5 && b[2] == b'[' && b" xX".contains(&b[3]) && b[4] == b']' && space_or_end(b, 5);
            mark = if task { 5 } else { 1 };
            if task {
                Kind::Item(Ty::Task(*c), b[3] != b' ')
            } else {
                Kind::Item(Ty::Bullet(*c), false)
            }
        }
        Some(b':') if space_or_end(b, 1) => {
            mark = 1;
            Kind::Item(Ty::Description, false)
        }
        Some(c @ (b'`' | b':' | b'~')) => {
            let n = same(*c);
            let spec = t[n..].trim_ascii_start();
            let ok = if *c == b':' {
                spec.bytes().all(|c| c.is_ascii_alphanumeric() || b":_-".contains(&c))
            } else {
                !spec.bytes().any(|c| c == b'`' || c.is_ascii_whitespace())
            };
            if n >= 3 && ok {
                Kind::Fence(*c, n, spec)
            } else {
                Kind::Paragraph
            }
        }
        _ => match ordered(b) {
            Some((ty, n)) => {
                mark = n;
                Kind::Item(ty, false)
            }
            None => Kind::Paragraph,
        },
    };
    Line { kind, indent, mark: indent + mark }
}

fn roman(c: u8) -> Option<u64> {
    Some(match c.to_ascii_lowercase() {
        b'i' => 1,
        b'v' => 5,
        b'x' => 10,
        b'l' => 50,
        b'c' => 100,
        b'd' => 500,
        b'm' => 1000,
        _ => return None,
    })
}

fn ordered(b: &[u8]) -> Option<(Ty, usize)> {
    let paren = b.first() == Some(&b'(');
    let from = usize::from(paren);
    let word = b[from..].iter().take_while(|c| c.is_ascii_alphanumeric()).count();
    let w = &b[from..from + word];
    let style = match (paren, b.get(from + word)?) {
        (true, b')') => Style::ParenParen,
        (false, b')') => Style::Paren,
        (false, b'.') => Style::Period,
        _ => return None,
    };
    if !space_or_end(b, from + word + 1) {
        return None;
    }
    let first = *w.first()?;
    let lower = first.is_ascii_lowercase();
    let case = |c: &u8| c.is_ascii_lowercase() == lower;
    let (num, value) = if w.iter().all(u8::is_ascii_digit) {
        if word > 19 {
            return None;
        }
        (Num::Decimal, w.iter().fold(0, |n, d| n * 10 + u64::from(d - b'0')))
    } else if w.iter().all(|c| case(c) && roman(*c).is_some()) {
        if word > 13 {
            return None;
        }
        // a smaller digit before a larger one is subtracted
        let mut sum = 0i64;
        for (i, c) in w.iter().enumerate() {
            let v = roman(*c).unwrap() as i64;
            let next = w.get(i + 1).and_then(|c| roman(*c)).unwrap_or(0) as i64;
            sum += if v < next { -v } else { v };
        }
        (if lower { Num::RomanLower } else { Num::RomanUpper }, sum as u64)
    } else if word == 1 && first.is_ascii_alphabetic() {
        let v = u64::from(first.to_ascii_lowercase() - b'a') + 1;
        (if lower { Num::AlphaLower } else { Num::AlphaUpper }, v)
    } else {
        return None;
    };
    Some((Ty::Ordered(num, style, value), from + word + 1))
}

/// A roman number that may be a letter instead.
fn letter(ty: Ty) -> Option<Ty> {
    let Ty::Ordered(num, style, value) = ty else { return None };
    let num = match num {
        Num::RomanLower => Num::AlphaLower,
        Num::RomanUpper => Num::AlphaUpper,
        _ => return None,
    };
    let c = b"ivxlcdm".iter().find(|c| roman(**c) == Some(value))?;
    Some(Ty::Ordered(num, style, u64::from(c - b'a') + 1))
}

/// Types of two consecutive items if they belong to one list.
fn join(a: Ty, b: Ty) -> Option<(Ty, Ty)> {
    let (Ty::Ordered(n0, s0, _), Ty::Ordered(n1, s1, _)) = (a, b) else {
        return (a == b).then_some((a, b));
    };
    if s0 != s1 {
        return None;
    }
    if n0 == n1 {
        return Some((a, b));
    }
    let follows = |a: Ty, b: Ty| match (a, b) {
        (Ty::Ordered(n0, _, v0), Ty::Ordered(n1, _, v1)) => n0 == n1 && v0 + 1 == v1,
        _ => false,
    };
    if let Some(l) = letter(a) {
        return follows(l, b).then_some((l, b));
    }
    letter(b).filter(|l| follows(a, *l)).map(|l| (a, l))
}

/// The cells of a table row.
fn row(t: &str) -> Option<Vec<&str>> {
    let b = t.as_bytes();
    if b.len() < 2 || b[0] != b'|' {
        return None;
    }
    let mut cells = Vec::new();
    let (mut i, mut from) = (1, 1);
    let mut verbatim = 0;
    while i < b.len() {
        match b[i] {
            b'`' => {
                let n = b[i..].iter().take_while(|c| **c == b'`').count();
                if verbatim == 0 {
                    verbatim = n;
                } else if verbatim == n {
                    verbatim = 0;
                }
                i += n;
            }
            b'\\' if verbatim == 0 && b.get(i + 1).is_some_and(u8::is_ascii_punctuation) => i += 2,
            b'|' if verbatim == 0 => {
                cells.push(t[from..i].trim_ascii());
                i += 1;
                from = i;
            }
            _ => i += 1,
        }
    }
    (from == b.len()).then_some(cells)
}

fn separator(c: &str) -> Option<Alignment> {
    let l = c.starts_with(':');
    let r = c.len() > 1 && c.ends_with(':');
    let mid = &c[usize::from(l)..c.len() - usize::from(r)];
    if mid.is_empty() || mid.bytes().any(|c| c != b'-') {
        return None;
    }
    Some(match (l, r) {
        (true, true) => Alignment::Center,
        (true, false) => Alignment::Left,
        (false, true) => Alignment::Right,
        _ => Alignment::Unspecified,
    })
}

pub fn lines(src: &str) -> Vec<&str> {
    src.split_inclusive('\n').collect()
}

/// Number of lines of the block that begins with the first one.
fn extent(lines: &[&str]) -> usize {
    let first = classify(lines[0]);
    let mut n = 1;
    match first.kind {
        Kind::Blank | Kind::Attributes | Kind::Break => {}
        Kind::Paragraph => {
            while n < lines.len() && !blank(lines[n]) {
                n += 1;
            }
        }
        Kind::Quote => {
            while n < lines.len() && matches!(classify(lines[n]).kind, Kind::Quote | Kind::Paragraph) {
                n += 1;
            }
        }
        Kind::Heading(level) => {
            while n < lines.len()
                && match classify(lines[n]).kind {
                    Kind::Paragraph => true,
                    Kind::Heading(l) => l == level,
                    _ => false,
                }
            {
                n += 1;
            }
        }
        Kind::Item(..) | Kind::Definition { foot: true, .. } => {
            let mut after_blank = false;
            while n < lines.len() {
                let l = classify(lines[n]);
                let b = matches!(l.kind, Kind::Blank);
                if !b && l.indent <= first.indent && (after_blank || !matches!(l.kind, Kind::Paragraph)) {
                    break;
                }
                after_blank = b;
                n += 1;
            }
        }
        Kind::Definition { foot: false, .. } => {
            while n < lines.len() && matches!(classify(lines[n]), Line { indent, kind, .. } if indent > first.indent && !matches!(kind, Kind::Blank)) {
                n += 1;
            }
        }
        Kind::Fence(c, len, _) => n = fenced(lines, c, len).0,
        Kind::Table => {
            let mut end = 1;
            let mut gap = false;
            while n < lines.len() {
                let t = lines[n].trim_ascii();
                if t.is_empty() {
                    gap = true;
                } else if t.starts_with("^ ") {
                    while n < lines.len() && !blank(lines[n]) {
                        n += 1;
                    }
                    end = n;
                    break;
                } else if !gap && row(t).is_some() {
                    end = n + 1;
                } else {
                    break;
                }
                n += 1;
            }
            n = end;
        }
    }
    n
}

/// Number of lines of a fenced block, and whether the last one closes it.
fn fenced(lines: &[&str], c: u8, len: usize) -> (usize, bool) {
    // a div is not closed within a code block
    let mut code = None;
    for (i, l) in lines.iter().enumerate().skip(1) {
        let Kind::Fence(d, m, spec) = classify(l).kind else { continue };
        match code {
            Some((e, k)) if d == e && m >= k && spec.is_empty() => code = None,
            Some(_) => {}
            None if c == d && m >= len && spec.is_empty() => return (i + 1, true),
            None if c == b':' && d != b':' => code = Some((d, m)),
            None => {}
        }
    }
    (lines.len(), false)
}

/// Removes up to n leading blanks, but not the line end.
fn strip(l: &str, n: usize) -> &str {
    let k = l.bytes().take_while(|c| *c != b'\n' && c.is_ascii_whitespace()).count();
    &l[k.min(n)..]
}

/// Joins the lines of inline content.
fn inline<'s>(ls: impl Iterator<Item = &'s str>) -> String {
    let mut s: String = ls.map(str::trim_ascii_start).collect();
    s.truncate(s.trim_ascii_end().len());
    s
}

pub fn blocks<'s>(lines: &[&'s str]) -> Vec<Node<'s>> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < lines.len() {
        let n = extent(&lines[i..]);
        out.push(block(&lines[i..i + n]));
        i += n;
    }
    out
}

fn block<'s>(ls: &[&'s str]) -> Node<'s> {
    let Line { kind, indent, mark } = classify(ls[0]);
    let rest = &ls[0][mark..];
    // a marker alone leaves an empty line
    let children = |first: &'s str, next: &dyn Fn(&'s str) -> &'s str| -> Vec<Node<'s>> {
        blocks(&std::iter::once(first).chain(ls[1..].iter().map(|l| next(l))).collect::<Vec<_>>())
    };
    match kind {
        Kind::Blank => Node::Blank,
        Kind::Attributes => {
            let mut e = Vec::new();
            let t = ls[0].trim_ascii();
            let _ = group(t, t.as_bytes(), 0, &mut e);
            Node::Attributes(e)
        }
        Kind::Break => Node::Break,
        Kind::Paragraph => Node::Paragraph(inline(ls.iter().copied())),
        Kind::Heading(level) => {
            let next = |l: &'s str| match classify(l) {
                Line { kind: Kind::Heading(_), mark, .. } => &l[mark..],
                _ => l,
            };
            Node::Heading(level, inline(std::iter::once(rest).chain(ls[1..].iter().map(|l| next(l)))))
        }
        Kind::Quote => {
            let next = |l: &'s str| match classify(l) {
                Line { kind: Kind::Quote, mark, .. } => strip(&l[mark..], 1),
                _ => l,
            };
            Node::Quote(children(strip(rest, 1), &next))
        }
        Kind::Item(ty, on) => Node::Item(ty, on, children(rest, &|l| strip(l, mark))),
        Kind::Definition { foot: true, label } => Node::Footnote(label, children(rest, &|l| strip(l, mark))),
        Kind::Definition { foot: false, label } => {
            Node::Link(label, std::iter::once(rest).chain(ls[1..].iter().copied()).map(str::trim_ascii).collect())
        }
        Kind::Fence(c, len, spec) => {
            let end = ls.len() - usize::from(fenced(ls, c, len).1);
            let body: Vec<&str> = ls[1..end].iter().map(|l| strip(l, indent)).collect();
            if c == b':' {
                return Node::Div(spec, blocks(&body));
            }
            let mut text = body.concat();
            if spec.starts_with('=') {
                // the blanks at the end of the last line
                let last = body.last().map_or(0, |l| l.len() - l.trim_ascii_end().len());
                text.truncate(text.len() - last);
            }
            Node::Code(spec, text)
        }
        Kind::Table => {
            let cap = ls.iter().position(|l| l.trim_ascii_start().starts_with('^'));
            let caption = cap.map(|i| {
                inline(std::iter::once(&ls[i].trim_ascii_start()[2..]).chain(ls[i + 1..].iter().copied()))
            });
            let mut rows: Vec<(bool, Vec<(Alignment, String)>)> = Vec::new();
            let mut align: Vec<Alignment> = Vec::new();
            for l in &ls[..cap.unwrap_or(ls.len())] {
                let Some(cells) = row(l.trim_ascii()) else { break };
                let seps: Option<Vec<Alignment>> = cells.iter().map(|c| separator(c)).collect();
                let of = |a: &[Alignment], i: usize| a.get(i).copied().unwrap_or(Alignment::Unspecified);
                if let Some(s) = seps {
                    align = s;
                    if let Some((head, cells)) = rows.last_mut() {
                        *head = true;
                        for (i, c) in cells.iter_mut().enumerate() {
                            c.0 = of(&align, i);
                        }
                    }
                } else {
                    rows.push((false, cells.iter().enumerate().map(|(i, c)| (of(&align, i), c.to_string())).collect()));
                }
            }
            Node::Table(caption, rows)
        }
    }
}

/// What references can refer to.
#[derive(Default)]
pub struct Refs {
    defs: Vec<(String, String, Vec<Elem>)>,
    /// Text and identifier of each heading.
    pub heads: Vec<(String, String)>,
    auto: Vec<String>,
}

impl Refs {
    fn collect(&mut self, nodes: &[Node]) {
        let mut attrs: Vec<Elem> = Vec::new();
        for n in nodes {
            match n {
                Node::Attributes(e) => {
                    attrs.extend(e.iter().cloned());
                    continue;
                }
                Node::Link(label, url) => self.defs.push((label.to_string(), url.clone(), std::mem::take(&mut attrs))),
                Node::Heading(_, s) => self.heading(s, &attrs),
                Node::Quote(k) | Node::Div(_, k) | Node::Footnote(_, k) | Node::Item(_, _, k) => self.collect(k),
                _ => {}
            }
            attrs.clear();
        }
    }

    fn heading(&mut self, s: &str, attrs: &[Elem]) {
        let p = minline::parse(s);
        let text = minline::text(s, &p.ev);
        let mut words = String::new();
        for e in &p.ev {
            match e.k {
                K::Str => words.push_str(&s[e.a..e.b]),
                K::Soft | K::Hard => words.push(' '),
                _ => {}
            }
        }
        let mut id = String::new();
        let mut gap = false;
        for c in words.chars() {
            if c.is_ascii_whitespace() {
                gap = true;
            } else if !c.is_ascii_punctuation() || c == '-' || c == '_' {
                if gap && !id.is_empty() {
                    id.push('-');
                }
                gap = false;
                id.push(c);
            }
        }
        let id = id.trim_end_matches('-');
        let mut auto = id.to_string();
        let mut n = 0;
        while auto.is_empty() || self.auto.contains(&auto) {
            n += 1;
            auto = format!("{}-{n}", if id.is_empty() { "s" } else { id });
        }
        self.auto.push(auto.clone());
        let explicit = merged(attrs).into_iter().find(|(k, _)| k == "id");
        self.heads.push((text, explicit.map_or(auto, |(_, v)| shown(&v))));
    }

    fn resolve(&self, label: &str) -> Option<(String, Vec<Elem>)> {
        if let Some((_, url, a)) = self.defs.iter().rev().find(|d| d.0 == label) {
            return Some((url.clone(), a.clone()));
        }
        self.heads.iter().find(|h| h.0 == label).map(|h| (format!("#{}", h.1), Vec::new()))
    }

    /// Whether two targets are headings of the same text.
    pub fn alike(&self, a: &str, b: &str) -> bool {
        let (Some(a), Some(b)) = (a.strip_prefix('#'), b.strip_prefix('#')) else { return false };
        self.heads.iter().any(|x| x.1 == a && self.heads.iter().any(|y| y.1 == b && x.0 == y.0))
    }
}

pub struct Doc {
    pub ev: Vec<Event<'static>>,
    pub refs: Refs,
    head: usize,
    pub odd: bool,
    sections: Vec<(usize, String)>,
    /// The tightness of each list, if specified.
    pub tight: Vec<Option<bool>>,
}

pub fn document(src: &str) -> Doc {
    let nodes = blocks(&lines(src));
    let mut refs = Refs::default();
    refs.collect(&nodes);
    let mut d = Doc { ev: Vec::new(), refs, head: 0, odd: false, sections: Vec::new(), tight: Vec::new() };
    d.ev.push(Event::Start(Container::Document, Attributes::new()));
    d.nodes(&nodes, true);
    while let Some((_, id)) = d.sections.pop() {
        d.ev.push(Event::End(Container::Section { id: id.into() }));
    }
    d.ev.push(Event::End(Container::Document));
    d
}

impl Doc {
    fn start(&mut self, c: Container<'static>, a: &mut Vec<Elem>) {
        let a = std::mem::take(a);
        self.ev.push(Event::Start(c, to_event(&a)));
    }

    fn around(&mut self, c: Container<'static>, a: &mut Vec<Elem>, f: impl FnOnce(&mut Self)) {
        self.start(c.clone(), a);
        f(self);
        self.ev.push(Event::End(c));
    }

    fn nodes(&mut self, nodes: &[Node], top: bool) {
        let mut attrs: Vec<Elem> = Vec::new();
        let mut i = 0;
        while i < nodes.len() {
            match &nodes[i] {
                Node::Blank => {
                    if !attrs.is_empty() || i > 0 && matches!(nodes[i - 1], Node::Attributes(_)) {
                        self.ev.push(Event::Attributes(to_event(&attrs)));
                        attrs.clear();
                    }
                    self.ev.push(Event::Blankline);
                }
                Node::Attributes(e) => attrs.extend(e.iter().cloned()),
                Node::Break => {
                    let a = std::mem::take(&mut attrs);
                    self.ev.push(Event::ThematicBreak(to_event(&a)));
                }
                Node::Paragraph(s) => self.around(Container::Paragraph, &mut attrs, |d| d.inline(s)),
                Node::Heading(level, s) => {
                    let id = self.refs.heads[self.head].1.clone();
                    self.head += 1;
                    if top {
                        while self.sections.last().is_some_and(|s| s.0 >= *level) {
                            let (_, id) = self.sections.pop().unwrap();
                            self.ev.push(Event::End(Container::Section { id: id.into() }));
                        }
                        self.sections.push((*level, id.clone()));
                        self.start(Container::Section { id: id.clone().into() }, &mut attrs);
                    }
                    let level = u16::try_from(*level).unwrap_or(u16::MAX);
                    let c = Container::Heading { level, has_section: top, id: id.into() };
                    self.around(c, &mut attrs, |d| d.inline(s));
                }
                Node::Code(spec, text) => {
                    let c = match spec.strip_prefix('=') {
                        Some(f) => Container::RawBlock { format: f.to_string().into() },
                        None => Container::CodeBlock { language: spec.to_string().into() },
                    };
                    self.around(c, &mut attrs, |d| d.str(text));
                }
                Node::Link(label, url) => {
                    let c = Container::LinkDefinition { label: label.to_string().into() };
                    self.around(c, &mut attrs, |d| d.str(url));
                }
                Node::Quote(k) => self.around(Container::Blockquote, &mut attrs, |d| d.nodes(k, false)),
                Node::Div(class, k) => {
                    self.around(Container::Div { class: class.to_string().into() }, &mut attrs, |d| d.nodes(k, false));
                }
                Node::Footnote(l, k) => {
                    self.around(Container::Footnote { label: l.to_string().into() }, &mut attrs, |d| d.nodes(k, false));
                }
                Node::Table(caption, rows) => self.around(Container::Table, &mut attrs, |d| d.table(caption, rows)),
                Node::Item(ty, ..) => {
                    let (mut first, mut prev) = (*ty, *ty);
                    let mut end = i + 1;
                    while let Some(Node::Item(next, ..)) = nodes.get(end) {
                        let Some((a, b)) = join(prev, *next) else { break };
                        if first == prev {
                            first = a;
                        }
                        prev = b;
                        end += 1;
                    }
                    self.list(first, &nodes[i..end], &mut attrs);
                    i = end - 1;
                }
            }
            i += 1;
        }
        if !attrs.is_empty() || matches!(nodes.last(), Some(Node::Attributes(_))) {
            self.ev.push(Event::Attributes(to_event(&attrs)));
        }
    }

    fn list(&mut self, ty: Ty, items: &[Node], attrs: &mut Vec<Elem>) {
        if ty == Ty::Description {
            return self.around(Container::DescriptionList, attrs, |d| {
                for it in items {
                    let Node::Item(_, _, k) = it else { unreachable!() };
                    let none = &mut Vec::new();
                    let mut rest = &k[..];
                    d.start(Container::DescriptionTerm, none);
                    if let Some(Node::Paragraph(s)) = k.first() {
                        d.inline(s);
                        rest = &k[1..];
                    }
                    d.ev.push(Event::End(Container::DescriptionTerm));
                    while rest.len() < k.len() && matches!(rest.first(), Some(Node::Blank)) {
                        d.ev.push(Event::Blankline);
                        rest = &rest[1..];
                    }
                    d.around(Container::DescriptionDetails, none, |d| d.nodes(rest, false));
                }
            });
        }
        let b = |c: u8| ListBulletType::try_from(c).unwrap();
        let kind = match ty {
            Ty::Bullet(c) => ListKind::Unordered(b(c)),
            Ty::Task(c) => ListKind::Task(b(c)),
            Ty::Ordered(numbering, style, start) => ListKind::Ordered { numbering, style, start },
            Ty::Description => unreachable!(),
        };
        let t = tight(items);
        self.tight.push(t);
        self.around(Container::List { kind, tight: t.unwrap_or(false) }, attrs, |d| {
            for it in items {
                let Node::Item(_, checked, k) = it else { unreachable!() };
                let c = if let Ty::Task(_) = ty { Container::TaskListItem { checked: *checked } } else { Container::ListItem };
                d.around(c, &mut Vec::new(), |d| d.nodes(k, false));
            }
        });
    }

    fn table(&mut self, caption: &Option<String>, rows: &[(bool, Vec<(Alignment, String)>)]) {
        let none = &mut Vec::new();
        if let Some(s) = caption {
            self.around(Container::Caption, none, |d| d.inline(s));
        }
        for (head, cells) in rows {
            self.around(Container::TableRow { head: *head }, &mut Vec::new(), |d| {
                for (alignment, s) in cells {
                    let c = Container::TableCell { alignment: *alignment, head: *head };
                    d.around(c, &mut Vec::new(), |d| d.inline(s));
                }
            });
        }
    }

    fn str(&mut self, s: &str) {
        if !s.is_empty() {
            self.ev.push(Event::Str(s.to_string().into()));
        }
    }

    fn inline(&mut self, s: &str) {
        let p = minline::parse(s);
        self.odd |= p.odd;
        let ev = p.ev;
        let mut i = 0;
        let mut attrs: Vec<Elem> = Vec::new();
        while i < ev.len() {
            let e = &ev[i];
            i += 1;
            let t = &s[e.a..e.b];
            let new = match &e.k {
                K::Str => {
                    let word = |i: usize| match ev.get(i).map(|e| &e.k) {
                        Some(K::Word(w)) => Some(w),
                        _ => None,
                    };
                    let (mut a, mut b) = (e.a, e.b);
                    if a == b && word(i).is_none() {
                        continue;
                    }
                    while i < ev.len() && matches!(ev[i].k, K::Str | K::Mark) && ev[i].a == b {
                        b = ev[i].b;
                        i += 1;
                    }
                    if let Some(w) = word(i) {
                        i += 1;
                        if let Some(k) = s[a..b].bytes().rposition(|c| c.is_ascii_whitespace()) {
                            self.str(&s[a..a + k + 1]);
                            a += k + 1;
                        }
                        if a == b {
                            self.ev.push(Event::Attributes(to_event(w)));
                        } else {
                            self.around(Container::Span, &mut w.clone(), |d| d.str(&s[a..b]));
                        }
                    } else {
                        self.str(&s[a..b]);
                    }
                    continue;
                }
                K::Mark => continue,
                K::Attr(a) => {
                    attrs = a.clone();
                    continue;
                }
                K::Word(w) => Event::Attributes(to_event(w)),
                K::Open(c) => {
                    let (c, def) = self.container(c);
                    attrs.splice(..0, def);
                    let a = std::mem::take(&mut attrs);
                    Event::Start(c, to_event(&a))
                }
                K::Close(c) => Event::End(self.container(c).0),
                K::Escape => Event::Escape,
                K::Nbsp => Event::NonBreakingSpace,
                K::Soft => Event::Softbreak,
                K::Hard => Event::Hardbreak,
                K::Ellipsis => Event::Ellipsis,
                K::En => Event::EnDash,
                K::Em => Event::EmDash,
                K::Quote { single: true, left: true } => Event::LeftSingleQuote,
                K::Quote { single: true, left: false } => Event::RightSingleQuote,
                K::Quote { single: false, left: true } => Event::LeftDoubleQuote,
                K::Quote { single: false, left: false } => Event::RightDoubleQuote,
                K::Symbol => Event::Symbol(t[1..t.len() - 1].to_string().into()),
                K::Footnote => Event::FootnoteReference(t[2..t.len() - 1].to_string().into()),
            };
            self.ev.push(new);
        }
    }

    fn container(&self, c: &C) -> (Container<'static>, Vec<Elem>) {
        let c = match c {
            C::Span => Container::Span,
            C::Pair(b'*') => Container::Strong,
            C::Pair(b'_') => Container::Emphasis,
            C::Pair(b'^') => Container::Superscript,
            C::Pair(b'~') => Container::Subscript,
            C::Pair(b'=') => Container::Mark,
            C::Pair(b'+') => Container::Insert,
            C::Pair(_) => Container::Delete,
            C::Verbatim => Container::Verbatim,
            C::Raw(f) => Container::RawInline { format: f.clone().into() },
            C::Math(display) => Container::Math { display: *display },
            C::Auto(u) => {
                let ty = if u.contains('@') { LinkType::Email } else { LinkType::AutoLink };
                Container::Link(u.clone().into(), ty)
            }
            C::Link { image, inline, dst } => {
                let (dst, ty, attrs) = if *inline {
                    (dst.clone(), SpanLinkType::Inline, Vec::new())
                } else {
                    match self.refs.resolve(dst) {
                        Some((u, a)) => (u, SpanLinkType::Reference, a),
                        None => (dst.clone(), SpanLinkType::Unresolved, Vec::new()),
                    }
                };
                let c = if *image {
                    Container::Image(dst.into(), ty)
                } else {
                    Container::Link(dst.into(), LinkType::Span(ty))
                };
                return (c, attrs);
            }
        };
        (c, Vec::new())
    }
}

/// Whether no blank line separates items or blocks of the items, apart from those in lists in
/// them; unspecified if only the last block follows one.
fn tight(items: &[Node]) -> Option<bool> {
    let mut t = Tight { blank: false, loose: false, sure: false };
    for (i, it) in items.iter().enumerate() {
        let Node::Item(_, _, k) = it else { unreachable!() };
        t.block(i > 0);
        t.walk(k, false);
    }
    match t {
        Tight { loose: false, .. } => Some(true),
        Tight { sure: true, .. } => Some(false),
        _ => None,
    }
}

struct Tight {
    blank: bool,
    loose: bool,
    sure: bool,
}

impl Tight {
    fn block(&mut self, counts: bool) {
        self.sure |= self.loose;
        self.loose |= counts && self.blank;
        self.blank = false;
    }

    fn walk(&mut self, nodes: &[Node], nested: bool) {
        for (i, n) in nodes.iter().enumerate() {
            match n {
                // the rest of a marker's line is not a blank line
                Node::Blank => self.blank |= i > 0,
                Node::Item(_, _, k) => {
                    self.block(false);
                    self.walk(k, true);
                    // blank lines at the end of a list do not count
                    if i + 1 == nodes.len() {
                        self.blank = false;
                    }
                }
                n => {
                    self.block(!nested);
                    match n {
                        Node::Quote(k) | Node::Div(_, k) | Node::Footnote(_, k) => self.walk(k, nested),
                        _ => {}
                    }
                }
            }
        }
    }
}
