//! Reference renderer: a direct recursive transcription of the documented element mapping over the
//! tree of events, written independently of src/html.rs.

use jotdown::{Alignment, Attributes, Container, Event, LinkType, ListKind, OrderedListNumbering, SpanLinkType};

pub enum Node<'a, 's> {
    Elem(&'a Container<'s>, &'a Attributes<'s>, Vec<Node<'a, 's>>),
    Leaf(&'a Event<'s>),
}

/// Tree of a well-formed event stream; None if it is not well formed (that is C02's business).
pub fn tree<'a, 's>(ev: &'a [Event<'s>]) -> Option<Vec<Node<'a, 's>>> {
    let mut stack: Vec<(&'a Container<'s>, &'a Attributes<'s>, Vec<Node<'a, 's>>)> = Vec::new();
    let mut top = Vec::new();
    for e in ev {
        let done = match e {
            Event::Start(c, a) => {
                stack.push((c, a, Vec::new()));
                continue;
            }
            Event::End(_) => {
                let (c, a, kids) = stack.pop()?;
                Node::Elem(c, a, kids)
            }
            e => Node::Leaf(e),
        };
        match stack.last_mut() {
            Some(x) => x.2.push(done),
            None => top.push(done),
        }
    }
    if stack.is_empty() {
        Some(top)
    } else {
        None
    }
}

#[derive(Clone)]
pub enum Layout<'l> {
    Minified,
    Lines(&'l str, usize),
}

struct Writer<'a, 's, 'l> {
    layout: Layout<'l>,
    out: String,
    depth: usize,
    tight: Vec<bool>,
    alt: usize,
    refs: Vec<&'a str>,
    notes: Vec<(&'a str, &'a [Node<'a, 's>])>,
}

pub const ENDNOTES: &str = "<section role=\"doc-endnotes\">";

pub fn escape(s: &str, attr: bool, out: &mut String) {
    for c in s.chars() {
        match c {
            '&' => out.push_str("&amp;"),
            '<' => out.push_str("&lt;"),
            '>' => out.push_str("&gt;"),
            '"' if attr => out.push_str("&quot;"),
            c => out.push(c),
        }
    }
}

pub fn number(mut n: u64, out: &mut String) {
    let mut d = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        d[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    for c in &d[i..] {
        out.push(*c as char);
    }
}

fn collect<'a, 's>(nodes: &'a [Node<'a, 's>], notes: &mut Vec<(&'a str, &'a [Node<'a, 's>])>) {
    for n in nodes {
        if let Node::Elem(c, _, kids) = n {
            collect(kids, notes);
            if let Container::Footnote { label } = c {
                notes.retain(|(l, _)| *l != label.as_ref());
                notes.push((label, kids));
            }
        }
    }
}

/// The merged user attributes: (key, displayed value), each key once.
pub fn merged(attrs: &Attributes) -> Vec<(String, String)> {
    let mut m: Vec<(String, String)> = Vec::new();
    for (k, v) in attrs.iter() {
        let Some(key) = k.key() else { continue };
        let v = v.to_string();
        match m.iter_mut().find(|(k, _)| k == key) {
            None => m.push((key.to_string(), v)),
            Some((_, old)) if key == "class" => {
                if !v.is_empty() {
                    if !old.is_empty() {
                        old.push(' ');
                    }
                    old.push_str(&v);
                }
            }
            Some((_, old)) => *old = v,
        }
    }
    m
}

impl<'a, 's> Writer<'a, 's, '_> {
    fn brk(&mut self) {
        if let Layout::Lines(s, _) = self.layout {
            self.out.push('\n');
            for _ in 0..self.depth {
                self.out.push_str(s);
            }
        }
    }

    fn kids(&mut self, kids: &'a [Node<'a, 's>]) {
        for k in kids {
            self.node(k);
        }
    }

    fn open(&mut self, tag: &str, attrs: &Attributes, own: &[(&str, &str)], class: &str, id: &str) {
        self.out.push('<');
        self.out.push_str(tag);
        for (k, v) in own {
            self.attr(k, v);
        }
        let mut m = merged(attrs);
        if !class.is_empty() {
            match m.iter_mut().find(|(k, _)| k == "class") {
                Some((_, v)) => {
                    v.push(' ');
                    v.push_str(class);
                }
                None => m.push(("class".into(), class.into())),
            }
        }
        if !id.is_empty() && !m.iter().any(|(k, _)| k == "id") {
            m.push(("id".into(), id.into()));
        }
        for (k, v) in &m {
            self.attr(k, v);
        }
    }

    fn attr(&mut self, k: &str, v: &str) {
        self.out.push(' ');
        self.out.push_str(k);
        self.out.push_str("=\"");
        escape(v, true, &mut self.out);
        self.out.push('"');
    }

    fn wrap(&mut self, tag: &str, attrs: &Attributes, kids: &'a [Node<'a, 's>]) {
        self.open(tag, attrs, &[], "", "");
        self.out.push('>');
        self.kids(kids);
        self.close(tag);
    }

    fn close(&mut self, tag: &str) {
        self.out.push_str("</");
        self.out.push_str(tag);
        self.out.push('>');
    }

    /// Block container: children one level deeper, end tag on its own line.
    fn boxed(&mut self, tag: &str, attrs: &Attributes, own: &[(&str, &str)], class: &str, id: &str, pre: &str, kids: &'a [Node<'a, 's>]) {
        self.brk();
        self.open(tag, attrs, own, class, id);
        self.out.push('>');
        self.depth += 1;
        if !pre.is_empty() {
            self.brk();
            self.out.push_str(pre);
        }
        self.kids(kids);
        self.depth -= 1;
        self.brk();
        self.close(tag);
    }

    fn node(&mut self, n: &'a Node<'a, 's>) {
        let (c, a, kids) = match n {
            Node::Leaf(e) => return self.leaf(e),
            Node::Elem(c, a, kids) => (*c, *a, &kids[..]),
        };
        if self.alt > 0 {
            return self.kids(kids);
        }
        match c {
            Container::Document => {
                self.kids(kids);
                self.epilogue();
            }
            Container::Footnote { .. } | Container::LinkDefinition { .. } => {}
            Container::Blockquote => self.boxed("blockquote", a, &[], "", "", "", kids),
            Container::List { kind, tight } => {
                self.tight.push(*tight);
                match kind {
                    ListKind::Unordered(_) => self.boxed("ul", a, &[], "", "", "", kids),
                    ListKind::Task(_) => self.boxed("ul", a, &[], "task-list", "", "", kids),
                    ListKind::Ordered { numbering, start, .. } => {
                        let mut n = String::new();
                        number(*start, &mut n);
                        let mut own: Vec<(&str, &str)> = Vec::new();
                        if *start > 1 {
                            own.push(("start", &n));
                        }
                        match numbering {
                            OrderedListNumbering::Decimal => {}
                            OrderedListNumbering::AlphaLower => own.push(("type", "a")),
                            OrderedListNumbering::AlphaUpper => own.push(("type", "A")),
                            OrderedListNumbering::RomanLower => own.push(("type", "i")),
                            OrderedListNumbering::RomanUpper => own.push(("type", "I")),
                        }
                        self.boxed("ol", a, &own, "", "", "", kids)
                    }
                }
                self.tight.pop();
            }
            Container::ListItem => self.boxed("li", a, &[], "", "", "", kids),
            Container::TaskListItem { checked } => {
                let b = if *checked {
                    "<input disabled=\"\" type=\"checkbox\" checked=\"\"/>"
                } else {
                    "<input disabled=\"\" type=\"checkbox\"/>"
                };
                self.boxed("li", a, &[], "", "", b, kids)
            }
            Container::DescriptionList => self.boxed("dl", a, &[], "", "", "", kids),
            Container::DescriptionDetails => self.boxed("dd", a, &[], "", "", "", kids),
            Container::Table => self.boxed("table", a, &[], "", "", "", kids),
            Container::TableRow { .. } => self.boxed("tr", a, &[], "", "", "", kids),
            Container::Section { id } => self.boxed("section", a, &[], "", id, "", kids),
            Container::Div { class } => self.boxed("div", a, &[], class, "", "", kids),
            Container::Paragraph => {
                self.brk();
                if self.tight.last() == Some(&true) {
                    self.kids(kids);
                } else {
                    self.wrap("p", a, kids);
                }
            }
            Container::Heading { level, has_section, id } => {
                self.brk();
                let mut tag = String::from("h");
                number(u64::from(*level), &mut tag);
                self.open(&tag, a, &[], "", if *has_section { "" } else { id });
                self.out.push('>');
                self.kids(kids);
                self.close(&tag);
            }
            Container::TableCell { alignment, head } => {
                self.brk();
                let tag = if *head { "th" } else { "td" };
                self.open(tag, a, &[], "", "");
                match alignment {
                    Alignment::Unspecified => {}
                    Alignment::Left => self.attr("style", "text-align: left;"),
                    Alignment::Center => self.attr("style", "text-align: center;"),
                    Alignment::Right => self.attr("style", "text-align: right;"),
                }
                self.out.push('>');
                self.kids(kids);
                self.close(tag);
            }
            Container::Caption => {
                self.brk();
                self.wrap("caption", a, kids)
            }
            Container::DescriptionTerm => {
                self.brk();
                self.wrap("dt", a, kids)
            }
            Container::CodeBlock { language } => {
                self.brk();
                self.open("pre", a, &[], "", "");
                self.out.push_str("><code");
                if !language.is_empty() {
                    let mut l = String::from("language-");
                    l.push_str(language);
                    self.attr("class", &l);
                }
                self.out.push('>');
                self.kids(kids);
                self.out.push_str("</code></pre>");
            }
            Container::RawBlock { format } => {
                self.brk();
                self.raw(format, kids);
            }
            Container::RawInline { format } => self.raw(format, kids),
            Container::Span => self.wrap("span", a, kids),
            Container::Math { display } => {
                self.open("span", a, &[], if *display { "math display" } else { "math inline" }, "");
                self.out.push_str(if *display { ">\\[" } else { ">\\(" });
                self.kids(kids);
                self.out.push_str(if *display { "\\]</span>" } else { "\\)</span>" });
            }
            Container::Link(dst, ty) => {
                let to = match ty {
                    LinkType::Email => format!("mailto:{dst}"),
                    _ => dst.to_string(),
                };
                if *ty == LinkType::Span(SpanLinkType::Unresolved) {
                    self.open("a", a, &[], "", "");
                } else {
                    self.open("a", a, &[("href", &to)], "", "");
                }
                self.out.push('>');
                self.kids(kids);
                self.close("a");
            }
            Container::Image(src, _) => {
                self.open("img", a, &[], "", "");
                self.out.push_str(" alt=\"");
                self.alt += 1;
                self.kids(kids);
                self.alt -= 1;
                self.out.push('"');
                if !src.is_empty() {
                    self.attr("src", src);
                }
                self.out.push('>');
            }
            Container::Verbatim => self.wrap("code", a, kids),
            Container::Subscript => self.wrap("sub", a, kids),
            Container::Superscript => self.wrap("sup", a, kids),
            Container::Insert => self.wrap("ins", a, kids),
            Container::Delete => self.wrap("del", a, kids),
            Container::Strong => self.wrap("strong", a, kids),
            Container::Emphasis => self.wrap("em", a, kids),
            Container::Mark => self.wrap("mark", a, kids),
        }
    }

    fn raw(&mut self, format: &str, kids: &'a [Node<'a, 's>]) {
        for k in kids {
            if let (Node::Leaf(Event::Str(s)), "html") = (k, format) {
                self.out.push_str(s);
            }
        }
    }

    fn leaf(&mut self, e: &'a Event<'s>) {
        match e {
            Event::Start(..) | Event::End(..) => {}
            Event::Str(s) => escape(s, self.alt > 0, &mut self.out),
            Event::FootnoteReference(l) => {
                if self.alt > 0 {
                    return;
                }
                let n = match self.refs.iter().position(|x| *x == l.as_ref()) {
                    Some(i) => i + 1,
                    None => {
                        self.refs.push(l);
                        self.refs.len()
                    }
                };
                self.out.push_str("<a id=\"fnref");
                number(n as u64, &mut self.out);
                self.out.push_str("\" href=\"#fn");
                number(n as u64, &mut self.out);
                self.out.push_str("\" role=\"doc-noteref\"><sup>");
                number(n as u64, &mut self.out);
                self.out.push_str("</sup></a>");
            }
            Event::Symbol(s) => {
                self.out.push(':');
                escape(s, self.alt > 0, &mut self.out);
                self.out.push(':');
            }
            Event::LeftSingleQuote => self.out.push('\u{2018}'),
            Event::RightSingleQuote => self.out.push('\u{2019}'),
            Event::LeftDoubleQuote => self.out.push('\u{201c}'),
            Event::RightDoubleQuote => self.out.push('\u{201d}'),
            Event::Ellipsis => self.out.push('\u{2026}'),
            Event::EnDash => self.out.push('\u{2013}'),
            Event::EmDash => self.out.push('\u{2014}'),
            Event::NonBreakingSpace => self.out.push_str("&nbsp;"),
            Event::Softbreak | Event::Hardbreak if self.alt > 0 => self.out.push('\n'),
            Event::Softbreak => match self.layout {
                Layout::Minified => self.out.push('\n'),
                _ => self.brk(),
            },
            Event::Hardbreak => {
                self.out.push_str("<br>");
                self.brk();
            }
            Event::Escape | Event::Blankline | Event::Attributes(_) => {}
            Event::ThematicBreak(a) => {
                self.brk();
                self.open("hr", a, &[], "", "");
                self.out.push('>');
            }
        }
    }

    fn epilogue(&mut self) {
        if !self.refs.is_empty() {
            self.brk();
            self.out.push_str(ENDNOTES);
            self.brk();
            self.out.push_str("<hr>");
            self.brk();
            self.out.push_str("<ol>");
            let mut n = 0;
            while n < self.refs.len() {
                let label = self.refs[n];
                n += 1;
                self.brk();
                self.out.push_str("<li id=\"fn");
                number(n as u64, &mut self.out);
                self.out.push_str("\">");
                let kids: &'a [Node<'a, 's>] = self.notes.iter().find(|(l, _)| *l == label).map_or(&[], |(_, k)| k);
                self.kids(kids);
                let last = kids.iter().rev().find(|k| match k {
                    Node::Leaf(Event::Blankline) => false,
                    Node::Elem(Container::Footnote { .. }, ..) => false,
                    _ => true,
                });
                if let Some(Node::Elem(Container::Paragraph, ..)) = last {
                    // the link goes into the last paragraph
                    let l = self.out.len();
                    self.out.truncate(l - "</p>".len());
                } else {
                    self.brk();
                    self.out.push_str("<p>");
                }
                self.out.push_str("<a href=\"#fnref");
                number(n as u64, &mut self.out);
                self.out.push_str("\" role=\"doc-backlink\">\u{21A9}\u{FE0E}</a></p>");
                self.brk();
                self.out.push_str("</li>");
            }
            self.brk();
            self.out.push_str("</ol>");
            self.brk();
            self.out.push_str("</section>");
        }
        if let Layout::Lines(..) = self.layout {
            self.out.push('\n');
        }
    }
}

/// Rendering of a whole document. Line breaks before the first element are not significant and
/// are stripped by callers on both sides.
pub fn render(ev: &[Event], layout: Layout) -> Option<String> {
    let t = tree(ev)?;
    let mut notes = Vec::new();
    collect(&t, &mut notes);
    let depth = match layout {
        Layout::Minified => 0,
        Layout::Lines(_, n) => n,
    };
    let mut w = Writer { layout, out: String::new(), depth, tight: Vec::new(), alt: 0, refs: Vec::new(), notes };
    w.kids(&t);
    Some(w.out)
}
