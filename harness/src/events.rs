//! C02: balance and content model of the event stream; C03: source offsets.

use crate::rt;
use jotdown::{Container, Event, LinkType, ListKind, OffsetIter, Parser};

#[derive(Clone, Copy, PartialEq)]
enum Model {
    Blocks,
    List(u8),
    Description,
    Table,
    Row,
    Inline,
    Text,
}

fn model(c: &Container) -> Model {
    match c {
        Container::List { kind: ListKind::Task(_), .. } => Model::List(1),
        Container::List { .. } => Model::List(0),
        Container::DescriptionList => Model::Description,
        Container::Table => Model::Table,
        Container::TableRow { .. } => Model::Row,
        Container::Document
        | Container::Blockquote
        | Container::ListItem
        | Container::TaskListItem { .. }
        | Container::DescriptionDetails
        | Container::Footnote { .. }
        | Container::Section { .. }
        | Container::Div { .. } => Model::Blocks,
        Container::CodeBlock { .. }
        | Container::RawBlock { .. }
        | Container::LinkDefinition { .. }
        | Container::Verbatim
        | Container::Math { .. }
        | Container::RawInline { .. } => Model::Text,
        _ => Model::Inline,
    }
}

fn block_child(c: &Container) -> bool {
    matches!(
        c,
        Container::Blockquote
            | Container::List { .. }
            | Container::DescriptionList
            | Container::Table
            | Container::Div { .. }
            | Container::Footnote { .. }
            | Container::Section { .. }
            | Container::Paragraph
            | Container::Heading { .. }
            | Container::LinkDefinition { .. }
            | Container::CodeBlock { .. }
            | Container::RawBlock { .. }
    )
}

fn inline_child(c: &Container) -> bool {
    matches!(
        c,
        Container::Span
            | Container::Link(..)
            | Container::Image(..)
            | Container::Verbatim
            | Container::Math { .. }
            | Container::RawInline { .. }
            | Container::Subscript
            | Container::Superscript
            | Container::Insert
            | Container::Delete
            | Container::Strong
            | Container::Emphasis
            | Container::Mark
    )
}

pub fn content_model(src: &str) {
    let mut p = Parser::new(src);
    let mut stack: Vec<Container> = Vec::new();
    // children seen so far of each open container, not counting blank lines and bare attributes
    let mut seen: Vec<usize> = Vec::new();
    match p.next() {
        Some(Event::Start(Container::Document, a)) => {
            check!(a.is_empty());
            stack.push(Container::Document);
            seen.push(0);
        }
        _ => check!(false),
    }
    while let Some(e) = p.next() {
        let Some(top) = stack.last() else { check!(false); return };
        let m = model(top);
        let n = seen.last_mut().unwrap();
        match e {
            Event::Start(c, a) => {
                let k = *n;
                *n += 1;
                let ok = match m {
                    Model::Blocks => block_child(&c),
                    Model::List(0) => c == Container::ListItem,
                    Model::List(_) => matches!(c, Container::TaskListItem { .. }),
                    Model::Description => matches!(c, Container::DescriptionTerm | Container::DescriptionDetails),
                    Model::Table => matches!(c, Container::TableRow { .. }) || (c == Container::Caption && k == 0),
                    Model::Row => matches!(c, Container::TableCell { .. }),
                    Model::Inline => inline_child(&c),
                    Model::Text => false,
                };
                check!(ok);
                match (&c, top) {
                    // sections only at the top level, each begins with its heading
                    (Container::Section { .. }, t) => {
                        check!(matches!(t, Container::Document | Container::Section { .. }));
                    }
                    (Container::Heading { has_section, id, level }, t) => {
                        check!(*level >= 1);
                        let mine = match t {
                            Container::Section { id: s } if k == 0 => {
                                check!(s == id);
                                true
                            }
                            _ => false,
                        };
                        check!(*has_section == mine);
                        check!(!mine || a.is_empty());
                    }
                    // cells of a header row, and only they, are header cells
                    (Container::TableCell { head, .. }, Container::TableRow { head: h }) => check!(head == h),
                    (_, Container::Section { .. }) => check!(k > 0),
                    _ => {}
                }
                check!(c.is_block() == !matches!(m, Model::Inline | Model::Text));
                check!(c.is_block_container() == (c.is_block() && !matches!(model(&c), Model::Inline | Model::Text)));
                stack.push(c);
                seen.push(0);
            }
            Event::End(c) => {
                // the end repeats the container exactly
                check!(*top == c);
                check!(!matches!(m, Model::List(_) | Model::Description) || *n > 0);
                check!(!matches!(top, Container::Section { .. }) || *n > 0);
                stack.pop();
                seen.pop();
            }
            Event::Str(s) => {
                check!(matches!(m, Model::Inline | Model::Text));
                check!(!s.is_empty());
            }
            Event::Blankline => check!(!matches!(m, Model::Inline | Model::Text | Model::Table | Model::Row)),
            Event::ThematicBreak(_) => {
                *n += 1;
                check!(m == Model::Blocks);
            }
            Event::Attributes(a) => {
                let _ = a;
                check!(m != Model::Text);
            }
            _ => check!(m == Model::Inline),
        }
    }
    check!(stack.is_empty());
    check!(p.next().is_none());
}

/// Text that is nothing but attribute groups, blanks and container prefixes.
fn attr_text(t: &str) -> bool {
    t.is_empty() || (t.starts_with('{') && t.trim_end().ends_with('}'))
}

fn ticks(t: &str) -> bool {
    !t.is_empty() && t.bytes().all(|c| c == b'`')
}

/// Opening markup of an inline container.
fn opens(c: &Container, t: &str) -> bool {
    match c {
        Container::Strong => t == "*" || t == "{*",
        Container::Emphasis => t == "_" || t == "{_",
        Container::Superscript => t == "^" || t == "{^",
        Container::Subscript => t == "~" || t == "{~",
        Container::Mark => t == "{=",
        Container::Insert => t == "{+",
        Container::Delete => t == "{-",
        Container::Verbatim => ticks(t),
        // a raw format also overrides math
        Container::RawInline { .. } => ticks(t.trim_start_matches('$')),
        Container::Math { display: false } => t.strip_prefix('$').is_some_and(ticks),
        Container::Math { display: true } => t.strip_prefix("$$").is_some_and(ticks),
        Container::Span => t.is_empty() || t == "[",
        Container::Link(_, LinkType::Span(_)) => t == "[",
        Container::Link(..) => t == "<",
        Container::Image(..) => t == "![",
        _ => false,
    }
}

/// Closing markup; `open` is the opening markup of the same container.
fn closes(c: &Container, open: &str, t: &str) -> bool {
    let braced = open.starts_with('{');
    let delim = |d: &str| {
        t.strip_prefix(d).is_some_and(|r| if braced { r.strip_prefix('}').is_some_and(attr_text) } else { attr_text(r) })
    };
    match c {
        Container::Strong => delim("*"),
        Container::Emphasis => delim("_"),
        Container::Superscript => delim("^"),
        Container::Subscript => delim("~"),
        Container::Mark => delim("="),
        Container::Insert => delim("+"),
        Container::Delete => delim("-"),
        Container::Verbatim | Container::Math { .. } => {
            let n = open.bytes().filter(|b| *b == b'`').count();
            let k = t.bytes().take_while(|b| *b == b'`').count();
            t.is_empty() || (k == n && attr_text(&t[k..]))
        }
        Container::RawInline { format } => {
            let k = t.bytes().take_while(|b| *b == b'`').count();
            (k == open.bytes().filter(|b| *b == b'`').count())
                && t[k..].strip_prefix("{=").and_then(|t| t.strip_prefix(format.as_ref())).is_some_and(|t| t == "}")
        }
        Container::Span if open.is_empty() => t.starts_with('{') && t.ends_with('}'),
        Container::Span => t.starts_with("]{") && t.ends_with('}'),
        Container::Link(_, LinkType::Span(_)) | Container::Image(..) => {
            if let Some(r) = t.strip_prefix("](") {
                r.contains(')')
            } else {
                t.strip_prefix("][").is_some_and(|r| r.contains(']'))
            }
        }
        Container::Link(..) => t.strip_prefix('>').is_some_and(attr_text),
        _ => false,
    }
}

/// Opening markup of a block.
fn begins(c: &Container, t: &str) -> bool {
    let fence = |t: &str, f: &[u8], rest: &str| {
        let n = t.bytes().take_while(|c| Some(c) == t.as_bytes().first()).count();
        n >= 3 && f.contains(&t.as_bytes()[0]) && t[n..].trim_ascii() == rest
    };
    match c {
        Container::Heading { level, .. } => t.len().min(usize::from(u16::MAX)) == usize::from(*level) && t.bytes().all(|c| c == b'#'),
        Container::Blockquote => t == ">",
        Container::TaskListItem { checked } => {
            let b = t.as_bytes();
            b.len() == 5
                && b"-*+".contains(&b[0])
                && &b[1..3] == b" ["
                && b[4] == b']'
                && if *checked { b"xX".contains(&b[3]) } else { b[3] == b' ' }
        }
        Container::ListItem => match t.as_bytes() {
            [b'-' | b'*' | b'+'] => true,
            [b'(', n @ .., b')'] | [n @ .., b'.' | b')'] => !n.is_empty() && n.iter().all(|c| c.is_ascii_alphanumeric()),
            _ => false,
        },
        Container::Footnote { label } => {
            t.strip_prefix("[^").and_then(|t| t.strip_prefix(label.as_ref())).is_some_and(|t| t == "]:")
        }
        Container::LinkDefinition { label } => {
            t.strip_prefix('[').and_then(|t| t.strip_prefix(label.as_ref())).is_some_and(|t| t == "]:")
        }
        Container::TableRow { .. } => t == "|",
        Container::Div { class } => fence(t, b":", class),
        Container::CodeBlock { language } => fence(t, b"`~", language),
        Container::RawBlock { format } => {
            let mut s = String::from("=");
            s.push_str(format);
            fence(t, b"`~", &s)
        }
        Container::DescriptionTerm => t.is_empty() || t == ":",
        _ => t.is_empty(),
    }
}

/// Block attributes on lines of their own, then the prefixes of outer containers and the markup.
fn after_attributes(t: &str, f: impl Fn(&str) -> bool) -> bool {
    if !t.starts_with('{') {
        return false;
    }
    let last = |t: &str| t.rfind('\n').map(|i| i + 1);
    let at = |line: Option<usize>| {
        line.is_some_and(|line| {
            let l = &t[line..];
            let skip = l.bytes().take_while(|c| b"> \t\r\x0c".contains(c)).count();
            (0..=skip).any(|i| f(&l[i..]))
        })
    };
    // the markup of a fence includes its line end
    at(last(t)) || at(t.strip_suffix('\n').and_then(last))
}

/// Text that belongs to no event: blanks, prefixes of lines, empty attributes, separator rows.
fn idle(t: &str) -> bool {
    let mut depth = false;
    t.bytes().all(|c| match c {
        b'{' => {
            depth = true;
            true
        }
        b'}' => std::mem::take(&mut depth),
        _ => depth || b" \t\r\n\x0c>#|:-^".contains(&c),
    })
}

/// C03.
pub fn offsets(src: &str) {
    let mut it: OffsetIter = Parser::new(src).into_offset_iter();
    let mut plain = Parser::new(src);
    let mut open: Vec<std::ops::Range<usize>> = Vec::new();
    let mut last = 0..0;
    let (mut caption, mut captioned) = (false, false);
    while let Some((e, r)) = it.next() {
        check!(plain.next().as_ref() == Some(&e));
        check!(r.start <= r.end && r.end <= src.len());
        check!(src.is_char_boundary(r.start) && src.is_char_boundary(r.end));
        let t = &src[r.clone()];
        // in source order, without overlap; a caption is reported before the rows it follows
        if !caption {
            check!(r.start >= last.end);
            // the end of the table comes after the caption
            let after = captioned && e == Event::End(Container::Table);
            captioned &= !after;
            check!(after || idle(&src[last.end..r.start]));
            last = r.clone();
        }
        match &e {
            Event::Start(c, a) => {
                open.push(r.clone());
                if *c == Container::Caption {
                    caption = true;
                }
                if c.is_block() {
                    // block attributes in front belong to the range
                    let m = if a.is_empty() && !t.starts_with('{') { Some(t) } else { None };
                    match m {
                        Some(m) => check!(begins(c, m.trim_ascii_end())),
                        None => check!(after_attributes(t, |m| begins(c, m.trim_ascii_end()))),
                    }
                } else if *c != Container::Document {
                    check!(opens(c, t));
                }
            }
            Event::End(c) => {
                let Some(o) = open.pop() else { rt::reject() };
                if *c == Container::Caption {
                    caption = false;
                    captioned = true;
                    last = o.clone();
                }
                let o = &src[o];
                match c {
                    Container::TableCell { .. } => check!(t == "|"),
                    Container::Div { .. } | Container::CodeBlock { .. } | Container::RawBlock { .. } => {
                        check!(t.is_empty() || begins(c, t.trim_ascii()) || t.trim_ascii().bytes().all(|c| b"`~:".contains(&c)));
                    }
                    c if c.is_block() || *c == Container::Document => check!(t.is_empty()),
                    c => check!(closes(c, o, t)),
                }
            }
            Event::Str(s) => check!(s == t),
            Event::FootnoteReference(l) => {
                check!(t.strip_prefix("[^").and_then(|t| t.strip_suffix(']')) == Some(l.as_ref()))
            }
            Event::Symbol(s) => check!(t.strip_prefix(':').and_then(|t| t.strip_suffix(':')) == Some(s.as_ref())),
            Event::LeftSingleQuote => check!(matches!(t, "'" | "{'")),
            Event::RightSingleQuote => check!(matches!(t, "'" | "'}")),
            Event::LeftDoubleQuote => check!(matches!(t, "\"" | "{\"")),
            Event::RightDoubleQuote => check!(matches!(t, "\"" | "\"}")),
            Event::Ellipsis => check!(t == "..."),
            Event::EnDash => check!(t == "--"),
            Event::EmDash => check!(t == "---"),
            Event::NonBreakingSpace => check!(t == " "),
            Event::Softbreak => check!(t == "\n" || t == "\r\n"),
            Event::Hardbreak => check!(t.ends_with('\n') && t.trim().is_empty()),
            Event::Escape => check!(t == "\\"),
            Event::Blankline => check!(t.trim().is_empty()),
            Event::ThematicBreak(a) => {
                let rule = |t: &str| {
                    t.bytes().filter(|c| b"-*".contains(c)).count() >= 3
                        && t.bytes().all(|c| b"-* \t\r\x0c".contains(&c))
                        && t.starts_with(['-', '*'])
                        && t.ends_with(['-', '*'])
                };
                check!(a.is_empty() && rule(t) || after_attributes(t, rule));
            }
            Event::Attributes(_) => check!(t.starts_with('{') && t.trim_end().ends_with('}')),
        }
        rt::out(t.as_bytes());
    }
    check!(plain.next().is_none());
}
