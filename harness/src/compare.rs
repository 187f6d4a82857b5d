//! C11 to C22: the events of a document are those of the reference, in the view of a property.

use crate::{model, rt};
use jotdown::{Attributes, Container, Event, LinkType, ListBulletType, ListKind, Parser, SpanLinkType};
use std::borrow::Cow;

pub type Ev = Event<'static>;

fn verbatim(c: &Container) -> bool {
    matches!(
        c,
        Container::Verbatim | Container::Math { .. } | Container::RawInline { .. } | Container::CodeBlock { .. } | Container::RawBlock { .. }
    )
}

fn link(c: &Container) -> bool {
    matches!(c, Container::Link(..) | Container::Image(..))
}

/// The container as far as the property sees it.
fn mask(prop: u32, c: &Container<'static>) -> Option<Container<'static>> {
    let e = || "".into();
    let plain = |c: &Container<'static>| match c {
        Container::Heading { level, .. } => Container::Heading { level: *level, has_section: false, id: e() },
        Container::List { .. } => {
            Container::List { kind: ListKind::Unordered(ListBulletType::Dash), tight: true }
        }
        Container::Link(..) => Container::Link(e(), LinkType::AutoLink),
        Container::Image(..) => Container::Image(e(), SpanLinkType::Inline),
        Container::TableCell { .. } => Container::TableCell { alignment: jotdown::Alignment::Unspecified, head: false },
        Container::TableRow { .. } => Container::TableRow { head: false },
        c => c.clone(),
    };
    let keep = match prop {
        12 => matches!(c, Container::Heading { .. } | Container::Section { .. }),
        13 => match c {
            Container::Link(_, LinkType::Span(SpanLinkType::Inline)) | Container::Image(_, SpanLinkType::Inline) => false,
            Container::Link(_, LinkType::Span(_)) | Container::Image(..) | Container::LinkDefinition { .. } => true,
            _ => false,
        },
        15 | 16 => match c {
            Container::List { kind, tight } => {
                return Some(if prop == 15 {
                    Container::List { kind: *kind, tight: true }
                } else {
                    Container::List { kind: ListKind::Unordered(ListBulletType::Dash), tight: *tight }
                });
            }
            Container::ListItem
            | Container::TaskListItem { .. }
            | Container::DescriptionList
            | Container::DescriptionTerm
            | Container::DescriptionDetails => true,
            Container::Section { .. } => false,
            Container::Paragraph | Container::Blockquote => prop == 16,
            c => return (prop == 16 && c.is_block()).then(|| plain(c)),
        },
        17 => verbatim(c),
        18 => matches!(
            c,
            Container::Table | Container::TableRow { .. } | Container::TableCell { .. } | Container::Caption | Container::Paragraph
        ),
        20 => !c.is_block() && return Some(plain(c)),
        21 => link(c) || *c == Container::Span,
        22 => !matches!(c, Container::Section { .. }) && c.is_block() && return Some(plain(c)),
        19 => false,
        _ => true,
    };
    keep.then(|| c.clone())
}

/// Elements with attributes and their text, and the text of the document.
fn attributes(ev: &[Ev]) -> Vec<Ev> {
    let mut out = Vec::new();
    let mut open: Vec<(usize, String)> = Vec::new();
    let mut text = String::new();
    for e in ev {
        match e {
            Event::Start(c, a) => {
                open.push((out.len(), String::new()));
                if !a.is_empty() {
                    let c = if c.is_block() {
                        mask(22, c).unwrap_or(Container::Section { id: "".into() })
                    } else {
                        mask(20, c).unwrap()
                    };
                    out.push(Event::Start(c, a.clone()));
                    out.push(Event::Blankline);
                } else {
                    open.last_mut().unwrap().0 = usize::MAX;
                }
            }
            Event::End(_) => {
                let (i, s) = open.pop().unwrap();
                if i != usize::MAX {
                    out[i + 1] = Event::Str(s.clone().into());
                }
                if let Some(o) = open.last_mut() {
                    o.1.push_str(&s);
                }
            }
            Event::Str(s) => {
                text.push_str(s);
                if let Some(o) = open.last_mut() {
                    o.1.push_str(s);
                }
            }
            Event::Attributes(_) | Event::ThematicBreak(_) => out.push(e.clone()),
            _ => {}
        }
    }
    out.push(Event::Str(text.into()));
    out
}

fn view(prop: u32, ev: &[Ev]) -> Vec<Ev> {
    if prop == 11 {
        return attributes(ev);
    }
    let mut out: Vec<Ev> = Vec::new();
    let mut verb = 0;
    let mut def = 0;
    let mut outside = String::new();
    for e in ev {
        let new = match e {
            Event::Start(c, a) => {
                verb += u32::from(verbatim(c));
                def += u32::from(matches!(c, Container::LinkDefinition { .. }));
                let a = if matches!(prop, 0 | 13) { a.clone() } else { Attributes::new() };
                mask(prop, c).map(|c| Event::Start(c, a))
            }
            Event::End(c) => {
                verb -= u32::from(verbatim(c));
                def -= u32::from(matches!(c, Container::LinkDefinition { .. }));
                mask(prop, c).map(Event::End)
            }
            Event::Str(s) => {
                let keep = match prop {
                    12 | 15 | 16 => false,
                    13 => def > 0,
                    17 => {
                        if verb == 0 {
                            outside.push_str(s);
                        }
                        verb > 0
                    }
                    _ => true,
                };
                match out.last_mut() {
                    Some(Event::Str(t)) if keep => {
                        *t = format!("{t}{s}").into();
                        None
                    }
                    _ => keep.then(|| e.clone()),
                }
            }
            Event::Attributes(_) => (prop == 0).then(|| e.clone()),
            Event::Blankline => matches!(prop, 0 | 22).then_some(Event::Blankline),
            Event::ThematicBreak(a) => match prop {
                0 => Some(Event::ThematicBreak(a.clone())),
                16 | 22 => Some(Event::ThematicBreak(Attributes::new())),
                _ => None,
            },
            e => matches!(prop, 0 | 19 | 20).then(|| e.clone()),
        };
        out.extend(new);
    }
    if prop == 17 {
        out.push(Event::Str(outside.into()));
    }
    out
}

fn same(a: &Ev, b: &Ev, refs: &model::Refs) -> bool {
    if a == b {
        return true;
    }
    let dst = |c: &Container<'static>| match c {
        Container::Link(d, t) => Some((d.clone(), *t)),
        Container::Image(d, t) => Some((d.clone(), LinkType::Span(*t))),
        _ => None,
    };
    let alike = |a: &Container<'static>, b: &Container<'static>| match (dst(a), dst(b)) {
        // several headings of the same text
        (Some((d, t)), Some((e, u))) => t == u && refs.alike(&d, &e),
        _ => false,
    };
    match (a, b) {
        (Event::Start(c, x), Event::Start(d, y)) => x == y && alike(c, d),
        (Event::End(c), Event::End(d)) => alike(c, d),
        _ => false,
    }
}

/// strict: the tightness of every list is checked, also where the last block alone is separated.
pub fn events(src: &str, prop: u32, strict: bool) {
    let real: Vec<Ev> = Parser::new(src).map(owned).collect();
    let mut doc = model::document(src);
    if doc.odd {
        rt::reject();
    }
    if !strict {
        // take unspecified tightness as it is
        let mut found = real.iter().filter_map(|e| match e {
            Event::Start(Container::List { tight, .. }, _) => Some(*tight),
            _ => None,
        });
        let mut open: Vec<bool> = Vec::new();
        let mut n = 0;
        for e in &mut doc.ev {
            match e {
                Event::Start(Container::List { tight, .. }, _) => {
                    let f = found.next();
                    if doc.tight[n].is_none() {
                        *tight = f.unwrap_or(*tight);
                    }
                    n += 1;
                    open.push(*tight);
                }
                Event::End(Container::List { tight, .. }) => *tight = open.pop().unwrap(),
                _ => {}
            }
        }
    }
    let (got, want) = (view(prop, &real), view(prop, &doc.ev));
    let first = got.iter().zip(&want).position(|(a, b)| !same(a, b, &doc.refs));
    if first.is_some() || got.len() != want.len() {
        #[cfg(feature = "native")]
        if std::env::var_os("SYMX_SHOW_PANIC").is_some() {
            let i = first.unwrap_or(got.len().min(want.len()));
            eprintln!("event {i}: expected {:?}\n  got {:?}", want.get(i), got.get(i));
        }
        rt::fail(line!());
    }
    for e in &got {
        if let Event::Str(s) = e {
            rt::out(s.as_bytes());
        }
    }
}

pub fn owned(e: Event) -> Ev {
    let s = |x: &Cow<str>| -> Cow<'static, str> { x.to_string().into() };
    let attrs = |a: &Attributes| -> Attributes<'static> {
        a.iter()
            .map(|(k, v)| {
                use jotdown::AttributeKind::*;
                let k = match k {
                    Class => Class,
                    Id => Id,
                    Comment => Comment,
                    Pair { key } => Pair { key: s(key) },
                };
                (k, raw(v).into())
            })
            .collect()
    };
    let c = |c: &Container| -> Container<'static> {
        use Container::*;
        match c {
            Blockquote => Blockquote,
            List { kind, tight } => List { kind: *kind, tight: *tight },
            ListItem => ListItem,
            TaskListItem { checked } => TaskListItem { checked: *checked },
            DescriptionList => DescriptionList,
            DescriptionDetails => DescriptionDetails,
            Footnote { label } => Footnote { label: s(label) },
            Table => Table,
            TableRow { head } => TableRow { head: *head },
            Section { id } => Section { id: s(id) },
            Div { class } => Div { class: s(class) },
            Document => Document,
            Paragraph => Paragraph,
            Heading { level, has_section, id } => Heading { level: *level, has_section: *has_section, id: s(id) },
            TableCell { alignment, head } => TableCell { alignment: *alignment, head: *head },
            Caption => Caption,
            DescriptionTerm => DescriptionTerm,
            LinkDefinition { label } => LinkDefinition { label: s(label) },
            RawBlock { format } => RawBlock { format: s(format) },
            CodeBlock { language } => CodeBlock { language: s(language) },
            Span => Span,
            Link(d, t) => Link(s(d), *t),
            Image(d, t) => Image(s(d), *t),
            Verbatim => Verbatim,
            Math { display } => Math { display: *display },
            RawInline { format } => RawInline { format: s(format) },
            Subscript => Subscript,
            Superscript => Superscript,
            Insert => Insert,
            Delete => Delete,
            Strong => Strong,
            Emphasis => Emphasis,
            Mark => Mark,
        }
    };
    match &e {
        Event::Start(k, a) => Event::Start(c(k), attrs(a)),
        Event::End(k) => Event::End(c(k)),
        Event::Str(t) => Event::Str(s(t)),
        Event::FootnoteReference(t) => Event::FootnoteReference(s(t)),
        Event::Symbol(t) => Event::Symbol(s(t)),
        Event::ThematicBreak(a) => Event::ThematicBreak(attrs(a)),
        Event::Attributes(a) => Event::Attributes(attrs(a)),
        Event::LeftSingleQuote => Event::LeftSingleQuote,
        Event::RightSingleQuote => Event::RightSingleQuote,
        Event::LeftDoubleQuote => Event::LeftDoubleQuote,
        Event::RightDoubleQuote => Event::RightDoubleQuote,
        Event::Ellipsis => Event::Ellipsis,
        Event::EnDash => Event::EnDash,
        Event::EmDash => Event::EmDash,
        Event::NonBreakingSpace => Event::NonBreakingSpace,
        Event::Softbreak => Event::Softbreak,
        Event::Hardbreak => Event::Hardbreak,
        Event::Escape => Event::Escape,
        Event::Blankline => Event::Blankline,
    }
}

/// The value with its escapes, as printed.
fn raw(v: &jotdown::AttributeValue) -> String {
    let one: Attributes = [(jotdown::AttributeKind::Comment, v.clone())].into_iter().collect();
    let s = format!("{one:?}");
    s[2..s.len() - 2].to_string()
}
