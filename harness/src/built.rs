//! C28: event streams that the parser did not produce, or that were changed after it did, and
//! renderers used more than once.

use crate::{indented, refhtml, rt};
use jotdown::html::Renderer;
use jotdown::{
    Alignment, AttributeKind, Attributes, Container as C, Event, LinkType, ListBulletType as B, ListKind, OrderedListNumbering as N, OrderedListStyle as S, Parser, Render, SpanLinkType,
};

/// What may stand directly inside of a container.
#[derive(Clone, Copy, PartialEq)]
enum Holds {
    Blocks,
    Inlines,
    Text,
    Items,
    Tasks,
    Terms,
    Rows,
    Cells,
}

#[derive(Clone, Copy, PartialEq)]
enum Is {
    Block,
    Inline,
    Str,
    Item,
    Task,
    Term,
    Row,
    Caption,
    Cell,
    Any,
}

fn fits(h: Holds, i: Is) -> bool {
    match i {
        Is::Any => h != Holds::Text,
        Is::Block => h == Holds::Blocks,
        Is::Inline => h == Holds::Inlines,
        Is::Str => matches!(h, Holds::Inlines | Holds::Text),
        Is::Item => h == Holds::Items,
        Is::Task => h == Holds::Tasks,
        Is::Term => h == Holds::Terms,
        Is::Row | Is::Caption => h == Holds::Rows,
        Is::Cell => h == Holds::Cells,
    }
}

enum Op<'s> {
    Open(C<'s>, Is, Holds),
    Leaf(Event<'s>, Is),
}

pub const OPS: u8 = 72;

fn ordered(numbering: N, start: u64, tight: bool) -> C<'static> {
    C::List { kind: ListKind::Ordered { numbering, style: S::Period, start }, tight }
}

fn op(v: u8, p: &str) -> Op<'_> {
    use Holds::*;
    use Op::*;
    let s = || p.into();
    match v {
        1 => Open(C::Paragraph, Is::Block, Inlines),
        2 => Leaf(Event::Str(s()), Is::Str),
        3 => Open(C::Blockquote, Is::Block, Blocks),
        4 => Open(C::List { kind: ListKind::Unordered(B::Dash), tight: true }, Is::Block, Items),
        5 => Open(C::List { kind: ListKind::Unordered(B::Star), tight: false }, Is::Block, Items),
        6 => Open(C::List { kind: ListKind::Task(B::Plus), tight: true }, Is::Block, Tasks),
        7 => Open(C::List { kind: ListKind::Task(B::Dash), tight: false }, Is::Block, Tasks),
        8 => Open(ordered(N::Decimal, 1, true), Is::Block, Items),
        9 => Open(ordered(N::AlphaUpper, u64::MAX, false), Is::Block, Items),
        10 => Open(ordered(N::RomanLower, 2, true), Is::Block, Items),
        11 => Open(C::ListItem, Is::Item, Blocks),
        12 => Open(C::TaskListItem { checked: true }, Is::Task, Blocks),
        13 => Open(C::TaskListItem { checked: false }, Is::Task, Blocks),
        14 => Open(C::DescriptionList, Is::Block, Terms),
        15 => Open(C::DescriptionTerm, Is::Term, Inlines),
        16 => Open(C::DescriptionDetails, Is::Term, Blocks),
        17 => Open(C::Footnote { label: "a".into() }, Is::Block, Blocks),
        18 => Open(C::Footnote { label: s() }, Is::Block, Blocks),
        19 => Open(C::Table, Is::Block, Rows),
        20 => Open(C::TableRow { head: false }, Is::Row, Cells),
        21 => Open(C::TableRow { head: true }, Is::Row, Cells),
        22 => Open(C::TableCell { alignment: Alignment::Center, head: false }, Is::Cell, Inlines),
        23 => Open(C::TableCell { alignment: Alignment::Unspecified, head: true }, Is::Cell, Inlines),
        24 => Open(C::TableCell { alignment: Alignment::Right, head: true }, Is::Cell, Inlines),
        25 => Open(C::TableCell { alignment: Alignment::Left, head: false }, Is::Cell, Inlines),
        26 => Open(C::Caption, Is::Caption, Inlines),
        27 => Open(C::Section { id: s() }, Is::Block, Blocks),
        28 => Open(C::Div { class: s() }, Is::Block, Blocks),
        29 => Open(C::Div { class: "".into() }, Is::Block, Blocks),
        30 => Open(C::Heading { level: 1, has_section: true, id: s() }, Is::Block, Inlines),
        31 => Open(C::Heading { level: 65535, has_section: false, id: s() }, Is::Block, Inlines),
        32 => Open(C::LinkDefinition { label: s() }, Is::Block, Text),
        33 => Open(C::RawBlock { format: "html".into() }, Is::Block, Text),
        34 => Open(C::RawBlock { format: s() }, Is::Block, Text),
        35 => Open(C::CodeBlock { language: s() }, Is::Block, Text),
        36 => Open(C::CodeBlock { language: "".into() }, Is::Block, Text),
        37 => Open(C::Span, Is::Inline, Inlines),
        38 => Open(C::Link(s(), LinkType::Span(SpanLinkType::Inline)), Is::Inline, Inlines),
        39 => Open(C::Link(s(), LinkType::Span(SpanLinkType::Reference)), Is::Inline, Inlines),
        40 => Open(C::Link(s(), LinkType::Span(SpanLinkType::Unresolved)), Is::Inline, Inlines),
        41 => Open(C::Link(s(), LinkType::AutoLink), Is::Inline, Inlines),
        42 => Open(C::Link(s(), LinkType::Email), Is::Inline, Inlines),
        43 => Open(C::Image(s(), SpanLinkType::Inline), Is::Inline, Inlines),
        44 => Open(C::Image("".into(), SpanLinkType::Unresolved), Is::Inline, Inlines),
        45 => Open(C::Verbatim, Is::Inline, Text),
        46 => Open(C::Math { display: false }, Is::Inline, Text),
        47 => Open(C::Math { display: true }, Is::Inline, Text),
        48 => Open(C::RawInline { format: "html".into() }, Is::Inline, Text),
        49 => Open(C::RawInline { format: s() }, Is::Inline, Text),
        50 => Open(C::Subscript, Is::Inline, Inlines),
        51 => Open(C::Superscript, Is::Inline, Inlines),
        52 => Open(C::Insert, Is::Inline, Inlines),
        53 => Open(C::Delete, Is::Inline, Inlines),
        54 => Open(C::Strong, Is::Inline, Inlines),
        55 => Open(C::Emphasis, Is::Inline, Inlines),
        56 => Open(C::Mark, Is::Inline, Inlines),
        57 => Leaf(Event::FootnoteReference("a".into()), Is::Inline),
        58 => Leaf(Event::FootnoteReference(s()), Is::Inline),
        59 => Leaf(Event::Symbol(s()), Is::Inline),
        60 => Leaf(Event::LeftSingleQuote, Is::Inline),
        61 => Leaf(Event::RightDoubleQuote, Is::Inline),
        62 => Leaf(Event::Ellipsis, Is::Inline),
        63 => Leaf(Event::EmDash, Is::Inline),
        64 => Leaf(Event::NonBreakingSpace, Is::Inline),
        65 => Leaf(Event::Softbreak, Is::Inline),
        66 => Leaf(Event::Hardbreak, Is::Inline),
        67 => Leaf(Event::Escape, Is::Inline),
        68 => Leaf(Event::Blankline, Is::Any),
        69 => Leaf(Event::ThematicBreak(Attributes::new()), Is::Block),
        70 => Leaf(Event::Attributes([(AttributeKind::Class, p.into())].into_iter().collect()), Is::Any),
        71 => Leaf(Event::EnDash, Is::Inline),
        _ => rt::reject(),
    }
}

/// Operations before the chosen ones.
const BEFORE: [&[u8]; 16] = [
    &[],
    &[1],
    &[4, 11],
    &[5, 11],
    &[1, 43],
    &[1, 57, 0, 17],
    &[1, 58, 57, 0, 17],
    &[19],
    &[19, 20],
    &[14],
    &[6],
    &[7, 12],
    &[28, 3],
    &[4, 11, 1, 57, 0, 17],
    &[1, 44, 2],
    &[30, 2, 0, 1, 57],
];

fn attributes(kind: u8, p: &str) -> Attributes<'_> {
    use AttributeKind as K;
    let v: Vec<(K, &str)> = match kind {
        0 => vec![],
        1 => vec![(K::Class, p)],
        2 => vec![(K::Id, p), (K::Class, "x"), (K::Pair { key: "id".into() }, "y")],
        3 => vec![(K::Pair { key: "k".into() }, "v"), (K::Comment, p), (K::Pair { key: "class".into() }, p), (K::Pair { key: "k".into() }, p)],
        _ => rt::reject(),
    };
    v.into_iter().map(|(k, v)| (k, v.into())).collect()
}

/// Input: all texts; choice: operations before, attributes, document or not, operations.
pub fn built(p: &str, choice: &[u8]) {
    let c = |i: usize| rt::split(choice.get(i).copied().unwrap_or(0));
    let (before, attr, whole) = (c(0) as usize % BEFORE.len(), c(1), c(2) == 0);
    let mut ev: Vec<Event> = Vec::new();
    let mut open: Vec<(C, Holds)> = Vec::new();
    if whole {
        ev.push(Event::Start(C::Document, Attributes::new()));
    }
    for i in 0..BEFORE[before].len() + choice.len().saturating_sub(3) {
        let v = match BEFORE[before].get(i) {
            Some(v) => *v,
            None => c(3 + i - BEFORE[before].len()),
        };
        if v == 0 {
            match open.pop() {
                Some((c, _)) => ev.push(Event::End(c)),
                None => rt::reject(),
            }
            continue;
        }
        let holds = open.last().map_or(Holds::Blocks, |x| x.1);
        match op(v, p) {
            Op::Open(c, is, h) => {
                if !fits(holds, is) {
                    rt::reject();
                }
                ev.push(Event::Start(c.clone(), attributes(attr, p)));
                open.push((c, h));
            }
            Op::Leaf(e, is) => {
                if !fits(holds, is) {
                    rt::reject();
                }
                ev.push(match e {
                    Event::ThematicBreak(_) => Event::ThematicBreak(attributes(attr, p)),
                    e => e,
                });
            }
        }
    }
    while let Some((c, _)) = open.pop() {
        ev.push(Event::End(c));
    }
    if whole {
        ev.push(Event::End(C::Document));
    }
    compare(&ev);
}

fn fresh(layout: usize) -> (Renderer<'static>, refhtml::Layout<'static>) {
    match layout {
        0 => (Renderer::minified(), refhtml::Layout::Minified),
        1 => (Renderer::default(), refhtml::Layout::Lines("", 0)),
        _ => (indented("\t", 1), refhtml::Layout::Lines("\t", 1)),
    }
}

fn compare(ev: &[Event]) {
    // an empty line is left for a dropped block
    let dropped = ev.iter().any(|e| matches!(e, Event::Start(C::RawBlock { format }, _) if format != "html"));
    for l in 0..3 {
        let (mut r, layout) = fresh(l);
        let mut got = String::new();
        for e in ev {
            check!(r.push_event(shared(e), &mut got).is_ok());
        }
        rt::out(got.as_bytes());
        let Some(want) = refhtml::render(ev, layout) else { rt::reject() };
        let cut = |s: &'_ str| if l == 2 { s.find(refhtml::ENDNOTES).map_or(s.len(), |i| s[..i].trim_end_matches(['\n', '\t']).len()) } else { s.len() };
        if dropped && l > 0 {
            continue;
        }
        check!(crate::same(want[..cut(&want)].trim_start(), got[..cut(&got)].trim_start()));
        // again, by the same renderer
        if matches!(ev.last(), Some(Event::End(C::Document))) {
            let mut again = String::new();
            for e in ev {
                check!(r.push_event(shared(e), &mut again).is_ok());
            }
            check!(crate::same(&got, &again));
        }
    }
}

/// The event with a lifetime that a renderer can keep.
fn shared(e: &Event) -> Event<'static> {
    // renderers are dropped before the events
    unsafe { std::mem::transmute::<Event<'_>, Event<'static>>(e.clone()) }
}

const BAD: &str = "<&\">a";

/// The events of a document, changed; choice: the change, the number of the event.
pub fn edited(src: &str, choice: &[u8]) {
    let ev: Vec<Event> = Parser::new(src).collect();
    let edit = rt::split(choice.first().copied().unwrap_or(0));
    let n = rt::split(choice.get(1).copied().unwrap_or(0)) as usize;
    let inl = |c: &C| !c.is_block();
    let mut out: Vec<Event> = Vec::new();
    match edit {
        // a container removed, its content kept; a container and its content removed or repeated
        0..=2 => {
            let starts: Vec<usize> = ev.iter().enumerate().filter(|(_, e)| matches!(e, Event::Start(..))).map(|(i, _)| i).collect();
            let Some(&i) = starts.get(n + 1) else { rt::reject() };
            let mut depth = 0;
            let mut j = i;
            loop {
                match &ev[j] {
                    Event::Start(..) => depth += 1,
                    Event::End(_) => depth -= 1,
                    _ => {}
                }
                if depth == 0 {
                    break;
                }
                j += 1;
            }
            // what is left would not be where it belongs
            if edit == 0 && matches!(&ev[i], Event::Start(C::RawBlock { .. } | C::RawInline { .. } | C::List { .. } | C::DescriptionList | C::Table | C::TableRow { .. }, _)) {
                rt::reject();
            }
            out.extend_from_slice(&ev[..i]);
            match edit {
                0 => out.extend_from_slice(&ev[i + 1..j]),
                1 => {}
                _ => {
                    out.extend_from_slice(&ev[i..=j]);
                    out.extend_from_slice(&ev[i..=j]);
                }
            }
            out.extend_from_slice(&ev[j + 1..]);
        }
        // every text replaced
        3 => out.extend(ev.into_iter().map(|e| match e {
            Event::Str(_) => Event::Str(BAD.into()),
            Event::Symbol(_) => Event::Symbol(BAD.into()),
            e => e,
        })),
        // every target, class and language replaced
        4 => {
            fn f<'s>(c: C<'s>) -> C<'s> {
                match c {
                    C::Link(_, t) => C::Link(BAD.into(), t),
                    C::Image(_, t) => C::Image(BAD.into(), t),
                    C::CodeBlock { .. } => C::CodeBlock { language: BAD.into() },
                    C::Div { .. } => C::Div { class: BAD.into() },
                    C::Section { .. } => C::Section { id: BAD.into() },
                    C::Heading { level, has_section, .. } => C::Heading { level: level.saturating_add(5), has_section, id: BAD.into() },
                    C::List { kind: ListKind::Ordered { numbering, style, .. }, tight } => C::List { kind: ListKind::Ordered { numbering, style, start: u64::MAX }, tight: !tight },
                    C::List { kind, tight } => C::List { kind, tight: !tight },
                    C::TaskListItem { checked } => C::TaskListItem { checked: !checked },
                    C::Math { display } => C::Math { display: !display },
                    C::TableCell { head, .. } => C::TableCell { head: !head, alignment: Alignment::Center },
                    c => c,
                }
            }
            out.extend(ev.into_iter().map(|e| match e {
                Event::Start(c, a) => Event::Start(f(c), a),
                Event::End(c) => Event::End(f(c)),
                e => e,
            }));
        }
        // attributes everywhere
        5 => out.extend(ev.into_iter().map(|e| match e {
            Event::Start(c, mut a) => {
                if c != C::Document {
                    a.push((AttributeKind::Class, BAD.into()));
                    a.push((AttributeKind::Id, BAD.into()));
                }
                Event::Start(c, a)
            }
            e => e,
        })),
        // events without output everywhere, also around the document
        6 => {
            for e in ev {
                out.push(Event::Blankline);
                out.push(e);
                out.push(Event::Attributes(Attributes::new()));
            }
            out.remove(0);
        }
        // one kind of inline container for another
        7 => {
            fn f<'s>(c: C<'s>) -> C<'s> {
                match c {
                    C::Strong => C::Emphasis,
                    C::Emphasis => C::Mark,
                    C::Span => C::Delete,
                    C::Delete => C::Insert,
                    C::Link(d, _) => C::Image(d, SpanLinkType::Inline),
                    C::Image(d, _) => C::Link(d, LinkType::Email),
                    C::Verbatim => C::Math { display: true },
                    C::Math { .. } => C::Verbatim,
                    c => c,
                }
            }
            out.extend(ev.into_iter().map(|e| match e {
                Event::Start(c, a) if inl(&c) => Event::Start(f(c), a),
                Event::End(c) if inl(&c) => Event::End(f(c)),
                e => e,
            }));
        }
        // the document without its container
        8 => out.extend(ev.into_iter().filter(|e| !matches!(e, Event::Start(C::Document, _) | Event::End(C::Document)))),
        // unchanged
        9 => out = ev,
        _ => rt::reject(),
    }
    compare(&out);
}
