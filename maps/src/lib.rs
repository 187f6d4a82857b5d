//! C25: the build with hash maps (the default) and the one with ordered maps (feature
//! deterministic) agree on events, spans and HTML.
#[macro_use]
#[path = "../../harness/src/rt.rs"]
pub mod rt;
#[path = "../../harness/src/pieces.rs"]
mod pieces;

use jotdown as h;
use jotdown::Render as _;
use jotdown_ordered as o;
use jotdown_ordered::Render as _;

fn attrs(a: &h::Attributes, b: &o::Attributes) -> bool {
    a.len() == b.len()
        && a.iter().zip(b.iter()).all(|((k, v), (l, w))| {
            (match (k, l) {
                (h::AttributeKind::Class, o::AttributeKind::Class) => true,
                (h::AttributeKind::Id, o::AttributeKind::Id) => true,
                (h::AttributeKind::Comment, o::AttributeKind::Comment) => true,
                (h::AttributeKind::Pair { key: k }, o::AttributeKind::Pair { key: l }) => k == l,
                _ => false,
            }) && v.parts().eq(w.parts())
        })
}

fn kind(a: &h::ListKind, b: &o::ListKind) -> bool {
    use h::{OrderedListNumbering as N, OrderedListStyle as S};
    use o::{OrderedListNumbering as M, OrderedListStyle as T};
    match (a, b) {
        (h::ListKind::Unordered(x), o::ListKind::Unordered(y)) | (h::ListKind::Task(x), o::ListKind::Task(y)) => *x as u8 == *y as u8,
        (h::ListKind::Ordered { numbering: n, style: s, start: i }, o::ListKind::Ordered { numbering: m, style: t, start: j }) => {
            let n = match n {
                N::Decimal => M::Decimal,
                N::AlphaLower => M::AlphaLower,
                N::AlphaUpper => M::AlphaUpper,
                N::RomanLower => M::RomanLower,
                N::RomanUpper => M::RomanUpper,
            };
            let s = match s {
                S::Period => T::Period,
                S::Paren => T::Paren,
                S::ParenParen => T::ParenParen,
            };
            n == *m && s == *t && i == j
        }
        _ => false,
    }
}

fn link(a: h::LinkType, b: o::LinkType) -> bool {
    use h::{LinkType as L, SpanLinkType as S};
    use o::{LinkType as M, SpanLinkType as T};
    let s = |a: S, b: T| {
        b == match a {
            S::Inline => T::Inline,
            S::Reference => T::Reference,
            S::Unresolved => T::Unresolved,
        }
    };
    match (a, b) {
        (L::Span(a), M::Span(b)) => s(a, b),
        (L::AutoLink, M::AutoLink) | (L::Email, M::Email) => true,
        _ => false,
    }
}

fn image(a: h::SpanLinkType, b: o::SpanLinkType) -> bool {
    link(h::LinkType::Span(a), o::LinkType::Span(b))
}

fn align(a: h::Alignment, b: o::Alignment) -> bool {
    use h::Alignment as A;
    use o::Alignment as B;
    b == match a {
        A::Unspecified => B::Unspecified,
        A::Left => B::Left,
        A::Center => B::Center,
        A::Right => B::Right,
    }
}

macro_rules! unit {
    ($a:expr, $b:expr, $t:ident: $($v:ident)* ; $($rest:tt)*) => {
        match ($a, $b) {
            $((h::$t::$v, o::$t::$v) => true,)*
            $($rest)*
            _ => false,
        }
    };
}

fn container(a: &h::Container, b: &o::Container) -> bool {
    use h::Container as A;
    use o::Container as B;
    unit!(a, b, Container: Document Blockquote ListItem DescriptionList DescriptionDetails Table Paragraph Caption DescriptionTerm Span
        Verbatim Subscript Superscript Insert Delete Strong Emphasis Mark;
        (A::List { kind: k, tight: t }, B::List { kind: l, tight: u }) => kind(k, l) && t == u,
        (A::TaskListItem { checked: x }, B::TaskListItem { checked: y }) => x == y,
        (A::TableRow { head: x }, B::TableRow { head: y }) => x == y,
        (A::Math { display: x }, B::Math { display: y }) => x == y,
        (A::Footnote { label: x }, B::Footnote { label: y }) => x == y,
        (A::Section { id: x }, B::Section { id: y }) => x == y,
        (A::Div { class: x }, B::Div { class: y }) => x == y,
        (A::LinkDefinition { label: x }, B::LinkDefinition { label: y }) => x == y,
        (A::RawBlock { format: x }, B::RawBlock { format: y }) => x == y,
        (A::RawInline { format: x }, B::RawInline { format: y }) => x == y,
        (A::CodeBlock { language: x }, B::CodeBlock { language: y }) => x == y,
        (A::Heading { level: l, has_section: s, id: i }, B::Heading { level: m, has_section: t, id: j }) => l == m && s == t && i == j,
        (A::TableCell { alignment: l, head: x }, B::TableCell { alignment: m, head: y }) => align(*l, *m) && x == y,
        (A::Link(x, s), B::Link(y, t)) => x == y && link(*s, *t),
        (A::Image(x, s), B::Image(y, t)) => x == y && image(*s, *t),)
}

fn event(a: &h::Event, b: &o::Event) -> bool {
    use h::Event as A;
    use o::Event as B;
    unit!(a, b, Event: LeftSingleQuote RightSingleQuote LeftDoubleQuote RightDoubleQuote Ellipsis EnDash EmDash NonBreakingSpace
        Softbreak Hardbreak Escape Blankline;
        (A::Start(c, x), B::Start(d, y)) => container(c, d) && attrs(x, y),
        (A::End(c), B::End(d)) => container(c, d),
        (A::ThematicBreak(x), B::ThematicBreak(y)) | (A::Attributes(x), B::Attributes(y)) => attrs(x, y),
        (A::Str(s), B::Str(t)) => s == t,
        (A::FootnoteReference(s), B::FootnoteReference(t)) => s == t,
        (A::Symbol(s), B::Symbol(t)) => s == t,)
}

fn agree(src: &str) {
    let a: Vec<_> = h::Parser::new(src).into_offset_iter().collect();
    let b: Vec<_> = o::Parser::new(src).into_offset_iter().collect();
    check!(a.len() == b.len());
    for ((e, r), (f, s)) in a.iter().zip(&b) {
        check!(event(e, f));
        check!(r == s);
    }
    let (mut x, mut y) = (String::new(), String::new());
    check!(h::html::Renderer::default().push_events(a.iter().map(|(e, _)| e.clone()), &mut x).is_ok());
    check!(o::html::Renderer::default().push_events(b.iter().map(|(e, _)| e.clone()), &mut y).is_ok());
    rt::out(x.as_bytes());
    check!(x == y);
    let (mut x, mut y) = (String::new(), String::new());
    check!(h::html::Renderer::minified().push_events(a.into_iter().map(|(e, _)| e), &mut x).is_ok());
    check!(o::html::Renderer::minified().push_events(b.into_iter().map(|(e, _)| e), &mut y).is_ok());
    check!(x == y);
}

/// Every parser and renderer makes maps with new hash keys: the output may not depend on them.
fn keys(src: &str) {
    let first: Vec<_> = h::Parser::new(src).into_offset_iter().collect();
    let html = h::html::render_to_string(first.iter().map(|(e, _)| e.clone()));
    rt::out(html.as_bytes());
    for _ in 0..8 {
        let p = h::Parser::new(src).into_offset_iter();
        check!(first.iter().cloned().eq(p));
        check!(html == h::html::render_to_string(first.iter().map(|(e, _)| e.clone())));
    }
}

pub fn dispatch(oracle: u32, input: &[u8], choice: &[u8]) -> u32 {
    if oracle >= 1000 {
        return dispatch(oracle - 1000, &pieces::assemble(input), choice);
    }
    let Ok(s) = std::str::from_utf8(input) else { rt::reject() };
    match oracle {
        250 => agree(s),
        251 => keys(s),
        _ => rt::reject(),
    }
    0
}
