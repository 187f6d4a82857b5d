#[macro_use]
pub mod rt;
mod api;
mod attrs;
mod built;
mod compare;
mod cost;
mod events;
mod htmlck;
mod minline;
mod model;
mod notes;
mod pieces;
mod refhtml;
mod wrap;

use jotdown::html::{Indentation, Renderer};
use jotdown::{Attributes, Container, Event, Parser, Render};

fn render<'s>(src: &'s str, mut r: Renderer<'s>) -> String {
    let mut s = String::new();
    check!(r.push_events(Parser::new(src), &mut s).is_ok());
    s
}

fn indented(string: &str, level: usize) -> Renderer<'static> {
    Renderer::indented(Indentation { string: string.to_string(), initial_level: level })
}

/// Raw content made inert, so that the output consists of the renderer's own markup only.
fn inert<'s>(e: Event<'s>) -> Event<'s> {
    let f = |c: Container<'s>| match c {
        Container::RawBlock { .. } => Container::RawBlock { format: "other".into() },
        Container::RawInline { .. } => Container::RawInline { format: "other".into() },
        c => c,
    };
    match e {
        Event::Start(c, a) => Event::Start(f(c), a),
        Event::End(c) => Event::End(f(c)),
        e => e,
    }
}

fn total(src: &str) {
    let n = Parser::new(src).count();
    check!(n >= 2);
    check!(Parser::new(src).into_offset_iter().count() == n);
    rt::out(jotdown::html::render_to_string(Parser::new(src)).as_bytes());
    rt::out(render(src, Renderer::minified()).as_bytes());
    rt::out(render(src, indented("\t", 1)).as_bytes());
}

fn attrs_total(src: &str) {
    match Attributes::try_from(src) {
        Ok(a) => {
            rt::out(b"ok");
            for (k, v) in a.unique_pairs() {
                rt::out(k.as_bytes());
                rt::out(v.to_string().as_bytes());
            }
            rt::out(format!("{a:?}").as_bytes());
        }
        Err(e) => {
            check!(e.pos <= src.len());
            rt::out(b"err");
        }
    }
}

/// C04: strict tokens, and the visible text decodes to the text of the events.
fn escaping(src: &str, layout: u8) {
    let ev: Vec<Event> = Parser::new(src).map(inert).collect();
    let mut r = match layout {
        0 => Renderer::default(),
        1 => Renderer::minified(),
        _ => indented("  ", 1),
    };
    let mut html = String::new();
    check!(r.push_events(ev.iter().cloned(), &mut html).is_ok());
    rt::out(html.as_bytes());
    let Some(toks) = htmlck::tokens(&html) else { rt::fail(line!()) };
    if layout != 1 {
        return;
    }
    let mut seen = String::new();
    let mut hrefs = Vec::new();
    for t in &toks {
        match t {
            htmlck::Tok::Text(t) => htmlck::decode(t, &mut seen),
            htmlck::Tok::Open("a", at) => {
                if let Some((_, v)) = at.iter().find(|(k, _)| *k == "href") {
                    let mut s = String::new();
                    htmlck::decode(v, &mut s);
                    hrefs.push(s);
                }
            }
            _ => {}
        }
    }
    let mut want = String::new();
    let mut links = Vec::new();
    let (mut hide, mut alt) = (0, 0);
    for e in &ev {
        match e {
            Event::Start(c, _) | Event::End(c) => {
                let start = matches!(e, Event::Start(..));
                let d = if start { 1 } else { -1 };
                match c {
                    Container::LinkDefinition { .. } | Container::RawBlock { .. } | Container::RawInline { .. } => hide += d,
                    Container::Image(..) => alt += d,
                    Container::Math { display } if alt == 0 => want.push_str(match (display, start) {
                        (true, true) => "\\[",
                        (true, false) => "\\]",
                        (false, true) => "\\(",
                        (false, false) => "\\)",
                    }),
                    Container::Link(dst, ty) if alt == 0 && start => match ty {
                        jotdown::LinkType::Email => links.push(format!("mailto:{dst}")),
                        jotdown::LinkType::Span(jotdown::SpanLinkType::Unresolved) => {}
                        _ => links.push(dst.to_string()),
                    },
                    Container::Footnote { .. } => return,
                    _ => {}
                }
            }
            _ if hide > 0 || alt > 0 => {}
            Event::Str(s) => want.push_str(s),
            Event::Symbol(s) => {
                want.push(':');
                want.push_str(s);
                want.push(':');
            }
            Event::FootnoteReference(_) => return,
            Event::LeftSingleQuote => want.push('‘'),
            Event::RightSingleQuote => want.push('’'),
            Event::LeftDoubleQuote => want.push('“'),
            Event::RightDoubleQuote => want.push('”'),
            Event::Ellipsis => want.push('…'),
            Event::EnDash => want.push('–'),
            Event::EmDash => want.push('—'),
            Event::NonBreakingSpace => want.push('\u{a0}'),
            Event::Softbreak => want.push('\n'),
            _ => {}
        }
    }
    check!(want == seen);
    // a user attribute may repeat href or remove it from an unresolved link: compare the others
    if !src.contains("href") {
        check!(links == hrefs);
    }
}

fn nesting(src: &str, layout: u8) {
    let r = match layout {
        0 => Renderer::default(),
        1 => Renderer::minified(),
        _ => indented("\t", 2),
    };
    let mut r = r;
    let mut html = String::new();
    check!(r.push_events(Parser::new(src).map(inert), &mut html).is_ok());
    rt::out(html.as_bytes());
    let Some(toks) = htmlck::tokens(&html) else { rt::reject() };
    if let Err(_e) = htmlck::nested(&toks) {
        #[cfg(feature = "native")]
        if std::env::var_os("SYMX_SHOW_PANIC").is_some() {
            eprintln!("{_e}\n{html}");
        }
        rt::fail(line!());
    }
}

fn same(want: &str, got: &str) -> bool {
    let r = want.trim_start_matches('\n') == got.trim_start_matches('\n');
    #[cfg(feature = "native")]
    if !r && std::env::var_os("SYMX_SHOW_PANIC").is_some() {
        eprintln!("--- expected\n{want}\n--- got\n{got}");
    }
    r
}

/// C06: each layout equals the reference layout; choice: indentation string and level.
fn layout(src: &str, choice: &[u8]) {
    let ev: Vec<Event> = Parser::new(src).collect();
    let dropped = ev.iter().any(|e| matches!(e, Event::Start(Container::RawBlock { format }, _) if format != "html"));
    if dropped {
        rt::reject(); // leaves an empty line behind
    }
    let strings = ["", "\t", "  ", "é", "ab"];
    let s = strings[rt::split(choice.first().copied().unwrap_or(0)) as usize % strings.len()];
    let level = rt::split(choice.get(1).copied().unwrap_or(0)) as usize % 4;
    let mut got = String::new();
    let mut r = if choice.is_empty() { Renderer::default() } else { indented(s, level) };
    check!(r.push_events(ev.iter().cloned(), &mut got).is_ok());
    rt::out(got.as_bytes());
    let Some(want) = refhtml::render(&ev, refhtml::Layout::Lines(s, level)) else { rt::reject() };
    // the depth of the footnote section is not specified
    let cut = |s: &'_ str| s.find(refhtml::ENDNOTES).map_or(s.len(), |i| s[..i].trim_end_matches(['\n', '\t', ' ']).len());
    if s.is_empty() {
        check!(same(&want, &got));
    } else {
        check!(same(&want[..cut(&want)], &got[..cut(&got)]));
        let squash = |x: &str| x.chars().filter(|c| !"\n\t éab".contains(*c)).collect::<String>();
        check!(squash(&want) == squash(&got));
    }
}

/// C07: the minified output is the documented element mapping.
fn mapping(src: &str) {
    let ev: Vec<Event> = Parser::new(src).collect();
    let got = {
        let mut s = String::new();
        check!(Renderer::minified().push_events(ev.iter().cloned(), &mut s).is_ok());
        s
    };
    rt::out(got.as_bytes());
    let Some(want) = refhtml::render(&ev, refhtml::Layout::Minified) else { rt::reject() };
    check!(same(&want, &got));
}

/// C15: bullet types and characters.
fn bullets(src: &str, byte: u8) {
    use jotdown::ListBulletType as B;
    let want = |c: u32| match char::from_u32(c) {
        Some('-') => Some(B::Dash),
        Some('*') => Some(B::Star),
        Some('+') => Some(B::Plus),
        _ => None,
    };
    check!(B::try_from(byte).ok() == want(byte.into()));
    for c in src.chars() {
        check!(B::try_from(c).ok() == want(c.into()));
        if let Ok(b) = B::try_from(c) {
            check!(char::from(b) == c && u32::from(u8::from(b)) == u32::from(c));
        }
    }
}

pub fn dispatch(oracle: u32, input: &[u8], choice: &[u8]) -> u32 {
    if oracle >= 1000 {
        return dispatch(oracle - 1000, &pieces::assemble(input), choice);
    }
    let Ok(s) = std::str::from_utf8(input) else { rt::reject() };
    let c = |i: usize| choice.get(i).copied().unwrap_or(0);
    match oracle {
        0 => rt::out(jotdown::html::render_to_string(Parser::new(s)).as_bytes()),
        1 => total(s),
        2 => attrs_total(s),
        10 => events::content_model(s),
        20 => events::offsets(s),
        30 => escaping(s, c(0)),
        40 => nesting(s, c(0)),
        50 => layout(s, choice),
        60 => mapping(s),
        70 => api::agree(s, choice),
        80 => api::values(s, choice),
        90 => attrs::grammar(s),
        100 => attrs::lookup(s, choice),
        140 => notes::linked(s, c(0)),
        230 => wrap::transparent(s, c(0), c(1) % 2 != 0),
        231 => wrap::independent(s),
        200..=222 => compare::events(s, oracle - 200, c(0) != 0),
        250 => bullets(s, c(0)),
        260 => cost::linear(s),
        261 => cost::quadratic(s),
        262 => cost::numbered(s),
        280 => built::built(s, choice),
        281 => built::edited(s, choice),
        _ => rt::reject(),
    }
    0
}
