//! C23: content nested in a container parses as it would alone.

use crate::compare::{owned, Ev};
use crate::rt;
use jotdown::{Attributes, Container, Event, Parser};

/// The events without sections, whose attributes go to their heading.
fn flat(src: &str) -> Vec<Ev> {
    let mut out = Vec::new();
    let mut attrs = Attributes::new();
    for e in Parser::new(src).map(owned) {
        match e {
            Event::Start(Container::Section { .. }, a) => attrs = a,
            Event::End(Container::Section { .. }) => {}
            Event::Start(Container::Heading { level, id, .. }, a) => {
                let a = if attrs.is_empty() { a } else { std::mem::take(&mut attrs) };
                out.push(Event::Start(Container::Heading { level, has_section: false, id }, a));
            }
            Event::End(Container::Heading { level, id, .. }) => {
                out.push(Event::End(Container::Heading { level, has_section: false, id }));
            }
            Event::Str(s) => match out.last_mut() {
                Some(Event::Str(t)) => *t = format!("{t}{s}").into(),
                _ => out.push(Event::Str(s)),
            },
            // tightness is decided by what surrounds the blank lines
            Event::Start(Container::List { kind, .. }, a) => out.push(Event::Start(Container::List { kind, tight: true }, a)),
            Event::End(Container::List { kind, .. }) => out.push(Event::End(Container::List { kind, tight: true })),
            e => out.push(e),
        }
    }
    out
}

fn prefixed(src: &str, first: &str, prefix: &str, blank: &str) -> String {
    let mut s = String::new();
    for (i, l) in src.split_inclusive('\n').enumerate() {
        let p = if rt::split(u8::from(l == "\n")) != 0 { blank } else { prefix };
        s.push_str(if i == 0 { first } else { p });
        s.push_str(l);
    }
    s
}

fn first_line(src: &str) -> &str {
    src.split('\n').next().unwrap()
}

pub const KINDS: u8 = 12;

/// late: the content follows another block of the item or note.
pub fn transparent(src: &str, kind: u8, late: bool) {
    let kind = rt::split(kind) % KINDS;
    let alone = flat(src);
    let inner = &alone[1..alone.len() - 1];
    let fenced = || src.as_bytes().windows(3).any(|w| matches!(w, b"```" | b"~~~" | b":::"));
    // an empty first line is not the content of a marker's line
    let first = first_line(src).trim_ascii();
    let mark = match kind {
        3 | 4 => "-",
        5 => "12.",
        6 => "(a)",
        7 => "- [x]",
        8 => "[^zz]:",
        9 => " +",
        _ => ":",
    };
    let item = (3..=9).contains(&kind);
    if item && !late {
        // a first line of dashes makes a thematic break with the bullet, and lines without the
        // prefix of a quote in the content keep the blank that follows the marker
        let dashes = matches!(kind, 3 | 4) && first.bytes().all(|c| b"-* \t".contains(&c));
        let task = matches!(kind, 3 | 4 | 9) && first.starts_with('[');
        let quoted = src.lines().map(str::trim_ascii).filter(|l| *l == ">" || l.starts_with("> ")).count();
        let lazy = quoted > 0 && quoted < src.lines().filter(|l| !l.trim_ascii().is_empty()).count();
        if first.is_empty() || dashes || task || lazy {
            rt::reject();
        }
    } else if kind == 10 && first.is_empty() {
        rt::reject();
    }
    let blanks = " ".repeat(mark.len());
    let skip = if (3..=7).contains(&kind) || matches!(kind, 9 | 10) { 2 } else { 1 };
    let text = match kind {
        0 => prefixed(src, "> ", "> ", "> "),
        1 => prefixed(src, "> ", "> ", ">"),
        2 => format!("{} x\n{src}", ":".repeat(9.max(1 + src.split(|c| c != ':').map(str::len).max().unwrap_or(0)))),
        10 => format!(": t\n\n{}", prefixed(src, " ", " ", "")),
        11 if fenced() || src.trim_ascii_end().ends_with(['-', '+', '*']) => rt::reject(),
        11 => format!(":::\n{src}{}:::\n\nz\n", if src.ends_with('\n') || src.is_empty() { "" } else { "\n" }),
        _ if late => format!("{mark} z\n\n{}", prefixed(src, &blanks, &blanks, "")),
        _ => {
            let p = format!("{blanks} ");
            prefixed(src, &format!("{mark} "), &p, if kind == 4 { &p } else { "" })
        }
    };
    let got = flat(&text);
    let at = match kind {
        // the term, and the blank line after it
        10 => match got.iter().position(|e| matches!(e, Event::Start(Container::DescriptionDetails, _))) {
            Some(i) => i + 1,
            None => rt::fail(line!()),
        },
        // a paragraph of one word, and the blank line
        _ if item && late => 1 + skip + 4,
        _ => 1 + skip,
    };
    if got.len() < at + inner.len() + skip {
        rt::fail(line!());
    }
    let nested = &got[at..at + inner.len()];
    #[cfg(feature = "native")]
    if std::env::var_os("SYMX_SHOW_PANIC").is_some() {
        if let Some(i) = nested.iter().zip(inner).position(|(a, b)| a != b) {
            eprintln!("{text:?} event {i}: alone {:?}\n  nested {:?}", inner[i], nested[i]);
        }
    }
    check!(nested == inner);
    // only the container's ends follow
    let rest = &got[at + inner.len()..];
    check!(rest.iter().take(skip).all(|e| matches!(e, Event::End(_))));
    let end = match kind {
        11 => 5,
        _ => 1,
    };
    check!(rest.len() == skip + end);
    for e in nested {
        if let Event::Str(s) = e {
            rt::out(s.as_bytes());
        }
    }
}

/// Two paragraphs, and a document without its last line break.
pub fn independent(src: &str) {
    if let Some((a, b)) = src.split_once("\n\n") {
        let (ea, eb) = (flat(a), flat(b));
        let para = |e: &[Ev]| {
            e.len() > 2
                && e[1] == Event::Start(Container::Paragraph, Attributes::new())
                && e.iter().position(|e| *e == Event::End(Container::Paragraph)) == Some(e.len() - 2)
        };
        if para(&ea) && para(&eb) {
            let both = flat(src);
            let want: Vec<&Ev> =
                ea[..ea.len() - 1].iter().chain(std::iter::once(&Event::Blankline)).chain(&eb[1..]).collect();
            check!(both.len() == want.len());
            check!(both.iter().zip(want).all(|(x, y)| x == y));
            rt::out(b"two");
        }
    }
    if let Some(s) = src.strip_suffix('\n') {
        let last = s.rsplit('\n').next().unwrap();
        if last.trim_ascii().is_empty() || src.contains(['`', '~']) || last.trim_ascii_end().ends_with(['-', '+', '*']) {
            rt::reject();
        }
        check!(flat(s) == flat(src));
        rt::out(b"end");
    }
}
