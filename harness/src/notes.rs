//! C14: numbering and placement of footnotes in the HTML.

use crate::{compare, htmlck, inert, model, rt};
use jotdown::{Container, Event, Parser, Render};

type Ev = compare::Ev;

/// What is left of the output: the text's letters and digits, and the parts of footnotes.
fn expected(ev: &[Ev]) -> String {
    // contents of the notes, without the notes defined in them
    let mut notes: Vec<(String, Vec<&Ev>)> = Vec::new();
    let mut body: Vec<&Ev> = Vec::new();
    let mut open: Vec<(String, Vec<&Ev>)> = Vec::new();
    for e in ev {
        match e {
            Event::Start(Container::Footnote { label }, _) => open.push((label.to_string(), Vec::new())),
            Event::End(Container::Footnote { .. }) => {
                let n = open.pop().unwrap();
                // the last definition counts
                notes.retain(|x| x.0 != n.0);
                notes.push(n);
            }
            e => open.last_mut().map_or(&mut body, |o| &mut o.1).push(e),
        }
    }
    let mut order: Vec<String> = Vec::new();
    let mut out = String::new();
    content(&body, &mut order, &mut out);
    let mut n = 0;
    if !order.is_empty() {
        out.push_str("<section>");
    }
    while n < order.len() {
        let label = order[n].clone();
        n += 1;
        out.push_str(&format!("<note {n}>"));
        if let Some((_, c)) = notes.iter().find(|x| x.0 == label) {
            content(c, &mut order, &mut out);
        }
        out.push_str(&format!("<back {n}></note>"));
    }
    if n > 0 {
        out.push_str("</section>");
    }
    out
}

fn content(ev: &[&Ev], order: &mut Vec<String>, out: &mut String) {
    let (mut hide, mut alt) = (0, 0);
    for e in ev {
        match e {
            Event::Start(c, _) | Event::End(c) => {
                let d = if matches!(e, Event::Start(..)) { 1 } else { -1 };
                match c {
                    Container::LinkDefinition { .. } | Container::RawBlock { .. } | Container::RawInline { .. } => hide += d,
                    Container::Image(..) => alt += d,
                    _ => {}
                }
            }
            _ if hide > 0 || alt > 0 => {}
            Event::Str(s) | Event::Symbol(s) => letters(s, out),
            Event::FootnoteReference(l) => {
                let n = match order.iter().position(|x| **x == **l) {
                    Some(i) => i + 1,
                    None => {
                        order.push(l.to_string());
                        order.len()
                    }
                };
                out.push_str(&format!("<ref {n}>"));
            }
            _ => {}
        }
    }
}

fn letters(s: &str, out: &mut String) {
    out.extend(s.chars().filter(char::is_ascii_alphanumeric));
}

fn found(html: &str) -> Option<String> {
    use htmlck::Tok::{Close, Open, Text};
    let mut toks = htmlck::tokens(html)?;
    toks.retain(|t| !matches!(t, Text(t) if t.trim_ascii().is_empty()));
    let mut out = String::new();
    // open elements, true for parts of footnotes
    let mut open: Vec<Option<&str>> = Vec::new();
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            Text(t) => {
                let mut s = String::new();
                htmlck::decode(t, &mut s);
                letters(&s, &mut out);
            }
            Open("a", at) if at.first().is_some_and(|a| a.0 == "id" && a.1.starts_with("fnref")) => {
                let n = &at[0].1[5..];
                let href = format!("#fn{n}");
                if at[..] != [("id", at[0].1), ("href", href.as_str()), ("role", "doc-noteref")] {
                    return None;
                }
                match toks.get(i + 1..i + 5)? {
                    [Open("sup", a), Text(t), Close("sup"), Close("a")] if a.is_empty() && *t == n => {}
                    _ => return None,
                }
                out.push_str(&format!("<ref {n}>"));
                i += 4;
            }
            Open("a", at) if at.get(1) == Some(&("role", "doc-backlink")) => {
                let n = at[0].1.strip_prefix("#fnref").filter(|_| at[0].0 == "href" && at.len() == 2)?;
                out.push_str(&format!("<back {n}>"));
                open.push(None);
            }
            Open("section", at) if at[..] == [("role", "doc-endnotes")] => {
                out.push_str("<section>");
                match toks.get(i + 1..i + 3)? {
                    [Open("hr", _), Open("ol", _)] => {}
                    _ => return None,
                }
                open.push(Some("</section>"));
            }
            Open("li", at) if !at.is_empty() && at[0].1.starts_with("fn") => {
                let n = at[0].1[2..].to_string();
                if at.len() != 1 || at[0].0 != "id" {
                    return None;
                }
                out.push_str(&format!("<note {n}>"));
                open.push(Some("</note>"));
            }
            Open("img" | "br" | "hr" | "input", _) => {}
            Open(..) => open.push(None),
            Close(_) => {
                if let Some(s) = open.pop()? {
                    out.push_str(s);
                }
            }
        }
        i += 1;
    }
    open.is_empty().then_some(out)
}

pub fn linked(src: &str, layout: u8) {
    let doc = model::document(src);
    if doc.odd {
        rt::reject();
    }
    let r = match layout {
        0 => jotdown::html::Renderer::default(),
        1 => jotdown::html::Renderer::minified(),
        _ => crate::indented("  ", 1),
    };
    let mut r = r;
    let mut html = String::new();
    check!(r.push_events(Parser::new(src).map(inert), &mut html).is_ok());
    rt::out(html.as_bytes());
    let want = expected(&doc.ev);
    let got = found(&html);
    #[cfg(feature = "native")]
    if std::env::var_os("SYMX_SHOW_PANIC").is_some() && got.as_ref() != Some(&want) {
        eprintln!("{html}\nexpected {want}\n     got {got:?}");
    }
    check!(got == Some(want));
}
