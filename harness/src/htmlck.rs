//! Tokeniser for the produced HTML, with strict syntax, and nesting rules.

pub enum Tok<'a> {
    Open(&'a str, Vec<(&'a str, &'a str)>),
    Close(&'a str),
    Text(&'a str),
}

const VOID: &[&str] = &["img", "br", "hr", "input"];
const TAGS: &[&str] = &[
    "blockquote", "ul", "ol", "li", "dl", "dt", "dd", "table", "tr", "td", "th", "caption", "section", "div", "p", "pre", "code",
    "span", "a", "img", "sub", "sup", "ins", "del", "strong", "em", "mark", "br", "hr", "input",
];

pub fn known_tag(t: &str) -> bool {
    TAGS.contains(&t) || (t.len() > 1 && t.starts_with('h') && t[1..].bytes().all(|b| b.is_ascii_digit()))
}

/// Text or attribute value: only entities may contain '&', no '<' or '>'.
fn clean(s: &str, attr: bool) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'<' | b'>' => return false,
            b'"' if attr => return false,
            b'&' => {
                let rest = &b[i..];
                let ents: &[&[u8]] = &[b"&amp;", b"&lt;", b"&gt;", b"&nbsp;", b"&quot;"];
                if !ents.iter().any(|e| rest.starts_with(e)) {
                    return false;
                }
            }
            _ => {}
        }
        i += 1;
    }
    true
}

pub fn decode(s: &str, out: &mut String) {
    let mut i = 0;
    while i < s.len() {
        let r = &s[i..];
        if !r.starts_with('&') {
            let n = r.find('&').unwrap_or(r.len());
            out.push_str(&r[..n]);
            i += n;
            continue;
        }
        let (c, n) = if r.starts_with("&amp;") {
            ('&', 5)
        } else if r.starts_with("&lt;") {
            ('<', 4)
        } else if r.starts_with("&gt;") {
            ('>', 4)
        } else if r.starts_with("&quot;") {
            ('"', 6)
        } else if r.starts_with("&nbsp;") {
            ('\u{a0}', 6)
        } else {
            ('\u{fffd}', 1)
        };
        out.push(c);
        i += n;
    }
}

pub fn tokens(s: &str) -> Option<Vec<Tok<'_>>> {
    let b = s.as_bytes();
    let name = |mut i: usize| {
        while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b':' | b'_' | b'-')) {
            i += 1;
        }
        i
    };
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'<' {
            let j = b[i..].iter().position(|c| *c == b'<').map_or(b.len(), |n| i + n);
            if !clean(&s[i..j], false) {
                return None;
            }
            out.push(Tok::Text(&s[i..j]));
            i = j;
            continue;
        }
        let close = b.get(i + 1) == Some(&b'/');
        let from = i + 1 + usize::from(close);
        let to = name(from);
        let tag = &s[from..to];
        if !known_tag(tag) {
            return None;
        }
        i = to;
        let mut attrs = Vec::new();
        while !close && b.get(i) == Some(&b' ') {
            let k = name(i + 1);
            if k == i + 1 || b.get(k) != Some(&b'=') || b.get(k + 1) != Some(&b'"') {
                return None;
            }
            let end = k + 2 + b[k + 2..].iter().position(|c| *c == b'"')?;
            let v = &s[k + 2..end];
            if !clean(v, true) {
                return None;
            }
            attrs.push((&s[i + 1..k], v));
            i = end + 1;
        }
        if !close && b.get(i) == Some(&b'/') {
            if tag != "input" {
                return None;
            }
            i += 1;
        }
        if b.get(i) != Some(&b'>') {
            return None;
        }
        i += 1;
        out.push(if close { Tok::Close(tag) } else { Tok::Open(tag, attrs) });
    }
    Some(out)
}

fn inline_tag(t: &str) -> bool {
    matches!(t, "span" | "a" | "img" | "sub" | "sup" | "ins" | "del" | "strong" | "em" | "mark" | "br" | "code" | "input")
}

/// Index of the first token that breaks the nesting rules.
pub fn nested(toks: &[Tok]) -> Result<(), &'static str> {
    let mut stack: Vec<&str> = Vec::new();
    for t in toks {
        let top = stack.last().copied().unwrap_or("");
        match t {
            Tok::Text(s) => {
                let blank = s.bytes().all(|c| c == b' ' || c == b'\n' || c == b'\t');
                if !blank && matches!(top, "ul" | "ol" | "dl" | "table" | "tr") {
                    return Err("text in list or table");
                }
            }
            Tok::Open(t, _) => {
                let t = *t;
                let ok = match t {
                    "li" => matches!(top, "ul" | "ol"),
                    "dt" | "dd" => top == "dl",
                    "tr" | "caption" => top == "table",
                    "td" | "th" => top == "tr",
                    t if inline_tag(t) => !matches!(top, "ul" | "ol" | "dl" | "table" | "tr"),
                    _ => {
                        matches!(top, "" | "blockquote" | "li" | "dd" | "section" | "div")
                    }
                };
                if !ok {
                    return Err("element not allowed in its parent");
                }
                if !VOID.contains(&t) {
                    stack.push(t);
                }
            }
            Tok::Close(t) => {
                if stack.pop() != Some(*t) {
                    return Err("end tag does not match");
                }
            }
        }
    }
    if stack.is_empty() {
        Ok(())
    } else {
        Err("unclosed element")
    }
}
