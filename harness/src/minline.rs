//! Reference for inline content: one pass over the joined text of a block.

use crate::attrs::{group, Elem};

#[derive(Clone, PartialEq)]
pub enum C {
    Span,
    Pair(u8),
    Verbatim,
    Raw(String),
    Math(bool),
    Link { image: bool, inline: bool, dst: String },
    Auto(String),
}

#[derive(Clone)]
pub enum K {
    Str,
    Escape,
    Nbsp,
    Soft,
    Hard,
    Ellipsis,
    En,
    Em,
    Quote { single: bool, left: bool },
    Symbol,
    Footnote,
    Open(C),
    Close(C),
    /// Attributes of the container opened next.
    Attr(Vec<Elem>),
    /// Attributes of the word before.
    Word(Vec<Elem>),
    /// Place for attributes.
    Mark,
}

#[derive(Clone)]
pub struct Ev {
    pub k: K,
    pub a: usize,
    pub b: usize,
}

#[derive(Clone, Copy, PartialEq)]
enum Op {
    Bracket { image: bool },
    Pair { ch: u8, explicit: bool },
    Quote { single: bool },
    Link { span: usize, image: bool, inline: bool },
}

/// Possible delimiters.
#[derive(Clone, Copy, PartialEq)]
enum D {
    Explicit(u8),
    Closing(u8),
    Plain(u8),
    Image,
}

pub struct P<'a> {
    s: &'a str,
    b: &'a [u8],
    pos: usize,
    pub ev: Vec<Ev>,
    open: Vec<(Op, usize)>,
    /// A destination over several lines with markup in it: not specified.
    pub odd: bool,
}

fn ws(c: u8) -> bool {
    c.is_ascii_whitespace()
}

pub fn parse(s: &str) -> P<'_> {
    let mut p = P { s, b: s.as_bytes(), pos: 0, ev: Vec::new(), open: Vec::new(), odd: false };
    while p.pos < p.b.len() {
        p.step();
    }
    p
}

impl P<'_> {
    fn at(&self, i: usize) -> u8 {
        self.b.get(i).copied().unwrap_or(0)
    }

    fn push(&mut self, k: K, a: usize, b: usize) {
        self.ev.push(Ev { k, a, b });
        self.pos = b;
    }

    fn run(&self, mut i: usize, c: u8) -> usize {
        let a = i;
        while i < self.b.len() && self.b[i] == c {
            i += 1;
        }
        i - a
    }

    /// A brace that may begin attributes.
    fn brace(&self, i: usize) -> bool {
        self.at(i) == b'{' && !matches!(self.at(i + 1), b'*' | b'^' | b'=' | b'-' | b'+' | b'~' | b'_' | b'\'' | b'"')
    }

    fn step(&mut self) {
        let a = self.pos;
        let c = self.b[a];
        let n = self.at(a + 1);
        match c {
            b'`' => {
                let n = self.run(a, b'`');
                if n <= 255 {
                    self.verbatim(a, n);
                } else {
                    self.push(K::Str, a, a + n);
                }
            }
            b'\n' => self.push(K::Soft, a, a + 1),
            b'\\' => self.escape(a),
            b'{' if self.brace(a) => {
                if !self.attributes(None) {
                    self.push(K::Str, a, a + 1);
                }
            }
            b'<' if self.autolink(a) => {}
            b':' if self.symbol(a) => {}
            b'[' if n == b'^' && self.at(a + 2) != b'}' && self.footnote(a) => {}
            b'{' => self.delim(D::Explicit(n), a, a + 2),
            b'*' | b'^' | b'=' | b'+' | b'~' | b'_' | b'\'' | b'"' | b'-' if n == b'}' => self.delim(D::Closing(c), a, a + 2),
            b'!' if n == b'[' => self.delim(D::Image, a, a + 2),
            b'*' | b'^' | b'~' | b'_' | b'\'' | b'"' | b'[' | b']' | b')' => self.delim(D::Plain(c), a, a + 1),
            b'.' => {
                let end = a + self.run(a, b'.');
                while end - self.pos >= 3 {
                    let p = self.pos;
                    self.push(K::Ellipsis, p, p + 3);
                }
                let p = self.pos;
                self.push(K::Str, p, end);
            }
            b'-' => {
                let mut len = self.run(a, b'-');
                // the last one may belong to a closing delimiter
                if len > 1 && self.at(a + len) == b'}' {
                    len -= 1;
                }
                self.dashes(a, len);
            }
            _ => {
                let n = self.b[a + 1..].iter().take_while(|c| !b"\\[](){}*^=+~_'\"-!<|:`.\n".contains(c)).count();
                self.push(K::Str, a, a + 1 + n);
            }
        }
    }

    fn dashes(&mut self, a: usize, len: usize) {
        if len == 1 {
            return self.push(K::Str, a, a + 1);
        }
        let en = if len % 3 == 0 {
            0
        } else if len % 2 == 0 {
            len / 2
        } else if len % 3 == 2 {
            1
        } else {
            2
        };
        let em = (len - 2 * en) / 3;
        let mut p = a;
        for _ in 0..em {
            self.push(K::Em, p, p + 3);
            p += 3;
        }
        for _ in 0..en {
            self.push(K::En, p, p + 2);
            p += 2;
        }
    }

    fn escape(&mut self, a: usize) {
        let rest = &self.b[a + 1..];
        let blanks = rest.iter().take_while(|c| **c == b' ' || **c == b'\t').count();
        if rest.get(blanks) == Some(&b'\n') {
            self.push(K::Escape, a, a + 1);
            self.push(K::Hard, a + 1, a + 2 + blanks);
        } else if self.at(a + 1) == b' ' {
            self.push(K::Escape, a, a + 1);
            self.push(K::Nbsp, a + 1, a + 2);
        } else if self.at(a + 1).is_ascii_punctuation() {
            self.push(K::Escape, a, a + 1);
            self.push(K::Str, a + 1, a + 2);
        } else {
            self.push(K::Str, a, a + 1);
        }
    }

    fn escaped(&self, i: usize) -> bool {
        self.b[..i].iter().rev().take_while(|c| **c == b'\\').count() % 2 == 1
    }

    fn verbatim(&mut self, a: usize, n: usize) {
        let len = match self.ev.last() {
            Some(Ev { k: K::Str, a: f, b }) if *b == a => a - f,
            _ => 0,
        };
        let mut dollars = 0;
        while dollars < len.min(2) && self.b[a - dollars - 1] == b'$' && !self.escaped(a - dollars - 1) {
            dollars += 1;
        }
        if dollars > 0 {
            self.ev.last_mut().unwrap().b -= dollars;
        }
        let mut c = match dollars {
            0 => C::Verbatim,
            k => C::Math(k == 2),
        };
        self.push(K::Mark, a - dollars, a - dollars);
        let open = self.ev.len();
        self.push(K::Open(c.clone()), a - dollars, a + n);
        let from = a + n;
        let (mut to, mut closed) = (self.b.len(), false);
        let mut i = from;
        while i < self.b.len() {
            let r = self.run(i, b'`');
            if r == n {
                (to, closed) = (i, true);
                break;
            }
            i += r.max(1);
        }
        // blanks between the delimiters and backticks at the border are dropped
        let lead = self.b[from..to].iter().take_while(|c| ws(**c)).count();
        let mut end = to;
        if closed {
            let t = self.s[from..to].trim_ascii_end();
            if t.ends_with('`') {
                end = from + t.len();
            }
        }
        if from + lead < to && self.b[from + lead] == b'`' {
            let line = self.b[from..from + lead].iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1);
            self.push(K::Str, from, from + line);
            self.push(K::Str, from + lead, end);
        } else {
            self.push(K::Str, from, end);
        }
        self.pos = to;
        if !closed {
            return self.push(K::Close(c), to, to);
        }
        self.pos = to + n;
        let q = self.pos;
        if self.at(q) == b'{' && self.at(q + 1) == b'=' {
            let f = &self.b[q + 2..];
            let len = f.iter().take_while(|c| !ws(**c) && **c != b'{' && **c != b'}').count();
            if len > 0 && f.get(len) == Some(&b'}') {
                c = C::Raw(self.s[q + 2..q + 2 + len].to_string());
                self.ev[open].k = K::Open(c.clone());
                return self.push(K::Close(c), to, q + 3 + len);
            }
        }
        self.push(K::Close(c), to, q);
        if self.brace(q) {
            self.attributes(Some(open - 1));
        }
    }

    /// Attribute groups at the current position, for a container or the word before.
    fn attributes(&mut self, place: Option<usize>) -> bool {
        let a = self.pos;
        let mut all = Vec::new();
        let mut p = a;
        while self.at(p) == b'{' {
            let mut some = Vec::new();
            match group(self.s, self.b, p, &mut some) {
                Ok(q) => {
                    p = q;
                    all.append(&mut some);
                }
                Err(_) => break,
            }
        }
        if p == a {
            return false;
        }
        self.pos = p;
        match place {
            _ if all.is_empty() => {}
            None => self.push(K::Word(all), a, p),
            Some(mut i) => {
                if matches!(self.ev[i + 1].k, K::Str) {
                    if self.ev[i + 1].b == self.ev[i + 1].a + 2 {
                        // an exclamation mark before a span
                        let x = self.ev[i + 1].a;
                        self.ev.insert(i, Ev { k: K::Str, a: x, b: x + 1 });
                        i += 1;
                    }
                    self.ev[i + 1].k = K::Open(C::Span);
                    self.ev.last_mut().unwrap().k = K::Close(C::Span);
                }
                self.ev[i].k = K::Attr(all);
                self.ev.last_mut().unwrap().b = p;
            }
        }
        true
    }

    fn autolink(&mut self, a: usize) -> bool {
        let r = &self.s[a + 1..];
        let Some(n) = r.find(|c: char| c == '>' || c == '<' || c.is_ascii_whitespace()) else { return false };
        if self.b[a + 1 + n] != b'>' || !r[..n].contains([':', '@']) {
            return false;
        }
        let c = C::Auto(r[..n].to_string());
        self.push(K::Open(c.clone()), a, a + 1);
        self.push(K::Str, a + 1, a + 1 + n);
        self.push(K::Close(c), a + 1 + n, a + 2 + n);
        true
    }

    fn symbol(&mut self, a: usize) -> bool {
        let n = self.b[a + 1..].iter().take_while(|c| c.is_ascii_alphanumeric() || b"-+_".contains(c)).count();
        if n == 0 || self.at(a + 1 + n) != b':' {
            return false;
        }
        self.push(K::Symbol, a, a + 2 + n);
        true
    }

    fn footnote(&mut self, a: usize) -> bool {
        let Some(n) = self.b[a + 2..].iter().position(|c| matches!(c, b'[' | b']' | b'\n')) else { return false };
        if self.b[a + 2 + n] != b']' {
            return false;
        }
        self.push(K::Footnote, a, a + 3 + n);
        true
    }

    fn delim(&mut self, d: D, a: usize, b: usize) {
        if self.close(d, a, b) || self.open(d, a, b) {
            return;
        }
        let quote = |c: u8, left| K::Quote { single: c == b'\'', left };
        let k = match d {
            D::Explicit(c @ (b'\'' | b'"')) => quote(c, true),
            D::Plain(c @ (b'\'' | b'"')) | D::Closing(c @ (b'\'' | b'"')) => quote(c, false),
            _ => K::Str,
        };
        self.push(k, a, b);
    }

    fn open(&mut self, d: D, a: usize, b: usize) -> bool {
        let op = match d {
            D::Plain(b'[') => Op::Bracket { image: false },
            D::Image => Op::Bracket { image: true },
            D::Plain(c @ (b'\'' | b'"')) | D::Explicit(c @ (b'\'' | b'"')) => Op::Quote { single: c == b'\'' },
            D::Plain(c @ (b'*' | b'_' | b'^' | b'~')) => Op::Pair { ch: c, explicit: false },
            D::Explicit(c) => Op::Pair { ch: c, explicit: true },
            _ => return false,
        };
        let space_after = b >= self.b.len() || ws(self.b[b]);
        if space_after && matches!(op, Op::Pair { explicit: false, .. } | Op::Quote { .. }) {
            return false;
        }
        if op == (Op::Quote { single: true })
            && matches!(self.ev.last(), Some(Ev { k: K::Str, .. }))
            && !ws(self.b[a - 1])
        {
            return false;
        }
        self.open.push((op, self.ev.len()));
        self.push(K::Mark, a, a);
        let k = match op {
            Op::Quote { single } => K::Quote { single, left: !single || matches!(d, D::Explicit(_)) },
            _ => K::Str,
        };
        self.push(k, a, b);
        true
    }

    fn close(&mut self, d: D, a: usize, b: usize) -> bool {
        let Some(o) = self.open.iter().rposition(|(op, _)| match (*op, d) {
            (Op::Bracket { .. } | Op::Link { inline: false, .. }, D::Plain(b']')) => true,
            (Op::Link { inline: true, .. }, D::Plain(b')')) => true,
            (Op::Pair { ch, explicit: false }, D::Plain(c)) => c == ch,
            (Op::Pair { ch, explicit: true }, D::Closing(c)) => c == ch,
            (Op::Quote { single }, D::Plain(c) | D::Closing(c)) => c == if single { b'\'' } else { b'"' },
            _ => false,
        }) else {
            return false;
        };
        let (op, e) = self.open[o];
        let space_before = a > 0 && ws(self.b[a - 1]);
        let empty = e + 2 == self.ev.len();
        let mut place = Some(e);
        match op {
            Op::Pair { ch, explicit } => {
                if empty || (space_before && !explicit) {
                    return false;
                }
                self.ev[e + 1].k = K::Open(C::Pair(ch));
                self.push(K::Close(C::Pair(ch)), a, b);
            }
            Op::Quote { single } => {
                if empty || space_before {
                    return false;
                }
                self.ev[e + 1].k = K::Quote { single, left: true };
                self.push(K::Quote { single, left: false }, a, b);
                place = None;
            }
            Op::Bracket { image } => {
                self.push(K::Str, a, b);
                let next = self.at(b);
                if next == b'(' || next == b'[' {
                    self.open.truncate(o);
                    self.open.push((Op::Link { span: e + 1, image, inline: next == b'(' }, self.ev.len()));
                    self.push(K::Str, b, b + 1);
                    return true;
                }
            }
            Op::Link { span, image, inline } => {
                place = Some(span - 1);
                let raw = &self.s[self.ev[e].b..a];
                let dst = if raw.is_empty() && !inline {
                    self.label(span + 1, e - 1)
                } else {
                    if raw.contains('\n') && raw.contains(['{', '`']) {
                        self.odd = true;
                    }
                    let parts: Vec<&str> = raw.split('\n').filter(|l| !l.is_empty()).collect();
                    parts.join(if inline { "" } else { " " })
                };
                let c = C::Link { image, inline, dst };
                self.ev[span].k = K::Open(c.clone());
                self.ev[e - 1].k = K::Close(c);
                self.ev[e - 1].b = b;
                self.ev.truncate(e);
                self.pos = b;
            }
        }
        self.open.truncate(o);
        if self.brace(b) {
            self.attributes(place);
        }
        true
    }

    /// The text of events as written, without formatting.
    fn label(&self, from: usize, to: usize) -> String {
        text(self.s, &self.ev[from..to])
    }
}

/// Text as written, without formatting and escaping, line breaks as blanks.
pub fn text(s: &str, ev: &[Ev]) -> String {
    let mut out = String::new();
    for e in ev {
        match e.k {
            K::Soft | K::Hard => out.push(' '),
            K::Str | K::Nbsp | K::Ellipsis | K::En | K::Em | K::Quote { .. } | K::Symbol | K::Footnote => out.push_str(&s[e.a..e.b]),
            _ => {}
        }
    }
    out
}
