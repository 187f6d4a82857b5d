//! C08: entry points agree, sink errors; C24: determinism and value semantics.

use crate::rt;
use jotdown::html::Renderer;
use jotdown::{Container, Event, Parser, Render};
use std::io;

/// Text sink that fails once more than `limit` bytes have been offered.
struct TextSink {
    got: String,
    limit: usize,
    dead: bool,
}

impl std::fmt::Write for TextSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let taken = self.got.len();
        if self.dead && !s.is_empty() {
            return Err(std::fmt::Error);
        }
        if rt::split((taken + s.len() > self.limit) as u8) != 0 {
            let mut n = self.limit - taken;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            self.got.push_str(&s[..n]);
            self.dead = true;
            return Err(std::fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// Byte sink with short writes and a failure of the given kind once `limit` bytes were taken.
struct ByteSink {
    got: Vec<u8>,
    limit: usize,
    max: usize,
    zero: bool,
    interrupt: bool,
    failures: usize,
}

impl io::Write for ByteSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.interrupt {
            self.interrupt = false;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let taken = self.got.len();
        if !b.is_empty() && rt::split((taken == self.limit) as u8) != 0 {
            self.failures += 1;
            return if self.zero { Ok(0) } else { Err(io::ErrorKind::BrokenPipe.into()) };
        }
        let mut n = b.len().min(self.max);
        if rt::split((taken + n > self.limit) as u8) != 0 {
            n = self.limit - taken;
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn renderer<'s>(k: u8) -> Renderer<'s> {
    match k % 3 {
        0 => Renderer::default(),
        1 => Renderer::minified(),
        _ => crate::indented("\t", 1),
    }
}

/// choice: layout, position of the failure, length of short writes and kind of failure.
pub fn agree(src: &str, choice: &[u8]) {
    let c = |i: usize| choice.get(i).copied().unwrap_or(0);
    let (lay, kind) = (rt::split(c(0)), rt::split(c(2)));
    let ev: Vec<Event> = Parser::new(src).collect();
    let mut full = String::new();
    check!(renderer(lay).push_events(ev.iter().cloned(), &mut full).is_ok());
    rt::out(full.as_bytes());
    if lay % 3 == 0 {
        check!(jotdown::html::render_to_string(Parser::new(src)) == full);
        check!(jotdown::html::render_to_string(ev.clone().into_iter()) == full);
    }
    // a sink that already holds something, events straight from the parser
    let mut s = String::from("<x>");
    check!(renderer(lay).push_events(Parser::new(src), &mut s).is_ok());
    check!(s.strip_prefix("<x>") == Some(&full[..]));
    // one event at a time, in pieces
    let mut s = String::new();
    let mut r = renderer(lay);
    let half = ev.len() / 2;
    for e in &ev[..half] {
        check!(r.push_event(e.clone(), &mut s).is_ok());
    }
    check!(full.starts_with(&s));
    check!(r.push_events(ev[half..].iter().cloned(), &mut s).is_ok());
    check!(s == full);
    // bytes
    let mut b: Vec<u8> = Vec::new();
    check!(renderer(lay).write_events(ev.iter().cloned(), &mut b).is_ok());
    check!(b == full.as_bytes());
    let mut b = ByteSink { got: Vec::new(), limit: usize::MAX, max: 1 + (kind % 3) as usize, zero: false, interrupt: true, failures: 0 };
    let mut r = renderer(lay);
    for e in &ev {
        check!(r.write_event(e.clone(), &mut b).is_ok());
    }
    check!(b.got == full.as_bytes());
    // failing sinks
    let k = c(1) as usize;
    let mut t = TextSink { got: String::new(), limit: k, dead: false };
    let r = renderer(lay).push_events(ev.iter().cloned(), &mut t);
    check!(r.is_ok() == (k >= full.len()));
    check!(full.as_bytes().starts_with(t.got.as_bytes()));
    check!(t.got.len() + 4 > k.min(full.len()));
    let zero = kind >= 128;
    let mut b = ByteSink { got: Vec::new(), limit: k, max: 1 + (kind % 3) as usize, zero, interrupt: false, failures: 0 };
    let r = renderer(lay).write_events(ev.iter().cloned(), &mut b);
    check!(r.is_ok() == (k >= full.len()));
    if let Err(e) = r {
        check!(e.kind() == if zero { io::ErrorKind::WriteZero } else { io::ErrorKind::BrokenPipe });
        check!(b.failures == 1);
    }
    check!(b.got == full.as_bytes()[..k.min(full.len())]);
}

fn inside(src: &str, s: &std::borrow::Cow<str>) -> bool {
    match s {
        std::borrow::Cow::Owned(_) => true,
        std::borrow::Cow::Borrowed(s) => {
            let (a, b) = (src.as_ptr() as usize, s.as_ptr() as usize);
            s.is_empty() || (b >= a && b + s.len() <= a + src.len())
        }
    }
}

/// choice: number of events before the clone.
pub fn values(src: &str, choice: &[u8]) {
    let ev: Vec<Event> = Parser::new(src).collect();
    let mut p = Parser::new(src);
    let k = choice.first().copied().unwrap_or(0) as usize;
    for e in ev.iter().take(k) {
        check!(p.next().as_ref() == Some(e));
    }
    let mut q = p.clone();
    let rest = &ev[k.min(ev.len())..];
    // the original runs ahead of the clone
    for e in rest {
        check!(p.next().as_ref() == Some(e));
    }
    let r = q.clone();
    for e in rest {
        check!(q.next().as_ref() == Some(e));
    }
    check!(r.clone().count() == rest.len());
    // the remaining events with their ranges
    let mut all = Parser::new(src).into_offset_iter().skip(ev.len() - rest.len());
    check!(r.into_offset_iter().all(|x| all.next() == Some(x)));
    check!(all.next().is_none());
    check!(p.next().is_none() && p.next().is_none() && q.next().is_none());
    check!(p.clone().next().is_none());
    let mut o = Parser::new(src).into_offset_iter();
    for e in &ev {
        check!(o.next().map(|(e, _)| e).as_ref() == Some(e));
    }
    check!(o.next().is_none() && o.next().is_none());
    for e in &ev {
        check!(*e == e.clone());
        let ok = match e {
            Event::Str(s) | Event::FootnoteReference(s) | Event::Symbol(s) => inside(src, s),
            Event::Start(c, _) => match c {
                Container::Footnote { label: s }
                | Container::Div { class: s }
                | Container::LinkDefinition { label: s }
                | Container::RawBlock { format: s }
                | Container::CodeBlock { language: s }
                | Container::RawInline { format: s }
                | Container::Link(s, _)
                | Container::Image(s, _) => inside(src, s),
                _ => true,
            },
            _ => true,
        };
        check!(ok);
    }
    let a = jotdown::html::render_to_string(Parser::new(src));
    check!(a == jotdown::html::render_to_string(ev.iter().cloned()));
    check!(Parser::new(src).eq(ev.iter().cloned()));
    rt::out(a.as_bytes());
}
