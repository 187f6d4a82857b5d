//! C09: the attribute grammar; C10: lookup and merging. Written from the documentation, by
//! recursive descent over whole elements.

use crate::rt;
use jotdown::{AttributeKind, AttributeValue, Attributes};

fn name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b':' || c == b'_' || c == b'-'
}

#[derive(Clone, Copy, PartialEq)]
pub enum K {
    Class,
    Id,
    Pair,
    Comment,
}

#[derive(Clone)]
pub struct Elem {
    pub kind: K,
    pub key: String,
    pub value: String,
}

/// The elements of a set of consecutive groups, or the position of the first byte that cannot
/// continue one.
pub fn parse(s: &str) -> Result<Vec<Elem>, usize> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    loop {
        i = group(s, b, i, &mut out)?;
        if i == b.len() {
            return Ok(out);
        }
    }
}

pub fn group(s: &str, b: &[u8], mut i: usize, out: &mut Vec<Elem>) -> Result<usize, usize> {
    let at = |i: usize| b.get(i).copied();
    let run = |mut j: usize| {
        while at(j).is_some_and(name) {
            j += 1;
        }
        j
    };
    if at(i) != Some(b'{') {
        return Err(i);
    }
    i += 1;
    // elements other than comments are followed by a blank or the end
    let mut glued = false;
    loop {
        let Some(c) = at(i) else { return Err(i) };
        if c == b'}' {
            return Ok(i + 1);
        }
        if c.is_ascii_whitespace() {
            glued = false;
            i += 1;
            continue;
        }
        if glued {
            return Err(i);
        }
        let (kind, key, value);
        match c {
            b'.' | b'#' => {
                let j = run(i + 1);
                if j == i + 1 {
                    return Err(j);
                }
                kind = if c == b'.' { K::Class } else { K::Id };
                (key, value) = (String::new(), s[i + 1..j].to_string());
                glued = true;
                i = j;
            }
            b'%' => {
                let mut j = i + 1;
                while !matches!(at(j), None | Some(b'%' | b'}')) {
                    j += 1;
                }
                kind = K::Comment;
                (key, value) = (String::new(), s[i + 1..j].to_string());
                i = j;
                match at(j) {
                    None => return Err(j),
                    Some(b'%') => i += 1,
                    _ => {}
                }
            }
            c if name(c) => {
                let j = run(i);
                if at(j) != Some(b'=') {
                    return Err(j);
                }
                kind = K::Pair;
                key = s[i..j].to_string();
                i = j + 1;
                if at(i) == Some(b'"') {
                    i += 1;
                    let start = i;
                    loop {
                        match at(i) {
                            None => return Err(i),
                            Some(b'"') => break,
                            // a line end is never escaped
                            Some(b'\\') if at(i + 1).is_some_and(|c| c != b'\n') => i += 2,
                            _ => i += 1,
                        }
                    }
                    let lines: Vec<&str> = s[start..i].split('\n').filter(|l| !l.is_empty()).collect();
                    value = lines.join(" ");
                    i += 1;
                } else {
                    let j = run(i);
                    if j == i {
                        return Err(j);
                    }
                    value = s[i..j].to_string();
                    glued = true;
                    i = j;
                }
            }
            _ => return Err(i),
        }
        out.push(Elem { kind, key, value });
    }
}

pub fn to_event(e: &[Elem]) -> Attributes<'static> {
    e.iter()
        .map(|e| {
            let k = match e.kind {
                K::Class => AttributeKind::Class,
                K::Id => AttributeKind::Id,
                K::Comment => AttributeKind::Comment,
                K::Pair => AttributeKind::Pair { key: e.key.clone().into() },
            };
            (k, AttributeValue::from(e.value.clone()))
        })
        .collect()
}

/// The value as displayed: without the backslashes of escapes.
pub fn shown(v: &str) -> String {
    let mut out = String::new();
    let mut cs = v.chars().peekable();
    while let Some(c) = cs.next() {
        match cs.peek() {
            Some(n) if c == '\\' && n.is_ascii_punctuation() => {
                out.push(*n);
                cs.next();
            }
            _ => out.push(c),
        }
    }
    out
}

pub fn grammar(src: &str) {
    let want = parse(src.trim_ascii_end());
    match (Attributes::try_from(src), &want) {
        (Ok(a), Ok(w)) => {
            check!(a == to_event(w));
            check!(a.len() == w.len());
            for ((_, v), w) in a.iter().zip(w) {
                let s = v.to_string();
                check!(s == shown(&w.value));
                check!(v.parts().collect::<String>() == s);
                rt::out(s.as_bytes());
            }
            // a line may end in a backslash, but a printed value cannot
            let odd = |v: &str| (v.len() - v.trim_end_matches('\\').len()) % 2 == 1;
            if !w.iter().any(|w| w.kind == K::Pair && odd(&w.value)) {
                let d = format!("{a:?}");
                let again = Attributes::try_from(d.as_str());
                check!(again.is_ok_and(|b| a == b));
                rt::out(d.as_bytes());
            }
        }
        (Err(e), Err(w)) => {
            check!(e.pos == *w);
            rt::out(b"error");
        }
        _ => rt::fail(line!()),
    }
}

/// The key and the value displayed for it, in order of first occurrence.
pub fn merged(e: &[Elem]) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = Vec::new();
    for e in e {
        let key = match e.kind {
            K::Comment => continue,
            K::Class => "class",
            K::Id => "id",
            K::Pair => &e.key,
        };
        match out.iter_mut().find(|(k, _)| k == key) {
            None => out.push((key.to_string(), e.value.clone())),
            Some((_, v)) if key == "class" => {
                if !v.is_empty() && !e.value.is_empty() {
                    v.push(' ');
                }
                v.push_str(&e.value);
            }
            Some((_, v)) => *v = e.value.clone(),
        }
    }
    out
}

fn checked(a: Attributes, w: &[Elem], other: &str) {
    let want = merged(w);
    let got: Vec<(String, String)> = a.unique_pairs().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    check!(got.len() == want.len());
    for ((k, v), (wk, wv)) in got.iter().zip(&want) {
        check!(k == wk);
        check!(*v == shown(wv));
        check!(a.contains_key(k));
        let g = a.get_value(k);
        check!(g.is_some_and(|g| g.to_string() == *v));
        rt::out(k.as_bytes());
        rt::out(v.as_bytes());
    }
    for k in ["class", "id", "", "k", other] {
        let there = want.iter().any(|(w, _)| w == k);
        check!(a.contains_key(k) == there);
        check!(a.get_value(k).is_some() == there);
    }
    // elements and their order survive every conversion
    let n = w.len();
    check!(a.len() == n);
    let v: Vec<_> = a.clone().into();
    check!(v.len() == n);
    check!(v == *to_event(w));
    check!(Attributes::from(v.clone()) == a);
    check!(v.iter().cloned().collect::<Attributes>() == a);
    check!(a.clone().into_iter().eq(v.iter().cloned()));
    check!((&a).into_iter().eq(v.iter()));
    let mut m = a.clone();
    let mut i = 0;
    for (x, (k, val)) in (&mut m).into_iter().zip(&v) {
        check!(x.0 == *k && x.1 == *val);
        x.1 = AttributeValue::from("z");
        i += 1;
    }
    check!(i == n);
    check!(m.iter().all(|(_, v)| *v == AttributeValue::from("z")));
    check!(m.iter().map(|x| &x.0).eq(v.iter().map(|x| &x.0)));
    for (k, _) in &v {
        match k {
            AttributeKind::Class => check!(k.key() == Some("class")),
            AttributeKind::Id => check!(k.key() == Some("id")),
            AttributeKind::Pair { key } => check!(k.key() == Some(key.as_ref())),
            AttributeKind::Comment => check!(k.key().is_none()),
        }
    }
    check!(Attributes::new().is_empty() && (a == Attributes::new()) == (n == 0));
    // deref reaches the elements
    let mut p = a.clone();
    p.extend(v.iter().cloned());
    check!(p.len() == 2 * n && p[..n] == p[n..]);
}

/// Sets from text, and sets built from elements: choice holds kind, key and value of each.
pub fn lookup(src: &str, choice: &[u8]) {
    if !src.is_empty() {
        match (Attributes::try_from(src), parse(src.trim_ascii_end())) {
            (Ok(a), Ok(w)) => checked(a, &w, "a"),
            _ => rt::reject(),
        }
        return;
    }
    let mut w = Vec::new();
    for c in choice.chunks(3) {
        let [kind, key, value] = c else { break };
        let kind = [K::Class, K::Id, K::Pair, K::Comment][rt::split(*kind) as usize % 4];
        let key = ["class", "id", "k", "", "classes"][rt::split(*key) as usize % 5];
        let value = ["", "x", "y z", "\\*", "é"][rt::split(*value) as usize % 5];
        if kind != K::Pair && !key.is_empty() {
            rt::reject();
        }
        w.push(Elem { kind, key: key.to_string(), value: value.to_string() });
    }
    checked(to_event(&w), &w, "classes");
}
