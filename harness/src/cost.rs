//! C26: growth of the work with the number of repetitions of the input.

use jotdown::Parser;

#[cfg(not(feature = "native"))]
fn work(s: &str) {
    jotdown::html::render_to_string(Parser::new(s));
}

/// Copies of a text. Each `@@` in it is replaced by a number that differs for each copy.
fn copies(unit: &str, n: usize) -> String {
    let parts: Vec<&str> = unit.split("@@").collect();
    let mut s = String::new();
    for i in 0..n {
        s.push_str(parts[0]);
        for p in &parts[1..] {
            // scattered, so that sorted orders differ from that of the text
            let k = i * 4871 % 1000003;
            s.extend([100000, 10000, 1000, 100, 10, 1].map(|d| (b'0' + (k / d % 10) as u8) as char));
            s.push_str(p);
        }
    }
    s
}

/// Work for each number of copies.
#[cfg(not(feature = "native"))]
fn costs<const K: usize>(unit: &str, n: [usize; K]) -> [i64; K] {
    n.map(|n| {
        let s = copies(unit, n);
        let t = crate::rt::steps();
        work(&s);
        (crate::rt::steps() - t) as i64
    })
}

/// Ratio of the time for 4n repetitions to that for n, n large enough to measure: the lesser of
/// two successive ones.
#[cfg(feature = "native")]
fn ratio(unit: &str, least: f64) -> Option<f64> {
    if !crate::rt::measured() {
        return None;
    }
    let time = |n: usize| {
        let s = copies(unit, n);
        let once = || {
            let t = std::time::Instant::now();
            std::hint::black_box(jotdown::html::render_to_string(Parser::new(&s)));
            t.elapsed().as_secs_f64()
        };
        (0..3).map(|_| once()).fold(f64::MAX, f64::min)
    };
    let mut n = 16;
    while time(n) < least {
        n *= 2;
    }
    let [a, b, c] = [time(n), time(4 * n), time(16 * n)];
    Some((b / a).min(c / b))
}

fn depth(s: &str) -> usize {
    let (mut depth, mut max) = (0, 0);
    for e in Parser::new(s) {
        match e {
            jotdown::Event::Start(..) => depth += 1,
            jotdown::Event::End(..) => depth -= 1,
            _ => {}
        }
        max = max.max(depth);
    }
    max
}

fn confirm(_unit: &str, _power: u32) {
    #[cfg(feature = "native")]
    if let Some(r) = ratio(_unit, 0.01 / _power as f64) {
        check!(r < [8.0, 36.0][_power as usize - 1]);
    }
}

/// A document and a blank line; nothing if the copies nest in each other.
fn unit(src: &str) -> String {
    let unit = format!("{src}\n\n");
    if depth(&copies(&unit, 2)) > depth(&copies(&unit, 1)) {
        crate::rt::reject();
    }
    unit
}

/// Repetitions of a document: the second difference vanishes where the work is linear.
pub fn linear(src: &str) {
    let unit = unit(src);
    #[cfg(not(feature = "native"))]
    {
        let [a, b, c] = costs(&unit, [8, 16, 24]);
        let d = a + c - 2 * b;
        // identifiers of headings are kept in ordered sets
        if d * if src.contains('#') { 20 } else { 200 } > a {
            crate::rt::fail(1 << 30);
        }
    }
    confirm(&unit, 1);
}

/// Repetitions with different numbers, which fill maps and sorted lists: the combination vanishes
/// for constant, linear and linear times logarithmic work.
pub fn numbered(src: &str) {
    let unit = unit(src);
    #[cfg(not(feature = "native"))]
    {
        let [a, b, c, d] = costs(&unit, [16, 32, 64, 128]);
        if (d - 5 * c + 8 * b - 4 * a) * 20 > b {
            crate::rt::fail(1 << 30 | 2);
        }
    }
    confirm(&unit, 1);
}

/// Repetitions of any text: the third difference vanishes where the work is quadratic.
pub fn quadratic(unit: &str) {
    #[cfg(not(feature = "native"))]
    {
        let [a, b, c, d] = costs(unit, [8, 16, 24, 32]);
        if (d - 3 * c + 3 * b - a) * 2 > a {
            crate::rt::fail(1 << 30 | 1);
        }
    }
    confirm(unit, 2);
}
