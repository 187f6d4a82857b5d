//! C27: the command line tool. The encoded build runs the tool's own `main` on modelled system
//! calls (`sys.rs`), the native build runs the tool with the same faults injected by `shim.c`.
#[macro_use]
#[path = "../../harness/src/rt.rs"]
pub mod rt;

#[cfg(not(feature = "native"))]
mod sys;
#[cfg(not(feature = "native"))]
use sys::run;
#[cfg(feature = "native")]
mod spawn;
#[cfg(feature = "native")]
use spawn::run;

#[cfg(not(feature = "native"))]
mod tool {
    include!(env!("SYMX_MAIN"));
    /// Runs the tool as the runtime does; its exit status.
    pub fn entry() -> i32 {
        let code = std::process::Termination::report(main());
        if code == std::process::ExitCode::SUCCESS {
            0
        } else {
            1
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    None,
    /// The input file does not exist.
    Open,
    /// An error after this many bytes of input.
    Read(usize),
    /// The output file cannot be created.
    Create,
    /// An error after this many bytes of output.
    Write(usize),
    /// Reads are interrupted once.
    InterruptRead,
    /// Writes are interrupted once.
    InterruptWrite,
}

pub struct Run {
    pub args: Vec<String>,
    pub in_file: bool,
    pub out_file: bool,
    pub fault: Fault,
    /// Most bytes transferred by one call, 0 for all.
    pub chunk: usize,
    /// The arguments are invalid.
    pub usage: bool,
}

pub const IN: &str = "in.dj";
pub const OUT: &str = "out.html";
/// Content of the output file before.
pub const OLD: &[u8] = b"<p>previous content, longer than the new one, has to be replaced: all of it, to the very end</p>\n";

pub struct Outcome {
    pub status: u8,
    /// Standard output and the output file, if it was opened.
    pub stdout: Vec<u8>,
    pub file: Option<Vec<u8>>,
    pub message: bool,
}

fn decode(c: &[u8]) -> (Run, Option<jotdown::html::Indentation>) {
    let c = |i: usize| c.get(i).copied().unwrap_or(0);
    let (in_file, out_file) = (c(0) & 1 != 0, c(1) & 1 != 0);
    let minified = c(2) & 1 != 0;
    let mut level = (c(3) % 12) as usize;
    let mut usage = false;
    let number: String = [c(9), c(10)].iter().filter(|c| **c != 0).map(|c| *c as char).collect();
    let string = ["", "\t", "  ", "<x>", "é"][(c(4) % 5) as usize];
    let k = c(6) as usize;
    let fault = match c(5) % 7 {
        1 => Fault::Open,
        2 => Fault::Read(k),
        3 => Fault::Create,
        4 => Fault::Write(k),
        5 => Fault::InterruptRead,
        6 => Fault::InterruptWrite,
        _ => Fault::None,
    };
    let form = c(8);
    let mut args: Vec<String> = Vec::new();
    if in_file && form & 1 != 0 {
        args.push(IN.into());
    }
    let mut opt = |name: &str, v: &str| {
        if form & 2 != 0 {
            args.push(format!("{name}={v}"));
        } else {
            args.extend([name.to_string(), v.to_string()]);
        }
    };
    if !number.is_empty() {
        opt("--start-indent", &number);
        match number.parse() {
            Ok(n) => level = n,
            Err(_) => usage = true,
        }
    } else if level > 0 {
        opt("--start-indent", &level.to_string());
    }
    if !string.is_empty() {
        opt("--indent-string", string);
    }
    if out_file {
        opt(if form & 4 != 0 { "-o" } else { "--output" }, OUT);
    }
    if minified {
        args.push("--minified".into());
    }
    if in_file && form & 1 == 0 {
        args.push(IN.into());
    }
    match c(11) {
        0 => {}
        1 => args.push("-x".into()),
        2 => args.extend(["x".into(), "y".into()]),
        3 => args.push("--minified=1".into()),
        _ => args.push("--output".into()),
    }
    usage |= c(11) != 0;
    let indent = (!minified).then(|| jotdown::html::Indentation { string: string.into(), initial_level: level });
    (Run { args, in_file, out_file, fault, chunk: c(7) as usize, usage }, indent)
}

fn render(s: &str, indent: Option<jotdown::html::Indentation>) -> String {
    use jotdown::Render;
    let mut r = match indent {
        Some(i) => jotdown::html::Renderer::indented(i),
        None => jotdown::html::Renderer::minified(),
    };
    let mut out = String::new();
    r.push_events(jotdown::Parser::new(s), &mut out).unwrap();
    out
}

/// The judgement on one run.
fn judge(src: &[u8], r: &Run, indent: Option<jotdown::html::Indentation>, o: &Outcome) {
    let text = std::str::from_utf8(src).ok();
    let unread = r.usage || matches!(r.fault, Fault::Open) || matches!(r.fault, Fault::Read(k) if k <= src.len());
    rt::out(&[o.status, o.message as u8]);
    rt::out(&o.stdout);
    let out = if r.out_file { o.file.as_deref() } else { Some(&o.stdout[..]) };
    if r.out_file {
        check!(o.stdout.is_empty());
    } else {
        check!(o.file.is_none());
    }
    let (Some(text), false) = (text, unread) else {
        check!(o.status != 0);
        check!(o.message);
        check!(o.stdout.is_empty() && (!r.usage || o.file.is_none()));
        return;
    };
    let html = render(text, indent);
    match r.fault {
        Fault::Create => {
            check!(o.status != 0);
            check!(o.message);
            check!(out.is_none());
        }
        Fault::Write(k) if k < html.len() => {
            check!(o.status != 0);
            check!(o.message);
            check!(out == Some(&html.as_bytes()[..k]));
        }
        _ => {
            check!(out == Some(html.as_bytes()));
            check!(o.status == 0);
            check!(!o.message);
        }
    }
    if let Some(out) = out {
        rt::out(out);
    }
}

pub fn dispatch(_: u32, src: &[u8], c: &[u8]) -> u32 {
    let (r, indent) = decode(c);
    if r.fault == Fault::Open && !r.in_file || r.fault == Fault::Create && !r.out_file {
        rt::reject();
    }
    run(src, r, indent);
    0
}
