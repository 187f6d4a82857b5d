//! Runs the tool itself in a directory of its own.

use crate::{Fault, Outcome, Run, IN, OLD, OUT};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

static COUNT: AtomicUsize = AtomicUsize::new(0);

pub fn run(src: &[u8], run: Run, indent: Option<jotdown::html::Indentation>) {
    // SYMX_TOOL: the tool and the shim
    let tool = std::env::var("SYMX_TOOL").unwrap();
    let (tool, shim) = tool.split_once(':').unwrap();
    let n = COUNT.fetch_add(1, Ordering::Relaxed);
    // unique over the two libraries of a process as well
    let dir = std::env::temp_dir().join(format!("cli-{}-{:x}-{}", std::process::id(), &raw const COUNT as usize, n));
    std::fs::create_dir(&dir).unwrap();
    let (input, output) = (dir.join(IN), dir.join(OUT));
    let mut cmd = Command::new(tool);
    cmd.args(&run.args).current_dir(&dir).env_clear();
    if run.fault != Fault::Open {
        std::fs::write(&input, src).unwrap();
    }
    cmd.stdin(if run.in_file { Stdio::null() } else { std::fs::File::open(&input).unwrap().into() });
    std::fs::write(&output, OLD).unwrap();
    if run.fault == Fault::Create {
        std::fs::remove_file(&output).unwrap();
        std::fs::create_dir(&output).unwrap();
    }
    let (kind, k) = match run.fault {
        Fault::Read(k) => ("r", k),
        Fault::Write(k) => ("w", k),
        Fault::InterruptRead => ("R", 0),
        Fault::InterruptWrite => ("W", 0),
        _ => ("-", 0),
    };
    if kind != "-" || run.chunk > 0 {
        cmd.env("LD_PRELOAD", shim).env("SHIM", format!("{kind} {k} {} {}", run.chunk, run.in_file as u8));
    }
    let o = cmd.stdout(Stdio::piped()).stderr(Stdio::piped()).output().unwrap();
    let file = std::fs::read(&output).ok().filter(|f| f != OLD);
    for f in [&input, &output] {
        if std::fs::remove_file(f).is_err() {
            let _ = std::fs::remove_dir(f);
        }
    }
    std::fs::remove_dir(&dir).unwrap();
    let status = o.status.code().unwrap_or(255) as u8;
    if status == 101 || o.status.code().is_none() {
        panic!();
    }
    let o = Outcome { status, stdout: o.stdout, file, message: !o.stderr.is_empty() };
    crate::judge(src, &run, indent, &o);
}
