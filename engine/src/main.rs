mod exec;
mod expr;
mod ll;
mod lower;
mod smt;

use exec::*;
use expr::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::os::raw::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

extern "C" {
    fn dlopen(p: *const c_char, f: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}

type NativeFn = unsafe extern "C" fn(u32, *const u8, usize, *const u8, usize, *mut u64) -> u64;

fn load_native(path: &str) -> Result<NativeFn, String> {
    let p = std::ffi::CString::new(path).unwrap();
    unsafe {
        let h = dlopen(p.as_ptr(), 2);
        if h.is_null() {
            return Err(std::ffi::CStr::from_ptr(dlerror()).to_string_lossy().into_owned());
        }
        let f = dlsym(h, b"symx_native\0".as_ptr() as *const c_char);
        if f.is_null() {
            return Err("symx_native not found".into());
        }
        Ok(std::mem::transmute(f))
    }
}

struct Job {
    name: String,
    oracle: u32,
    input: Vec<Cell>,
    choice: Vec<Cell>,
    doms: Vec<Set>,
}

fn parse_jobs(src: &str) -> Result<Vec<Job>, String> {
    let mut sets: HashMap<String, Set> = HashMap::new();
    let mut jobs = Vec::new();
    for (ln, l) in src.lines().enumerate() {
        let t: Vec<&str> = l.split_whitespace().collect();
        if t.is_empty() || t[0].starts_with('#') {
            continue;
        }
        let err = || format!("jobs line {}", ln + 1);
        match t[0] {
            "set" => {
                let mut s = [0u64; 4];
                for i in 0..4 {
                    s[i] = u64::from_str_radix(&t[2][16 * i..16 * i + 16], 16).map_err(|_| err())?;
                }
                sets.insert(t[1].to_string(), s);
            }
            "job" => {
                let mut j = Job {
                    name: t[1].to_string(),
                    oracle: t[2].parse().map_err(|_| err())?,
                    input: vec![],
                    choice: vec![],
                    doms: vec![],
                };
                let mut which = 0;
                for c in &t[3..] {
                    if *c == "|" {
                        which += 1;
                        continue;
                    }
                    let mut cells = Vec::new();
                    if let Some(h) = c.strip_prefix('x') {
                        for i in (0..h.len()).step_by(2) {
                            cells.push(Cell::Byte(u8::from_str_radix(&h[i..i + 2], 16).map_err(|_| err())?));
                        }
                    } else if let Some(d) = c.strip_prefix('d') {
                        cells.push(Cell::Var(j.doms.len() as u32));
                        j.doms.push(*sets.get(d).ok_or_else(err)?);
                    } else if let Some(v) = c.strip_prefix('v') {
                        cells.push(Cell::Var(v.parse().map_err(|_| err())?));
                    } else {
                        return Err(err());
                    }
                    if which == 0 {
                        j.input.extend(cells);
                    } else {
                        j.choice.extend(cells);
                    }
                }
                if j.doms.len() > 60 || j.doms.iter().any(set_empty) {
                    return Err(err());
                }
                jobs.push(j);
            }
            _ => return Err(err()),
        }
    }
    Ok(jobs)
}

struct Item {
    job: u32,
    model: Vec<u8>,
    bound: u32,
    hash: u64,
}

#[derive(Default, Clone)]
struct JStat {
    paths: u64,
    ok: u64,
    reject: u64,
    fails: u64,
    decisions: u64,
    multi: u64,
    instrs: u64,
    size: u128,
    uncounted: bool,
    marks: u64,
    native: u64,
    secs: f64,
    sample: Option<Vec<u8>>,
}

#[derive(Clone)]
struct Viol {
    job: u32,
    kind: String,
    code: u32,
    input: Vec<u8>,
    choice: Vec<u8>,
}

struct Global {
    queue: Mutex<Vec<Item>>,
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    timeout: AtomicBool,
    errors: Mutex<Vec<String>>,
    viols: Mutex<Vec<Viol>>,
    mismatches: Mutex<Vec<Viol>>,
    nviol: AtomicUsize,
    job_stop: Vec<AtomicBool>,
    paths: AtomicU64,
}

fn bytes_of(cells: &[Cell], model: &[u8]) -> Vec<u8> {
    cells
        .iter()
        .map(|c| match c {
            Cell::Byte(b) => *b,
            Cell::Var(v) => model[*v as usize],
        })
        .collect()
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Opts {
    ll: String,
    jobs: String,
    native: Vec<String>,
    out: String,
    threads: usize,
    timeout: f64,
    max_viol: usize,
    budget: u64,
    entry: String,
    verbose: bool,
}

fn replay(args: &[String]) -> i32 {
    // symx replay LIB ORACLE [INPUTHEX [CHOICEHEX]]; without them, two lines of standard input
    let f = match load_native(&args[0]) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let dec = |s: &str| -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() };
    let (i, c) = if args.len() > 2 {
        (dec(&args[2]), dec(args.get(3).map(|s| s.as_str()).unwrap_or("")))
    } else {
        let mut l = String::new();
        let mut m = String::new();
        let _ = std::io::stdin().read_line(&mut l);
        let _ = std::io::stdin().read_line(&mut m);
        (dec(l.trim()), dec(m.trim()))
    };
    let o: u32 = args[1].parse().unwrap();
    let mut h = 0u64;
    let r = unsafe { f(o, i.as_ptr(), i.len(), c.as_ptr(), c.len(), &mut h) };
    println!("outcome {:#x} hash {:016x}", r, h);
    0
}

pub const OUT_REJECT: u64 = 1 << 32;
pub const OUT_PANIC: u64 = 2 << 32;
pub const OUT_FAIL: u64 = 3 << 32;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("replay") {
        std::process::exit(replay(&args[2..]));
    }
    let mut o = Opts {
        ll: String::new(),
        jobs: String::new(),
        native: vec![],
        out: String::new(),
        threads: 8,
        timeout: 600.0,
        max_viol: 3,
        budget: 20_000_000,
        entry: "harness".into(),
        verbose: false,
    };
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ll" => o.ll = v,
            "--jobs" => o.jobs = v,
            "--native" => o.native.push(v),
            "--out" => o.out = v,
            "--threads" => o.threads = v.parse().unwrap(),
            "--timeout" => o.timeout = v.parse().unwrap(),
            "--max-viol" => o.max_viol = v.parse().unwrap(),
            "--budget" => o.budget = v.parse().unwrap(),
            "--entry" => o.entry = v,
            "--verbose" => {
                o.verbose = true;
                i -= 1;
            }
            x => {
                eprintln!("unknown option {}", x);
                std::process::exit(2);
            }
        }
        i += 2;
    }
    match run(&o) {
        Ok(c) => std::process::exit(c),
        Err(e) => {
            eprintln!("symx: error: {}", e);
            std::process::exit(2);
        }
    }
}

fn run(o: &Opts) -> Result<i32, String> {
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&o.ll).map_err(|e| format!("{}: {}", o.ll, e))?;
    let module = ll::parse(&src)?;
    drop(src);
    let prog = Arc::new(lower::lower(&module)?);
    drop(module);
    let t_parse = t0.elapsed().as_secs_f64();
    let entry = *prog.fn_index.get(&o.entry).ok_or("entry function not found")?;
    let jobs = Arc::new(parse_jobs(&std::fs::read_to_string(&o.jobs).map_err(|e| format!("{}: {}", o.jobs, e))?)?);
    let mut natives = Vec::new();
    for n in &o.native {
        natives.push(load_native(n)?);
    }
    let g = Arc::new(Global {
        queue: Mutex::new(
            jobs.iter()
                .enumerate()
                .rev()
                .map(|(i, j)| Item {
                    job: i as u32,
                    model: j.doms.iter().map(set_pick).collect(),
                    bound: 0,
                    hash: 0,
                })
                .collect(),
        ),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        timeout: AtomicBool::new(false),
        errors: Mutex::new(vec![]),
        viols: Mutex::new(vec![]),
        mismatches: Mutex::new(vec![]),
        nviol: AtomicUsize::new(0),
        job_stop: jobs.iter().map(|_| AtomicBool::new(false)).collect(),
        paths: AtomicU64::new(0),
    });
    let shared = Arc::new(Shared {
        confirmed: Mutex::new(HashSet::new()),
    });
    let mut hs = Vec::new();
    for t in 0..o.threads {
        let (g, jobs, prog, shared) = (g.clone(), jobs.clone(), prog.clone(), shared.clone());
        let natives = natives.clone();
        let (timeout, max_viol, budget, threads, verbose) = (o.timeout, o.max_viol, o.budget, o.threads, o.verbose && t == 0);
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || worker(g, jobs, prog, shared, natives, entry, t0, timeout, max_viol, budget, threads, verbose))
                .unwrap(),
        );
    }
    let mut stats: Vec<JStat> = vec![JStat::default(); jobs.len()];
    let mut cov = vec![false; prog.nblocks as usize];
    let mut used = vec![false; prog.fns.len()];
    let mut smt = (0u64, 0u64, 0u64, 0f64);
    for h in hs {
        let (st, c, u, s) = h.join().map_err(|_| "worker panicked".to_string())?;
        for (a, b) in stats.iter_mut().zip(st) {
            a.paths += b.paths;
            a.ok += b.ok;
            a.reject += b.reject;
            a.fails += b.fails;
            a.decisions += b.decisions;
            a.multi += b.multi;
            a.instrs += b.instrs;
            a.size = a.size.saturating_add(b.size);
            a.uncounted |= b.uncounted;
            a.marks |= b.marks;
            a.native += b.native;
            a.secs += b.secs;
            if a.sample.is_none() {
                a.sample = b.sample;
            }
        }
        for (a, b) in cov.iter_mut().zip(c) {
            *a |= b;
        }
        for (a, b) in used.iter_mut().zip(u) {
            *a |= b;
        }
        smt.0 += s.0;
        smt.1 += s.1;
        smt.2 += s.2;
        smt.3 += s.3;
    }
    let wall = t0.elapsed().as_secs_f64();
    let errors = g.errors.lock().unwrap().clone();
    let viols = g.viols.lock().unwrap().clone();
    let mism = g.mismatches.lock().unwrap().clone();
    let timed_out = g.timeout.load(Ordering::SeqCst);
    // completeness certificate: the paths of a job partition its input space
    let mut incomplete = Vec::new();
    for (j, s) in jobs.iter().zip(&stats) {
        let mut space: Option<u128> = Some(1);
        for d in &j.doms {
            space = space.and_then(|x| x.checked_mul(set_len(d) as u128));
        }
        if s.uncounted || space.is_none() {
            continue;
        }
        if Some(s.size) != space {
            incomplete.push(format!("{}: {} of {}", j.name, s.size, space.unwrap()));
        }
    }
    let mut js = String::from("{\n");
    js.push_str(&format!(
        "\"parse_s\": {:.2}, \"wall_s\": {:.2}, \"timed_out\": {},\n",
        t_parse, wall, timed_out
    ));
    js.push_str(&format!(
        "\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"solver_s\": {:.2}, \"facts\": {},\n",
        smt.0,
        smt.1,
        smt.2,
        smt.3,
        shared.confirmed.lock().unwrap().len()
    ));
    js.push_str(&format!(
        "\"errors\": [{}],\n",
        errors.iter().take(20).map(|e| jstr(e)).collect::<Vec<_>>().join(", ")
    ));
    js.push_str(&format!(
        "\"incomplete\": [{}],\n",
        incomplete.iter().map(|e| jstr(e)).collect::<Vec<_>>().join(", ")
    ));
    for (title, list) in [("violations", &viols), ("mismatches", &mism)] {
        js.push_str(&format!("\"{}\": [", title));
        for (k, v) in list.iter().enumerate() {
            js.push_str(&format!(
                "{}\n {{\"job\": {}, \"oracle\": {}, \"kind\": {}, \"code\": {}, \"input\": {}, \"choice\": {}}}",
                if k > 0 { "," } else { "" },
                jstr(&jobs[v.job as usize].name),
                jobs[v.job as usize].oracle,
                jstr(&v.kind),
                v.code,
                jstr(&hex(&v.input)),
                jstr(&hex(&v.choice))
            ));
        }
        js.push_str("],\n");
    }
    js.push_str("\"jobs\": [");
    for (k, (j, s)) in jobs.iter().zip(&stats).enumerate() {
        js.push_str(&format!(
            "{}\n {{\"name\": {}, \"oracle\": {}, \"len\": {}, \"vars\": {}, \"paths\": {}, \"ok\": {}, \"reject\": {}, \"fails\": {}, \"decisions\": {}, \"multi\": {}, \"instrs\": {}, \"counted\": {}, \"inputs\": {}, \"marks\": {}, \"native\": {}, \"secs\": {:.2}, \"sample\": {}}}",
            if k > 0 { "," } else { "" },
            jstr(&j.name),
            j.oracle,
            j.input.len(),
            j.doms.len(),
            s.paths,
            s.ok,
            s.reject,
            s.fails,
            s.decisions,
            s.multi,
            s.instrs,
            !s.uncounted,
            jstr(&s.size.to_string()),
            s.marks,
            s.native,
            s.secs,
            s.sample.as_ref().map_or("null".into(), |x| jstr(&hex(x)))
        ));
    }
    js.push_str("],\n\"functions\": [");
    let mut per: BTreeMap<String, (u32, u32)> = BTreeMap::new();
    for (k, f) in prog.fns.iter().enumerate() {
        if !used[k] || f.ext.is_some() {
            continue;
        }
        let c = (0..f.nblocks).filter(|b| cov[(f.block0 + b) as usize]).count() as u32;
        let e = per.entry(f.pretty.clone()).or_insert((0, 0));
        e.0 += c;
        e.1 += f.nblocks;
    }
    js.push_str(
        &per.iter()
            .map(|(n, (c, t))| format!("\n [{}, {}, {}]", jstr(n), c, t))
            .collect::<Vec<_>>()
            .join(","),
    );
    js.push_str("]\n}\n");
    if !o.out.is_empty() {
        std::fs::write(&o.out, &js).map_err(|e| e.to_string())?;
    } else {
        println!("{}", js);
    }
    if !viols.is_empty() {
        return Ok(1);
    }
    if !errors.is_empty() || !mism.is_empty() || timed_out || !incomplete.is_empty() {
        for e in errors.iter().take(5) {
            eprintln!("symx: {}", e);
        }
        for e in incomplete.iter().take(5) {
            eprintln!("symx: not covered: {}", e);
        }
        return Ok(2);
    }
    Ok(0)
}

type WorkerOut = (Vec<JStat>, Vec<bool>, Vec<bool>, (u64, u64, u64, f64));

#[allow(clippy::too_many_arguments)]
fn worker(
    g: Arc<Global>,
    jobs: Arc<Vec<Job>>,
    prog: Arc<lower::Program>,
    shared: Arc<Shared>,
    natives: Vec<NativeFn>,
    entry: u32,
    t0: Instant,
    timeout: f64,
    max_viol: usize,
    budget: u64,
    threads: usize,
    verbose: bool,
) -> WorkerOut {
    let mut ex = Exec::new(prog, shared);
    ex.budget = budget;
    let mut stats = vec![JStat::default(); jobs.len()];
    let mut local: Vec<Item> = Vec::new();
    let mut n = 0u64;
    let mut last = Instant::now();
    loop {
        if g.stop.load(Ordering::Relaxed) {
            break;
        }
        let item = match local.pop() {
            Some(i) => i,
            None => {
                let mut q = g.queue.lock().unwrap();
                let got = loop {
                    if let Some(i) = q.pop() {
                        break Some(i);
                    }
                    if g.stop.load(Ordering::SeqCst) {
                        break None;
                    }
                    let idle = g.idle.fetch_add(1, Ordering::SeqCst) + 1;
                    if idle == threads {
                        g.stop.store(true, Ordering::SeqCst);
                        g.cv.notify_all();
                        break None;
                    }
                    q = g.cv.wait(q).unwrap();
                    g.idle.fetch_sub(1, Ordering::SeqCst);
                };
                match got {
                    Some(i) => i,
                    None => break,
                }
            }
        };
        let ji = item.job as usize;
        if g.job_stop[ji].load(Ordering::Relaxed) {
            continue;
        }
        let job = &jobs[ji];
        let st = &mut stats[ji];
        let tj = Instant::now();
        let r = ex.run(entry, job.oracle, [&job.input, &job.choice], &item.model, &job.doms, item.bound, item.hash);
        n += 1;
        match r {
            Err(e) => {
                let inp = bytes_of(&job.input, &item.model);
                let mut er = g.errors.lock().unwrap();
                er.push(format!(
                    "job {}: {} (input {:?} choice {})",
                    job.name,
                    e,
                    String::from_utf8_lossy(&inp),
                    hex(&bytes_of(&job.choice, &item.model))
                ));
                g.job_stop[ji].store(true, Ordering::SeqCst);
                continue;
            }
            Ok(out) => {
                st.paths += 1;
                st.decisions += ex.decisions;
                st.multi += ex.multi_decisions;
                ex.decisions = 0;
                ex.multi_decisions = 0;
                st.instrs += ex.instrs;
                st.marks |= ex.marks;
                match ex.path_size() {
                    Some(s) => st.size += s,
                    None => st.uncounted = true,
                }
                let expect_native = match &out {
                    Outcome::Ok(c) => {
                        st.ok += 1;
                        if st.sample.is_none() {
                            st.sample = Some(bytes_of(&job.input, &item.model));
                        }
                        Some(*c as u64)
                    }
                    Outcome::Reject => {
                        st.reject += 1;
                        Some(OUT_REJECT)
                    }
                    Outcome::Panic(m) => {
                        if m.contains("stack overflow") || m.contains("out of memory") {
                            None
                        } else {
                            Some(OUT_PANIC)
                        }
                    }
                    // the native run in this process does not measure work
                    Outcome::Fail(c) if *c >= 1 << 30 => None,
                    Outcome::Fail(c) => Some(OUT_FAIL | *c as u64),
                    Outcome::Budget => None,
                };
                let input = bytes_of(&job.input, &item.model);
                let choice = bytes_of(&job.choice, &item.model);
                if let Some(e) = expect_native {
                    for f in &natives {
                        let mut h = 0u64;
                        let r = unsafe { f(job.oracle, input.as_ptr(), input.len(), choice.as_ptr(), choice.len(), &mut h) };
                        st.native += 1;
                        if r != e || ((matches!(out, Outcome::Ok(_))) && h != ex.out_hash) {
                            g.job_stop[ji].store(true, Ordering::SeqCst);
                            st.uncounted = true;
                            g.mismatches.lock().unwrap().push(Viol {
                                job: item.job,
                                kind: format!("native {:#x}, encoding {:#x}; output hash {:x}, {:x}", r, e, h, ex.out_hash),
                                code: 0,
                                input: input.clone(),
                                choice: choice.clone(),
                            });
                            break;
                        }
                    }
                }
                let viol = match out {
                    Outcome::Fail(c) => Some(("assertion".to_string(), c)),
                    Outcome::Panic(m) => Some((format!("panic: {}", m), 0)),
                    Outcome::Budget => Some(("no termination within the instruction budget".to_string(), 0)),
                    _ => None,
                };
                if let Some((kind, code)) = viol {
                    st.fails += 1;
                    g.viols.lock().unwrap().push(Viol {
                        job: item.job,
                        kind,
                        code,
                        input,
                        choice,
                    });
                    g.job_stop[ji].store(true, Ordering::SeqCst);
                    if g.nviol.fetch_add(1, Ordering::SeqCst) + 1 >= max_viol {
                        g.stop.store(true, Ordering::SeqCst);
                        let _q = g.queue.lock().unwrap();
                        g.cv.notify_all();
                    }
                    st.secs += tj.elapsed().as_secs_f64();
                    continue;
                }
                for c in ex.children.drain(..) {
                    local.push(Item {
                        job: item.job,
                        model: c.model,
                        bound: c.bound,
                        hash: c.hash,
                    });
                }
            }
        }
        st.secs += tj.elapsed().as_secs_f64();
        if local.len() > 1 && g.idle.load(Ordering::Relaxed) > 0 {
            let k = local.len() / 2;
            let give: Vec<Item> = local.drain(..k).collect();
            let mut q = g.queue.lock().unwrap();
            q.extend(give);
            g.cv.notify_all();
        }
        if n & 63 == 0 {
            g.paths.fetch_add(64, Ordering::Relaxed);
            if t0.elapsed().as_secs_f64() > timeout {
                g.timeout.store(true, Ordering::SeqCst);
                g.stop.store(true, Ordering::SeqCst);
                let _q = g.queue.lock().unwrap();
                g.cv.notify_all();
            }
            if verbose && last.elapsed().as_secs() >= 5 {
                last = Instant::now();
                eprintln!(
                    "[{:.0}s] {} paths, job {}, queue {}",
                    t0.elapsed().as_secs_f64(),
                    g.paths.load(Ordering::Relaxed),
                    jobs[ji].name,
                    local.len()
                );
            }
        }
    }
    {
        let _q = g.queue.lock().unwrap();
        g.cv.notify_all();
    }
    let s = ex.smt_stats();
    (stats, ex.cov.clone(), ex.fn_used.clone(), s)
}
