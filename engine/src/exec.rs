//! Concolic executor: runs the lowered code on a concrete model of the input bytes while carrying
//! symbolic expressions along. Every decision that depends on symbolic input is recorded; at the
//! first visit all feasible alternatives are handed to the explorer.

use crate::expr::*;
use crate::lower::*;
use crate::smt::Smt;
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Default)]
pub struct Val {
    pub c: u64,
    pub s: u32,
}

pub const ARENA: usize = 192 << 20;
pub const STACK: u64 = 16 << 20;
const LINE: u32 = 6;

#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    Ok(u32),
    Panic(String),
    Fail(u32),
    Reject,
    Budget,
}

/// Globally shared record of solver-confirmed facts, keyed by structure.
pub struct Shared {
    pub confirmed: Mutex<HashSet<(u64, u64)>>,
}

pub struct Child {
    pub model: Vec<u8>,
    pub bound: u32,
    pub hash: u64,
}

struct Frame {
    f: u32,
    pc: u32,
    base: u32,
    sp: u64,
    d: u32,
    nret: u32,
}

pub struct Exec {
    pub prog: Arc<Program>,
    mem: Vec<u8>,
    sh: Vec<u32>,
    line: Vec<bool>,
    flagged: Vec<u32>,
    regs: Vec<Val>,
    frames: Vec<Frame>,
    sp: u64,
    stack_base: u64,
    heap_base: u64,
    heap: u64,
    heap_max: u64,
    last_alloc: u64,
    input_base: u64,
    pub ex: Exprs,
    pub smt: Smt,
    pub smt_old: (u64, u64, u64, f64),
    shared: Arc<Shared>,
    confirmed: HashSet<(u64, u64)>,
    // path state
    pub model: Vec<u8>,
    pub dom: Vec<Set>,
    multi: Vec<(u32, bool)>,
    multi_vars: u64,
    idx: u32,
    bound: u32,
    expect: u64,
    hash: u64,
    pub children: Vec<Child>,
    pub out_hash: u64,
    pub instrs: u64,
    pub budget: u64,
    left: u64,
    moved: u64,
    pub decisions: u64,
    pub multi_decisions: u64,
    pub cov: Vec<bool>,
    pub fn_used: Vec<bool>,
    pub marks: u64,
    pub fail_code: u32,
    pub trace: Option<Vec<(u32, String)>>,
}

type R<X> = Result<X, String>;
enum Stop {
    Err(String),
    Out(Outcome),
}
impl From<String> for Stop {
    fn from(e: String) -> Self {
        Stop::Err(e)
    }
}
type S<X> = Result<X, Stop>;

pub fn fnv(h: u64, b: u8) -> u64 {
    (h ^ b as u64).wrapping_mul(0x100000001b3)
}

/// Functions that end the process in an orderly way (C27), not by a panic.
fn exits(name: &str) -> bool {
    name.ends_with("::exit") || name.starts_with("cli::") || name == "mock_exit"
}

impl Exec {
    pub fn new(prog: Arc<Program>, shared: Arc<Shared>) -> Self {
        let globals = (prog.image.len() as u64 + 0xffff) & !0xffff;
        let input_base = BASE + globals;
        let stack_base = input_base + 0x40000;
        let heap_base = stack_base + STACK;
        let mut mem = vec![0u8; ARENA];
        mem[..prog.image.len()].copy_from_slice(&prog.image);
        let nb = prog.nblocks as usize;
        let nf = prog.fns.len();
        Exec {
            prog,
            mem,
            sh: vec![0u32; ARENA],
            line: vec![false; ARENA >> LINE],
            flagged: Vec::new(),
            regs: vec![Val::default(); 1 << 16],
            frames: Vec::new(),
            sp: stack_base,
            stack_base,
            heap_base,
            heap: heap_base,
            heap_max: heap_base,
            last_alloc: 0,
            input_base,
            ex: Exprs::new(),
            smt: Smt::new(),
            smt_old: (0, 0, 0, 0.0),
            shared,
            confirmed: HashSet::new(),
            model: Vec::new(),
            dom: Vec::new(),
            multi: Vec::new(),
            multi_vars: 0,
            idx: 0,
            bound: 0,
            expect: 0,
            hash: 0,
            children: Vec::new(),
            out_hash: 0,
            instrs: 0,
            budget: 50_000_000,
            left: 0,
            moved: 0,
            decisions: 0,
            multi_decisions: 0,
            cov: vec![false; nb],
            fn_used: vec![false; nf],
            marks: 0,
            fail_code: 0,
            trace: None,
        }
    }

    /// Forget cached expressions when they take too much memory.
    fn maybe_gc(&mut self) {
        if self.ex.nodes.len() > 400_000 {
            self.ex = Exprs::new();
            let s = std::mem::replace(&mut self.smt, Smt::new());
            self.smt_old.0 += s.queries;
            self.smt_old.1 += s.sat;
            self.smt_old.2 += s.unsat;
            self.smt_old.3 += s.time;
        }
    }
    pub fn smt_stats(&self) -> (u64, u64, u64, f64) {
        (
            self.smt_old.0 + self.smt.queries,
            self.smt_old.1 + self.smt.sat,
            self.smt_old.2 + self.smt.unsat,
            self.smt_old.3 + self.smt.time,
        )
    }

    // ---- memory --------------------------------------------------------------------------
    #[inline]
    fn off(&self, a: u64, n: u64) -> S<usize> {
        let o = a.wrapping_sub(BASE);
        if o >= ARENA as u64 || o + n > ARENA as u64 {
            return Err(Stop::Err(format!("memory access out of range: {:#x} ({} bytes)", a, n)));
        }
        Ok(o as usize)
    }
    #[inline]
    fn load(&mut self, a: u64, n: u8, w: u8) -> S<Val> {
        let o = self.off(a, n as u64)?;
        let c = unsafe {
            let p = self.mem.as_ptr().add(o);
            match n {
                1 => *p as u64,
                2 => (p as *const u16).read_unaligned() as u64,
                4 => (p as *const u32).read_unaligned() as u64,
                8 => (p as *const u64).read_unaligned(),
                _ => {
                    let mut v = 0u64;
                    for i in 0..n as usize {
                        v |= (*p.add(i) as u64) << (8 * i);
                    }
                    v
                }
            }
        } & mask(w);
        let l0 = o >> LINE;
        let l1 = (o + n as usize - 1) >> LINE;
        if !self.line[l0] && !self.line[l1] {
            return Ok(Val { c, s: 0 });
        }
        Ok(Val { c, s: self.load_sym(o, n, w) })
    }
    #[inline(never)]
    fn load_sym(&mut self, o: usize, n: u8, w: u8) -> u32 {
        if (0..n as usize).all(|i| self.sh[o + i] == 0) {
            return 0;
        }
        let mut r = 0u32;
        for i in 0..n as usize {
            let b = if self.sh[o + i] != 0 {
                self.sh[o + i]
            } else {
                self.ex.konst(self.mem[o + i] as u64, 8)
            };
            r = if i == 0 { b } else { self.ex.concat(b, r) };
        }
        if w < n * 8 {
            r = self.ex.extract(r, 0, w);
        }
        if self.ex.is_const(r).is_some() {
            0
        } else {
            r
        }
    }
    #[inline]
    fn store(&mut self, a: u64, v: Val, n: u8, w: u8) -> S<()> {
        let o = self.off(a, n as u64)?;
        unsafe {
            let p = self.mem.as_mut_ptr().add(o);
            match n {
                1 => *p = v.c as u8,
                2 => (p as *mut u16).write_unaligned(v.c as u16),
                4 => (p as *mut u32).write_unaligned(v.c as u32),
                8 => (p as *mut u64).write_unaligned(v.c),
                _ => {
                    for i in 0..n as usize {
                        *p.add(i) = (v.c >> (8 * i)) as u8;
                    }
                }
            }
        }
        let l0 = o >> LINE;
        let l1 = (o + n as usize - 1) >> LINE;
        if v.s == 0 {
            if self.line[l0] || self.line[l1] {
                for i in 0..n as usize {
                    self.sh[o + i] = 0;
                }
            }
            return Ok(());
        }
        let s = if w < n * 8 { self.ex.zext(v.s, n * 8) } else { v.s };
        for i in 0..n as usize {
            let b = self.ex.extract(s, 8 * i as u8, 8);
            self.sh[o + i] = if self.ex.is_const(b).is_some() { 0 } else { b };
        }
        for l in [l0, l1] {
            if !self.line[l] {
                self.line[l] = true;
                self.flagged.push(l as u32);
            }
        }
        Ok(())
    }
    fn copy_mem(&mut self, d: u64, s: u64, n: u64) -> S<()> {
        if n == 0 {
            return Ok(());
        }
        let a = self.off(d, n)?;
        let b = self.off(s, n)?;
        let n = n as usize;
        self.moved += n as u64;
        self.mem.copy_within(b..b + n, a);
        let src_f = (b >> LINE..=(b + n - 1) >> LINE).any(|l| self.line[l]);
        if src_f {
            self.sh.copy_within(b..b + n, a);
            for l in a >> LINE..=(a + n - 1) >> LINE {
                if !self.line[l] {
                    self.line[l] = true;
                    self.flagged.push(l as u32);
                }
            }
        } else if (a >> LINE..=(a + n - 1) >> LINE).any(|l| self.line[l]) {
            self.sh[a..a + n].fill(0);
        }
        Ok(())
    }
    fn byte(&self, o: usize) -> Val {
        let s = if self.line[o >> LINE] { self.sh[o] } else { 0 };
        Val { c: self.mem[o] as u64, s }
    }

    // ---- decisions -----------------------------------------------------------------------
    fn confirm(&mut self, key: (u64, u64)) -> bool {
        // true if the fact still has to be put to the solver
        if self.confirmed.contains(&key) {
            return false;
        }
        self.confirmed.insert(key);
        self.shared.confirmed.lock().unwrap().insert(key)
    }
    fn dom_hash(&self, v: u32) -> u64 {
        let d = &self.dom[v as usize];
        hash2(hash2(d[0], d[1]), hash2(d[2], d[3]))
    }
    fn step_hash(&mut self, own: u64) {
        self.idx += 1;
        self.decisions += 1;
        self.hash = hash2(self.hash, own);
    }
    fn check_prefix(&self) -> R<()> {
        if self.idx == self.bound && self.hash != self.expect {
            return Err("divergence: re-execution took another path than recorded".into());
        }
        Ok(())
    }
    /// Variables connected to `vars` through multi-variable constraints, and those constraints.
    fn component(&self, vars: u64) -> (u64, Vec<(u32, bool)>) {
        let mut vs = vars;
        loop {
            let mut n = vs;
            for &(c, _) in &self.multi {
                let s = self.ex.sup[c as usize];
                if s & vs != 0 {
                    n |= s;
                }
            }
            if n == vs {
                break;
            }
            vs = n;
        }
        (vs, self.multi.iter().filter(|(c, _)| self.ex.sup[*c as usize] & vs != 0).cloned().collect())
    }
    fn doms_of(&self, vs: u64) -> Vec<(u32, Set)> {
        (0..self.dom.len() as u32)
            .filter(|v| vs >> v & 1 == 1)
            .map(|v| (v, self.dom[v as usize]))
            .collect()
    }
    /// A decision on one variable: `own` is the part of its domain that agrees with the current
    /// model, `others` the remaining parts (disjoint, each inside the domain, non-empty).
    fn split(&mut self, v: u32, own: Set, others: &[Set]) -> R<()> {
        let before = self.hash;
        let tag = |s: &Set| hash2(hash2(s[0], s[1]), hash2(s[2], s[3]) ^ v as u64);
        self.step_hash(tag(&own));
        if self.idx > self.bound {
            for o in others {
                let mut model = self.model.clone();
                if self.multi_vars >> v & 1 == 1 {
                    let (vs, cons) = self.component(1 << v);
                    let mut doms = self.doms_of(vs);
                    for d in doms.iter_mut() {
                        if d.0 == v {
                            d.1 = *o;
                        }
                    }
                    match self.smt.solve(&self.ex, &cons, &doms)? {
                        None => continue,
                        Some(m) => {
                            for (x, b) in m {
                                model[x as usize] = b;
                            }
                        }
                    }
                } else {
                    model[v as usize] = set_pick(o);
                }
                self.children.push(Child {
                    model,
                    bound: self.idx,
                    hash: hash2(before, tag(o)),
                });
            }
        } else {
            self.check_prefix()?;
        }
        self.dom[v as usize] = own;
        Ok(())
    }
    /// Decide a 1-bit condition; afterwards the path implies it equals its concrete value.
    pub fn decide(&mut self, n: u32) -> R<bool> {
        let sup = self.ex.sup[n as usize];
        if sup == 0 {
            return Ok(self.ex.is_const(n) == Some(1));
        }
        if let Some(k) = self.lighten(n)? {
            return Ok(k == 1);
        }
        if sup & (sup - 1) == 0 {
            let v = sup.trailing_zeros();
            let t = self.ex.btab(n);
            let d = self.dom[v as usize];
            let yes = set_and(&t, &d);
            let no = set_minus(&d, &t);
            let c = set_has(&t, self.model[v as usize]);
            let key = (self.ex.ch[n as usize], self.dom_hash(v));
            if self.idx >= self.bound && self.confirm(key) {
                let (sy, sn) = self.smt.both_sides(&self.ex, n, v, &d)?;
                if sy == set_empty(&yes) || sn == set_empty(&no) {
                    return Err(format!("solver disagrees with the evaluator on a condition over byte {}", v));
                }
            }
            if !set_empty(&yes) && !set_empty(&no) {
                if c {
                    self.split(v, yes, &[no])?;
                } else {
                    self.split(v, no, &[yes])?;
                }
            }
            return Ok(c);
        }
        let nd = self.ex.node(n);
        match nd.op {
            O::And => {
                if !self.decide(nd.a)? {
                    return Ok(false);
                }
                return self.decide(nd.b);
            }
            O::Or => {
                if self.decide(nd.a)? {
                    return Ok(true);
                }
                return self.decide(nd.b);
            }
            O::Xor => {
                let x = self.decide(nd.a)?;
                return Ok(x ^ self.decide(nd.b)?);
            }
            O::Ite => {
                return if self.decide(nd.a)? { self.decide(nd.b) } else { self.decide(nd.c) };
            }
            O::Eq => {
                let (a, b) = (nd.a, nd.b);
                let (na, nb) = (self.ex.node(a), self.ex.node(b));
                let cut = if na.op == O::Concat {
                    Some(self.ex.width(na.b))
                } else if nb.op == O::Concat {
                    Some(self.ex.width(nb.b))
                } else if na.op == O::Zext {
                    Some(self.ex.width(na.a))
                } else if nb.op == O::Zext {
                    Some(self.ex.width(nb.a))
                } else {
                    None
                };
                if let Some(k) = cut {
                    let w = self.ex.width(a);
                    let (al, bl) = (self.ex.extract(a, 0, k), self.ex.extract(b, 0, k));
                    let lo = self.ex.bin(O::Eq, al, bl);
                    if !self.decide(lo)? {
                        return Ok(false);
                    }
                    let (ah, bh) = (self.ex.extract(a, k, w - k), self.ex.extract(b, k, w - k));
                    let hi = self.ex.bin(O::Eq, ah, bh);
                    return self.decide(hi);
                }
            }
            _ => {}
        }
        // fix one-byte subterms with few values first
        if let Some((sub, vals)) = self.small_sub(n) {
            let c = self.concretise_node(sub)?;
            debug_assert!(vals >= 1);
            let mut m = HashMap::new();
            m.insert(sub, c);
            let n2 = self.ex.subst(n, &m, &mut HashMap::new());
            return self.decide(n2);
        }
        // a genuine multi-byte condition: the solver decides feasibility
        let c = self.ex.eval(n, &self.model) & 1 == 1;
        let (vs, cons) = self.component(sup);
        if self.multi.iter().any(|&(m, _)| m == n) {
            return Ok(c);
        }
        let before = self.hash;
        let tag = |c: bool| hash2(0xC0DE + c as u64, 0);
        let t = hash2(tag(c), self.ex.vh[n as usize]);
        self.step_hash(t);
        self.multi_decisions += 1;
        if self.idx > self.bound {
            let doms = self.doms_of(vs);
            let mut q = cons.clone();
            q.push((n, !c));
            if let Some(m) = self.smt.solve(&self.ex, &q, &doms)? {
                let mut model = self.model.clone();
                for (x, b) in m {
                    model[x as usize] = b;
                }
                self.children.push(Child {
                    model,
                    bound: self.idx,
                    hash: hash2(before, hash2(tag(!c), self.ex.vh[n as usize])),
                });
            }
        } else {
            self.check_prefix()?;
        }
        self.multi.push((n, c));
        self.multi_vars |= sup;
        Ok(c)
    }
    /// Largest single-variable subterm with at most 4 values in the current domain.
    fn small_sub(&mut self, n: u32) -> Option<(u32, usize)> {
        let mut stack = vec![n];
        let mut seen = HashSet::new();
        while let Some(x) = stack.pop() {
            if !seen.insert(x) {
                continue;
            }
            let s = self.ex.sup[x as usize];
            if s == 0 {
                continue;
            }
            if s & (s - 1) == 0 {
                let v = s.trailing_zeros() as usize;
                let d = self.dom[v];
                let t = self.ex.vtab(x);
                let mut vals: Vec<u64> = Vec::new();
                for i in 0..256usize {
                    if set_has(&d, i as u8) && !vals.contains(&t[i]) {
                        vals.push(t[i]);
                        if vals.len() > 4 {
                            break;
                        }
                    }
                }
                if vals.len() <= 4 {
                    return Some((x, vals.len()));
                }
                continue;
            }
            let nd = self.ex.node(x);
            for y in [nd.a, nd.b, nd.c] {
                if y != 0 {
                    stack.push(y);
                }
            }
        }
        None
    }
    /// Terms too heavy for the solver (hash functions): fix the bytes.
    fn lighten(&mut self, n: u32) -> R<Option<u64>> {
        let sup = self.ex.sup[n as usize];
        if sup & (sup - 1) == 0 {
            let v = sup.trailing_zeros() as usize;
            if set_len(&self.dom[v]) == 1 {
                // the byte is fixed already
                return Ok(Some(self.ex.vtab(n)[self.model[v] as usize]));
            }
        }
        if self.ex.weight[n as usize] < 20000 {
            return Ok(None);
        }
        let mut values = HashMap::new();
        for v in 0..64 {
            if sup >> v & 1 == 1 {
                let s = self.ex.sym(v);
                let c = self.concretise_node(s)?;
                values.insert(s, c);
            }
        }
        let k = self.ex.subst(n, &values, &mut HashMap::new());
        Ok(self.ex.is_const(k))
    }
    /// Fix the value of a term: one path per possible value.
    pub fn concretise_node(&mut self, n: u32) -> R<u64> {
        let sup = self.ex.sup[n as usize];
        if sup == 0 {
            return Ok(self.ex.is_const(n).unwrap());
        }
        if let Some(k) = self.lighten(n)? {
            return Ok(k);
        }
        if self.ex.width(n) == 1 {
            return Ok(self.decide(n)? as u64);
        }
        if sup & (sup - 1) == 0 {
            let v = sup.trailing_zeros();
            let d = self.dom[v as usize];
            let m = self.model[v as usize];
            let t = self.ex.vtab(n);
            let own_val = t[m as usize];
            let mut groups: Vec<(u64, Set)> = Vec::new();
            for i in 0..256usize {
                if set_has(&d, i as u8) {
                    let x = t[i];
                    match groups.iter_mut().find(|g| g.0 == x) {
                        Some(g) => set_add(&mut g.1, i as u8),
                        None => {
                            let mut s = [0u64; 4];
                            set_add(&mut s, i as u8);
                            groups.push((x, s));
                        }
                    }
                }
            }
            let key = (hash2(self.ex.ch[n as usize], 0xC0), self.dom_hash(v));
            if self.idx >= self.bound && self.confirm(key) {
                let vals: Vec<u64> = groups.iter().map(|g| g.0).collect();
                if self.smt.other_value(&self.ex, n, v, &d, &vals)? {
                    return Err("solver found a value the evaluator missed".into());
                }
            }
            if groups.len() > 1 {
                let own = groups.iter().find(|g| g.0 == own_val).unwrap().1;
                let others: Vec<Set> = groups.iter().filter(|g| g.0 != own_val).map(|g| g.1).collect();
                self.split(v, own, &others)?;
            }
            return Ok(own_val);
        }
        let nd = self.ex.node(n);
        match nd.op {
            O::Ite => {
                return if self.decide(nd.a)? {
                    self.concretise_node(nd.b)
                } else {
                    self.concretise_node(nd.c)
                };
            }
            O::Concat => {
                let lw = self.ex.width(nd.b);
                let h = self.concretise_node(nd.a)?;
                let l = self.concretise_node(nd.b)?;
                return Ok(h << lw | l);
            }
            O::Zext | O::Sext | O::Extract | O::Ctpop | O::Bswap => {
                let x = self.concretise_node(nd.a)?;
                let w = self.ex.width(nd.a);
                return Ok(eval_op(nd.op, w, nd.w, x, 0, 0, nd.k));
            }
            O::Ctlz | O::Cttz => {
                let x = self.concretise_node(nd.a)?;
                return Ok(eval_op(nd.op, nd.w, nd.w, x, 0, 0, 0));
            }
            _ => {}
        }
        let a = self.concretise_node(nd.a)?;
        let b = self.concretise_node(nd.b)?;
        let w = self.ex.width(nd.a);
        Ok(eval_op(nd.op, w, nd.w, a, b, 0, nd.k))
    }
    #[inline]
    fn fix(&mut self, v: Val) -> S<u64> {
        if v.s != 0 {
            let c = self.concretise_node(v.s)?;
            if c != v.c {
                return Err(Stop::Err(format!("shadow mismatch: {} vs {}", c, v.c)));
            }
        }
        Ok(v.c)
    }
    #[inline]
    fn fix_bool(&mut self, v: Val) -> S<bool> {
        if v.s != 0 {
            let c = self.decide(v.s)?;
            if c != (v.c & 1 == 1) {
                return Err(Stop::Err("shadow mismatch in condition".into()));
            }
        }
        Ok(v.c & 1 == 1)
    }
    #[inline]
    fn node_of(&mut self, v: Val, w: u8) -> u32 {
        if v.s != 0 {
            v.s
        } else {
            self.ex.konst(v.c, w)
        }
    }
    #[inline]
    fn mkv(&self, c: u64, n: u32) -> Val {
        if self.ex.sup[n as usize] == 0 {
            Val { c, s: 0 }
        } else {
            Val { c, s: n }
        }
    }
    /// Load through a symbolic address: a table over the deciding byte, or one path per address.
    fn load_table(&mut self, a: Val, n: u8, w: u8) -> S<Val> {
        let sup = self.ex.sup[a.s as usize];
        if sup & (sup - 1) == 0 {
            let v = sup.trailing_zeros();
            let d = self.dom[v as usize];
            let t = *self.ex.vtab(a.s);
            let mut tab = Box::new([0u64; 256]);
            let mut ok = true;
            let mut distinct: HashMap<u64, u64> = HashMap::new();
            for i in 0..256usize {
                if !set_has(&d, i as u8) {
                    continue;
                }
                let addr = t[i];
                if let Some(&x) = distinct.get(&addr) {
                    tab[i] = x;
                    continue;
                }
                let o = addr.wrapping_sub(BASE);
                if o + n as u64 > ARENA as u64 {
                    ok = false;
                    break;
                }
                let o = o as usize;
                if (o..o + n as usize).any(|k| self.line[k >> LINE] && self.sh[k] != 0) {
                    ok = false;
                    break;
                }
                let mut x = 0u64;
                for k in 0..n as usize {
                    x |= (self.mem[o + k] as u64) << (8 * k);
                }
                x &= mask(w);
                distinct.insert(addr, x);
                tab[i] = x;
            }
            if ok {
                let c = tab[self.model[v as usize] as usize];
                let first = c;
                if (0..256).filter(|i| set_has(&d, *i as u8)).all(|i| tab[i] == first) {
                    return Ok(Val { c, s: 0 });
                }
                // bytes outside the domain take the current value, to help sharing
                let vn = self.ex.sym(v);
                let s = self.ex.table(vn, w, tab);
                return Ok(Val { c, s });
            }
        }
        let addr = self.fix(a)?;
        self.load(addr, n, w)
    }

    // ---- running -------------------------------------------------------------------------
    pub fn reset(&mut self) {
        for &l in &self.flagged {
            let o = (l as usize) << LINE;
            self.sh[o..o + (1 << LINE)].fill(0);
            self.line[l as usize] = false;
        }
        self.flagged.clear();
        let prog = self.prog.clone();
        for &(o, n) in &prog.mutable {
            self.mem[o..o + n].copy_from_slice(&prog.image[o..o + n]);
        }
        self.heap = self.heap_base;
        self.last_alloc = 0;
        self.sp = self.stack_base;
        self.frames.clear();
        self.multi.clear();
        self.multi_vars = 0;
        self.idx = 0;
        self.hash = 0;
        self.children.clear();
        self.out_hash = 0xcbf29ce484222325;
        self.instrs = 0;
        self.moved = 0;
        self.marks = 0;
        self.fail_code = 0;
        self.maybe_gc();
    }

    /// Run `harness(oracle, input, n, choice, m)` with the given buffers. A buffer cell is a fixed
    /// byte or a variable; `model` gives the variables' values and `dom` their domains.
    pub fn run(&mut self, entry: u32, oracle: u32, bufs: [&[Cell]; 2], model: &[u8], dom: &[Set], bound: u32, expect: u64) -> R<Outcome> {
        self.reset();
        self.model = model.to_vec();
        self.dom = dom.to_vec();
        self.bound = bound;
        self.expect = expect;
        let mut addr = self.input_base;
        let mut args = vec![Val { c: oracle as u64, s: 0 }];
        for b in bufs {
            addr = (addr + 63) & !63;
            args.push(Val { c: addr, s: 0 });
            args.push(Val { c: b.len() as u64, s: 0 });
            for (i, cell) in b.iter().enumerate() {
                let v = match cell {
                    Cell::Byte(x) => Val { c: *x as u64, s: 0 },
                    Cell::Var(k) => Val {
                        c: model[*k as usize] as u64,
                        s: self.ex.sym(*k),
                    },
                };
                self.store(addr + i as u64, v, 1, 8).map_err(|_| "input")?;
            }
            addr += b.len() as u64 + 64;
            if addr > self.stack_base {
                return Err("input too long".into());
            }
        }
        let r = self.exec(entry, &args);
        match r {
            Ok(v) => {
                if self.idx < self.bound {
                    return Err("divergence: path ended before the recorded decision".into());
                }
                Ok(Outcome::Ok(v as u32))
            }
            Err(Stop::Out(o)) => {
                if self.idx < self.bound {
                    return Err("divergence: path ended before the recorded decision".into());
                }
                Ok(o)
            }
            Err(Stop::Err(e)) => {
                let mut at: Vec<String> = Vec::new();
                for fr in self.frames.iter().rev().take(12) {
                    at.push(self.prog.fns[fr.f as usize].pretty.clone());
                }
                Err(format!("{} in {}", e, at.join(" < ")))
            }
        }
    }

    #[inline(always)]
    fn get(&self, prog: &Program, base: usize, o: Op) -> Val {
        unsafe {
            if o & CONST != 0 {
                Val {
                    c: *prog.consts.get_unchecked((o & !CONST) as usize),
                    s: 0,
                }
            } else {
                *self.regs.get_unchecked(base + o as usize)
            }
        }
    }

    fn exec(&mut self, entry: u32, args: &[Val]) -> S<u64> {
        let prog_arc = self.prog.clone();
        let prog: &Program = &prog_arc;
        let mut f: &Code = &prog.fns[entry as usize];
        let mut fid = entry;
        let mut pc: usize = 0;
        let mut base: usize = 0;
        self.fn_used[entry as usize] = true;
        for (i, a) in args.iter().enumerate() {
            self.regs[i] = *a;
        }
        self.frames.push(Frame {
            f: entry,
            pc: 0,
            base: 0,
            sp: self.sp,
            d: u32::MAX,
            nret: 0,
        });
        let mut mv: Vec<Val> = Vec::new();
        let mut left = self.budget;
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v: Val = $v;
                unsafe { *self.regs.get_unchecked_mut(base + $d as usize) = v }
            }};
        }
        macro_rules! goto {
            ($e:expr) => {{
                let e = &f.edges[$e as usize];
                if !e.moves.is_empty() {
                    if e.parallel {
                        mv.clear();
                        for (_, s) in &e.moves {
                            mv.push(self.get(prog, base, *s));
                        }
                        for (i, (d, _)) in e.moves.iter().enumerate() {
                            set!(*d, mv[i]);
                        }
                    } else {
                        for (d, s) in &e.moves {
                            let v = self.get(prog, base, *s);
                            set!(*d, v);
                        }
                    }
                }
                pc = e.pc as usize;
                continue;
            }};
        }
        loop {
            left -= 1;
            if left == 0 {
                self.instrs += self.budget;
                return Err(Stop::Out(Outcome::Budget));
            }
            let ins = unsafe { f.code.get_unchecked(pc) };
            pc += 1;
            match ins {
                I::Block(b) => {
                    self.cov[*b as usize] = true;
                }
                I::Bin { op, w, d, a, b } => {
                    let x = self.get(prog, base, *a);
                    let y = self.get(prog, base, *b);
                    if matches!(op, O::UDiv | O::SDiv | O::URem | O::SRem) && y.c == 0 {
                        return Err(Stop::Err("division by zero".into()));
                    }
                    let c = eval_op(*op, *w, *w, x.c, y.c, 0, 0);
                    if x.s | y.s == 0 {
                        set!(*d, Val { c, s: 0 });
                    } else {
                        let p = self.node_of(x, *w);
                        let q = self.node_of(y, *w);
                        let n = self.sbin(*op, p, q);
                        set!(*d, self.mkv(c, n));
                    }
                }
                I::Icmp { p, w, d, a, b } => {
                    let x = self.get(prog, base, *a);
                    let y = self.get(prog, base, *b);
                    let c = match p {
                        Pred::Eq => x.c == y.c,
                        Pred::Ne => x.c != y.c,
                        Pred::Ult => x.c < y.c,
                        Pred::Ule => x.c <= y.c,
                        Pred::Ugt => x.c > y.c,
                        Pred::Uge => x.c >= y.c,
                        Pred::Slt => sext(x.c, *w) < sext(y.c, *w),
                        Pred::Sle => sext(x.c, *w) <= sext(y.c, *w),
                        Pred::Sgt => sext(x.c, *w) > sext(y.c, *w),
                        Pred::Sge => sext(x.c, *w) >= sext(y.c, *w),
                    } as u64;
                    if x.s | y.s == 0 {
                        set!(*d, Val { c, s: 0 });
                    } else {
                        let u = self.node_of(x, *w);
                        let v = self.node_of(y, *w);
                        let n = self.scmp(*p, u, v);
                        set!(*d, self.mkv(c, n));
                    }
                }
                I::Zext { d, a, tw, fw: _ } => {
                    let x = self.get(prog, base, *a);
                    if x.s == 0 {
                        set!(*d, x);
                    } else {
                        let n = self.ex.zext(x.s, *tw);
                        set!(*d, Val { c: x.c, s: n });
                    }
                }
                I::Sext { d, a, fw, tw } => {
                    let x = self.get(prog, base, *a);
                    let c = sext(x.c, *fw) as u64 & mask(*tw);
                    let s = if x.s == 0 { 0 } else { self.ex.sext(x.s, *tw) };
                    set!(*d, Val { c, s });
                }
                I::Trunc { d, a, w } => {
                    let x = self.get(prog, base, *a);
                    let c = x.c & mask(*w);
                    if x.s == 0 {
                        set!(*d, Val { c, s: 0 });
                    } else {
                        let n = self.ex.extract(x.s, 0, *w);
                        set!(*d, self.mkv(c, n));
                    }
                }
                I::Copy { d, a } => {
                    let x = self.get(prog, base, *a);
                    set!(*d, x);
                }
                I::Select { d, c, a, b, w, fork } => {
                    let cv = self.get(prog, base, *c);
                    let x = self.get(prog, base, *a);
                    let y = self.get(prog, base, *b);
                    if cv.s == 0 {
                        set!(*d, if cv.c & 1 == 1 { x } else { y });
                    } else {
                        let sup = self.ex.sup[cv.s as usize];
                        if x.s == 0 && y.s == 0 && x.c == y.c {
                            set!(*d, x);
                        } else if *fork || (*w > 1 && sup & (sup - 1) != 0) {
                            let t = self.fix_bool(cv)?;
                            set!(*d, if t { x } else { y });
                        } else {
                            let p = self.node_of(x, *w);
                            let q = self.node_of(y, *w);
                            let s1 = self.ex.sup[p as usize] | self.ex.sup[q as usize] | sup;
                            if *w > 1 && s1 & (s1 - 1) != 0 && s1 != sup && (self.ex.sup[p as usize] & !sup != 0 || self.ex.sup[q as usize] & !sup != 0) {
                                let t = self.fix_bool(cv)?;
                                set!(*d, if t { x } else { y });
                            } else {
                                let n = self.ex.ite(cv.s, p, q);
                                let c = if cv.c & 1 == 1 { x.c } else { y.c };
                                set!(*d, self.mkv(c, n));
                            }
                        }
                    }
                }
                I::GepC { d, a, off } => {
                    let x = self.get(prog, base, *a);
                    let c = x.c.wrapping_add(*off);
                    if x.s == 0 {
                        set!(*d, Val { c, s: 0 });
                    } else {
                        let k = self.ex.konst(*off, 64);
                        let n = self.ex.bin(O::Add, x.s, k);
                        set!(*d, self.mkv(c, n));
                    }
                }
                I::Gep1 { d, a, i, scale, off } => {
                    let x = self.get(prog, base, *a);
                    let y = self.get(prog, base, *i);
                    let c = x.c.wrapping_add(y.c.wrapping_mul(*scale)).wrapping_add(*off);
                    if x.s | y.s == 0 {
                        set!(*d, Val { c, s: 0 });
                    } else {
                        let p = self.node_of(x, 64);
                        let q = self.node_of(y, 64);
                        let k = self.ex.konst(*scale, 64);
                        let m = self.ex.bin(O::Mul, q, k);
                        let o = self.ex.konst(*off, 64);
                        let m = self.ex.bin(O::Add, m, o);
                        let n = self.ex.bin(O::Add, p, m);
                        set!(*d, self.mkv(c, n));
                    }
                }
                I::Load { d, a, off, n, w } => {
                    let x = self.get(prog, base, *a);
                    if x.s == 0 {
                        let v = self.load(x.c.wrapping_add(*off as u64), *n, *w)?;
                        set!(*d, v);
                    } else {
                        let k = self.ex.konst(*off as u64, 64);
                        let s = self.ex.bin(O::Add, x.s, k);
                        let c = x.c.wrapping_add(*off as u64);
                        let v = if self.ex.sup[s as usize] == 0 {
                            self.load(c, *n, *w)?
                        } else {
                            self.load_table(Val { c, s }, *n, *w)?
                        };
                        set!(*d, v);
                    }
                }
                I::Store { v, a, off, n, w } => {
                    let x = self.get(prog, base, *a);
                    let y = self.get(prog, base, *v);
                    let addr = if x.s == 0 { x.c } else { self.fix(x)? };
                    self.store(addr.wrapping_add(*off as u64), y, *n, *w)?;
                }
                I::Alloca { d, size, align } => {
                    let al = *align as u64;
                    let a = (self.sp + al - 1) & !(al - 1);
                    self.sp = a + size;
                    if self.sp > self.heap_base {
                        return Err(Stop::Out(Outcome::Panic("stack overflow".into())));
                    }
                    set!(*d, Val { c: a, s: 0 });
                }
                I::Jmp(e) => goto!(*e),
                I::CondBr { c, t, f: fe } => {
                    let x = self.get(prog, base, *c);
                    let taken = if x.s == 0 { x.c & 1 == 1 } else { self.fix_bool(x)? };
                    if taken {
                        goto!(*t)
                    } else {
                        goto!(*fe)
                    }
                }
                I::Switch(sw) => {
                    let x = self.get(prog, base, sw.v);
                    if x.s != 0 {
                        self.decide_switch(x, sw)?;
                    }
                    let e = match sw.map.get(&x.c) {
                        Some(e) => *e,
                        None => sw.default,
                    };
                    goto!(e)
                }
                I::Call(ci) => {
                    let mut target = u32::MAX;
                    let mut ext: Option<&Ext> = None;
                    match &ci.target {
                        Target::Fn(id) => target = *id,
                        Target::Ext(e) => ext = Some(e),
                        Target::Ptr(p) => {
                            let v = self.get(prog, base, *p);
                            let a = self.fix(v)?;
                            let k = a.wrapping_sub(FN_BASE);
                            if k % 16 != 0 || (k / 16) as usize >= prog.fns.len() {
                                return Err(Stop::Err(format!("call through bad pointer {:#x}", a)));
                            }
                            target = (k / 16) as u32;
                            ext = prog.fns[target as usize].ext.as_ref();
                        }
                    }
                    if let Some(e) = ext {
                        let mut av: Vec<Val> = Vec::with_capacity(ci.args.len());
                        for a in &ci.args {
                            av.push(self.get(prog, base, *a));
                        }
                        self.left = left;
                        let (r, r2) = self.external(e, &av)?;
                        if ci.nret >= 1 {
                            set!(ci.d, r);
                        }
                        if ci.nret >= 2 {
                            set!(ci.d + 1, r2);
                        }
                        continue;
                    }
                    let g = &prog.fns[target as usize];
                    if (ci.noreturn || g.noreturn) && !g.pretty.contains("::rt::imp::") && !exits(&g.pretty) {
                        self.instrs += self.budget - left;
                        let here = f.pretty.clone();
                        return Err(Stop::Out(Outcome::Panic(format!("{} called from {}", g.pretty, here))));
                    }
                    let nb = base + f.nregs as usize;
                    if nb + g.nregs as usize + 16 > self.regs.len() {
                        let n = self.regs.len() * 2 + g.nregs as usize;
                        self.regs.resize(n, Val::default());
                    }
                    if self.frames.len() > 20000 {
                        self.instrs += self.budget - left;
                        return Err(Stop::Out(Outcome::Panic("stack overflow".into())));
                    }
                    if ci.args.len() != g.nparams as usize {
                        return Err(Stop::Err(format!("arity mismatch calling {}", g.name)));
                    }
                    for (i, a) in ci.args.iter().enumerate() {
                        let v = self.get(prog, base, *a);
                        self.regs[nb + i] = v;
                    }
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    self.frames.push(Frame {
                        f: target,
                        pc: 0,
                        base: nb as u32,
                        sp: self.sp,
                        d: ci.d,
                        nret: ci.nret,
                    });
                    self.fn_used[target as usize] = true;
                    f = g;
                    fid = target;
                    pc = 0;
                    base = nb;
                }
                I::Ret(ops) => {
                    let fr = self.frames.pop().unwrap();
                    self.sp = fr.sp;
                    if self.frames.is_empty() {
                        self.instrs += self.budget - left;
                        let v = if ops.is_empty() { Val::default() } else { self.get(prog, base, ops[0]) };
                        let c = if v.s != 0 { self.fix(v)? } else { v.c };
                        return Ok(c);
                    }
                    let caller = self.frames.last().unwrap();
                    let cb = caller.base as usize;
                    if ops.len() == 1 {
                        if fr.nret == 1 {
                            let v = self.get(prog, base, ops[0]);
                            self.regs[cb + fr.d as usize] = v;
                        }
                    } else if !ops.is_empty() {
                        for (i, o) in ops.iter().enumerate() {
                            let v = self.get(prog, base, *o);
                            self.regs[cb + fr.d as usize + i] = v;
                        }
                    }
                    fid = caller.f;
                    f = &prog.fns[fid as usize];
                    pc = caller.pc as usize;
                    base = cb;
                }
                I::Intr(it) => {
                    let mut av = [Val::default(); 4];
                    for (i, a) in it.args.iter().take(4).enumerate() {
                        av[i] = self.get(prog, base, *a);
                    }
                    let (r, r2) = self.intrinsic(it, &av)?;
                    if it.d != u32::MAX {
                        set!(it.d, r);
                        if matches!(it.k, Intr::Ov(..)) {
                            set!(it.d + 1, r2);
                        }
                    }
                }
                I::Wide(wi) => {
                    let (x, y) = self.wide_args(prog, base, wi)?;
                    let m = if wi.w >= 128 { !0u128 } else { (1u128 << wi.w) - 1 };
                    let sx = |v: u128| ((v << (128 - wi.w)) as i128) >> (128 - wi.w);
                    let r = match wi.op.as_str() {
                        "add" => x.wrapping_add(y),
                        "sub" => x.wrapping_sub(y),
                        "mul" => x.wrapping_mul(y),
                        "udiv" => x / y,
                        "urem" => x % y,
                        "sdiv" => (sx(x) / sx(y)) as u128,
                        "srem" => (sx(x) % sx(y)) as u128,
                        "and" => x & y,
                        "or" => x | y,
                        "xor" => x ^ y,
                        "shl" => x << (y as u32 & 127),
                        "lshr" => x >> (y as u32 & 127),
                        "ashr" => (sx(x) >> (y as u32 & 127)) as u128,
                        _ => return Err(Stop::Err("wide op".into())),
                    } & m;
                    set!(wi.d, Val { c: r as u64, s: 0 });
                    set!(wi.d + 1, Val { c: (r >> 64) as u64, s: 0 });
                }
                I::WideCmp(wi) => {
                    let (x, y) = self.wide_args(prog, base, wi)?;
                    let sx = |v: u128| ((v << (128 - wi.w)) as i128) >> (128 - wi.w);
                    let r = match wi.op.as_str() {
                        "eq" => x == y,
                        "ne" => x != y,
                        "ult" => x < y,
                        "ule" => x <= y,
                        "ugt" => x > y,
                        "uge" => x >= y,
                        "slt" => sx(x) < sx(y),
                        "sle" => sx(x) <= sx(y),
                        "sgt" => sx(x) > sx(y),
                        _ => sx(x) >= sx(y),
                    };
                    set!(wi.d, Val { c: r as u64, s: 0 });
                }
                I::Rmw { op, d, a, v, n, w } => {
                    let av = self.get(prog, base, *a);
                    let addr = self.fix(av)?;
                    let v = self.get(prog, base, *v);
                    let v = self.fix(v)?;
                    let old = self.load(addr, *n, *w)?;
                    let o = self.fix(old)?;
                    let new = match op {
                        0 => v,
                        1 => o.wrapping_add(v),
                        2 => o.wrapping_sub(v),
                        3 => o & v,
                        4 => o | v,
                        _ => o ^ v,
                    } & mask(*w);
                    self.store(addr, Val { c: new, s: 0 }, *n, *w)?;
                    set!(*d, Val { c: o, s: 0 });
                }
                I::CmpXchg { d, a, c, v, n, w } => {
                    let av = self.get(prog, base, *a);
                    let addr = self.fix(av)?;
                    let cv = self.get(prog, base, *c);
                    let cv = self.fix(cv)?;
                    let vv = self.get(prog, base, *v);
                    let vv = self.fix(vv)?;
                    let old = self.load(addr, *n, *w)?;
                    let o = self.fix(old)?;
                    if o == cv {
                        self.store(addr, Val { c: vv, s: 0 }, *n, *w)?;
                    }
                    set!(*d, Val { c: o, s: 0 });
                    set!(*d + 1, Val { c: (o == cv) as u64, s: 0 });
                }
                I::Unreachable => {
                    return Err(Stop::Err("unreachable executed".into()));
                }
                I::Unsupported(e) => {
                    let _ = fid;
                    return Err(Stop::Err(format!("unsupported instruction: {}", e)));
                }
            }
        }
    }

    fn wide_args(&mut self, prog: &Program, base: usize, wi: &WideI) -> S<(u128, u128)> {
        let mut o = [0u64; 4];
        for (i, op) in wi.a.iter().chain(wi.b.iter()).enumerate() {
            let v = self.get(prog, base, *op);
            o[i] = self.fix(v)?;
        }
        Ok((o[0] as u128 | (o[1] as u128) << 64, o[2] as u128 | (o[3] as u128) << 64))
    }

    fn sbin(&mut self, op: O, p: u32, q: u32) -> u32 {
        // or of disjoint shifted bytes is a concatenation
        self.ex.bin(op, p, q)
    }
    fn scmp(&mut self, p: Pred, u: u32, v: u32) -> u32 {
        match p {
            Pred::Eq => self.ex.bin(O::Eq, u, v),
            Pred::Ne => {
                let n = self.ex.bin(O::Eq, u, v);
                self.ex.not(n)
            }
            Pred::Ult => self.ex.bin(O::Ult, u, v),
            Pred::Ule => self.ex.bin(O::Ule, u, v),
            Pred::Ugt => self.ex.bin(O::Ult, v, u),
            Pred::Uge => self.ex.bin(O::Ule, v, u),
            Pred::Slt => self.ex.bin(O::Slt, u, v),
            Pred::Sle => self.ex.bin(O::Sle, u, v),
            Pred::Sgt => self.ex.bin(O::Slt, v, u),
            Pred::Sge => self.ex.bin(O::Sle, v, u),
        }
    }

    fn decide_switch(&mut self, x: Val, sw: &SwitchI) -> S<()> {
        let n = x.s;
        let sup = self.ex.sup[n as usize];
        if sup & (sup - 1) != 0 {
            // compare with the cases one by one
            for (k, _) in &sw.cases {
                let kk = self.ex.konst(*k, sw.w);
                let e = self.ex.bin(O::Eq, n, kk);
                if self.decide(e)? {
                    return Ok(());
                }
            }
            return Ok(());
        }
        let v = sup.trailing_zeros();
        let d = self.dom[v as usize];
        let m = self.model[v as usize];
        let t = *self.ex.vtab(n);
        let edge = |val: u64| *sw.map.get(&val).unwrap_or(&sw.default);
        if t[m as usize] != x.c {
            return Err(Stop::Err("shadow mismatch in switch".into()));
        }
        let own_e = edge(x.c);
        let mut groups: Vec<(u32, Set)> = vec![(own_e, [0; 4])];
        for i in 0..256usize {
            if set_has(&d, i as u8) {
                let e = edge(t[i]);
                match groups.iter_mut().find(|g| g.0 == e) {
                    Some(g) => set_add(&mut g.1, i as u8),
                    None => {
                        let mut s = [0u64; 4];
                        set_add(&mut s, i as u8);
                        groups.push((e, s));
                    }
                }
            }
        }
        let key = (hash2(self.ex.ch[n as usize], 0x51), self.dom_hash(v));
        if self.idx >= self.bound && self.confirm(key) {
            let mut vals: Vec<u64> = (0..256usize).filter(|i| set_has(&d, *i as u8)).map(|i| t[i]).collect();
            vals.sort();
            vals.dedup();
            if self.smt.other_value(&self.ex, n, v, &d, &vals)? {
                return Err(Stop::Err("solver found a switch value the evaluator missed".into()));
            }
        }
        if groups.len() > 1 {
            let own = groups[0].1;
            let others: Vec<Set> = groups[1..].iter().map(|g| g.1).collect();
            self.split(v, own, &others)?;
        }
        Ok(())
    }

    fn intrinsic(&mut self, it: &IntrI, a: &[Val; 4]) -> S<(Val, Val)> {
        let w = it.w;
        let m = mask(w);
        let z = Val::default();
        let sym = a[0].s | a[1].s | a[2].s != 0;
        Ok(match it.k {
            Intr::Nop => (z, z),
            Intr::Trap => return Err(Stop::Out(Outcome::Panic("trap".into()))),
            Intr::Memcpy => {
                let d = self.fix(a[0])?;
                let s = self.fix(a[1])?;
                let n = self.fix(a[2])?;
                self.copy_mem(d, s, n)?;
                (z, z)
            }
            Intr::Memset => {
                let d = self.fix(a[0])?;
                let n = self.fix(a[2])?;
                for i in 0..n {
                    self.store(d + i, a[1], 1, 8)?;
                }
                (z, z)
            }
            Intr::Ov(op, signed) => {
                let (x, y) = (a[0], a[1]);
                let c = eval_op(op, w, w, x.c, y.c, 0, 0);
                let ov = if signed {
                    let (p, q) = (sext(x.c, w) as i128, sext(y.c, w) as i128);
                    let r = match op {
                        O::Add => p + q,
                        O::Sub => p - q,
                        _ => p * q,
                    };
                    r != sext(c, w) as i128
                } else {
                    let (p, q) = (x.c as u128, y.c as u128);
                    match op {
                        O::Add => p + q > m as u128,
                        O::Sub => q > p,
                        _ => p * q > m as u128,
                    }
                } as u64;
                if !sym {
                    return Ok((Val { c, s: 0 }, Val { c: ov, s: 0 }));
                }
                let p = self.node_of(x, w);
                let q = self.node_of(y, w);
                let r = self.ex.bin(op, p, q);
                let o = match (op, signed) {
                    (O::Add, false) => self.ex.bin(O::Ult, r, p),
                    (O::Sub, false) => self.ex.bin(O::Ult, p, q),
                    (O::Mul, false) => self.ex.bin(O::UMulO, p, q),
                    (O::Mul, true) => self.ex.bin(O::SMulO, p, q),
                    (op, true) => {
                        let e1 = self.ex.bin(O::Xor, p, r);
                        let e2 = if op == O::Add { self.ex.bin(O::Xor, q, r) } else { self.ex.bin(O::Xor, p, q) };
                        let e = self.ex.bin(O::And, e1, e2);
                        let k = self.ex.konst(0, w);
                        self.ex.bin(O::Slt, e, k)
                    }
                    _ => unreachable!(),
                };
                (self.mkv(c, r), self.mkv(ov, o))
            }
            Intr::Un(op) => {
                let c = eval_op(op, w, w, a[0].c, 0, 0, 0);
                if a[0].s == 0 {
                    (Val { c, s: 0 }, z)
                } else {
                    let sup = self.ex.sup[a[0].s as usize];
                    if sup & (sup - 1) != 0 {
                        if op == O::Cttz || op == O::Ctlz {
                            // decide bits in order until the first set one
                            for i in 0..w {
                                let bit = if op == O::Cttz { i } else { w - 1 - i };
                                let e = self.ex.extract(a[0].s, bit, 1);
                                if self.decide(e)? {
                                    break;
                                }
                            }
                            return Ok((Val { c, s: 0 }, z));
                        }
                    }
                    let n = self.ex.un(op, a[0].s);
                    (self.mkv(c, n), z)
                }
            }
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let (x, y) = (a[0], a[1]);
                let lt = match it.k {
                    Intr::UMax | Intr::UMin => x.c < y.c,
                    _ => sext(x.c, w) < sext(y.c, w),
                };
                let pick_x = lt == matches!(it.k, Intr::UMin | Intr::SMin);
                if !sym {
                    return Ok((if pick_x { x } else { y }, z));
                }
                let p = self.node_of(x, w);
                let q = self.node_of(y, w);
                let op = if matches!(it.k, Intr::UMax | Intr::UMin) { O::Ult } else { O::Slt };
                let cond = self.ex.bin(op, p, q);
                let n = if matches!(it.k, Intr::UMin | Intr::SMin) {
                    self.ex.ite(cond, p, q)
                } else {
                    self.ex.ite(cond, q, p)
                };
                (self.mkv(if pick_x { x.c } else { y.c }, n), z)
            }
            Intr::USubSat => {
                let (x, y) = (a[0], a[1]);
                let c = x.c.saturating_sub(y.c);
                if !sym {
                    return Ok((Val { c, s: 0 }, z));
                }
                let p = self.node_of(x, w);
                let q = self.node_of(y, w);
                let cond = self.ex.bin(O::Ult, p, q);
                let s = self.ex.bin(O::Sub, p, q);
                let k = self.ex.konst(0, w);
                let n = self.ex.ite(cond, k, s);
                (self.mkv(c, n), z)
            }
            Intr::Abs => {
                let x = self.fix(a[0])?;
                (
                    Val {
                        c: (sext(x, w).wrapping_abs()) as u64 & m,
                        s: 0,
                    },
                    z,
                )
            }
            Intr::UAddSat => {
                let x = self.fix(a[0])?;
                let y = self.fix(a[1])?;
                (
                    Val {
                        c: (x as u128 + y as u128).min(m as u128) as u64,
                        s: 0,
                    },
                    z,
                )
            }
            Intr::Fshl | Intr::Fshr => {
                // rotates are used by hashing only; concretise
                let x = self.fix(a[0])?;
                let y = self.fix(a[1])?;
                let k = self.fix(a[2])? % w as u64;
                let r = if it.k == Intr::Fshl {
                    if k == 0 {
                        x
                    } else {
                        (x << k | y >> (w as u64 - k)) & m
                    }
                } else if k == 0 {
                    y
                } else {
                    (x << (w as u64 - k) | y >> k) & m
                };
                (Val { c: r, s: 0 }, z)
            }
            Intr::Scmp | Intr::Ucmp => {
                let (x, y) = (a[0], a[1]);
                let (lt, eq) = if it.k == Intr::Scmp {
                    (sext(x.c, w) < sext(y.c, w), x.c == y.c)
                } else {
                    (x.c < y.c, x.c == y.c)
                };
                let c = if lt { mask(it.rw) } else { !eq as u64 };
                if !sym {
                    return Ok((Val { c, s: 0 }, z));
                }
                let p = self.node_of(x, w);
                let q = self.node_of(y, w);
                let l = self.ex.bin(if it.k == Intr::Scmp { O::Slt } else { O::Ult }, p, q);
                let e = self.ex.bin(O::Eq, p, q);
                let (k0, k1, km) = (self.ex.konst(0, it.rw), self.ex.konst(1, it.rw), self.ex.konst(mask(it.rw), it.rw));
                let i = self.ex.ite(e, k0, k1);
                let n = self.ex.ite(l, km, i);
                (self.mkv(c, n), z)
            }
            Intr::IsConstant => (z, z),
            Intr::Copy0 => (a[0], z),
            Intr::LoadRel => {
                let p = self.fix(a[0])?;
                let o = self.fix(a[1])?;
                let v = self.load(p.wrapping_add(o), 4, 32)?;
                let v = self.fix(v)?;
                (
                    Val {
                        c: p.wrapping_add(sext(v, 32) as u64),
                        s: 0,
                    },
                    z,
                )
            }
            Intr::Bitreverse => {
                let x = self.fix(a[0])?;
                (
                    Val {
                        c: x.reverse_bits() >> (64 - w as u64),
                        s: 0,
                    },
                    z,
                )
            }
        })
    }

    fn external(&mut self, e: &Ext, a: &[Val]) -> S<(Val, Val)> {
        let z = Val::default();
        Ok(match e {
            Ext::SymAlloc => {
                let n = self.fix(a[0])?;
                let al = self.fix(a[1])?.max(1);
                let p = (self.heap + al - 1) & !(al - 1);
                if p + n > BASE + ARENA as u64 - 64 || n > ARENA as u64 {
                    return Err(Stop::Out(Outcome::Panic("out of memory (model heap)".into())));
                }
                self.heap = p + n;
                self.heap_max = self.heap_max.max(self.heap);
                self.last_alloc = p;
                (Val { c: p, s: 0 }, z)
            }
            Ext::SymRealloc => {
                // (ptr, old, align, new)
                let p = self.fix(a[0])?;
                let old = self.fix(a[1])?;
                let new = self.fix(a[3])?;
                if p == self.last_alloc {
                    if p + new > BASE + ARENA as u64 - 64 {
                        return Err(Stop::Out(Outcome::Panic("out of memory (model heap)".into())));
                    }
                    self.heap = p + new;
                    return Ok((Val { c: p, s: 0 }, z));
                }
                let (q, _) = self.external(&Ext::SymAlloc, &[Val { c: new, s: 0 }, a[2]])?;
                self.copy_mem(q.c, p, old.min(new))?;
                self.moved -= old.min(new); // amortised, or done by mapping
                (q, z)
            }
            Ext::SymSplit => (Val { c: self.fix(a[0])?, s: 0 }, z),
            Ext::SymOut => {
                let p = self.fix(a[0])?;
                let n = self.fix(a[1])?;
                if n > 0 {
                    let o = self.off(p, n)?;
                    for i in 0..n as usize {
                        self.out_hash = fnv(self.out_hash, self.mem[o + i]);
                    }
                }
                self.out_hash = fnv(self.out_hash, 0xA5);
                (z, z)
            }
            Ext::SymFail => {
                let c = self.fix(a[0])?;
                self.fail_code = c as u32;
                return Err(Stop::Out(Outcome::Fail(c as u32)));
            }
            Ext::SymDone => return Err(Stop::Out(Outcome::Ok(0))),
            Ext::SymReject => return Err(Stop::Out(Outcome::Reject)),
            // work so far: instructions, and words copied or compared
            Ext::SymSteps => (Val { c: self.budget - self.left + self.moved / 8, s: 0 }, z),
            Ext::SymMark => {
                let c = self.fix(a[0])?;
                self.marks |= 1 << (c & 63);
                (z, z)
            }
            Ext::Memcmp(ordered) => {
                let p = self.fix(a[0])?;
                let q = self.fix(a[1])?;
                let n = self.fix(a[2])?;
                if n == 0 {
                    return Ok((z, z));
                }
                let x = self.off(p, n)?;
                let y = self.off(q, n)?;
                let n = n as usize;
                self.moved += n as u64;
                if !*ordered {
                    // a concrete difference settles it
                    for i in 0..n {
                        let (u, v) = (self.byte(x + i), self.byte(y + i));
                        if u.s == 0 && v.s == 0 && u.c != v.c {
                            return Ok((Val { c: 1, s: 0 }, z));
                        }
                    }
                }
                for i in 0..n {
                    let (u, v) = (self.byte(x + i), self.byte(y + i));
                    if u.s == 0 && v.s == 0 {
                        if u.c != v.c {
                            let c = if u.c < v.c { mask(32) } else { 1 };
                            return Ok((Val { c, s: 0 }, z));
                        }
                        continue;
                    }
                    let p = self.node_of(u, 8);
                    let q = self.node_of(v, 8);
                    let e = self.ex.bin(O::Eq, p, q);
                    if !self.decide(e)? {
                        if !*ordered {
                            return Ok((Val { c: 1, s: 0 }, z));
                        }
                        let l = self.ex.bin(O::Ult, p, q);
                        let c = if self.decide(l)? { mask(32) } else { 1 };
                        return Ok((Val { c, s: 0 }, z));
                    }
                }
                (z, z)
            }
            Ext::Memcpy => {
                let d = self.fix(a[0])?;
                let s = self.fix(a[1])?;
                let n = self.fix(a[2])?;
                self.copy_mem(d, s, n)?;
                (a[0], z)
            }
            Ext::Memset => {
                let d = self.fix(a[0])?;
                let b = self.fix(a[1])? & 255;
                let n = self.fix(a[2])?;
                self.moved += n;
                for i in 0..n {
                    self.store(d + i, Val { c: b, s: 0 }, 1, 8)?;
                }
                (a[0], z)
            }
            Ext::GetRandom => {
                let p = self.fix(a[0])?;
                let n = self.fix(a[1])?;
                for i in 0..n {
                    let b = (i as u8).wrapping_mul(37).wrapping_add(11);
                    self.store(p + i, Val { c: b as u64, s: 0 }, 1, 8)?;
                }
                (Val { c: n, s: 0 }, z)
            }
            Ext::Nop => (z, z),
            Ext::Strlen => {
                let p = self.fix(a[0])?;
                let mut n = 0;
                loop {
                    let b = self.load(p + n, 1, 8)?;
                    if self.fix(b)? & 255 == 0 {
                        break;
                    }
                    n += 1;
                }
                (Val { c: n, s: 0 }, z)
            }
            Ext::Memchr(rev) => {
                // (x: u8, ptr, len) -> Option<usize>
                let p = self.fix(a[1])?;
                let n = self.fix(a[2])?;
                if n > 0 {
                    let o = self.off(p, n)?;
                    for k in 0..n as usize {
                        let i = if *rev { n as usize - 1 - k } else { k };
                        self.moved += 1;
                        let u = self.byte(o + i);
                        let hit = if u.s == 0 && a[0].s == 0 {
                            u.c == a[0].c
                        } else {
                            let p = self.node_of(u, 8);
                            let q = self.node_of(a[0], 8);
                            let e = self.ex.bin(O::Eq, p, q);
                            self.decide(e)?
                        };
                        if hit {
                            return Ok((Val { c: 1, s: 0 }, Val { c: i as u64, s: 0 }));
                        }
                    }
                }
                (z, z)
            }
            Ext::Unknown(n) => return Err(Stop::Err(format!("call to external function {}", n))),
        })
    }

    /// Size of the set of inputs that follow this path (None if too large to count).
    pub fn path_size(&self) -> Option<u128> {
        let mut total: u128 = 1;
        let mut done = 0u64;
        for v in 0..self.dom.len() {
            if done >> v & 1 == 1 {
                continue;
            }
            if self.multi_vars >> v & 1 == 1 {
                let (vs, cons) = self.component(1 << v);
                done |= vs;
                let vars: Vec<usize> = (0..self.dom.len()).filter(|x| vs >> x & 1 == 1).collect();
                let space: u64 = vars.iter().map(|x| set_len(&self.dom[*x]) as u64).product();
                if space > 1 << 16 {
                    return None;
                }
                let lists: Vec<Vec<u8>> = vars.iter().map(|x| (0..=255u8).filter(|b| set_has(&self.dom[*x], *b)).collect()).collect();
                let mut m = self.model.clone();
                let mut ix = vec![0usize; vars.len()];
                let mut count = 0u128;
                'all: loop {
                    for (k, x) in vars.iter().enumerate() {
                        m[*x] = lists[k][ix[k]];
                    }
                    if cons.iter().all(|(c, val)| (self.ex.eval(*c, &m) & 1 == 1) == *val) {
                        count += 1;
                    }
                    for k in 0..ix.len() {
                        ix[k] += 1;
                        if ix[k] < lists[k].len() {
                            continue 'all;
                        }
                        ix[k] = 0;
                    }
                    break;
                }
                total = total.checked_mul(count)?;
            } else {
                total = total.checked_mul(set_len(&self.dom[v]) as u128)?;
            }
        }
        Some(total)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cell {
    Byte(u8),
    Var(u32),
}
