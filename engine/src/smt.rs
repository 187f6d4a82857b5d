//! Minimal FFI to libz3 and the translation of expressions to z3 terms.

use crate::expr::*;
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_del_config(c: *mut c_void);
    fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> Sort;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> *mut c_void;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, ty: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, ty: Sort) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, i: Ast, t: Ast, e: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul_no_overflow(c: Ctx, a: Ast, b: Ast, signed: bool) -> Ast;
    fn Z3_substitute(c: Ctx, a: Ast, n: c_uint, from: *const Ast, to: *const Ast) -> Ast;
    fn Z3_simplify(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvmul_no_underflow(c: Ctx, a: Ast, b: Ast) -> Ast;
}

extern "C" fn on_error(_: Ctx, code: c_int) {
    eprintln!("z3 error {}", code);
    std::process::abort();
}

pub struct Smt {
    c: Ctx,
    s: Solver,
    cache: HashMap<u32, Ast>,
    vars: HashMap<u32, Ast>,
    hard: HashMap<u32, bool>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
}

impl Drop for Smt {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}

impl Smt {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, b"timeout\0".as_ptr() as *const c_char, b"60000\0".as_ptr() as *const c_char);
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            Smt {
                c,
                s,
                cache: HashMap::new(),
                vars: HashMap::new(),
                hard: HashMap::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                time: 0.0,
            }
        }
    }
    fn bv(&self, w: u8) -> Sort {
        unsafe { Z3_mk_bv_sort(self.c, w as c_uint) }
    }
    fn num(&self, v: u64, w: u8) -> Ast {
        unsafe { Z3_mk_unsigned_int64(self.c, v, self.bv(w)) }
    }
    fn var(&mut self, v: u32) -> Ast {
        if let Some(&a) = self.vars.get(&v) {
            return a;
        }
        let a = unsafe { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, v as c_int), self.bv(8)) };
        self.vars.insert(v, a);
        a
    }
    fn b2bv(&self, b: Ast) -> Ast {
        unsafe { Z3_mk_ite(self.c, b, self.num(1, 1), self.num(0, 1)) }
    }
    fn tr(&mut self, e: &Exprs, n: u32) -> Ast {
        if let Some(&a) = self.cache.get(&n) {
            return a;
        }
        let nd = e.node(n);
        let c = self.c;
        let r = unsafe {
            match nd.op {
                O::Const => self.num(nd.k, nd.w),
                O::Sym => self.var(nd.k as u32),
                O::Table => {
                    let v = self.tr(e, nd.a);
                    let t = &e.tables[nd.k as usize];
                    let mut runs: Vec<(u64, u64)> = Vec::new(); // (upper bound inclusive, value)
                    for i in 0..256u64 {
                        match runs.last_mut() {
                            Some(l) if l.1 == t[i as usize] => l.0 = i,
                            _ => runs.push((i, t[i as usize])),
                        }
                    }
                    let mut r = self.num(runs.last().unwrap().1, nd.w);
                    for &(ub, val) in runs.iter().rev().skip(1) {
                        r = Z3_mk_ite(c, Z3_mk_bvule(c, v, self.num(ub, 8)), self.num(val, nd.w), r);
                    }
                    r
                }
                _ => {
                    let a = self.tr(e, nd.a);
                    let b = if nd.b != 0 { self.tr(e, nd.b) } else { a };
                    let aw = e.width(nd.a);
                    match nd.op {
                        O::Add => Z3_mk_bvadd(c, a, b),
                        O::Sub => Z3_mk_bvsub(c, a, b),
                        O::Mul => Z3_mk_bvmul(c, a, b),
                        O::UDiv => Z3_mk_bvudiv(c, a, b),
                        O::SDiv => Z3_mk_bvsdiv(c, a, b),
                        O::URem => Z3_mk_bvurem(c, a, b),
                        O::SRem => Z3_mk_bvsrem(c, a, b),
                        O::And => Z3_mk_bvand(c, a, b),
                        O::Or => Z3_mk_bvor(c, a, b),
                        O::Xor => Z3_mk_bvxor(c, a, b),
                        O::Shl => Z3_mk_bvshl(c, a, b),
                        O::LShr => Z3_mk_bvlshr(c, a, b),
                        O::AShr => Z3_mk_bvashr(c, a, b),
                        O::Eq => self.b2bv(Z3_mk_eq(c, a, b)),
                        O::Ult => self.b2bv(Z3_mk_bvult(c, a, b)),
                        O::Ule => self.b2bv(Z3_mk_bvule(c, a, b)),
                        O::Slt => self.b2bv(Z3_mk_bvslt(c, a, b)),
                        O::Sle => self.b2bv(Z3_mk_bvsle(c, a, b)),
                        O::Zext => Z3_mk_zero_ext(c, (nd.w - aw) as c_uint, a),
                        O::Sext => Z3_mk_sign_ext(c, (nd.w - aw) as c_uint, a),
                        O::Extract => Z3_mk_extract(c, nd.k as c_uint + nd.w as c_uint - 1, nd.k as c_uint, a),
                        O::Concat => Z3_mk_concat(c, a, b),
                        O::Ite => {
                            let z = self.tr(e, nd.c);
                            Z3_mk_ite(c, Z3_mk_eq(c, a, self.num(1, 1)), b, z)
                        }
                        O::Ctpop => {
                            let mut r = self.num(0, nd.w);
                            for i in 0..nd.w as c_uint {
                                let bit = Z3_mk_extract(c, i, i, a);
                                let z = if nd.w == 1 { bit } else { Z3_mk_zero_ext(c, nd.w as c_uint - 1, bit) };
                                r = Z3_mk_bvadd(c, r, z);
                            }
                            r
                        }
                        O::Ctlz | O::Cttz => {
                            let mut r = self.num(nd.w as u64, nd.w);
                            for j in 0..nd.w as c_uint {
                                // the last ite built wins, so go from least to most significant priority
                                let i = if nd.op == O::Ctlz { j } else { nd.w as c_uint - 1 - j };
                                let bit = Z3_mk_eq(c, Z3_mk_extract(c, i, i, a), self.num(1, 1));
                                let val = if nd.op == O::Ctlz { nd.w as u64 - 1 - i as u64 } else { i as u64 };
                                r = Z3_mk_ite(c, bit, self.num(val, nd.w), r);
                            }
                            r
                        }
                        O::Bswap => {
                            let n = nd.w as c_uint / 8;
                            let mut r = Z3_mk_extract(c, 7, 0, a);
                            for i in 1..n {
                                r = Z3_mk_concat(c, r, Z3_mk_extract(c, 8 * i + 7, 8 * i, a));
                            }
                            r
                        }
                        O::UMulO => self.b2bv(Z3_mk_not(c, Z3_mk_bvmul_no_overflow(c, a, b, false))),
                        O::SMulO => {
                            let l = [
                                Z3_mk_not(c, Z3_mk_bvmul_no_overflow(c, a, b, true)),
                                Z3_mk_not(c, Z3_mk_bvmul_no_underflow(c, a, b)),
                            ];
                            self.b2bv(Z3_mk_or(c, 2, l.as_ptr()))
                        }
                        O::Const | O::Sym | O::Table => unreachable!(),
                    }
                }
            }
        };
        self.cache.insert(n, r);
        r
    }
    fn member(&mut self, v: u32, s: &Set) -> Option<Ast> {
        if *s == [!0u64; 4] {
            return None;
        }
        let x = self.var(v);
        let mut parts: Vec<Ast> = Vec::new();
        let mut i = 0u32;
        while i < 256 {
            if set_has(s, i as u8) {
                let lo = i;
                while i < 256 && set_has(s, i as u8) {
                    i += 1;
                }
                let hi = i - 1;
                unsafe {
                    let a = if lo == hi {
                        Z3_mk_eq(self.c, x, self.num(lo as u64, 8))
                    } else {
                        let l = [Z3_mk_bvule(self.c, self.num(lo as u64, 8), x), Z3_mk_bvule(self.c, x, self.num(hi as u64, 8))];
                        Z3_mk_and(self.c, 2, l.as_ptr())
                    };
                    parts.push(a);
                }
            } else {
                i += 1;
            }
        }
        Some(unsafe { Z3_mk_or(self.c, parts.len() as c_uint, parts.as_ptr()) })
    }
    /// Does the term contain multiplications or divisions that bit-blast badly?
    fn is_hard(&mut self, e: &Exprs, n: u32) -> bool {
        if let Some(&h) = self.hard.get(&n) {
            return h;
        }
        let nd = e.node(n);
        let h = match nd.op {
            O::Const | O::Sym => false,
            O::Table => self.is_hard(e, nd.a),
            O::Mul | O::UDiv | O::SDiv | O::URem | O::SRem | O::UMulO | O::SMulO if nd.w > 16 || e.width(nd.a) > 16 => true,
            op => {
                self.is_hard(e, nd.a)
                    || (nd.b != 0 && self.is_hard(e, nd.b))
                    || (op == O::Ite && self.is_hard(e, nd.c))
            }
        };
        self.hard.insert(n, h);
        h
    }
    /// A constraint over one variable; hard arithmetic is given to the solver case by case.
    fn cases(&mut self, e: &Exprs, n: u32, v: u32, s: &Set, lit: Ast) -> Ast {
        if !self.is_hard(e, n) {
            return lit;
        }
        let x = self.var(v);
        let mut parts = Vec::new();
        for i in 0..256u64 {
            if set_has(s, i as u8) {
                unsafe {
                    let k = self.num(i, 8);
                    let c = Z3_simplify(self.c, Z3_substitute(self.c, lit, 1, &x, &k));
                    let l = [Z3_mk_eq(self.c, x, k), c];
                    parts.push(Z3_mk_and(self.c, 2, l.as_ptr()));
                }
            }
        }
        unsafe { Z3_mk_or(self.c, parts.len() as c_uint, parts.as_ptr()) }
    }
    fn lit(&mut self, e: &Exprs, n: u32, val: bool) -> Ast {
        let t = self.tr(e, n);
        unsafe { Z3_mk_eq(self.c, t, self.num(val as u64, 1)) }
    }
    fn check(&mut self) -> Result<bool, String> {
        let t = std::time::Instant::now();
        let r = unsafe { Z3_solver_check(self.c, self.s) };
        self.time += t.elapsed().as_secs_f64();
        self.queries += 1;
        match r {
            1 => {
                self.sat += 1;
                Ok(true)
            }
            -1 => {
                self.unsat += 1;
                Ok(false)
            }
            _ => Err("z3 returned unknown".into()),
        }
    }
    /// Feasibility of both sides of a single-variable condition in the domain `s`.
    pub fn both_sides(&mut self, e: &Exprs, n: u32, v: u32, s: &Set) -> Result<(bool, bool), String> {
        unsafe {
            Z3_solver_push(self.c, self.s);
            if let Some(m) = self.member(v, s) {
                Z3_solver_assert(self.c, self.s, m);
            }
            Z3_solver_push(self.c, self.s);
            let l = self.lit(e, n, true);
            let l = self.cases(e, n, v, s, l);
            Z3_solver_assert(self.c, self.s, l);
            let t = self.check();
            Z3_solver_pop(self.c, self.s, 1);
            let l = self.lit(e, n, false);
            let l = self.cases(e, n, v, s, l);
            Z3_solver_assert(self.c, self.s, l);
            let f = self.check();
            Z3_solver_pop(self.c, self.s, 1);
            Ok((t?, f?))
        }
    }
    /// Is there a byte in `s` for which the (single-variable) value `n` is none of `vals`?
    pub fn other_value(&mut self, e: &Exprs, n: u32, v: u32, s: &Set, vals: &[u64]) -> Result<bool, String> {
        unsafe {
            Z3_solver_push(self.c, self.s);
            if let Some(m) = self.member(v, s) {
                Z3_solver_assert(self.c, self.s, m);
            }
            let t = self.tr(e, n);
            let w = e.width(n);
            for &x in vals {
                let q = Z3_mk_not(self.c, Z3_mk_eq(self.c, t, self.num(x, w)));
                let q = self.cases(e, n, v, s, q);
                Z3_solver_assert(self.c, self.s, q);
            }
            let r = self.check();
            Z3_solver_pop(self.c, self.s, 1);
            r
        }
    }
    /// Satisfiability of a conjunction of multi-variable constraints with domains; a model if sat.
    pub fn solve(&mut self, e: &Exprs, cons: &[(u32, bool)], doms: &[(u32, Set)]) -> Result<Option<Vec<(u32, u8)>>, String> {
        unsafe {
            Z3_solver_push(self.c, self.s);
            for (v, s) in doms {
                if let Some(m) = self.member(*v, s) {
                    Z3_solver_assert(self.c, self.s, m);
                }
            }
            for &(n, val) in cons {
                let l = self.lit(e, n, val);
                Z3_solver_assert(self.c, self.s, l);
            }
            let r = self.check();
            let out = match r {
                Ok(true) => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = Vec::new();
                    for (v, _) in doms {
                        let x = self.var(*v);
                        let mut a: Ast = std::ptr::null_mut();
                        let mut val = 0u64;
                        if !Z3_model_eval(self.c, m, x, true, &mut a) || !Z3_get_numeral_uint64(self.c, a, &mut val) {
                            return Err("z3 model".into());
                        }
                        out.push((*v, val as u8));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Ok(Some(out))
                }
                Ok(false) => Ok(None),
                Err(e) => Err(e),
            };
            Z3_solver_pop(self.c, self.s, 1);
            out
        }
    }
}
