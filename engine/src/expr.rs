//! Hash-consed bit-vector expressions (width <= 64) over symbolic input bytes.

use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum O {
    Const,
    Sym,
    Table,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Zext,
    Sext,
    Extract,
    Concat,
    Ite,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    UMulO,
    SMulO,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: O,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u64,
}

pub type Set = [u64; 4];

pub fn set_and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn set_not(a: &Set) -> Set {
    [!a[0], !a[1], !a[2], !a[3]]
}
pub fn set_minus(a: &Set, b: &Set) -> Set {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn set_empty(a: &Set) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
pub fn set_has(a: &Set, x: u8) -> bool {
    a[(x >> 6) as usize] >> (x & 63) & 1 == 1
}
pub fn set_add(a: &mut Set, x: u8) {
    a[(x >> 6) as usize] |= 1 << (x & 63);
}
pub fn set_len(a: &Set) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
/// Preferred witness of a set: a readable character if there is one.
pub fn set_pick(a: &Set) -> u8 {
    for c in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789" {
        if set_has(a, *c) {
            return *c;
        }
    }
    for c in 33..127u8 {
        if set_has(a, c) {
            return c;
        }
    }
    for c in [b' ', b'\n', b'\t', b'\r'] {
        if set_has(a, c) {
            return c;
        }
    }
    for c in 0..=255u8 {
        if set_has(a, c) {
            return c;
        }
    }
    0
}

#[inline]
pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
pub fn sext(x: u64, w: u8) -> i64 {
    if w >= 64 {
        x as i64
    } else {
        ((x << (64 - w)) as i64) >> (64 - w)
    }
}

/// Concrete semantics; `w` is the operand width, `rw` the result width.
pub fn eval_op(op: O, w: u8, rw: u8, x: u64, y: u64, z: u64, k: u64) -> u64 {
    let m = mask(w);
    match op {
        O::Add => x.wrapping_add(y) & m,
        O::Sub => x.wrapping_sub(y) & m,
        O::Mul => x.wrapping_mul(y) & m,
        O::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        O::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        O::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                return if a < 0 { 1 } else { m };
            }
            a.wrapping_div(b) as u64 & m
        }
        O::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                return x;
            }
            a.wrapping_rem(b) as u64 & m
        }
        O::And => x & y,
        O::Or => x | y,
        O::Xor => x ^ y,
        O::Shl => {
            if y >= w as u64 {
                0
            } else {
                (x << y) & m
            }
        }
        O::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        O::AShr => {
            let s = y.min(w as u64 - 1);
            (sext(x, w) >> s) as u64 & m
        }
        O::Eq => (x == y) as u64,
        O::Ult => (x < y) as u64,
        O::Ule => (x <= y) as u64,
        O::Slt => (sext(x, w) < sext(y, w)) as u64,
        O::Sle => (sext(x, w) <= sext(y, w)) as u64,
        O::Zext => x,
        O::Sext => sext(x, w) as u64 & mask(rw),
        O::Extract => (x >> k) & mask(rw),
        O::Ite => {
            if x != 0 {
                y
            } else {
                z
            }
        }
        O::Ctpop => x.count_ones() as u64,
        O::Ctlz => x.leading_zeros() as u64 - (64 - w as u64),
        O::Cttz => (x.trailing_zeros() as u64).min(w as u64),
        O::Bswap => x.swap_bytes() >> (64 - w as u64),
        O::UMulO => {
            let p = x as u128 * y as u128;
            (p > m as u128) as u64
        }
        O::SMulO => {
            let p = sext(x, w) as i128 * sext(y, w) as i128;
            let r = sext((p as u64) & m, w) as i128;
            (p != r) as u64
        }
        O::Const | O::Sym | O::Table | O::Concat => unreachable!(),
    }
}

fn mixh(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xBF58476D1CE4E5B9);
    z ^ (z >> 32)
}
pub fn hash2(a: u64, b: u64) -> u64 {
    mixh(mixh(0x1234567, a), b)
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub sup: Vec<u64>,
    /// size as a tree, saturating
    pub weight: Vec<u32>,
    /// structural hash with variables named
    pub vh: Vec<u64>,
    /// structural hash with the variable anonymous (meaningful for single-variable nodes)
    pub ch: Vec<u64>,
    map: HashMap<Node, u32>,
    vtabs: Vec<Option<Box<[u64; 256]>>>,
    btabs: Vec<Option<Set>>,
    pub tables: Vec<Box<[u64; 256]>>,
    table_map: HashMap<(u8, Vec<u64>), u64>,
}

impl Exprs {
    pub fn new() -> Self {
        let mut e = Exprs {
            nodes: Vec::new(),
            sup: Vec::new(),
            weight: Vec::new(),
            vh: Vec::new(),
            ch: Vec::new(),
            map: HashMap::new(),
            vtabs: Vec::new(),
            btabs: Vec::new(),
            tables: Vec::new(),
            table_map: HashMap::new(),
        };
        // id 0 is reserved for "concrete"
        e.push(Node {
            op: O::Const,
            w: 0,
            a: 0,
            b: 0,
            c: 0,
            k: u64::MAX,
        });
        e
    }
    fn push(&mut self, n: Node) -> u32 {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let id = self.nodes.len() as u32;
        let (sup, vh, ch) = match n.op {
            O::Const => {
                let h = hash2(n.k, n.w as u64 + 77);
                (0, h, h)
            }
            O::Sym => (1u64 << n.k, hash2(n.k, 0x5EED), hash2(0xABC, 0x5EED)),
            _ => {
                let s = self.sup[n.a as usize] | self.sup[n.b as usize] | self.sup[n.c as usize];
                let base = hash2(
                    (n.op as u64) << 8 | n.w as u64,
                    if n.op == O::Table {
                        self.tables[n.k as usize].iter().fold(9, |h, &x| mixh(h, x))
                    } else {
                        n.k
                    },
                );
                let f = |h: &Vec<u64>| mixh(mixh(mixh(base, h[n.a as usize]), h[n.b as usize]), h[n.c as usize]);
                (s, f(&self.vh), f(&self.ch))
            }
        };
        let weight = match n.op {
            O::Const | O::Sym => 1,
            _ => [n.a, n.b, n.c].iter().fold(1u32, |t, x| if *x == 0 { t } else { t.saturating_add(self.weight[*x as usize]) }),
        };
        self.nodes.push(n);
        self.weight.push(weight);
        self.sup.push(sup);
        self.vh.push(vh);
        self.ch.push(ch);
        self.vtabs.push(None);
        self.btabs.push(None);
        self.map.insert(n, id);
        id
    }
    pub fn konst(&mut self, k: u64, w: u8) -> u32 {
        self.push(Node {
            op: O::Const,
            w,
            a: 0,
            b: 0,
            c: 0,
            k: k & mask(w),
        })
    }
    pub fn sym(&mut self, v: u32) -> u32 {
        self.push(Node {
            op: O::Sym,
            w: 8,
            a: 0,
            b: 0,
            c: 0,
            k: v as u64,
        })
    }
    pub fn node(&self, i: u32) -> Node {
        self.nodes[i as usize]
    }
    pub fn is_const(&self, i: u32) -> Option<u64> {
        let n = &self.nodes[i as usize];
        if n.op == O::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn width(&self, i: u32) -> u8 {
        self.nodes[i as usize].w
    }
    pub fn table(&mut self, var_node: u32, w: u8, t: Box<[u64; 256]>) -> u32 {
        let key = (w, t.to_vec());
        let k = match self.table_map.get(&key) {
            Some(&k) => k,
            None => {
                let k = self.tables.len() as u64;
                self.tables.push(t);
                self.table_map.insert(key, k);
                k
            }
        };
        self.push(Node {
            op: O::Table,
            w,
            a: var_node,
            b: 0,
            c: 0,
            k,
        })
    }
    fn mk(&mut self, op: O, w: u8, a: u32, b: u32, c: u32, k: u64) -> u32 {
        self.push(Node { op, w, a, b, c, k })
    }

    pub fn bin(&mut self, op: O, a: u32, b: u32) -> u32 {
        let w = self.width(a);
        let rw = match op {
            O::Eq | O::Ult | O::Ule | O::Slt | O::Sle | O::UMulO | O::SMulO => 1,
            _ => w,
        };
        let (ka, kb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let v = eval_op(op, w, rw, x, y, 0, 0);
            return self.konst(v, rw);
        }
        let m = mask(w);
        match op {
            O::Add => {
                if ka == Some(0) {
                    return b;
                }
                if kb == Some(0) {
                    return a;
                }
                if ka.is_some() {
                    return self.bin(op, b, a);
                }
                if let Some(y) = kb {
                    let na = self.node(a);
                    if na.op == O::Add {
                        if let Some(x) = self.is_const(na.b) {
                            let k = self.konst(x.wrapping_add(y), w);
                            return self.bin(O::Add, na.a, k);
                        }
                    }
                }
            }
            O::Sub => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(y) = kb {
                    let k = self.konst(0u64.wrapping_sub(y), w);
                    return self.bin(O::Add, a, k);
                }
            }
            O::And => {
                if a == b {
                    return a;
                }
                if ka == Some(0) || kb == Some(0) {
                    return self.konst(0, w);
                }
                if ka == Some(m) {
                    return b;
                }
                if kb == Some(m) {
                    return a;
                }
            }
            O::Or => {
                if a == b {
                    return a;
                }
                if ka == Some(0) {
                    return b;
                }
                if kb == Some(0) {
                    return a;
                }
                if ka == Some(m) || kb == Some(m) {
                    return self.konst(m, w);
                }
                // recognise byte assembly written as zext(a) | zext(b) << 8
            }
            O::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if ka == Some(0) {
                    return b;
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    let na = self.node(a);
                    if na.op == O::Xor && self.is_const(na.b) == Some(m) {
                        return na.a;
                    }
                }
                if ka.is_some() {
                    return self.bin(op, b, a);
                }
            }
            O::Mul => {
                if ka == Some(1) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if ka == Some(0) || kb == Some(0) {
                    return self.konst(0, w);
                }
            }
            O::Shl | O::LShr | O::AShr => {
                if kb == Some(0) {
                    return a;
                }
            }
            O::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if ka.is_some() {
                    return self.bin(op, b, a);
                }
                if w == 1 {
                    if let Some(y) = kb {
                        return if y == 1 { a } else { self.not(a) };
                    }
                }
                if let Some(y) = kb {
                    let na = self.node(a);
                    match na.op {
                        O::Zext => {
                            let iw = self.width(na.a);
                            if y > mask(iw) {
                                return self.konst(0, 1);
                            }
                            let k = self.konst(y, iw);
                            return self.bin(O::Eq, na.a, k);
                        }
                        O::Ite => {
                            if let (Some(p), Some(q)) = (self.is_const(na.b), self.is_const(na.c)) {
                                return if p == y && q == y {
                                    self.konst(1, 1)
                                } else if p == y {
                                    na.a
                                } else if q == y {
                                    self.not(na.a)
                                } else {
                                    self.konst(0, 1)
                                };
                            }
                        }
                        O::Xor | O::Add => {
                            if let Some(x) = self.is_const(na.b) {
                                let v = if na.op == O::Xor { x ^ y } else { y.wrapping_sub(x) };
                                let k = self.konst(v, w);
                                return self.bin(O::Eq, na.a, k);
                            }
                        }
                        _ => {}
                    }
                }
            }
            O::Ult => {
                if a == b || kb == Some(0) {
                    return self.konst(0, 1);
                }
            }
            O::Ule => {
                if a == b || ka == Some(0) {
                    return self.konst(1, 1);
                }
            }
            O::Slt => {
                if a == b {
                    return self.konst(0, 1);
                }
            }
            O::Sle => {
                if a == b {
                    return self.konst(1, 1);
                }
            }
            _ => {}
        }
        self.mk(op, rw, a, b, 0, 0)
    }
    pub fn not(&mut self, a: u32) -> u32 {
        let w = self.width(a);
        let k = self.konst(mask(w), w);
        self.bin(O::Xor, a, k)
    }
    pub fn un(&mut self, op: O, a: u32) -> u32 {
        let w = self.width(a);
        if let Some(x) = self.is_const(a) {
            let v = eval_op(op, w, w, x, 0, 0, 0);
            return self.konst(v, w);
        }
        self.mk(op, w, a, 0, 0, 0)
    }
    pub fn zext(&mut self, a: u32, w: u8) -> u32 {
        let aw = self.width(a);
        if aw == w {
            return a;
        }
        if let Some(x) = self.is_const(a) {
            return self.konst(x, w);
        }
        let n = self.node(a);
        if n.op == O::Zext {
            return self.zext(n.a, w);
        }
        self.mk(O::Zext, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: u32, w: u8) -> u32 {
        let aw = self.width(a);
        if aw == w {
            return a;
        }
        if let Some(x) = self.is_const(a) {
            return self.konst(sext(x, aw) as u64, w);
        }
        let n = self.node(a);
        if n.op == O::Zext {
            return self.zext(n.a, w);
        }
        self.mk(O::Sext, w, a, 0, 0, 0)
    }
    pub fn extract(&mut self, a: u32, lo: u8, w: u8) -> u32 {
        let aw = self.width(a);
        if lo == 0 && aw == w {
            return a;
        }
        if let Some(x) = self.is_const(a) {
            return self.konst(x >> lo, w);
        }
        let n = self.node(a);
        match n.op {
            O::Extract => return self.extract(n.a, lo + n.k as u8, w),
            O::Zext => {
                let iw = self.width(n.a);
                if lo >= iw {
                    return self.konst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.zext(n.a, w);
                }
            }
            O::Concat => {
                let lw = self.width(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
            }
            O::Ite => {
                if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                    let p = self.extract(n.b, lo, w);
                    let q = self.extract(n.c, lo, w);
                    return self.ite(n.a, p, q);
                }
            }
            O::And | O::Or | O::Xor => {
                if self.is_const(n.b).is_some() {
                    let p = self.extract(n.a, lo, w);
                    let q = self.extract(n.b, lo, w);
                    return self.bin(n.op, p, q);
                }
            }
            _ => {}
        }
        self.mk(O::Extract, w, a, 0, 0, lo as u64)
    }
    pub fn concat(&mut self, hi: u32, lo: u32) -> u32 {
        let (hw, lw) = (self.width(hi), self.width(lo));
        let w = hw + lw;
        let (kh, kl) = (self.is_const(hi), self.is_const(lo));
        if let (Some(x), Some(y)) = (kh, kl) {
            return self.konst(x << lw | y, w);
        }
        if kh == Some(0) {
            return self.zext(lo, w);
        }
        let (nh, nl) = (self.node(hi), self.node(lo));
        if nh.op == O::Extract {
            // adjacent extracts of the same value
            if nl.op == O::Extract && nl.a == nh.a && nh.k == nl.k + lw as u64 {
                return self.extract(nh.a, nl.k as u8, w);
            }
            if nh.a == lo && nh.k == lw as u64 {
                return self.extract(nh.a, 0, w);
            }
        }
        self.mk(O::Concat, w, hi, lo, 0, 0)
    }
    pub fn ite(&mut self, c: u32, a: u32, b: u32) -> u32 {
        if let Some(k) = self.is_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.width(a);
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(O::And, n, b);
                }
                (Some(1), None) => return self.bin(O::Or, c, b),
                (None, Some(0)) => return self.bin(O::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(O::Or, n, a);
                }
                _ => {}
            }
        }
        self.mk(O::Ite, w, c, a, b, 0)
    }

    /// Value of a single-variable node for each of the 256 bytes.
    pub fn vtab(&mut self, n: u32) -> &[u64; 256] {
        if self.vtabs[n as usize].is_none() {
            let nd = self.node(n);
            let mut t = Box::new([0u64; 256]);
            match nd.op {
                O::Const => t.fill(nd.k),
                O::Sym => {
                    for i in 0..256 {
                        t[i] = i as u64;
                    }
                }
                O::Table => t.copy_from_slice(&self.tables[nd.k as usize][..]),
                _ => {
                    if nd.a != 0 {
                        self.vtab(nd.a);
                    }
                    if nd.b != 0 {
                        self.vtab(nd.b);
                    }
                    if nd.c != 0 {
                        self.vtab(nd.c);
                    }
                    let zero = [0u64; 256];
                    let ta = self.vtabs[nd.a as usize].as_deref().unwrap_or(&zero);
                    let tb = self.vtabs[nd.b as usize].as_deref().unwrap_or(&zero);
                    let tc = self.vtabs[nd.c as usize].as_deref().unwrap_or(&zero);
                    if nd.op == O::Concat {
                        let lw = self.nodes[nd.b as usize].w;
                        for i in 0..256 {
                            t[i] = ta[i] << lw | tb[i];
                        }
                    } else {
                        let w = self.nodes[nd.a as usize].w;
                        for i in 0..256 {
                            t[i] = eval_op(nd.op, w, nd.w, ta[i], tb[i], tc[i], nd.k);
                        }
                    }
                }
            }
            self.vtabs[n as usize] = Some(t);
        }
        self.vtabs[n as usize].as_ref().unwrap()
    }
    /// Set of bytes for which a single-variable 1-bit node is true.
    pub fn btab(&mut self, n: u32) -> Set {
        if let Some(s) = self.btabs[n as usize] {
            return s;
        }
        let t = self.vtab(n);
        let mut s = [0u64; 4];
        for i in 0..256 {
            if t[i] & 1 == 1 {
                s[i >> 6] |= 1 << (i & 63);
            }
        }
        self.btabs[n as usize] = Some(s);
        s
    }
    /// Evaluate under a full assignment.
    pub fn eval(&self, n: u32, model: &[u8]) -> u64 {
        let nd = self.nodes[n as usize];
        match nd.op {
            O::Const => nd.k,
            O::Sym => model[nd.k as usize] as u64,
            _ => {
                let sup = self.sup[n as usize];
                if sup != 0 && sup & (sup - 1) == 0 {
                    if let Some(t) = &self.vtabs[n as usize] {
                        return t[model[sup.trailing_zeros() as usize] as usize];
                    }
                }
                if nd.op == O::Table {
                    let v = self.eval(nd.a, model);
                    return self.tables[nd.k as usize][v as usize];
                }
                let x = if nd.a != 0 { self.eval(nd.a, model) } else { 0 };
                if nd.op == O::Ite {
                    return if x != 0 { self.eval(nd.b, model) } else { self.eval(nd.c, model) };
                }
                let y = if nd.b != 0 { self.eval(nd.b, model) } else { 0 };
                if nd.op == O::Concat {
                    return x << self.nodes[nd.b as usize].w | y;
                }
                eval_op(nd.op, self.nodes[nd.a as usize].w, nd.w, x, y, 0, nd.k)
            }
        }
    }
    /// Rebuild `n` with the nodes in `map` replaced by constants.
    pub fn subst(&mut self, n: u32, map: &HashMap<u32, u64>, memo: &mut HashMap<u32, u32>) -> u32 {
        if self.sup[n as usize] == 0 {
            return n;
        }
        if let Some(&k) = map.get(&n) {
            let w = self.width(n);
            return self.konst(k, w);
        }
        if let Some(&r) = memo.get(&n) {
            return r;
        }
        let nd = self.node(n);
        let r = match nd.op {
            O::Const | O::Sym | O::Table => n,
            _ => {
                let a = if nd.a != 0 { self.subst(nd.a, map, memo) } else { 0 };
                let b = if nd.b != 0 { self.subst(nd.b, map, memo) } else { 0 };
                let c = if nd.c != 0 { self.subst(nd.c, map, memo) } else { 0 };
                match nd.op {
                    O::Zext => self.zext(a, nd.w),
                    O::Sext => self.sext(a, nd.w),
                    O::Extract => self.extract(a, nd.k as u8, nd.w),
                    O::Concat => self.concat(a, b),
                    O::Ite => self.ite(a, b, c),
                    O::Ctpop | O::Ctlz | O::Cttz | O::Bswap => self.un(nd.op, a),
                    _ => self.bin(nd.op, a, b),
                }
            }
        };
        memo.insert(n, r);
        r
    }
}
