//! Lowering of parsed LLVM IR to a flat register code over 64-bit slots.

use crate::expr::{mask, O};
use crate::ll::*;
use std::collections::HashMap;

pub type Op = u32;
pub const CONST: u32 = 1 << 31;

pub const BASE: u64 = 0x10000;
pub const FN_BASE: u64 = 0x10_0000_0000;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    Ov(O, bool), // add/sub/mul, signed
    Un(O),
    UMax,
    UMin,
    SMax,
    SMin,
    USubSat,
    UAddSat,
    Fshl,
    Fshr,
    Abs,
    Scmp,
    Ucmp,
    IsConstant,
    Copy0,
    Trap,
    LoadRel,
    Bitreverse,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ext {
    SymAlloc,
    SymRealloc,
    SymOut,
    SymFail,
    SymReject,
    SymMark,
    SymSplit,
    SymSteps,
    SymDone,
    Memcmp(bool), // ordered
    Memcpy,
    Memset,
    Strlen,
    /// Keys of hash maps; any value is as good as another, so a fixed one is taken.
    GetRandom,
    /// No effect: destructors of thread locals, since nothing is run after the harness.
    Nop,
    Memchr(bool), // reverse
    Unknown(String),
}

#[derive(Debug)]
pub struct CallI {
    pub target: Target,
    pub args: Vec<Op>,
    pub d: u32,
    pub nret: u32,
    pub noreturn: bool,
}
#[derive(Debug)]
pub enum Target {
    Fn(u32),
    Ptr(Op),
    Ext(Ext),
}
#[derive(Debug)]
pub struct SwitchI {
    pub v: Op,
    pub w: u8,
    pub cases: Vec<(u64, u32)>,
    pub map: HashMap<u64, u32>,
    pub default: u32,
}
#[derive(Debug)]
pub struct IntrI {
    pub k: Intr,
    pub w: u8,
    pub d: u32,
    pub rw: u8,
    pub args: Vec<Op>,
}
#[derive(Debug)]
pub struct WideI {
    pub op: String,
    pub w: u32,
    pub d: u32,
    pub a: [Op; 2],
    pub b: [Op; 2],
}

#[derive(Debug)]
pub enum I {
    Bin { op: O, w: u8, d: u32, a: Op, b: Op },
    Icmp { p: Pred, w: u8, d: u32, a: Op, b: Op },
    Zext { d: u32, a: Op, tw: u8, fw: u8 },
    Sext { d: u32, a: Op, fw: u8, tw: u8 },
    Trunc { d: u32, a: Op, w: u8 },
    Copy { d: u32, a: Op },
    Select { d: u32, c: Op, a: Op, b: Op, w: u8, fork: bool },
    GepC { d: u32, a: Op, off: u64 },
    Gep1 { d: u32, a: Op, i: Op, scale: u64, off: u64 },
    Load { d: u32, a: Op, off: u32, n: u8, w: u8 },
    Store { v: Op, a: Op, off: u32, n: u8, w: u8 },
    Alloca { d: u32, size: u64, align: u32 },
    Call(Box<CallI>),
    Intr(Box<IntrI>),
    Wide(Box<WideI>),
    WideCmp(Box<WideI>),
    Rmw { op: u8, d: u32, a: Op, v: Op, n: u8, w: u8 },
    CmpXchg { d: u32, a: Op, c: Op, v: Op, n: u8, w: u8 },
    Jmp(u32),
    CondBr { c: Op, t: u32, f: u32 },
    Switch(Box<SwitchI>),
    Ret(Box<Vec<Op>>),
    Block(u32),
    Unreachable,
    Unsupported(Box<String>),
}

pub struct Edge {
    pub pc: u32,
    pub moves: Vec<(u32, Op)>,
    pub parallel: bool,
}

pub struct Code {
    pub name: String,
    pub pretty: String,
    pub code: Vec<I>,
    pub edges: Vec<Edge>,
    pub nregs: u32,
    pub nparams: u32,
    pub noreturn: bool,
    pub ext: Option<Ext>,
    /// global block number of the function's first block, and number of blocks
    pub block0: u32,
    pub nblocks: u32,
}

pub struct Program {
    pub fns: Vec<Code>,
    pub consts: Vec<u64>,
    pub image: Vec<u8>,
    pub mutable: Vec<(usize, usize)>,
    pub fn_index: HashMap<String, u32>,
    pub nblocks: u32,
    pub globals_end: u64,
}

struct Ctx {
    gaddr: HashMap<String, u64>,
    consts: Vec<u64>,
    cmap: HashMap<u64, u32>,
}

type R<X> = Result<X, String>;

impl Ctx {
    fn k(&mut self, v: u64) -> Op {
        if let Some(&i) = self.cmap.get(&v) {
            return i | CONST;
        }
        let i = self.consts.len() as u32;
        self.consts.push(v);
        self.cmap.insert(v, i);
        i | CONST
    }
    /// constant scalar value
    fn cval(&self, ty: &Ty, v: &V) -> R<u128> {
        Ok(match v {
            V::Int(x) => *x,
            V::Zero | V::Undef => 0,
            V::Global(n) => *self.gaddr.get(n).ok_or_else(|| format!("global {}", n))? as u128,
            V::CeGep(t, b, ix) => {
                let mut a = self.cval(&Ty::Ptr, b)? as u64;
                let mut cur: Ty = t.clone();
                for (k, (it, iv)) in ix.iter().enumerate() {
                    let raw = self.cval(it, iv)?;
                    let w = if let Ty::Int(w) = it { *w } else { 64 };
                    let i = crate::expr::sext(raw as u64, w.min(64) as u8);
                    if k == 0 {
                        a = a.wrapping_add((i as u64).wrapping_mul(size_of(&cur)));
                    } else {
                        a = a.wrapping_add(field_off(&cur, i as u64));
                        cur = elem(&cur, i as u64).clone();
                    }
                }
                a as u128
            }
            V::CeCast(t, b, t2) => {
                let x = self.cval(t, b)?;
                match t2 {
                    Ty::Int(w) if *w < 128 => x & ((1u128 << w) - 1),
                    _ => x,
                }
            }
            V::CeBin(op, a, b) => {
                let x = self.cval(ty, a)?;
                let y = self.cval(ty, b)?;
                let w = if let Ty::Int(w) = ty { *w } else { 64 };
                let r = match op.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    _ => x ^ y,
                };
                if w >= 128 {
                    r
                } else {
                    r & ((1u128 << w) - 1)
                }
            }
            _ => return Err(format!("const {:?}", v)),
        })
    }
    fn write_const(&self, ty: &Ty, v: &V, off: usize, img: &mut [u8]) -> R<()> {
        match (ty, v) {
            (_, V::Zero) | (_, V::Undef) => {}
            (_, V::CStr(s)) => img[off..off + s.len()].copy_from_slice(s),
            (_, V::Agg(el)) => {
                for (i, (t, x)) in el.iter().enumerate() {
                    self.write_const(t, x, off + field_off(ty, i as u64) as usize, img)?;
                }
            }
            (Ty::Int(_), _) | (Ty::Ptr, _) => {
                let x = self.cval(ty, v)?;
                let n = size_of(ty).min(16) as usize;
                img[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            (Ty::Vec(n, e), V::Splat(b)) => {
                for i in 0..*n {
                    self.write_const(&b.0, &b.1, off + (i * size_of(e)) as usize, img)?;
                }
            }
            _ => return Err(format!("global init {:?}", v)),
        }
        Ok(())
    }
}

fn ext_of(name: &str) -> Option<Ext> {
    Some(match name {
        "__sym_alloc" => Ext::SymAlloc,
        "__sym_realloc" => Ext::SymRealloc,
        "__sym_out" => Ext::SymOut,
        "__sym_fail" => Ext::SymFail,
        "__sym_reject" => Ext::SymReject,
        "__sym_mark" => Ext::SymMark,
        "__sym_split" => Ext::SymSplit,
        "__sym_steps" => Ext::SymSteps,
        "__sym_done" => Ext::SymDone,
        "bcmp" => Ext::Memcmp(false),
        "memcmp" => Ext::Memcmp(true),
        "memcpy" | "memmove" => Ext::Memcpy,
        "memset" => Ext::Memset,
        "strlen" => Ext::Strlen,
        "getrandom" => Ext::GetRandom,
        "__cxa_thread_atexit_impl" => Ext::Nop,
        _ => return None,
    })
}

/// Library functions replaced by a bytewise model (their word-at-a-time loops mix many bytes).
fn model_of(f: &Func) -> Option<Ext> {
    let name = f.name.as_str();
    // only with the expected signature (u8, ptr, usize) -> Option<usize>
    let tys: Vec<&Ty> = f.params.iter().map(|p| &p.0).collect();
    // hash maps behave alike with any hash function, the simplest is one that ignores its input
    if name.contains("3sip") && name.contains("Sip13Rounds") && name.contains("6Hasher5write") && tys == [&Ty::Ptr, &Ty::Ptr, &Ty::Int(64)] && f.ret == Ty::Void {
        return Some(Ext::Nop);
    }
    if tys != [&Ty::Int(8), &Ty::Ptr, &Ty::Int(64)] || f.ret != Ty::Struct(vec![Ty::Int(64), Ty::Int(64)], false) {
        return None;
    }
    if name.ends_with("memchr14memchr_aligned") || name.ends_with("memchr12memchr_naive") || name.ends_with("5slice6memchr6memchr") {
        return Some(Ext::Memchr(false));
    }
    if name.ends_with("5slice6memchr7memrchr") {
        return Some(Ext::Memchr(true));
    }
    None
}

struct FnCx<'a> {
    cx: &'a mut Ctx,
    slot: Vec<u32>,
    tys: Vec<Option<Ty>>,
    nregs: u32,
    code: Vec<I>,
}

fn width(t: &Ty) -> R<u8> {
    match t {
        Ty::Int(w) if *w <= 64 => Ok(*w as u8),
        Ty::Ptr => Ok(64),
        _ => Err(format!("width of {:?}", t)),
    }
}

impl<'a> FnCx<'a> {
    fn slots(&mut self, ty: &Ty, v: &V) -> R<Vec<Op>> {
        let n = nslots(ty);
        Ok(match v {
            V::Local(l) => (0..n).map(|i| self.slot[*l as usize] + i).collect(),
            V::Zero | V::Undef => {
                let z = self.cx.k(0);
                vec![z; n as usize]
            }
            V::Agg(el) => {
                let mut o = Vec::new();
                for (t, x) in el {
                    o.extend(self.slots(t, x)?);
                }
                o
            }
            V::CStr(s) => s.clone().iter().map(|b| self.cx.k(*b as u64)).collect(),
            V::Splat(b) => {
                let o = self.slots(&b.0, &b.1)?;
                let mut r = Vec::new();
                while r.len() < n as usize {
                    r.extend(&o);
                }
                r
            }
            _ => {
                let x = self.cx.cval(ty, v)?;
                if n == 2 {
                    vec![self.cx.k(x as u64), self.cx.k((x >> 64) as u64)]
                } else {
                    vec![self.cx.k(x as u64)]
                }
            }
        })
    }
    fn one(&mut self, ty: &Ty, v: &V) -> R<Op> {
        if nslots(ty) != 1 {
            return Err(format!("scalar expected, {:?}", ty));
        }
        Ok(self.slots(ty, v)?[0])
    }
    fn tmp(&mut self) -> u32 {
        self.nregs += 1;
        self.nregs - 1
    }
}

fn inst_ty(i: &Inst) -> Option<Ty> {
    Some(match i {
        Inst::Bin(_, t, _, _) => t.clone(),
        Inst::Icmp(_, t, _, _) => match t {
            Ty::Vec(n, _) => Ty::Vec(*n, Box::new(Ty::Int(1))),
            _ => Ty::Int(1),
        },
        Inst::Cast(_, _, _, t) => t.clone(),
        Inst::Select(_, t, _, _) => t.clone(),
        Inst::Gep(..) | Inst::Alloca(..) => Ty::Ptr,
        Inst::Load(t, _) => t.clone(),
        Inst::Call { ret, .. } => ret.clone(),
        Inst::Phi(t, _) => t.clone(),
        Inst::Extract(t, _, ix) => {
            let mut t = t.clone();
            for i in ix {
                t = elem(&t, *i).clone();
            }
            t
        }
        Inst::Insert(t, ..) => t.clone(),
        Inst::Freeze(t, _) => t.clone(),
        Inst::ExtractEl(t, ..) => elem(t, 0).clone(),
        Inst::InsertEl(t, ..) => t.clone(),
        Inst::Shuffle(t, _, _, mask) => Ty::Vec(mask.len() as u64, Box::new(elem(t, 0).clone())),
        Inst::VSelect(_, _, t, _, _) => t.clone(),
        Inst::AtomicRmw(_, t, _, _) => t.clone(),
        Inst::CmpXchg(t, ..) => Ty::Struct(vec![t.clone(), Ty::Int(1)], false),
        _ => return None,
    })
}

fn slot_index(t: &Ty, ix: &[u64]) -> u32 {
    let mut off = 0;
    let mut t = t;
    for &i in ix {
        match t {
            Ty::Struct(f, _) => {
                off += f[..i as usize].iter().map(nslots).sum::<u32>();
                t = &f[i as usize];
            }
            Ty::Array(_, e) | Ty::Vec(_, e) => {
                off += i as u32 * nslots(e);
                t = e;
            }
            _ => {}
        }
    }
    off
}

fn binop(s: &str) -> O {
    match s {
        "add" => O::Add,
        "sub" => O::Sub,
        "mul" => O::Mul,
        "udiv" => O::UDiv,
        "sdiv" => O::SDiv,
        "urem" => O::URem,
        "srem" => O::SRem,
        "and" => O::And,
        "or" => O::Or,
        "xor" => O::Xor,
        "shl" => O::Shl,
        "lshr" => O::LShr,
        _ => O::AShr,
    }
}

fn pred(s: &str) -> R<Pred> {
    Ok(match s {
        "eq" => Pred::Eq,
        "ne" => Pred::Ne,
        "ult" => Pred::Ult,
        "ule" => Pred::Ule,
        "ugt" => Pred::Ugt,
        "uge" => Pred::Uge,
        "slt" => Pred::Slt,
        "sle" => Pred::Sle,
        "sgt" => Pred::Sgt,
        "sge" => Pred::Sge,
        _ => return Err(format!("pred {}", s)),
    })
}

fn intrinsic(name: &str) -> Option<Intr> {
    let n = name.strip_prefix("llvm.")?;
    Some(
        if n.starts_with("lifetime.")
            || n.starts_with("assume")
            || n.starts_with("dbg.")
            || n.starts_with("experimental.noalias")
            || n == "x86.sse2.pause"
            || n.starts_with("donothing")
        {
            Intr::Nop
        } else if n.starts_with("memcpy.") || n.starts_with("memmove.") {
            Intr::Memcpy
        } else if n.starts_with("memset.") {
            Intr::Memset
        } else if n.starts_with("uadd.with.overflow") {
            Intr::Ov(O::Add, false)
        } else if n.starts_with("usub.with.overflow") {
            Intr::Ov(O::Sub, false)
        } else if n.starts_with("umul.with.overflow") {
            Intr::Ov(O::Mul, false)
        } else if n.starts_with("sadd.with.overflow") {
            Intr::Ov(O::Add, true)
        } else if n.starts_with("ssub.with.overflow") {
            Intr::Ov(O::Sub, true)
        } else if n.starts_with("smul.with.overflow") {
            Intr::Ov(O::Mul, true)
        } else if n.starts_with("ctpop.") {
            Intr::Un(O::Ctpop)
        } else if n.starts_with("ctlz.") {
            Intr::Un(O::Ctlz)
        } else if n.starts_with("cttz.") {
            Intr::Un(O::Cttz)
        } else if n.starts_with("bswap.") {
            Intr::Un(O::Bswap)
        } else if n.starts_with("bitreverse.") {
            Intr::Bitreverse
        } else if n.starts_with("umax.") {
            Intr::UMax
        } else if n.starts_with("umin.") {
            Intr::UMin
        } else if n.starts_with("smax.") {
            Intr::SMax
        } else if n.starts_with("smin.") {
            Intr::SMin
        } else if n.starts_with("usub.sat") {
            Intr::USubSat
        } else if n.starts_with("uadd.sat") {
            Intr::UAddSat
        } else if n.starts_with("fshl.") {
            Intr::Fshl
        } else if n.starts_with("fshr.") {
            Intr::Fshr
        } else if n.starts_with("abs.") {
            Intr::Abs
        } else if n.starts_with("scmp.") {
            Intr::Scmp
        } else if n.starts_with("ucmp.") {
            Intr::Ucmp
        } else if n.starts_with("is.constant") {
            Intr::IsConstant
        } else if n.starts_with("threadlocal.address") || n.starts_with("expect.") || n.starts_with("ptrmask") && false {
            Intr::Copy0
        } else if n == "trap" {
            Intr::Trap
        } else if n.starts_with("load.relative") {
            Intr::LoadRel
        } else {
            return None;
        },
    )
}

pub fn lower(m: &Module) -> R<Program> {
    let mut cx = Ctx {
        gaddr: HashMap::new(),
        consts: Vec::new(),
        cmap: HashMap::new(),
    };
    let mut addr = BASE;
    let mut placed = Vec::new();
    for g in &m.globals {
        let a = g.align.max(align_of(&g.ty)).max(1);
        addr = (addr + a - 1) / a * a;
        cx.gaddr.insert(g.name.clone(), if g.init.is_none() { 0 } else { addr });
        placed.push(addr);
        addr += size_of(&g.ty).max(1);
    }
    let mut fn_index = HashMap::new();
    for (i, f) in m.funcs.iter().enumerate() {
        cx.gaddr.insert(f.name.clone(), FN_BASE + 16 * i as u64);
        // weak symbols that nothing defines are null
        if f.weak && f.is_decl && ext_of(&f.name).is_none() {
            cx.gaddr.insert(f.name.clone(), 0);
        }
        fn_index.insert(f.name.clone(), i as u32);
    }
    // externals with a model in the harness (`mock_read` for `read`); the start routine that takes
    // the arguments of the process
    for f in m.funcs.iter().filter(|f| f.is_decl) {
        let model = if f.name == "__sym_argv" {
            m.funcs.iter().position(|g| !g.is_decl && g.name.contains("ARGV_INIT_ARRAY"))
        } else {
            fn_index.get(&format!("mock_{}", f.name)).map(|i| *i as usize)
        };
        if let Some(i) = model {
            fn_index.insert(f.name.clone(), i as u32);
            cx.gaddr.insert(f.name.clone(), FN_BASE + 16 * i as u64);
        }
    }
    let mut image = vec![0u8; (addr - BASE) as usize];
    let mut mutable = Vec::new();
    for (g, &a) in m.globals.iter().zip(&placed) {
        if let Some(v) = &g.init {
            let o = (a - BASE) as usize;
            // a global we cannot encode is only a problem if it is used; none has been seen
            cx.write_const(&g.ty, v, o, &mut image).map_err(|e| format!("@{}: {}", g.name, e))?;
            if !g.constant {
                mutable.push((o, size_of(&g.ty) as usize));
            }
        }
    }
    let mut fns = Vec::new();
    let mut nblocks = 0;
    for f in &m.funcs {
        let ext = if f.is_decl {
            Some(ext_of(&f.name).unwrap_or(Ext::Unknown(f.name.clone())))
        } else {
            ext_of(&f.name).or(model_of(f))
        };
        let mut c = Code {
            name: f.name.clone(),
            pretty: if f.pretty.is_empty() { f.name.clone() } else { f.pretty.clone() },
            code: Vec::new(),
            edges: Vec::new(),
            nregs: 0,
            nparams: 0,
            noreturn: f.noreturn,
            ext,
            block0: nblocks,
            nblocks: f.blocks.len() as u32,
        };
        nblocks += f.blocks.len() as u32;
        if !f.is_decl && c.ext.is_none() {
            lower_fn(f, m, &fn_index, &mut cx, &mut c).map_err(|e| format!("{}: {}", f.name, e))?;
        }
        fns.push(c);
    }
    Ok(Program {
        fns,
        consts: cx.consts,
        image,
        mutable,
        fn_index,
        nblocks,
        globals_end: addr,
    })
}

fn lower_fn(f: &Func, m: &Module, fn_index: &HashMap<String, u32>, cx: &mut Ctx, out: &mut Code) -> R<()> {
    let nl = f.local_names.len().max(f.nlocals as usize);
    let mut fc = FnCx {
        cx,
        slot: vec![u32::MAX; nl],
        tys: vec![None; nl],
        nregs: 0,
        code: Vec::new(),
    };
    for (t, l) in &f.params {
        fc.slot[*l as usize] = fc.nregs;
        fc.tys[*l as usize] = Some(t.clone());
        fc.nregs += nslots(t);
    }
    out.nparams = fc.nregs;
    for b in &f.blocks {
        for (res, i) in &b.insts {
            if let Some(r) = res {
                if let Some(t) = inst_ty(i) {
                    fc.slot[*r as usize] = fc.nregs;
                    fc.nregs += nslots(&t);
                    fc.tys[*r as usize] = Some(t);
                } else {
                    // unsupported instruction: reserve generously
                    fc.slot[*r as usize] = fc.nregs;
                    fc.nregs += 32;
                }
            }
        }
    }
    // phis of each block
    let mut pc = vec![u32::MAX; f.blocks.len()];
    let mut pending: Vec<(usize, u32, u32)> = Vec::new(); // (edge index, from, to)
    let mut edges: Vec<Edge> = Vec::new();
    macro_rules! edge {
        ($from:expr, $to:expr) => {{
            edges.push(Edge {
                pc: 0,
                moves: Vec::new(),
                parallel: false,
            });
            pending.push((edges.len() - 1, $from as u32, $to));
            (edges.len() - 1) as u32
        }};
    }
    for (bi, b) in f.blocks.iter().enumerate() {
        pc[bi] = fc.code.len() as u32;
        fc.code.push(I::Block(out.block0 + bi as u32));
        if b.insts.is_empty() {
            fc.code.push(I::Unsupported(Box::new("empty block".into())));
        }
        for (res, inst) in &b.insts {
            let d = res.map_or(u32::MAX, |r| fc.slot[r as usize]);
            let mark = fc.code.len();
            let r = lower_inst(&mut fc, inst, d, m, fn_index, &mut |to| edge!(bi, to));
            if let Err(e) = r {
                fc.code.truncate(mark);
                fc.code.push(I::Unsupported(Box::new(e)));
            }
        }
    }
    for (ei, from, to) in pending {
        let mut moves = Vec::new();
        for (res, inst) in &f.blocks[to as usize].insts {
            if let Inst::Phi(t, inc) = inst {
                let d = fc.slot[res.unwrap() as usize];
                let (v, _) = inc.iter().find(|(_, l)| *l == from).ok_or("phi without edge")?;
                let ops = fc.slots(t, v)?;
                for (i, o) in ops.iter().enumerate() {
                    if *o != d + i as u32 {
                        moves.push((d + i as u32, *o));
                    }
                }
            } else {
                break;
            }
        }
        let parallel = moves.iter().enumerate().any(|(i, (_, s))| moves[..i].iter().any(|(d, _)| d == s));
        edges[ei].pc = pc[to as usize];
        edges[ei].moves = moves;
        edges[ei].parallel = parallel;
    }
    out.code = fc.code;
    out.nregs = fc.nregs;
    out.edges = edges;
    Ok(())
}

/// Lane-wise intrinsics and reductions over vectors.
fn vector_call(fc: &mut FnCx, name: &str, ret: &Ty, args: &[(Ty, V)], d: u32) -> R<bool> {
    let Some((Ty::Vec(n, e), v)) = args.first() else { return Ok(false) };
    let n = *n as usize;
    let w = width(e)?;
    let t = Ty::Vec(n as u64, e.clone());
    if let Some(r) = name.strip_prefix("llvm.vector.reduce.") {
        let op = r.split('.').next().unwrap_or("");
        let s = fc.slots(&t, v)?;
        fc.code.push(I::Copy { d, a: s[0] });
        for x in &s[1..] {
            let k = match op {
                "add" | "mul" | "and" | "or" | "xor" => {
                    fc.code.push(I::Bin { op: binop(op), w, d, a: d, b: *x });
                    continue;
                }
                "umax" => Intr::UMax,
                "umin" => Intr::UMin,
                "smax" => Intr::SMax,
                "smin" => Intr::SMin,
                _ => return Err(format!("intrinsic {}", name)),
            };
            fc.code.push(I::Intr(Box::new(IntrI { k, w, d, rw: w, args: vec![d, *x] })));
        }
        return Ok(true);
    }
    let k = intrinsic(name).ok_or_else(|| format!("intrinsic {}", name))?;
    let Ty::Vec(_, re) = ret else { return Err(format!("intrinsic {} on a vector", name)) };
    let rw = width(re)?;
    let mut cols = Vec::new();
    for (t, v) in args {
        let s = fc.slots(t, v)?;
        cols.push(if matches!(t, Ty::Vec(..)) { s } else { vec![s[0]; n] });
    }
    for i in 0..n {
        let args = cols.iter().map(|c| c[i]).collect();
        fc.code.push(I::Intr(Box::new(IntrI { k, w, d: d + i as u32, rw, args })));
    }
    Ok(true)
}

fn lower_inst(fc: &mut FnCx, inst: &Inst, d: u32, m: &Module, fn_index: &HashMap<String, u32>, edge: &mut dyn FnMut(u32) -> u32) -> R<()> {
    match inst {
        Inst::Unsupported(e) => {
            return Err(e.clone());
        }
        Inst::Bin(op, Ty::Vec(n, e), a, b) => {
            let t = Ty::Vec(*n, e.clone());
            let w = width(e)?;
            let a = fc.slots(&t, a)?;
            let b = fc.slots(&t, b)?;
            for i in 0..*n as usize {
                fc.code.push(I::Bin { op: binop(op), w, d: d + i as u32, a: a[i], b: b[i] });
            }
        }
        Inst::Icmp(p, Ty::Vec(n, e), a, b) => {
            let t = Ty::Vec(*n, e.clone());
            let w = width(e)?;
            let a = fc.slots(&t, a)?;
            let b = fc.slots(&t, b)?;
            for i in 0..*n as usize {
                fc.code.push(I::Icmp { p: pred(p)?, w, d: d + i as u32, a: a[i], b: b[i] });
            }
        }
        Inst::Cast(op, t, a, t2) if op == "bitcast" && (matches!(t, Ty::Vec(..)) || matches!(t2, Ty::Vec(..))) => {
            // both sides as little-endian sequences of bits
            let s = fc.slots(t, a)?;
            let bits = |t: &Ty| {
                let mut lv = Vec::new();
                leaves(t, 0, &mut lv);
                let mut o = 0;
                lv.iter()
                    .map(|(_, w)| {
                        o += w;
                        (o - w, *w)
                    })
                    .collect::<Vec<_>>()
            };
            let (from, to) = (bits(t), bits(t2));
            for (i, (to, tw)) in to.iter().enumerate() {
                let d = d + i as u32;
                let mut first = true;
                for (k, (fo, fw)) in from.iter().enumerate() {
                    let (lo, hi) = ((*to).max(*fo), (to + tw).min(fo + fw));
                    if lo >= hi {
                        continue;
                    }
                    let mut o = s[k];
                    if lo > *fo {
                        let t = fc.tmp();
                        let c = fc.cx.k((lo - fo) as u64);
                        fc.code.push(I::Bin { op: O::LShr, w: *fw as u8, d: t, a: o, b: c });
                        o = t;
                    }
                    if hi - lo < *fw {
                        let t = fc.tmp();
                        fc.code.push(I::Trunc { d: t, a: o, w: (hi - lo) as u8 });
                        o = t;
                    }
                    if hi - lo < *tw {
                        let t = fc.tmp();
                        fc.code.push(I::Zext { d: t, a: o, tw: *tw as u8, fw: (hi - lo) as u8 });
                        o = t;
                    }
                    if lo > *to {
                        let t = fc.tmp();
                        let c = fc.cx.k((lo - to) as u64);
                        fc.code.push(I::Bin { op: O::Shl, w: *tw as u8, d: t, a: o, b: c });
                        o = t;
                    }
                    if first {
                        fc.code.push(I::Copy { d, a: o });
                    } else {
                        fc.code.push(I::Bin { op: O::Or, w: *tw as u8, d, a: d, b: o });
                    }
                    first = false;
                }
            }
        }
        Inst::Cast(op, Ty::Vec(n, f), a, Ty::Vec(_, g)) => {
            let s = fc.slots(&Ty::Vec(*n, f.clone()), a)?;
            let (fw, tw) = (width(f)?, width(g)?);
            for i in 0..*n as usize {
                let d = d + i as u32;
                fc.code.push(match op.as_str() {
                    "sext" => I::Sext { d, a: s[i], fw, tw },
                    _ if tw > fw => I::Zext { d, a: s[i], tw, fw },
                    _ if tw < fw => I::Trunc { d, a: s[i], w: tw },
                    _ => I::Copy { d, a: s[i] },
                });
            }
        }
        Inst::ExtractEl(t, v, ix) => {
            let s = fc.slots(t, v)?;
            let V::Int(i) = ix else { return Err("extractelement at a variable index".into()) };
            let o = *s.get(*i as usize).ok_or("extractelement index")?;
            fc.code.push(I::Copy { d, a: o });
        }
        Inst::InsertEl(t, v, e, ix) => {
            let mut s = fc.slots(t, v)?;
            let V::Int(i) = ix else { return Err("insertelement at a variable index".into()) };
            *s.get_mut(*i as usize).ok_or("insertelement index")? = fc.one(elem(t, 0), e)?;
            for (i, a) in s.into_iter().enumerate() {
                fc.code.push(I::Copy { d: d + i as u32, a });
            }
        }
        Inst::Shuffle(t, a, b, mask) => {
            let mut s = fc.slots(t, a)?;
            s.extend(fc.slots(t, b)?);
            for (i, l) in mask.iter().enumerate() {
                let a = match l {
                    Some(l) => *s.get(*l as usize).ok_or("shuffle lane")?,
                    None => fc.cx.k(0),
                };
                fc.code.push(I::Copy { d: d + i as u32, a });
            }
        }
        Inst::VSelect(n, c, t, a, b) => {
            let c = fc.slots(&Ty::Vec(*n, Box::new(Ty::Int(1))), c)?;
            let w = width(elem(t, 0))?;
            let sa = fc.slots(t, a)?;
            let sb = fc.slots(t, b)?;
            for i in 0..*n as usize {
                fc.code.push(I::Select { d: d + i as u32, c: c[i], a: sa[i], b: sb[i], w, fork: false });
            }
        }
        Inst::Bin(op, t, a, b) => {
            if let Ty::Int(w) = t {
                if *w > 64 {
                    let a = fc.slots(t, a)?;
                    let b = fc.slots(t, b)?;
                    fc.code.push(I::Wide(Box::new(WideI {
                        op: op.clone(),
                        w: *w,
                        d,
                        a: [a[0], a[1]],
                        b: [b[0], b[1]],
                    })));
                    return Ok(());
                }
            }
            let w = width(t)?;
            let a = fc.one(t, a)?;
            let b = fc.one(t, b)?;
            fc.code.push(I::Bin { op: binop(op), w, d, a, b });
        }
        Inst::Icmp(p, t, a, b) => {
            if let Ty::Int(w) = t {
                if *w > 64 {
                    let a = fc.slots(t, a)?;
                    let b = fc.slots(t, b)?;
                    fc.code.push(I::WideCmp(Box::new(WideI {
                        op: p.clone(),
                        w: *w,
                        d,
                        a: [a[0], a[1]],
                        b: [b[0], b[1]],
                    })));
                    return Ok(());
                }
            }
            let w = width(t)?;
            let a = fc.one(t, a)?;
            let b = fc.one(t, b)?;
            fc.code.push(I::Icmp { p: pred(p)?, w, d, a, b });
        }
        Inst::Cast(op, t, a, t2) => {
            let fw = match t {
                Ty::Int(w) => *w,
                Ty::Ptr => 64,
                _ => return Err(format!("cast {:?}", t)),
            };
            let tw = match t2 {
                Ty::Int(w) => *w,
                Ty::Ptr => 64,
                _ => return Err(format!("cast {:?}", t2)),
            };
            let s = fc.slots(t, a)?;
            match op.as_str() {
                "bitcast" => {
                    for (i, o) in s.iter().enumerate() {
                        fc.code.push(I::Copy { d: d + i as u32, a: *o });
                    }
                }
                _ if fw <= 64 && tw <= 64 => match op.as_str() {
                    "sext" => fc.code.push(I::Sext {
                        d,
                        a: s[0],
                        fw: fw as u8,
                        tw: tw as u8,
                    }),
                    _ if tw > fw => fc.code.push(I::Zext {
                        d,
                        a: s[0],
                        tw: tw as u8,
                        fw: fw as u8,
                    }),
                    _ if tw < fw => fc.code.push(I::Trunc { d, a: s[0], w: tw as u8 }),
                    _ => fc.code.push(I::Copy { d, a: s[0] }),
                },
                "zext" if fw <= 64 => {
                    if fw < 64 {
                        fc.code.push(I::Zext {
                            d,
                            a: s[0],
                            tw: 64,
                            fw: fw as u8,
                        });
                    } else {
                        fc.code.push(I::Copy { d, a: s[0] });
                    }
                    let z = fc.cx.k(0);
                    fc.code.push(I::Copy { d: d + 1, a: z });
                }
                "sext" if fw <= 64 => {
                    fc.code.push(I::Sext {
                        d,
                        a: s[0],
                        fw: fw as u8,
                        tw: 64,
                    });
                    let k = fc.cx.k(63);
                    fc.code.push(I::Bin {
                        op: O::AShr,
                        w: 64,
                        d: d + 1,
                        a: d,
                        b: k,
                    });
                    if tw < 128 {
                        fc.code.push(I::Trunc {
                            d: d + 1,
                            a: d + 1,
                            w: (tw - 64) as u8,
                        });
                    }
                }
                "trunc" if tw <= 64 => {
                    if tw == 64 {
                        fc.code.push(I::Copy { d, a: s[0] });
                    } else {
                        fc.code.push(I::Trunc { d, a: s[0], w: tw as u8 });
                    }
                }
                "trunc" => {
                    fc.code.push(I::Copy { d, a: s[0] });
                    fc.code.push(I::Trunc {
                        d: d + 1,
                        a: s[1],
                        w: (tw - 64) as u8,
                    });
                }
                "zext" => {
                    fc.code.push(I::Copy { d, a: s[0] });
                    fc.code.push(I::Copy { d: d + 1, a: s[1] });
                }
                _ => return Err(format!("wide cast {}", op)),
            }
        }
        Inst::Select(c, t, a, b) => {
            let c = fc.one(&Ty::Int(1), c)?;
            let sa = fc.slots(t, a)?;
            let sb = fc.slots(t, b)?;
            let mut lv = Vec::new();
            leaves(t, 0, &mut lv);
            let fork = *t == Ty::Ptr || lv.len() > 1;
            for i in 0..sa.len() {
                fc.code.push(I::Select {
                    d: d + i as u32,
                    c,
                    a: sa[i],
                    b: sb[i],
                    w: lv[i].1 as u8,
                    fork,
                });
            }
        }
        Inst::Gep(t, base, ix) => {
            let mut cur_ty = t.clone();
            let mut off = 0u64;
            let mut terms: Vec<(Op, u32, u64)> = Vec::new();
            for (k, (it, iv)) in ix.iter().enumerate() {
                let w = match it {
                    Ty::Int(w) if *w <= 64 => *w,
                    _ => return Err("gep index".into()),
                };
                let cst = if let V::Local(_) = iv {
                    None
                } else {
                    Some(crate::expr::sext(fc.cx.cval(it, iv)? as u64, w as u8))
                };
                if k == 0 {
                    let sz = size_of(&cur_ty);
                    match cst {
                        Some(i) => off = off.wrapping_add((i as u64).wrapping_mul(sz)),
                        None => {
                            let o = fc.one(it, iv)?;
                            terms.push((o, w, sz));
                        }
                    }
                } else {
                    match cst {
                        Some(i) => {
                            off = off.wrapping_add(field_off(&cur_ty, i as u64));
                            cur_ty = elem(&cur_ty, i as u64).clone();
                        }
                        None => {
                            let e = elem(&cur_ty, 0).clone();
                            let o = fc.one(it, iv)?;
                            terms.push((o, w, size_of(&e)));
                            cur_ty = e;
                        }
                    }
                }
            }
            let mut a = fc.one(&Ty::Ptr, base)?;
            if terms.is_empty() {
                fc.code.push(I::GepC { d, a, off });
            } else {
                let n = terms.len();
                for (k, (o, w, sc)) in terms.into_iter().enumerate() {
                    let mut o = o;
                    if w < 64 {
                        let t = fc.tmp();
                        fc.code.push(I::Sext {
                            d: t,
                            a: o,
                            fw: w as u8,
                            tw: 64,
                        });
                        o = t;
                    }
                    fc.code.push(I::Gep1 {
                        d,
                        a,
                        i: o,
                        scale: sc,
                        off: if k + 1 == n { off } else { 0 },
                    });
                    a = d;
                }
            }
        }
        Inst::Load(t, a) => {
            let a = fc.one(&Ty::Ptr, a)?;
            let mut lv = Vec::new();
            leaves(t, 0, &mut lv);
            if matches!(t, Ty::Vec(_, e) if **e == Ty::Int(1)) {
                return Err("load of <n x i1>".into());
            }
            let mut a2 = a;
            if lv.len() > 1 && a < CONST {
                // the destination may not alias the address, but keep it simple
                let tm = fc.tmp();
                fc.code.push(I::Copy { d: tm, a });
                a2 = tm;
            }
            for (i, (o, w)) in lv.iter().enumerate() {
                fc.code.push(I::Load {
                    d: d + i as u32,
                    a: a2,
                    off: *o as u32,
                    n: ((*w + 7) / 8) as u8,
                    w: *w as u8,
                });
            }
        }
        Inst::Store(t, v, a) => {
            let a = fc.one(&Ty::Ptr, a)?;
            let s = fc.slots(t, v)?;
            let mut lv = Vec::new();
            leaves(t, 0, &mut lv);
            if matches!(t, Ty::Vec(_, e) if **e == Ty::Int(1)) {
                return Err("store of <n x i1>".into());
            }
            for (i, (o, w)) in lv.iter().enumerate() {
                fc.code.push(I::Store {
                    v: s[i],
                    a,
                    off: *o as u32,
                    n: ((*w + 7) / 8) as u8,
                    w: *w as u8,
                });
            }
        }
        Inst::Alloca(t, n, al) => {
            fc.code.push(I::Alloca {
                d,
                size: size_of(t) * n,
                align: *al as u32,
            });
        }
        Inst::Call {
            callee,
            ret,
            args,
            noreturn,
            normal,
        } => {
            let mut ops = Vec::new();
            for (t, v) in args {
                ops.extend(fc.slots(t, v)?);
            }
            let nret = nslots(ret);
            match callee {
                V::Global(n) if n.starts_with("llvm.") => {
                    if vector_call(fc, n, ret, args, d)? {
                        return Ok(());
                    }
                    let k = intrinsic(n).ok_or_else(|| format!("intrinsic {}", n))?;
                    if k != Intr::Nop {
                        let w = match args.first() {
                            Some((t, _)) => width(t).unwrap_or(0),
                            None => 0,
                        };
                        if w == 0 && !matches!(k, Intr::Trap) {
                            return Err(format!("intrinsic {} on wide type", n));
                        }
                        let rw = width(ret).unwrap_or(0);
                        fc.code.push(I::Intr(Box::new(IntrI { k, w, d, rw, args: ops })));
                    }
                }
                V::Global(n) => {
                    let id = *fn_index.get(n).ok_or_else(|| format!("callee {}", n))?;
                    let f = &m.funcs[id as usize];
                    let ext = if f.is_decl {
                        Some(ext_of(n).unwrap_or(Ext::Unknown(n.clone())))
                    } else {
                        ext_of(n).or(model_of(f))
                    };
                    let target = match ext {
                        Some(e) => Target::Ext(e),
                        None => Target::Fn(id),
                    };
                    fc.code.push(I::Call(Box::new(CallI {
                        target,
                        args: ops,
                        d,
                        nret,
                        noreturn: *noreturn,
                    })));
                }
                _ => {
                    let p = fc.one(&Ty::Ptr, callee)?;
                    fc.code.push(I::Call(Box::new(CallI {
                        target: Target::Ptr(p),
                        args: ops,
                        d,
                        nret,
                        noreturn: *noreturn,
                    })));
                }
            }
            if let Some(n) = normal {
                let e = edge(*n);
                fc.code.push(I::Jmp(e));
            }
        }
        Inst::Br(t) => {
            let e = edge(*t);
            fc.code.push(I::Jmp(e));
        }
        Inst::CondBr(c, t, f) => {
            let c = fc.one(&Ty::Int(1), c)?;
            let t = edge(*t);
            let f = edge(*f);
            fc.code.push(I::CondBr { c, t, f });
        }
        Inst::Switch(t, v, dflt, cases) => {
            let w = width(t)?;
            let v = fc.one(t, v)?;
            let default = edge(*dflt);
            let mut by_target: HashMap<u32, u32> = HashMap::new();
            by_target.insert(*dflt, default);
            let mut cs = Vec::new();
            let mut map = HashMap::new();
            for (k, l) in cases {
                let e = *by_target.entry(*l).or_insert_with(|| edge(*l));
                cs.push((*k as u64, e));
                map.insert(*k as u64 & mask(w), e);
            }
            fc.code.push(I::Switch(Box::new(SwitchI { v, w, cases: cs, map, default })));
        }
        Inst::Ret(v) => {
            let ops = match v {
                Some((t, v)) => fc.slots(t, v)?,
                None => Vec::new(),
            };
            fc.code.push(I::Ret(Box::new(ops)));
        }
        Inst::Unreachable => fc.code.push(I::Unreachable),
        Inst::Phi(..) => {}
        Inst::Extract(t, v, ix) => {
            let s = fc.slots(t, v)?;
            let o = slot_index(t, ix) as usize;
            let n = nslots(&inst_ty(inst).unwrap()) as usize;
            for i in 0..n {
                fc.code.push(I::Copy { d: d + i as u32, a: s[o + i] });
            }
        }
        Inst::Insert(t, v, t2, v2, ix) => {
            let s = fc.slots(t, v)?;
            let s2 = fc.slots(t2, v2)?;
            let o = slot_index(t, ix) as usize;
            for i in 0..s.len() {
                let a = if i >= o && i < o + s2.len() { s2[i - o] } else { s[i] };
                fc.code.push(I::Copy { d: d + i as u32, a });
            }
        }
        Inst::Freeze(t, v) => {
            let s = fc.slots(t, v)?;
            for i in 0..s.len() {
                fc.code.push(I::Copy { d: d + i as u32, a: s[i] });
            }
        }
        Inst::AtomicRmw(op, t, a, v) => {
            let w = width(t)?;
            let a = fc.one(&Ty::Ptr, a)?;
            let v = fc.one(t, v)?;
            let k = match op.as_str() {
                "xchg" => 0,
                "add" => 1,
                "sub" => 2,
                "and" => 3,
                "or" => 4,
                "xor" => 5,
                _ => return Err(format!("rmw {}", op)),
            };
            fc.code.push(I::Rmw {
                op: k,
                d,
                a,
                v,
                n: (w + 7) / 8,
                w,
            });
        }
        Inst::CmpXchg(t, a, c, n) => {
            let w = width(t)?;
            let a = fc.one(&Ty::Ptr, a)?;
            let c = fc.one(t, c)?;
            let v = fc.one(t, n)?;
            fc.code.push(I::CmpXchg { d, a, c, v, n: (w + 7) / 8, w });
        }
        Inst::Fence => {}
    }
    Ok(())
}
