//! Parser for textual LLVM IR, as emitted by `rustc --emit=llvm-ir`.
//! Only the constructs rustc produces for this code base are understood; an instruction that is
//! not understood becomes `Inst::Unsupported` and is an engine error only if it is executed.

use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    Void,
    Struct(Vec<Ty>, bool),
    Array(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Label,
    Meta,
    Float(u32),
}

#[derive(Clone, Debug)]
pub enum V {
    Local(u32),
    Int(u128),
    Global(String),
    Zero,
    Undef,
    Agg(Vec<(Ty, V)>),
    CStr(Vec<u8>),
    Splat(Box<(Ty, V)>),
    CeGep(Ty, Box<V>, Vec<(Ty, V)>),
    CeCast(Ty, Box<V>, Ty),
    CeBin(String, Box<V>, Box<V>),
}

#[derive(Debug, Clone)]
pub enum Inst {
    Bin(String, Ty, V, V),
    Icmp(String, Ty, V, V),
    Cast(String, Ty, V, Ty),
    Select(V, Ty, V, V),
    Gep(Ty, V, Vec<(Ty, V)>),
    Load(Ty, V),
    Store(Ty, V, V),
    Alloca(Ty, u64, u64),
    Call {
        callee: V,
        ret: Ty,
        args: Vec<(Ty, V)>,
        noreturn: bool,
        normal: Option<u32>,
    },
    Br(u32),
    CondBr(V, u32, u32),
    Switch(Ty, V, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, V)>),
    Unreachable,
    Phi(Ty, Vec<(V, u32)>),
    Extract(Ty, V, Vec<u64>),
    Insert(Ty, V, Ty, V, Vec<u64>),
    Freeze(Ty, V),
    ExtractEl(Ty, V, V),
    InsertEl(Ty, V, V, V),
    /// operand type, operands, lane numbers into their concatenation (None: undefined)
    Shuffle(Ty, V, V, Vec<Option<u32>>),
    VSelect(u64, V, Ty, V, V),
    AtomicRmw(String, Ty, V, V),
    CmpXchg(Ty, V, V, V),
    Fence,
    Unsupported(String),
}

pub struct Block {
    pub insts: Vec<(Option<u32>, Inst)>,
}

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub nlocals: u32,
    pub local_names: Vec<String>,
    pub blocks: Vec<Block>,
    pub noreturn: bool,
    pub is_decl: bool,
    pub weak: bool,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<V>,
    pub constant: bool,
    pub align: u64,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
}

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    Local(&'a str),
    Global(&'a str),
    Word(&'a str),
    Num(&'a str),
    CStr(Vec<u8>),
    Attr(&'a str),
    Meta,
    P(u8),
}

fn is_word(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_' || b == b'.' || b == b'$' || b == b'-'
}

fn tokenize<'a>(s: &'a str, out: &mut Vec<T<'a>>) -> Result<(), String> {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let (name, e) = if i + 1 < b.len() && b[i + 1] == b'"' {
                    let e = i + 2 + s[i + 2..].find('"').ok_or("unterminated name")?;
                    (&s[i + 2..e], e + 1)
                } else {
                    let mut e = i + 1;
                    while e < b.len() && is_word(b[e]) {
                        e += 1;
                    }
                    (&s[i + 1..e], e)
                };
                out.push(if c == b'%' { T::Local(name) } else { T::Global(name) });
                i = e;
            }
            b'#' => {
                let mut e = i + 1;
                while e < b.len() && is_word(b[e]) {
                    e += 1;
                }
                out.push(T::Attr(&s[i + 1..e]));
                i = e;
            }
            b'!' => {
                out.push(T::Meta);
                i += 1;
                while i < b.len() && is_word(b[i]) {
                    i += 1;
                }
            }
            b'"' => {
                let e = i + 1 + s[i + 1..].find('"').ok_or("unterminated string")?;
                out.push(T::Word(&s[i + 1..e]));
                i = e + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut v = Vec::new();
                let mut j = i + 2;
                while b[j] != b'"' {
                    if b[j] == b'\\' {
                        if b[j + 1] == b'\\' {
                            v.push(b'\\');
                            j += 2;
                        } else {
                            v.push(u8::from_str_radix(&s[j + 1..j + 3], 16).map_err(|e| e.to_string())?);
                            j += 3;
                        }
                    } else {
                        v.push(b[j]);
                        j += 1;
                    }
                }
                out.push(T::CStr(v));
                i = j + 1;
            }
            b'0'..=b'9' | b'-' => {
                let mut e = i + 1;
                while e < b.len() && is_word(b[e]) {
                    e += 1;
                }
                out.push(T::Num(&s[i..e]));
                i = e;
            }
            _ if is_word(c) => {
                let mut e = i + 1;
                while e < b.len() && is_word(b[e]) {
                    e += 1;
                }
                out.push(T::Word(&s[i..e]));
                i = e;
            }
            _ => {
                out.push(T::P(c));
                i += 1;
            }
        }
    }
    Ok(())
}

struct P<'a, 'b> {
    t: Vec<T<'a>>,
    i: usize,
    locals: Option<&'b mut LocalMap>,
}

#[derive(Default)]
struct LocalMap {
    map: HashMap<String, u32>,
    names: Vec<String>,
}
impl LocalMap {
    fn get(&mut self, n: &str) -> u32 {
        if let Some(&x) = self.map.get(n) {
            return x;
        }
        let id = self.names.len() as u32;
        self.map.insert(n.to_string(), id);
        self.names.push(n.to_string());
        id
    }
}

type R<X> = Result<X, String>;

impl<'a, 'b> P<'a, 'b> {
    fn peek(&self) -> Option<&T<'a>> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<T<'a>> {
        let t = self.t.get(self.i).cloned().ok_or("eol")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: u8) -> bool {
        matches!(self.peek(), Some(T::P(x)) if *x == c)
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: u8) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?}", c as char, self.peek()))
        }
    }
    fn word(&self) -> Option<&'a str> {
        match self.peek() {
            Some(T::Word(w)) => Some(w),
            _ => None,
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.word() == Some(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_group(&mut self) -> R<()> {
        let (o, c) = match self.next()? {
            T::P(b'(') => (b'(', b')'),
            T::P(b'[') => (b'[', b']'),
            T::P(b'{') => (b'{', b'}'),
            t => return Err(format!("group {:?}", t)),
        };
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                T::P(x) if x == o => d += 1,
                T::P(x) if x == c => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    fn starts_ty(&self) -> bool {
        match self.peek() {
            Some(T::Word(w)) => {
                (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()))
                    || matches!(*w, "ptr" | "void" | "label" | "metadata" | "float" | "double" | "half")
            }
            Some(T::P(b'{')) | Some(T::P(b'[')) | Some(T::P(b'<')) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        match self.next()? {
            T::Word(w) => {
                if w == "ptr" {
                    Ok(Ty::Ptr)
                } else if w == "void" {
                    Ok(Ty::Void)
                } else if w == "label" {
                    Ok(Ty::Label)
                } else if w == "metadata" {
                    Ok(Ty::Meta)
                } else if w == "float" {
                    Ok(Ty::Float(32))
                } else if w == "double" {
                    Ok(Ty::Float(64))
                } else if let Some(n) = w.strip_prefix('i') {
                    Ok(Ty::Int(n.parse().map_err(|_| format!("type {}", w))?))
                } else {
                    Err(format!("type {}", w))
                }
            }
            T::P(b'{') => {
                let mut v = Vec::new();
                while !self.eat_p(b'}') {
                    v.push(self.ty()?);
                    self.eat_p(b',');
                }
                Ok(Ty::Struct(v, false))
            }
            T::P(b'[') => {
                let n = self.num()?;
                if !self.eat_w("x") {
                    return Err("array".into());
                }
                let t = self.ty()?;
                self.exp_p(b']')?;
                Ok(Ty::Array(n, Box::new(t)))
            }
            T::P(b'<') => {
                if self.is_p(b'{') {
                    self.i += 1;
                    let mut v = Vec::new();
                    while !self.eat_p(b'}') {
                        v.push(self.ty()?);
                        self.eat_p(b',');
                    }
                    self.exp_p(b'>')?;
                    Ok(Ty::Struct(v, true))
                } else {
                    let n = self.num()?;
                    if !self.eat_w("x") {
                        return Err("vec".into());
                    }
                    let t = self.ty()?;
                    self.exp_p(b'>')?;
                    Ok(Ty::Vec(n, Box::new(t)))
                }
            }
            t => Err(format!("type {:?}", t)),
        }
    }
    fn num(&mut self) -> R<u64> {
        match self.next()? {
            T::Num(n) => n.parse().map_err(|_| format!("num {}", n)),
            t => Err(format!("num {:?}", t)),
        }
    }
    /// skip attribute words before a value
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(T::Word(w)) => match *w {
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "none" | "getelementptr" | "inttoptr" | "ptrtoint"
                    | "ptrtoaddr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "asm" => return Ok(()),
                    "align" => {
                        self.i += 1;
                        if let Some(T::Num(_)) = self.peek() {
                            self.i += 1;
                        } else if self.is_p(b'(') {
                            self.skip_group()?;
                        }
                    }
                    _ => {
                        self.i += 1;
                        if self.is_p(b'(') {
                            self.skip_group()?;
                        }
                    }
                },
                Some(T::Attr(_)) => self.i += 1,
                _ => return Ok(()),
            }
        }
    }
    fn val(&mut self, ty: &Ty) -> R<V> {
        self.skip_attrs()?;
        match self.next()? {
            T::Local(n) => {
                let l = self.locals.as_mut().ok_or("local outside function")?;
                Ok(V::Local(l.get(n)))
            }
            T::Global(n) => Ok(V::Global(n.to_string())),
            T::Num(n) => {
                let v: i128 = n
                    .parse::<i128>()
                    .or_else(|_| n.parse::<u128>().map(|x| x as i128))
                    .map_err(|_| format!("int {}", n))?;
                let w = if let Ty::Int(w) = ty {
                    *w
                } else {
                    return Err(format!("int const of type {:?}", ty));
                };
                let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                Ok(V::Int(v as u128 & m))
            }
            T::CStr(s) => Ok(V::CStr(s)),
            T::Word(w) => match w {
                "true" => Ok(V::Int(1)),
                "false" => Ok(V::Int(0)),
                "null" | "zeroinitializer" | "none" => Ok(V::Zero),
                "undef" | "poison" => Ok(V::Undef),
                "splat" => {
                    self.exp_p(b'(')?;
                    let t = self.ty()?;
                    let v = self.val(&t)?;
                    self.exp_p(b')')?;
                    Ok(V::Splat(Box::new((t, v))))
                }
                "getelementptr" => {
                    while self.word().is_some() {
                        self.i += 1;
                        // inrange(...)
                        if self.is_p(b'(') && self.t.get(self.i - 1).map_or(false, |t| matches!(t, T::Word("inrange"))) {
                            self.skip_group()?;
                        }
                    }
                    self.exp_p(b'(')?;
                    let t = self.ty()?;
                    self.exp_p(b',')?;
                    let pt = self.ty()?;
                    let base = self.val(&pt)?;
                    let mut idx = Vec::new();
                    while self.eat_p(b',') {
                        let it = self.ty()?;
                        let iv = self.val(&it)?;
                        idx.push((it, iv));
                    }
                    self.exp_p(b')')?;
                    Ok(V::CeGep(t, Box::new(base), idx))
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" => {
                    self.exp_p(b'(')?;
                    let t = self.ty()?;
                    let v = self.val(&t)?;
                    if !self.eat_w("to") {
                        return Err("cast".into());
                    }
                    let t2 = self.ty()?;
                    self.exp_p(b')')?;
                    Ok(V::CeCast(t, Box::new(v), t2))
                }
                "add" | "sub" | "xor" => {
                    while self.word().is_some() {
                        self.i += 1;
                    }
                    self.exp_p(b'(')?;
                    let t = self.ty()?;
                    let a = self.val(&t)?;
                    self.exp_p(b',')?;
                    let t = self.ty()?;
                    let b = self.val(&t)?;
                    self.exp_p(b')')?;
                    Ok(V::CeBin(w.to_string(), Box::new(a), Box::new(b)))
                }
                _ => Err(format!("value word {}", w)),
            },
            T::P(o @ (b'{' | b'[')) => {
                let c = if o == b'{' { b'}' } else { b']' };
                let mut v = Vec::new();
                while !self.eat_p(c) {
                    let t = self.ty()?;
                    let x = self.val(&t)?;
                    v.push((t, x));
                    self.eat_p(b',');
                }
                Ok(V::Agg(v))
            }
            T::P(b'<') => {
                let packed = self.eat_p(b'{');
                let mut v = Vec::new();
                loop {
                    if packed && self.eat_p(b'}') {
                        self.exp_p(b'>')?;
                        break;
                    }
                    if !packed && self.eat_p(b'>') {
                        break;
                    }
                    let t = self.ty()?;
                    let x = self.val(&t)?;
                    v.push((t, x));
                    self.eat_p(b',');
                }
                Ok(V::Agg(v))
            }
            t => Err(format!("value {:?}", t)),
        }
    }
    fn label(&mut self, labels: &mut LocalMap) -> R<u32> {
        if !self.eat_w("label") {
            return Err("label".into());
        }
        match self.next()? {
            T::Local(n) => Ok(labels.get(n)),
            t => Err(format!("label {:?}", t)),
        }
    }
}

fn parse_inst(p: &mut P, labels: &mut LocalMap, noret_attr: &dyn Fn(&str) -> bool, noret_fn: &dyn Fn(&str) -> bool) -> R<Inst> {
    let op = match p.next()? {
        T::Word(w) => w,
        t => return Err(format!("opcode {:?}", t)),
    };
    match op {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
            while matches!(p.word(), Some("nuw" | "nsw" | "exact" | "disjoint")) {
                p.i += 1;
            }
            let t = p.ty()?;
            let a = p.val(&t)?;
            p.exp_p(b',')?;
            let b = p.val(&t)?;
            Ok(Inst::Bin(op.to_string(), t, a, b))
        }
        "icmp" => {
            p.eat_w("samesign");
            let pred = p.word().ok_or("pred")?.to_string();
            p.i += 1;
            let t = p.ty()?;
            let a = p.val(&t)?;
            p.exp_p(b',')?;
            let b = p.val(&t)?;
            Ok(Inst::Icmp(pred, t, a, b))
        }
        "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
            while matches!(p.word(), Some("nuw" | "nsw" | "nneg")) {
                p.i += 1;
            }
            let t = p.ty()?;
            let a = p.val(&t)?;
            if !p.eat_w("to") {
                return Err("cast".into());
            }
            let t2 = p.ty()?;
            Ok(Inst::Cast(op.to_string(), t, a, t2))
        }
        "select" => {
            let ct = p.ty()?;
            let c = p.val(&ct)?;
            p.exp_p(b',')?;
            let t = p.ty()?;
            let a = p.val(&t)?;
            p.exp_p(b',')?;
            let t2 = p.ty()?;
            let b = p.val(&t2)?;
            if let Ty::Vec(n, _) = ct {
                return Ok(Inst::VSelect(n, c, t, a, b));
            }
            Ok(Inst::Select(c, t, a, b))
        }
        "getelementptr" => {
            while p.word().is_some() && !p.starts_ty() {
                p.i += 1;
                if p.is_p(b'(') {
                    p.skip_group()?;
                }
            }
            let t = p.ty()?;
            p.exp_p(b',')?;
            let pt = p.ty()?;
            if pt != Ty::Ptr {
                return Err("vector gep".into());
            }
            let base = p.val(&pt)?;
            let mut idx = Vec::new();
            while p.eat_p(b',') {
                if let Some(T::Meta) = p.peek() {
                    break;
                }
                let it = p.ty()?;
                let iv = p.val(&it)?;
                idx.push((it, iv));
            }
            Ok(Inst::Gep(t, base, idx))
        }
        "load" => {
            p.eat_w("atomic");
            p.eat_w("volatile");
            let t = p.ty()?;
            p.exp_p(b',')?;
            let pt = p.ty()?;
            let a = p.val(&pt)?;
            Ok(Inst::Load(t, a))
        }
        "store" => {
            p.eat_w("atomic");
            p.eat_w("volatile");
            let t = p.ty()?;
            let v = p.val(&t)?;
            p.exp_p(b',')?;
            let pt = p.ty()?;
            let a = p.val(&pt)?;
            Ok(Inst::Store(t, v, a))
        }
        "alloca" => {
            let t = p.ty()?;
            let mut al = 16;
            while p.eat_p(b',') {
                if p.eat_w("align") {
                    al = p.num()?;
                } else if let Some(T::Meta) = p.peek() {
                    break;
                } else {
                    return Err("dynamic alloca".into());
                }
            }
            Ok(Inst::Alloca(t, 1, al))
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            if op != "call" && op != "invoke" && !p.eat_w("call") {
                return Err("call".into());
            }
            while !p.starts_ty() {
                match p.next()? {
                    T::Word(_) | T::Num(_) | T::Attr(_) => {
                        if p.is_p(b'(') {
                            p.skip_group()?;
                        }
                    }
                    t => return Err(format!("call prefix {:?}", t)),
                }
            }
            let ret = p.ty()?;
            if p.is_p(b'(') {
                p.skip_group()?;
            }
            if p.word() == Some("asm") {
                return Err("inline asm".into());
            }
            let callee = p.val(&Ty::Ptr)?;
            p.exp_p(b'(')?;
            let mut args = Vec::new();
            let is_dbg = matches!(&callee, V::Global(n) if n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg"));
            if is_dbg {
                return Ok(Inst::Fence);
            }
            while !p.eat_p(b')') {
                let t = p.ty()?;
                if t == Ty::Meta {
                    return Err("metadata arg".into());
                }
                let v = p.val(&t)?;
                args.push((t, v));
                p.eat_p(b',');
            }
            let mut noreturn = matches!(&callee, V::Global(n) if noret_fn(n));
            let mut normal = None;
            while let Some(t) = p.peek().cloned() {
                match t {
                    T::Attr(a) => {
                        if noret_attr(a) {
                            noreturn = true;
                        }
                        p.i += 1;
                    }
                    T::Word("noreturn") => {
                        noreturn = true;
                        p.i += 1;
                    }
                    T::Word("to") => {
                        p.i += 1;
                        normal = Some(p.label(labels)?);
                        break;
                    }
                    _ => p.i += 1,
                }
            }
            if op == "invoke" && normal.is_none() {
                return Err("invoke".into());
            }
            Ok(Inst::Call {
                callee,
                ret,
                args,
                noreturn,
                normal,
            })
        }
        "br" => {
            if p.word() == Some("label") {
                Ok(Inst::Br(p.label(labels)?))
            } else {
                let t = p.ty()?;
                let c = p.val(&t)?;
                p.exp_p(b',')?;
                let a = p.label(labels)?;
                p.exp_p(b',')?;
                let b = p.label(labels)?;
                Ok(Inst::CondBr(c, a, b))
            }
        }
        "switch" => {
            let t = p.ty()?;
            let v = p.val(&t)?;
            p.exp_p(b',')?;
            let d = p.label(labels)?;
            p.exp_p(b'[')?;
            let mut cases = Vec::new();
            while !p.eat_p(b']') {
                let ct = p.ty()?;
                let cv = match p.val(&ct)? {
                    V::Int(x) => x,
                    V::Zero => 0,
                    _ => return Err("case".into()),
                };
                p.exp_p(b',')?;
                let l = p.label(labels)?;
                cases.push((cv, l));
            }
            Ok(Inst::Switch(t, v, d, cases))
        }
        "ret" => {
            let t = p.ty()?;
            if t == Ty::Void {
                Ok(Inst::Ret(None))
            } else {
                let v = p.val(&t)?;
                Ok(Inst::Ret(Some((t, v))))
            }
        }
        "unreachable" => Ok(Inst::Unreachable),
        "phi" => {
            let t = p.ty()?;
            let mut inc = Vec::new();
            loop {
                p.exp_p(b'[')?;
                let v = p.val(&t)?;
                p.exp_p(b',')?;
                match p.next()? {
                    T::Local(n) => inc.push((v, labels.get(n))),
                    t => return Err(format!("phi {:?}", t)),
                }
                p.exp_p(b']')?;
                if p.is_p(b',') && matches!(p.t.get(p.i + 1), Some(T::P(b'['))) {
                    p.i += 1;
                } else {
                    break;
                }
            }
            Ok(Inst::Phi(t, inc))
        }
        "extractvalue" => {
            let t = p.ty()?;
            let v = p.val(&t)?;
            let mut ix = Vec::new();
            while p.eat_p(b',') {
                if let Some(T::Meta) = p.peek() {
                    break;
                }
                ix.push(p.num()?);
            }
            Ok(Inst::Extract(t, v, ix))
        }
        "insertvalue" => {
            let t = p.ty()?;
            let v = p.val(&t)?;
            p.exp_p(b',')?;
            let t2 = p.ty()?;
            let v2 = p.val(&t2)?;
            let mut ix = Vec::new();
            while p.eat_p(b',') {
                if let Some(T::Meta) = p.peek() {
                    break;
                }
                ix.push(p.num()?);
            }
            Ok(Inst::Insert(t, v, t2, v2, ix))
        }
        "extractelement" => {
            let t = p.ty()?;
            let v = p.val(&t)?;
            p.exp_p(b',')?;
            let it = p.ty()?;
            Ok(Inst::ExtractEl(t, v, p.val(&it)?))
        }
        "insertelement" => {
            let t = p.ty()?;
            let v = p.val(&t)?;
            p.exp_p(b',')?;
            let et = p.ty()?;
            let e = p.val(&et)?;
            p.exp_p(b',')?;
            let it = p.ty()?;
            Ok(Inst::InsertEl(t, v, e, p.val(&it)?))
        }
        "shufflevector" => {
            let t = p.ty()?;
            let a = p.val(&t)?;
            p.exp_p(b',')?;
            let t2 = p.ty()?;
            let b = p.val(&t2)?;
            p.exp_p(b',')?;
            let mt = p.ty()?;
            let n = if let Ty::Vec(n, _) = mt { n as usize } else { return Err("shuffle mask".into()) };
            let lane = |v: &V| match v {
                V::Int(x) => Ok(Some(*x as u32)),
                V::Zero => Ok(Some(0)),
                V::Undef => Ok(None),
                _ => Err("shuffle lane".to_string()),
            };
            let mask = match p.val(&mt)? {
                V::Zero => vec![Some(0); n],
                V::Undef => vec![None; n],
                V::Agg(el) => el.iter().map(|(_, v)| lane(v)).collect::<R<Vec<_>>>()?,
                V::Splat(b) => vec![lane(&b.1)?; n],
                _ => return Err("shuffle mask".into()),
            };
            Ok(Inst::Shuffle(t, a, b, mask))
        }
        "freeze" => {
            let t = p.ty()?;
            let v = p.val(&t)?;
            Ok(Inst::Freeze(t, v))
        }
        "atomicrmw" => {
            p.eat_w("volatile");
            let o = p.word().ok_or("rmw")?.to_string();
            p.i += 1;
            let pt = p.ty()?;
            let a = p.val(&pt)?;
            p.exp_p(b',')?;
            let t = p.ty()?;
            let v = p.val(&t)?;
            Ok(Inst::AtomicRmw(o, t, a, v))
        }
        "cmpxchg" => {
            p.eat_w("weak");
            p.eat_w("volatile");
            let pt = p.ty()?;
            let a = p.val(&pt)?;
            p.exp_p(b',')?;
            let t = p.ty()?;
            let c = p.val(&t)?;
            p.exp_p(b',')?;
            let t = p.ty()?;
            let n = p.val(&t)?;
            Ok(Inst::CmpXchg(t, a, c, n))
        }
        "fence" => Ok(Inst::Fence),
        _ => Err(format!("opcode {}", op)),
    }
}

pub fn parse(src: &str) -> Result<Module, String> {
    // attribute groups and the noreturn property of functions come first
    let mut noret_groups: std::collections::HashSet<&str> = Default::default();
    for l in src.lines() {
        if let Some(r) = l.strip_prefix("attributes #") {
            let id = r.split(' ').next().unwrap_or("");
            if r.split(' ').any(|w| w == "noreturn") {
                noret_groups.insert(id);
            }
        }
    }
    let mut noret_fns: std::collections::HashSet<String> = Default::default();
    for l in src.lines() {
        if l.starts_with("define ") || l.starts_with("declare ") {
            let at = l.find('@').ok_or("fn name")?;
            let rest = &l[at + 1..];
            let name = if let Some(q) = rest.strip_prefix('"') {
                q.split('"').next().unwrap()
            } else {
                rest.split('(').next().unwrap()
            };
            if l.split(' ')
                .any(|w| w.strip_prefix('#').map_or(false, |g| noret_groups.contains(g)) || w == "noreturn")
            {
                noret_fns.insert(name.to_string());
            }
        }
    }
    let na = |g: &str| noret_groups.contains(g);
    let nf = |n: &str| noret_fns.contains(n);

    let mut m = Module {
        funcs: Vec::new(),
        globals: Vec::new(),
    };
    let mut pretty = String::new();
    let mut lines = src.lines();
    while let Some(l) = lines.next() {
        if let Some(c) = l.strip_prefix("; ") {
            if !c.starts_with("Function Attrs") && !c.starts_with("ModuleID") {
                pretty = c.to_string();
            }
            continue;
        }
        if l.starts_with('@') {
            let mut t = Vec::new();
            tokenize(l, &mut t)?;
            let mut p = P { t, i: 0, locals: None };
            let name = match p.next()? {
                T::Global(n) => n.to_string(),
                t => return Err(format!("global {:?}", t)),
            };
            p.exp_p(b'=')?;
            let mut constant = false;
            let mut ext = false;
            loop {
                match p.next()? {
                    T::Word("global") => break,
                    T::Word("constant") => {
                        constant = true;
                        break;
                    }
                    T::Word("external") | T::Word("extern_weak") => ext = true,
                    T::Word("alias") | T::Word("ifunc") => return Err(format!("alias {}", name)),
                    T::Word(_) => {
                        if p.is_p(b'(') {
                            p.skip_group()?;
                        }
                    }
                    t => return Err(format!("global {} {:?}", name, t)),
                }
            }
            let ty = p.ty()?;
            let init = if ext {
                None
            } else {
                Some(p.val(&ty).map_err(|e| format!("{}: {}", name, e))?)
            };
            let mut align = 16;
            while p.i < p.t.len() {
                if p.eat_w("align") {
                    align = p.num()?;
                } else {
                    p.i += 1;
                }
            }
            m.globals.push(Global {
                name,
                ty,
                init,
                constant,
                align,
            });
            continue;
        }
        if l.starts_with("define ") || l.starts_with("declare ") {
            let is_decl = l.starts_with("declare ");
            let mut locals = LocalMap::default();
            let mut labels = LocalMap::default();
            let mut t = Vec::new();
            tokenize(l, &mut t)?;
            let mut p = P {
                t,
                i: 1,
                locals: Some(&mut locals),
            };
            while !p.starts_ty() {
                match p.next()? {
                    T::Word(_) | T::Num(_) => {
                        if p.is_p(b'(') {
                            p.skip_group()?;
                        }
                    }
                    t => return Err(format!("define {:?}", t)),
                }
            }
            let ret = p.ty()?;
            p.skip_attrs()?;
            let name = match p.next()? {
                T::Global(n) => n.to_string(),
                t => return Err(format!("fname {:?}", t)),
            };
            p.exp_p(b'(')?;
            let mut params = Vec::new();
            while !p.eat_p(b')') {
                if p.eat_p(b'.') {
                    continue;
                }
                if p.word() == Some("...") {
                    p.i += 1;
                    continue;
                }
                let t = p.ty()?;
                p.skip_attrs()?;
                if let Some(T::Local(n)) = p.peek().cloned() {
                    p.i += 1;
                    let id = p.locals.as_mut().unwrap().get(n);
                    params.push((t, id));
                } else if is_decl {
                    params.push((t, 0));
                } else {
                    return Err(format!("param of {}", name));
                }
                p.eat_p(b',');
            }
            let noreturn = nf(&name);
            let mut blocks: Vec<Block> = Vec::new();
            let pr = std::mem::take(&mut pretty);
            if !is_decl {
                let mut cur: Option<u32> = None;
                // blocks are numbered by label id; fill sparse vector
                let mut first = true;
                loop {
                    let l = lines.next().ok_or("eof in function")?;
                    if l.starts_with('}') {
                        break;
                    }
                    if l.is_empty() || l.starts_with(';') {
                        continue;
                    }
                    let tl = l.trim_start();
                    if tl.is_empty() || tl.starts_with(';') || tl.starts_with('#') {
                        continue;
                    }
                    if !l.starts_with(' ') {
                        // label
                        let lab = if let Some(q) = l.strip_prefix('"') {
                            q.split('"').next().unwrap()
                        } else {
                            l.split(':').next().unwrap()
                        };
                        let id = labels.get(lab);
                        if first && id != 0 {
                            return Err("entry label".into());
                        }
                        first = false;
                        cur = Some(id);
                        continue;
                    }
                    if first {
                        // unnamed entry block: its label is the next unnamed number
                        let n = params.iter().filter(|p| locals.names[p.1 as usize].bytes().all(|b| b.is_ascii_digit())).count();
                        labels.get(&n.to_string());
                        cur = Some(0);
                        first = false;
                    }
                    let c = cur.unwrap() as usize;
                    while blocks.len() <= c {
                        blocks.push(Block { insts: Vec::new() });
                    }
                    let mut t = Vec::new();
                    let mut full: String;
                    let mut text = l;
                    let is_switch = tl.starts_with("switch ");
                    if is_switch && !l.contains(']') {
                        full = l.to_string();
                        loop {
                            let n = lines.next().ok_or("eof in switch")?;
                            full.push(' ');
                            full.push_str(n);
                            if n.trim_start().starts_with(']') {
                                break;
                            }
                        }
                        text = Box::leak(full.into_boxed_str());
                    } else if tl.contains("invoke ") {
                        full = l.to_string();
                        if !l.contains(" unwind label ") {
                            let n = lines.next().ok_or("eof in invoke")?;
                            full.push(' ');
                            full.push_str(n);
                        }
                        text = Box::leak(full.into_boxed_str());
                    } else if tl.contains("= landingpad")
                        || tl.starts_with("cleanup")
                        || tl.starts_with("catch")
                        || tl.starts_with("filter")
                        || tl.starts_with("resume ")
                    {
                        let b = &mut blocks[c];
                        let res = if tl.contains("= landingpad") {
                            let n = tl[1..].split(' ').next().unwrap();
                            Some(locals.get(n))
                        } else {
                            None
                        };
                        b.insts.push((res, Inst::Unsupported("landingpad".into())));
                        continue;
                    }
                    tokenize(text, &mut t)?;
                    let mut res = None;
                    let mut i = 0;
                    if t.len() > 2 && t[1] == T::P(b'=') {
                        if let T::Local(n) = &t[0] {
                            res = Some(locals.get(n));
                            i = 2;
                        }
                    }
                    let mut p = P {
                        t,
                        i,
                        locals: Some(&mut locals),
                    };
                    let inst = match parse_inst(&mut p, &mut labels, &na, &nf) {
                        Ok(x) => x,
                        Err(e) => Inst::Unsupported(format!("{}: {}", e, &tl[..tl.len().min(120)])),
                    };
                    blocks[c].insts.push((res, inst));
                }
                while blocks.len() < labels.names.len() {
                    blocks.push(Block { insts: Vec::new() });
                }
            }
            m.funcs.push(Func {
                name,
                pretty: pr,
                params,
                ret,
                nlocals: locals.names.len() as u32,
                local_names: locals.names,
                blocks,
                noreturn,
                is_decl,
                weak: l.starts_with("declare extern_weak "),
            });
            continue;
        }
        if !l.is_empty() {
            pretty.clear();
        }
    }
    Ok(m)
}

// ---- type layout -------------------------------------------------------------------------

pub fn align_of(t: &Ty) -> u64 {
    match t {
        Ty::Int(w) => match (*w + 7) / 8 {
            1 => 1,
            2 => 2,
            3..=4 => 4,
            5..=8 => 8,
            _ => 16,
        },
        Ty::Ptr => 8,
        Ty::Struct(f, packed) => {
            if *packed {
                1
            } else {
                f.iter().map(align_of).max().unwrap_or(1)
            }
        }
        Ty::Array(_, t) => align_of(t),
        Ty::Vec(n, t) => (n * size_of(t)).next_power_of_two(),
        Ty::Float(w) => (*w / 8) as u64,
        _ => 1,
    }
}

pub fn size_of(t: &Ty) -> u64 {
    match t {
        Ty::Int(w) => {
            let b = ((*w + 7) / 8) as u64;
            let a = align_of(t);
            (b + a - 1) / a * a
        }
        Ty::Ptr => 8,
        Ty::Struct(f, packed) => {
            let mut o = 0;
            for x in f {
                if !packed {
                    let a = align_of(x);
                    o = (o + a - 1) / a * a;
                }
                o += size_of(x);
            }
            if !packed {
                let a = align_of(t);
                o = (o + a - 1) / a * a;
            }
            o
        }
        Ty::Array(n, t) => n * size_of(t),
        Ty::Vec(n, t) => match &**t {
            Ty::Int(1) => (n + 7) / 8,
            _ => n * size_of(t),
        },
        Ty::Float(w) => (*w / 8) as u64,
        _ => 0,
    }
}

pub fn field_off(t: &Ty, i: u64) -> u64 {
    match t {
        Ty::Struct(f, packed) => {
            let mut o = 0;
            for (k, x) in f.iter().enumerate() {
                if !packed {
                    let a = align_of(x);
                    o = (o + a - 1) / a * a;
                }
                if k as u64 == i {
                    return o;
                }
                o += size_of(x);
            }
            o
        }
        Ty::Array(_, e) | Ty::Vec(_, e) => i * size_of(e),
        _ => 0,
    }
}

pub fn elem<'a>(t: &'a Ty, i: u64) -> &'a Ty {
    match t {
        Ty::Struct(f, _) => &f[i as usize],
        Ty::Array(_, e) | Ty::Vec(_, e) => e,
        _ => t,
    }
}

/// Leaf slots of a type: (byte offset, bit width); widths 65..128 take two slots.
pub fn leaves(t: &Ty, off: u64, out: &mut Vec<(u64, u32)>) {
    match t {
        Ty::Int(w) if *w <= 64 => out.push((off, *w)),
        Ty::Int(w) => {
            out.push((off, 64));
            out.push((off + 8, *w - 64));
        }
        Ty::Ptr => out.push((off, 64)),
        Ty::Float(w) => out.push((off, *w)),
        Ty::Struct(f, _) => {
            for (i, x) in f.iter().enumerate() {
                leaves(x, off + field_off(t, i as u64), out);
            }
        }
        Ty::Array(n, e) | Ty::Vec(n, e) => {
            for i in 0..*n {
                leaves(e, off + i * size_of(e), out);
            }
        }
        _ => {}
    }
}

pub fn nslots(t: &Ty) -> u32 {
    match t {
        Ty::Int(w) if *w > 64 => 2,
        Ty::Int(_) | Ty::Ptr | Ty::Float(_) => 1,
        Ty::Struct(f, _) => f.iter().map(nslots).sum(),
        Ty::Array(n, e) | Ty::Vec(n, e) => *n as u32 * nslots(e),
        _ => 0,
    }
}
