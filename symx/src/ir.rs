//! Lazy parser for textual LLVM IR as printed by rustc (opaque pointers).
//!
//! The module is indexed by symbol; bodies are parsed when first executed.
//! Anything the parser does not understand becomes `Inst::Unsupported`, which
//! is an error only when executed (never silently skipped).
use crate::expr::{mask, sx, Ctx, E};
use std::collections::HashMap;
use std::rc::Rc;

pub const GLOBAL_ID: u64 = 0x1000_0000;
pub const FUNC_ID: u64 = 0x2000_0000;
pub const STACK_ID: u64 = 0x0800_0000;
/// objects start in the middle of their 4 GiB window, so that small negative
/// excursions of an address computation keep naming the same object
pub const BASE_OFF: u64 = 0x4000_0000;

pub fn base_addr(id: u64) -> u64 {
    (id << 32) + BASE_OFF
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u64, Rc<Ty>),
    Other,
}
impl Ty {
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        self.bits() != 0
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => ((*n as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(_, true) => 1,
            Ty::Struct(f, false) => f.iter().map(|t| t.align()).max().unwrap_or(1),
            _ => 1,
        }
    }
    /// allocation size (stride)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = (*n as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => Ty::Other,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

/// Runtime value. `K` is a concrete scalar of at most 64 bits.
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    U,
    K(u64),
    S(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    Zext,
    Sext,
    Bit,
    SiToFp,
    UiToFp,
    FpToSi,
    FpToUi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum GepStep {
    Const(u64),
    Scaled(Opd, u16, u64),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // symbol index
    Ind(Opd),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(u32, Bop, Ty, Opd, Opd),
    ICmp(u32, Pred, Ty, Opd, Opd),
    FCmp(u32, &'static str, Ty, Opd, Opd),
    FBin(u32, &'static str, Ty, Opd, Opd),
    FNeg(u32, Ty, Opd),
    Cast(u32, Cast, Ty, Ty, Opd),
    Select(u32, Ty, Opd, Ty, Opd, Opd),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, Rc<Vec<GepStep>>),
    Alloca(u32, u64, Opd, u64),
    Extract(u32, Opd, Rc<Vec<usize>>),
    Insert(u32, Ty, Opd, Opd, Rc<Vec<usize>>),
    ExtractElem(u32, Opd, Opd),
    InsertElem(u32, Ty, Opd, Opd, Opd),
    Freeze(u32, Opd),
    Rmw(u32, &'static str, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Fence,
    /// dst (u32::MAX if void), return type, callee, args, normal successor if invoke
    Call(u32, Ty, Callee, Rc<Vec<(Ty, Opd)>>, Option<u32>, bool),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u16, Opd, u32, Rc<Vec<(u64, u32)>>),
    Ret(Option<Opd>),
    Unreachable,
    Unsupported(Rc<String>),
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Opd)>,
}
#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
    pub line: u32,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub sym: u32,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    /// immediate post-dominator of each block, u32::MAX = function exit
    pub ipdom: Vec<u32>,
    pub live_in: Vec<Vec<u64>>,
}
pub const EXIT: u32 = u32::MAX;
pub const NOREG: u32 = u32::MAX;

pub enum Sym {
    Def(usize, usize), // byte range of function text
    Decl,
    Global(usize, usize),
    Alias(String),
}

pub struct Module {
    pub text: Rc<String>,
    pub names: Vec<String>,
    pub syms: Vec<Sym>,
    pub by_name: HashMap<String, u32>,
    pub types: HashMap<String, (usize, usize)>,
}

/// An initialised global: bytes plus size/alignment/constness.
pub struct GlobalInit {
    pub bytes: Vec<u8>,
    pub constant: bool,
}

fn symbol_at(s: &str) -> Option<(String, usize)> {
    // s starts with '@' or '%'
    let b = s.as_bytes();
    if b.len() > 1 && b[1] == b'"' {
        let e = s[2..].find('"')? + 2;
        Some((s[2..e].to_string(), e + 1))
    } else {
        let mut i = 1;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) {
            i += 1;
        }
        Some((s[1..i].to_string(), i))
    }
}

impl Module {
    pub fn load(path: &str) -> Result<Module, String> {
        let text = std::fs::read(path).map_err(|e| format!("{path}: {e}"))?;
        let text = String::from_utf8_lossy(&text).into_owned();
        let mut m = Module {
            text: Rc::new(String::new()),
            names: vec![],
            syms: vec![],
            by_name: HashMap::new(),
            types: HashMap::new(),
        };
        let mut pos = 0usize;
        let mut cur: Option<(String, usize)> = None;
        for line in text.split_inclusive('\n') {
            let start = pos;
            pos += line.len();
            let b = line.as_bytes();
            match b[0] {
                b'@' => {
                    let (n, l) = symbol_at(line).ok_or("bad global")?;
                    let rest = &line[l..];
                    if rest.contains(" alias ") && rest.trim_start().starts_with('=') && {
                        let head: Vec<&str> = rest.split_whitespace().take(8).collect();
                        head.contains(&"alias")
                    } {
                        let t = rest.rfind('@').map(|k| symbol_at(&rest[k..]).unwrap().0).unwrap_or_default();
                        m.add(n, Sym::Alias(t));
                    } else {
                        m.add(n, Sym::Global(start + l, pos));
                    }
                }
                b'%' => {
                    if let Some((n, l)) = symbol_at(line) {
                        m.types.insert(n, (start + l, pos));
                    }
                }
                b'd' if line.starts_with("define ") => {
                    let k = line.find('@').ok_or("bad define")?;
                    let (n, _) = symbol_at(&line[k..]).ok_or("bad define")?;
                    cur = Some((n, start));
                }
                b'd' if line.starts_with("declare ") => {
                    let k = line.find('@').ok_or("bad declare")?;
                    let (n, _) = symbol_at(&line[k..]).ok_or("bad declare")?;
                    m.add(n, Sym::Decl);
                }
                b'}' => {
                    if let Some((n, s)) = cur.take() {
                        m.add(n, Sym::Def(s, pos));
                    }
                }
                _ => {}
            }
        }
        m.text = Rc::new(text);
        Ok(m)
    }
    fn add(&mut self, n: String, s: Sym) {
        if let Some(i) = self.by_name.get(&n) {
            if let Sym::Decl = self.syms[*i as usize] {
                self.syms[*i as usize] = s;
            }
            return;
        }
        let i = self.names.len() as u32;
        self.by_name.insert(n.clone(), i);
        self.names.push(n);
        self.syms.push(s);
    }
    pub fn sym(&mut self, n: &str) -> u32 {
        if let Some(i) = self.by_name.get(n) {
            if let Sym::Alias(t) = &self.syms[*i as usize] {
                let t = t.clone();
                return self.sym(&t);
            }
            return *i;
        }
        self.add(n.to_string(), Sym::Decl);
        self.by_name[n]
    }
    pub fn sym_addr(&mut self, n: &str) -> u64 {
        let i = self.sym(n);
        match self.syms[i as usize] {
            Sym::Global(..) => base_addr(GLOBAL_ID + i as u64),
            _ => base_addr(FUNC_ID + i as u64),
        }
    }
    pub fn global_init(&mut self, cx: &mut Ctx, sym: u32) -> Result<GlobalInit, String> {
        let (s, e) = match self.syms[sym as usize] {
            Sym::Global(s, e) => (s, e),
            _ => return Err("not a global".into()),
        };
        let text = self.text.clone();
        let mut p = P::new(&text[s..e], self, cx);
        p.expect("=")?;
        let mut constant = false;
        let mut external = false;
        loop {
            let t = p.next();
            match t {
                T::W("constant") => {
                    constant = true;
                    break;
                }
                T::W("global") => break,
                T::W("external") | T::W("extern_weak") => external = true,
                T::P("(") => {
                    let mut d = 1;
                    while d > 0 {
                        match p.next() {
                            T::P("(") => d += 1,
                            T::P(")") => d -= 1,
                            T::End => return Err("global".into()),
                            _ => {}
                        }
                    }
                }
                T::End => return Err("global syntax".into()),
                _ => {}
            }
        }
        let ty = p.ty()?;
        let mut bytes = vec![0u8; ty.size() as usize];
        if !external {
            p.init(&ty, &mut bytes, 0)?;
        }
        Ok(GlobalInit { bytes, constant })
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T<'a> {
    W(&'a str),       // word or number
    L(&'a str),       // %local (without %)
    G(&'a str),       // @global
    S(&'a str),       // "string" contents
    Cs(&'a str),      // c"string" contents
    P(&'a str),       // punctuation
    Meta,             // ! something
    Attr,             // #n
    End,
}

fn lex<'a>(s: &'a str) -> Vec<T<'a>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let st;
                let e;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    st = i + 2;
                    e = st + s[st..].find('"').unwrap_or(0);
                    i = e + 1;
                } else {
                    st = i + 1;
                    let mut k = st;
                    while k < b.len() && (b[k].is_ascii_alphanumeric() || matches!(b[k], b'_' | b'.' | b'$' | b'-')) {
                        k += 1;
                    }
                    e = k;
                    i = k;
                }
                out.push(if c == b'%' { T::L(&s[st..e]) } else { T::G(&s[st..e]) });
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let e = st + s[st..].find('"').unwrap_or(0);
                out.push(T::Cs(&s[st..e]));
                i = e + 1;
            }
            b'"' => {
                let st = i + 1;
                let e = st + s[st..].find('"').unwrap_or(0);
                out.push(T::S(&s[st..e]));
                i = e + 1;
            }
            b'!' => {
                out.push(T::Meta);
                i += 1;
                // swallow the name
                while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.')) {
                    i += 1;
                }
            }
            b'#' => {
                out.push(T::Attr);
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(T::W("..."));
                i += 3;
            }
            _ if c.is_ascii_alphanumeric() || c == b'_' || c == b'-' || c == b'.' || c == b'+' => {
                let st = i;
                while i < b.len()
                    && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'-' | b'+' | b'$'))
                {
                    i += 1;
                }
                out.push(T::W(&s[st..i]));
            }
            _ => {
                out.push(T::P(&s[i..i + 1]));
                i += 1;
            }
        }
    }
    out
}

struct P<'a, 'm> {
    t: Vec<T<'a>>,
    i: usize,
    m: &'m mut Module,
    cx: &'m mut Ctx,
}
type R<X> = Result<X, String>;

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let k = self.regs.len() as u32;
        self.regs.insert(n.to_string(), k);
        k
    }
}

const FLAGS: &[&str] = &[
    "nuw", "nsw", "exact", "disjoint", "nneg", "inbounds", "nusw", "samesign", "fast", "nnan", "ninf", "nsz", "arcp",
    "contract", "afn", "reassoc", "volatile", "atomic", "inrange",
];

impl<'a, 'm> P<'a, 'm> {
    fn new(s: &'a str, m: &'m mut Module, cx: &'m mut Ctx) -> Self {
        P { t: lex(s), i: 0, m, cx }
    }
    fn peek(&self) -> T<'a> {
        self.t.get(self.i).copied().unwrap_or(T::End)
    }
    fn next(&mut self) -> T<'a> {
        let r = self.peek();
        self.i += 1;
        r
    }
    fn expect(&mut self, p: &str) -> R<()> {
        match self.next() {
            T::P(x) | T::W(x) if x == p => Ok(()),
            t => Err(format!("expected {p}, got {t:?}")),
        }
    }
    fn eat(&mut self, p: &str) -> bool {
        match self.peek() {
            T::P(x) | T::W(x) if x == p => {
                self.i += 1;
                true
            }
            _ => false,
        }
    }
    fn flags(&mut self) {
        loop {
            match self.peek() {
                T::W(w) if FLAGS.contains(&w) => self.i += 1,
                T::W("inrange") => self.i += 1,
                _ => return,
            }
            if self.peek() == T::P("(") {
                // inrange(a, b)
                self.parens();
            }
        }
    }
    fn parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                T::P("(") => d += 1,
                T::P(")") => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::End => return,
                _ => {}
            }
        }
    }
    fn is_ty(&self) -> bool {
        match self.peek() {
            T::W(w) => {
                matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "label" | "token" | "half")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            T::P("{") | T::P("[") | T::P("<") => true,
            T::L(n) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = self.next();
        match t {
            T::W("void") => Ok(Ty::Void),
            T::W("ptr") => Ok(Ty::Ptr),
            T::W("float") => Ok(Ty::F32),
            T::W("double") => Ok(Ty::F64),
            T::W("metadata") | T::W("label") | T::W("token") | T::W("half") => Ok(Ty::Other),
            T::W(w) if w.starts_with('i') => {
                let n: u16 = w[1..].parse().map_err(|_| format!("type {w}"))?;
                if n > 128 {
                    return Err(format!("type {w}"));
                }
                Ok(Ty::Int(n))
            }
            T::P("[") => {
                let n = self.num()?;
                self.expect("x")?;
                let e = self.ty()?;
                self.expect("]")?;
                Ok(Ty::Arr(n, Rc::new(e)))
            }
            T::P("{") => {
                let mut f = vec![];
                if !self.eat("}") {
                    loop {
                        f.push(self.ty()?);
                        if self.eat("}") {
                            break;
                        }
                        self.expect(",")?;
                    }
                }
                Ok(Ty::Struct(Rc::new(f), false))
            }
            T::P("<") => {
                if self.eat("{") {
                    let mut f = vec![];
                    if !self.eat("}") {
                        loop {
                            f.push(self.ty()?);
                            if self.eat("}") {
                                break;
                            }
                            self.expect(",")?;
                        }
                    }
                    self.expect(">")?;
                    return Ok(Ty::Struct(Rc::new(f), true));
                }
                let n = self.num()?;
                self.expect("x")?;
                let e = self.ty()?;
                self.expect(">")?;
                Ok(Ty::Vec(n, Rc::new(e)))
            }
            T::L(n) => {
                let (s, e) = *self.m.types.get(n).ok_or(format!("type %{n}"))?;
                let text = self.m.text.clone();
                let mut p = P::new(&text[s..e], self.m, self.cx);
                p.expect("=")?;
                p.expect("type")?;
                p.ty()
            }
            t => Err(format!("type {t:?}")),
        }
    }
    fn num(&mut self) -> R<u64> {
        match self.next() {
            T::W(w) => w.parse().map_err(|_| format!("number {w}")),
            t => Err(format!("number {t:?}")),
        }
    }
    /// an integer constant expression / scalar constant of type ty
    fn cval(&mut self, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => return self.cagg(ty),
            _ => {}
        }
        let w = ty.bits();
        let t = self.next();
        let v: u128 = match t {
            T::W("true") => 1,
            T::W("false") | T::W("null") | T::W("zeroinitializer") => 0,
            T::W("undef") | T::W("poison") => 0,
            T::W("none") => 0,
            T::G(n) => {
                let n = n.to_string();
                self.m.sym_addr(&n) as u128
            }
            T::W(op @ ("getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "add" | "sub"
            | "mul" | "xor" | "and" | "or" | "shl" | "lshr" | "ptrtoaddr")) => self.cexpr(op, w)?,
            T::W(x) => {
                if let Ty::F32 | Ty::F64 = ty {
                    let bits: u64 = if let Some(h) = x.strip_prefix("f0x") {
                        return Ok(Val::K(u64::from_str_radix(h, 16).map_err(|_| format!("fp {x}"))?));
                    } else if let Some(h) = x.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).map_err(|_| format!("fp {x}"))?
                    } else {
                        x.parse::<f64>().map_err(|_| format!("fp {x}"))?.to_bits()
                    };
                    if *ty == Ty::F32 {
                        (f64::from_bits(bits) as f32).to_bits() as u128
                    } else {
                        bits as u128
                    }
                } else if let Ok(v) = x.parse::<i128>() {
                    v as u128
                } else {
                    x.parse::<u128>().map_err(|_| format!("constant {x}"))?
                }
            }
            t => return Err(format!("constant {t:?}")),
        };
        let v = v & mask(w);
        if w <= 64 {
            Ok(Val::K(v as u64))
        } else {
            Ok(Val::S(self.cx.cst(v, w)))
        }
    }
    fn cexpr(&mut self, op: &str, _w: u16) -> R<u128> {
        self.flags();
        self.expect("(")?;
        let r = match op {
            "getelementptr" => {
                let t = self.ty()?;
                self.expect(",")?;
                let (_, base) = self.tcval()?;
                let mut addr = base as u64;
                let mut cur = t;
                let mut first = true;
                while self.eat(",") {
                    let (it, iv) = self.tcval()?;
                    let iv = sx(iv, it.bits()) as i64;
                    if first {
                        addr = addr.wrapping_add((cur.size() as i64).wrapping_mul(iv) as u64);
                        first = false;
                    } else {
                        addr = addr.wrapping_add(cur.field_off(iv as usize));
                        cur = cur.elem(iv as usize);
                    }
                }
                addr as u128
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                let (_, v) = self.tcval()?;
                self.expect("to")?;
                self.ty()?;
                v
            }
            "sext" => {
                let (t, v) = self.tcval()?;
                self.expect("to")?;
                self.ty()?;
                sx(v, t.bits()) as u128
            }
            _ => {
                let (_, a) = self.tcval()?;
                self.expect(",")?;
                let (_, b) = self.tcval()?;
                match op {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    "xor" => a ^ b,
                    "and" => a & b,
                    "or" => a | b,
                    "shl" => a << (b & 127),
                    _ => a >> (b & 127),
                }
            }
        };
        self.expect(")")?;
        Ok(r)
    }
    fn tcval(&mut self) -> R<(Ty, u128)> {
        let t = self.ty()?;
        self.flags();
        let v = self.cval(&t)?;
        match v {
            Val::K(k) => Ok((t, k as u128)),
            Val::S(e) => Ok((t, self.cx.as_const(e).unwrap_or(0))),
            _ => Err("aggregate constant expression".into()),
        }
    }
    fn cagg(&mut self, ty: &Ty) -> R<Val> {
        let n = ty.count();
        let zero = |p: &mut Self, t: &Ty| -> R<Val> { p.zero(t) };
        match self.next() {
            T::W("zeroinitializer") | T::W("undef") | T::W("poison") => {
                let mut v = vec![];
                for k in 0..n {
                    let e = ty.elem(k);
                    v.push(zero(self, &e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            T::W("splat") => {
                self.expect("(")?;
                let t = self.ty()?;
                let v = self.cval(&t)?;
                self.expect(")")?;
                Ok(Val::A(Rc::new(vec![v; n])))
            }
            T::Cs(s) => {
                let b = unescape(s);
                Ok(Val::A(Rc::new(b.into_iter().map(|x| Val::K(x as u64)).collect())))
            }
            T::P(open @ ("{" | "[" | "<")) => {
                let mut packed = false;
                if open == "<" && self.eat("{") {
                    packed = true;
                }
                let close = if packed || open == "{" {
                    "}"
                } else if open == "[" {
                    "]"
                } else {
                    ">"
                };
                let mut v = vec![];
                if !self.eat(close) {
                    loop {
                        let t = self.ty()?;
                        v.push(self.cval(&t)?);
                        if self.eat(close) {
                            break;
                        }
                        self.expect(",")?;
                    }
                }
                if packed {
                    self.expect(">")?;
                }
                Ok(Val::A(Rc::new(v)))
            }
            t => Err(format!("aggregate constant {t:?}")),
        }
    }
    fn zero(&mut self, t: &Ty) -> R<Val> {
        Ok(match t {
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let mut v = vec![];
                for k in 0..t.count() {
                    let e = t.elem(k);
                    v.push(self.zero(&e)?);
                }
                Val::A(Rc::new(v))
            }
            _ if t.bits() > 64 => Val::S(self.cx.cst(0, t.bits())),
            _ => Val::K(0),
        })
    }
    /// global initialiser straight into bytes
    fn init(&mut self, ty: &Ty, out: &mut [u8], off: usize) -> R<()> {
        match self.peek() {
            T::W("zeroinitializer") | T::W("undef") | T::W("poison") => {
                self.i += 1;
                return Ok(());
            }
            T::Cs(s) => {
                self.i += 1;
                let b = unescape(s);
                out[off..off + b.len()].copy_from_slice(&b);
                return Ok(());
            }
            _ => {}
        }
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let open = match self.next() {
                    T::P(p) => p,
                    t => return Err(format!("initialiser {t:?}")),
                };
                let packed = open == "<" && self.eat("{");
                for k in 0..ty.count() {
                    if k > 0 {
                        self.expect(",")?;
                    }
                    let t = self.ty()?;
                    self.init(&t, out, off + ty.field_off(k) as usize)?;
                }
                self.next();
                if packed {
                    self.next();
                }
                Ok(())
            }
            _ => {
                let v = self.cval(ty)?;
                let n = ty.size() as usize;
                let v: u128 = match v {
                    Val::K(k) => k as u128,
                    Val::S(e) => self.cx.as_const(e).unwrap(),
                    _ => 0,
                };
                for k in 0..n {
                    out[off + k] = (v >> (8 * k)) as u8;
                }
                Ok(())
            }
        }
    }
    fn opd(&mut self, ty: &Ty, f: &mut FnCtx) -> R<Opd> {
        if let T::L(n) = self.peek() {
            self.i += 1;
            return Ok(Opd::R(f.reg(n)));
        }
        Ok(Opd::C(self.cval(ty)?))
    }
    fn topd(&mut self, f: &mut FnCtx) -> R<(Ty, Opd)> {
        let t = self.ty()?;
        let o = self.opd(&t, f)?;
        Ok((t, o))
    }
    fn label(&mut self, f: &FnCtx) -> R<u32> {
        self.expect("label")?;
        match self.next() {
            T::L(n) => f.blocks.get(n).copied().ok_or(format!("label {n}")),
            t => Err(format!("label {t:?}")),
        }
    }
    fn inst(&mut self, f: &mut FnCtx) -> R<Result<Inst, Phi>> {
        let mut dst = NOREG;
        if let T::L(n) = self.peek() {
            self.i += 1;
            self.expect("=")?;
            dst = f.reg(n);
        }
        let op = match self.next() {
            T::W(w) => w,
            t => return Err(format!("opcode {t:?}")),
        };
        let bop = |o: &str| {
            Some(match o {
                "add" => Bop::Add,
                "sub" => Bop::Sub,
                "mul" => Bop::Mul,
                "udiv" => Bop::UDiv,
                "sdiv" => Bop::SDiv,
                "urem" => Bop::URem,
                "srem" => Bop::SRem,
                "and" => Bop::And,
                "or" => Bop::Or,
                "xor" => Bop::Xor,
                "shl" => Bop::Shl,
                "lshr" => Bop::LShr,
                "ashr" => Bop::AShr,
                _ => return None,
            })
        };
        if let Some(b) = bop(op) {
            self.flags();
            let t = self.ty()?;
            let a = self.opd(&t, f)?;
            self.expect(",")?;
            let c = self.opd(&t, f)?;
            return Ok(Ok(Inst::Bin(dst, b, t, a, c)));
        }
        let cast = match op {
            "trunc" => Some(Cast::Trunc),
            "zext" => Some(Cast::Zext),
            "sext" => Some(Cast::Sext),
            "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => Some(Cast::Bit),
            "sitofp" => Some(Cast::SiToFp),
            "uitofp" => Some(Cast::UiToFp),
            "fptosi" => Some(Cast::FpToSi),
            "fptoui" => Some(Cast::FpToUi),
            "fpext" => Some(Cast::FpExt),
            "fptrunc" => Some(Cast::FpTrunc),
            _ => None,
        };
        if let Some(c) = cast {
            self.flags();
            let (t, v) = self.topd(f)?;
            self.expect("to")?;
            let to = self.ty()?;
            return Ok(Ok(Inst::Cast(dst, c, t, to, v)));
        }
        Ok(Ok(match op {
            "icmp" => {
                self.flags();
                let p = match self.next() {
                    T::W("eq") => Pred::Eq,
                    T::W("ne") => Pred::Ne,
                    T::W("ult") => Pred::Ult,
                    T::W("ule") => Pred::Ule,
                    T::W("ugt") => Pred::Ugt,
                    T::W("uge") => Pred::Uge,
                    T::W("slt") => Pred::Slt,
                    T::W("sle") => Pred::Sle,
                    T::W("sgt") => Pred::Sgt,
                    T::W("sge") => Pred::Sge,
                    t => return Err(format!("icmp {t:?}")),
                };
                let t = self.ty()?;
                let a = self.opd(&t, f)?;
                self.expect(",")?;
                let b = self.opd(&t, f)?;
                Inst::ICmp(dst, p, t, a, b)
            }
            "fcmp" => {
                self.flags();
                let p = match self.next() {
                    T::W(w) => ["oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno"]
                        .iter()
                        .find(|x| **x == w)
                        .copied()
                        .ok_or("fcmp")?,
                    _ => return Err("fcmp".into()),
                };
                let t = self.ty()?;
                let a = self.opd(&t, f)?;
                self.expect(",")?;
                let b = self.opd(&t, f)?;
                Inst::FCmp(dst, p, t, a, b)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags();
                let p = ["fadd", "fsub", "fmul", "fdiv", "frem"].iter().find(|x| **x == op).copied().unwrap();
                let t = self.ty()?;
                let a = self.opd(&t, f)?;
                self.expect(",")?;
                let b = self.opd(&t, f)?;
                Inst::FBin(dst, p, t, a, b)
            }
            "fneg" => {
                self.flags();
                let (t, a) = self.topd(f)?;
                Inst::FNeg(dst, t, a)
            }
            "select" => {
                self.flags();
                let (ct, c) = self.topd(f)?;
                self.expect(",")?;
                let (t, a) = self.topd(f)?;
                self.expect(",")?;
                let (_, b) = self.topd(f)?;
                Inst::Select(dst, ct, c, t, a, b)
            }
            "load" => {
                self.flags();
                let t = self.ty()?;
                self.expect(",")?;
                let (_, p) = self.topd(f)?;
                Inst::Load(dst, t, p)
            }
            "store" => {
                self.flags();
                let (t, v) = self.topd(f)?;
                self.expect(",")?;
                let (_, p) = self.topd(f)?;
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                self.flags();
                let mut cur = self.ty()?;
                self.expect(",")?;
                let (_, base) = self.topd(f)?;
                let mut steps: Vec<GepStep> = vec![];
                let mut acc: i64 = 0;
                let mut first = true;
                while self.eat(",") {
                    if self.peek() == T::Meta {
                        break;
                    }
                    let (it, iv) = self.topd(f)?;
                    match &iv {
                        Opd::C(Val::K(k)) => {
                            let k = sx(*k as u128, it.bits()) as i64;
                            if first {
                                acc = acc.wrapping_add((cur.size() as i64).wrapping_mul(k));
                            } else {
                                acc = acc.wrapping_add(cur.field_off(k as usize) as i64);
                                cur = cur.elem(k as usize);
                            }
                        }
                        _ => {
                            let sz = if first { cur.size() } else { cur.elem(0).size() };
                            if !first {
                                cur = cur.elem(0);
                            }
                            steps.push(GepStep::Scaled(iv, it.bits(), sz));
                        }
                    }
                    first = false;
                }
                if acc != 0 {
                    steps.push(GepStep::Const(acc as u64));
                }
                Inst::Gep(dst, base, Rc::new(steps))
            }
            "alloca" => {
                let t = self.ty()?;
                let mut n = Opd::C(Val::K(1));
                let mut al = t.align();
                while self.eat(",") {
                    if self.eat("align") {
                        al = self.num()?;
                    } else if self.is_ty() {
                        n = self.topd(f)?.1;
                    } else {
                        break;
                    }
                }
                Inst::Alloca(dst, t.size(), n, al)
            }
            "extractvalue" => {
                let (_, a) = self.topd(f)?;
                let mut idx = vec![];
                while self.eat(",") {
                    if self.peek() == T::Meta {
                        break;
                    }
                    idx.push(self.num()? as usize);
                }
                Inst::Extract(dst, a, Rc::new(idx))
            }
            "insertvalue" => {
                let (t, a) = self.topd(f)?;
                self.expect(",")?;
                let (_, v) = self.topd(f)?;
                let mut idx = vec![];
                while self.eat(",") {
                    if self.peek() == T::Meta {
                        break;
                    }
                    idx.push(self.num()? as usize);
                }
                Inst::Insert(dst, t, a, v, Rc::new(idx))
            }
            "extractelement" => {
                let (_, a) = self.topd(f)?;
                self.expect(",")?;
                let (_, k) = self.topd(f)?;
                Inst::ExtractElem(dst, a, k)
            }
            "insertelement" => {
                let (t, a) = self.topd(f)?;
                self.expect(",")?;
                let (_, v) = self.topd(f)?;
                self.expect(",")?;
                let (_, k) = self.topd(f)?;
                Inst::InsertElem(dst, t, a, v, k)
            }
            "freeze" => {
                let (_, a) = self.topd(f)?;
                Inst::Freeze(dst, a)
            }
            "fence" => Inst::Fence,
            "atomicrmw" => {
                self.flags();
                let o = match self.next() {
                    T::W(w) => ["xchg", "add", "sub", "and", "or", "xor", "nand", "max", "min", "umax", "umin"]
                        .iter()
                        .find(|x| **x == w)
                        .copied()
                        .ok_or("rmw")?,
                    _ => return Err("rmw".into()),
                };
                let (_, p) = self.topd(f)?;
                self.expect(",")?;
                let (t, v) = self.topd(f)?;
                Inst::Rmw(dst, o, t, p, v)
            }
            "cmpxchg" => {
                self.eat("weak");
                self.flags();
                let (_, p) = self.topd(f)?;
                self.expect(",")?;
                let (t, c) = self.topd(f)?;
                self.expect(",")?;
                let (_, n) = self.topd(f)?;
                Inst::CmpXchg(dst, t, p, c, n)
            }
            "phi" => {
                self.flags();
                let t = self.ty()?;
                let mut inc = vec![];
                loop {
                    if !self.eat("[") {
                        break;
                    }
                    let v = self.opd(&t, f)?;
                    self.expect(",")?;
                    let b = match self.next() {
                        T::L(n) => *f.blocks.get(n).ok_or(format!("phi label {n}"))?,
                        t => return Err(format!("phi {t:?}")),
                    };
                    self.expect("]")?;
                    inc.push((b, v));
                    if !self.eat(",") || self.peek() == T::Meta {
                        break;
                    }
                }
                return Ok(Err(Phi { dst, inc }));
            }
            "br" => {
                if self.peek() == T::W("label") {
                    Inst::Br(self.label(f)?)
                } else {
                    let (_, c) = self.topd(f)?;
                    self.expect(",")?;
                    let a = self.label(f)?;
                    self.expect(",")?;
                    let b = self.label(f)?;
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.topd(f)?;
                self.expect(",")?;
                let d = self.label(f)?;
                self.expect("[")?;
                let mut cs = vec![];
                while !self.eat("]") {
                    let (ct, c) = self.tcval()?;
                    self.expect(",")?;
                    let l = self.label(f)?;
                    cs.push(((c & mask(ct.bits())) as u64, l));
                }
                Inst::Switch(t.bits(), v, d, Rc::new(cs))
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.opd(&t, f)?))
                }
            }
            "unreachable" => Inst::Unreachable,
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    self.expect("call")?;
                }
                self.flags();
                while !self.is_ty() {
                    match self.next() {
                        T::P("(") => {
                            self.i -= 1;
                            self.parens();
                        }
                        T::End => return Err("call type".into()),
                        T::W("asm") => return Err("inline asm".into()),
                        _ => {}
                    }
                }
                let rt = self.ty()?;
                if self.peek() == T::P("(") {
                    self.parens();
                }
                let callee = match self.next() {
                    T::G(n) => {
                        let n = n.to_string();
                        Callee::Direct(self.m.sym(&n))
                    }
                    T::L(n) => Callee::Ind(Opd::R(f.reg(n))),
                    t => return Err(format!("callee {t:?}")),
                };
                self.expect("(")?;
                let mut args = vec![];
                if !self.eat(")") {
                    loop {
                        let t = self.ty()?;
                        if t == Ty::Other {
                            // metadata argument
                            let mut d = 0;
                            loop {
                                match self.peek() {
                                    T::P("(") => d += 1,
                                    T::P(")") if d == 0 => break,
                                    T::P(")") => d -= 1,
                                    T::P(",") if d == 0 => break,
                                    T::End => return Err("metadata".into()),
                                    _ => {}
                                }
                                self.i += 1;
                            }
                        } else {
                            let mut byval = false;
                            loop {
                                match self.peek() {
                                    T::W("align") => self.i += 2,
                                    T::W(
                                        "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "add"
                                        | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" | "true" | "false" | "null"
                                        | "undef" | "poison" | "zeroinitializer" | "splat" | "ptrtoaddr" | "none",
                                    ) => break,
                                    T::W(w) if w.as_bytes()[0].is_ascii_alphabetic() => {
                                        if w == "byval" {
                                            byval = true;
                                        }
                                        self.i += 1;
                                        if self.peek() == T::P("(") {
                                            self.parens();
                                        }
                                    }
                                    _ => break,
                                }
                            }
                            if byval {
                                return Err("byval argument".into());
                            }
                            let o = self.opd(&t, f)?;
                            args.push((t, o));
                        }
                        if self.eat(")") {
                            break;
                        }
                        self.expect(",")?;
                    }
                }
                let mut norm = None;
                if op == "invoke" {
                    // skip attributes up to "to label"
                    loop {
                        match self.next() {
                            T::W("to") => break,
                            T::End => return Err("invoke".into()),
                            _ => {}
                        }
                    }
                    norm = Some(self.label(f)?);
                }
                Inst::Call(dst, rt, callee, Rc::new(args), norm, false)
            }
            _ => return Err(format!("opcode {op}")),
        }))
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
                continue;
            }
            out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

pub fn parse_func(m: &mut Module, cx: &mut Ctx, sym: u32) -> R<Func> {
    let (s, e) = match m.syms[sym as usize] {
        Sym::Def(s, e) => (s, e),
        _ => return Err("no body".into()),
    };
    let text = m.text.clone();
    let body = &text[s..e];
    let mut lines = body.lines();
    let head = lines.next().unwrap();
    let mut f = FnCtx { regs: HashMap::new(), blocks: HashMap::new() };
    // parameters: the parenthesised list after the function name
    let mut params = vec![];
    {
        let at = head.find('@').unwrap();
        let toks = lex(&head[at..]);
        // toks[0] = G(name), toks[1] = "("
        let mut i = 2;
        let mut d = 1;
        while i < toks.len() && d > 0 {
            match toks[i] {
                T::P("(") => d += 1,
                T::P(")") => d -= 1,
                T::L(n) if d == 1 && matches!(toks[i + 1], T::P(",") | T::P(")")) => params.push(f.reg(n)),
                T::W("byval") => return Err("byval parameter".into()),
                T::W("...") if d == 1 => return Err("varargs".into()),
                _ => {}
            }
            i += 1;
        }
    }
    // blocks: label lines start at column 0
    struct Raw<'x> {
        lines: Vec<(u32, std::borrow::Cow<'x, str>)>,
    }
    let mut raws: Vec<Raw> = vec![Raw { lines: vec![] }];
    let mut entry_named = false;
    let mut ln = 0u32;
    let mut it = lines.peekable();
    while let Some(l) = it.next() {
        ln += 1;
        if l.starts_with('}') {
            break;
        }
        if l.is_empty() || l.starts_with(';') {
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let name = if let Some(r) = l.strip_prefix('"') {
                r[..r.find('"').unwrap()].to_string()
            } else {
                l[..l.find(':').ok_or("label line")?].to_string()
            };
            if raws.len() == 1 && raws[0].lines.is_empty() && !entry_named {
                entry_named = true;
                f.blocks.insert(name, 0);
            } else {
                f.blocks.insert(name, raws.len() as u32);
                raws.push(Raw { lines: vec![] });
            }
            continue;
        }
        let mut s: std::borrow::Cow<str> = l.into();
        let tr = l.trim_start();
        if tr.starts_with("switch ") && tr.trim_end().ends_with('[') {
            while let Some(n) = it.next() {
                ln += 1;
                s.to_mut().push(' ');
                s.to_mut().push_str(n);
                if n.trim_start().starts_with(']') {
                    break;
                }
            }
        }
        if tr.contains("invoke ") {
            if let Some(n) = it.peek() {
                if n.trim_start().starts_with("to label") {
                    let n = it.next().unwrap();
                    ln += 1;
                    s.to_mut().push(' ');
                    s.to_mut().push_str(n);
                }
            }
        }
        if tr.contains("landingpad") {
            while let Some(n) = it.peek() {
                let t = n.trim_start();
                if t.starts_with("catch") || t.starts_with("cleanup") || t.starts_with("filter") {
                    it.next();
                    ln += 1;
                } else {
                    break;
                }
            }
        }
        if tr.starts_with("#dbg_") {
            continue;
        }
        raws.last_mut().unwrap().lines.push((ln, s));
    }
    if !entry_named {
        // implicit entry label: number = count of unnamed parameters
        let n = head_unnamed(head);
        f.blocks.insert(n.to_string(), 0);
    }
    let mut blocks = vec![];
    for r in &raws {
        let mut b = Block { phis: vec![], insts: vec![], line: r.lines.first().map(|x| x.0).unwrap_or(0) };
        for (_, l) in &r.lines {
            let mut p = P::new(l, m, cx);
            match p.inst(&mut f) {
                Ok(Ok(i)) => b.insts.push(i),
                Ok(Err(ph)) => b.phis.push(ph),
                Err(e) => b.insts.push(Inst::Unsupported(Rc::new(format!("{} in: {}", e, l.trim())))),
            }
        }
        if b.insts.is_empty() {
            b.insts.push(Inst::Unsupported(Rc::new("empty block".into())));
        }
        blocks.push(b);
    }
    // calls that never return: directly followed by unreachable
    for bi in 0..blocks.len() {
        for k in 0..blocks[bi].insts.len() {
            let nr = match &blocks[bi].insts[k] {
                Inst::Call(_, _, _, _, None, _) => matches!(blocks[bi].insts.get(k + 1), Some(Inst::Unreachable)),
                Inst::Call(_, _, _, _, Some(n), _) => matches!(blocks[*n as usize].insts[0], Inst::Unreachable),
                _ => false,
            };
            if nr {
                if let Inst::Call(_, _, _, _, _, flag) = &mut blocks[bi].insts[k] {
                    *flag = true;
                }
            }
        }
    }
    let nregs = f.regs.len() as u32;
    let ipdom = postdoms(&blocks);
    let live_in = liveness(&blocks, nregs);
    Ok(Func { name: m.names[sym as usize].clone(), sym, params, nregs, blocks, ipdom, live_in })
}

fn head_unnamed(head: &str) -> u32 {
    let at = head.find('@').unwrap();
    let toks = lex(&head[at..]);
    let mut n = 0;
    let mut d = 1;
    let mut i = 2;
    while i < toks.len() && d > 0 {
        match toks[i] {
            T::P("(") => d += 1,
            T::P(")") => d -= 1,
            T::L(x) if d == 1 && x.bytes().all(|c| c.is_ascii_digit()) => n += 1,
            _ => {}
        }
        i += 1;
    }
    n
}

pub fn succs(b: &Block) -> Vec<u32> {
    match b.insts.last().unwrap() {
        Inst::Br(x) => vec![*x],
        Inst::CondBr(_, a, c) => vec![*a, *c],
        Inst::Switch(_, _, d, cs) => {
            let mut v: Vec<u32> = cs.iter().map(|x| x.1).collect();
            v.push(*d);
            v.sort();
            v.dedup();
            v
        }
        Inst::Call(_, _, _, _, Some(n), nr) => {
            if *nr {
                vec![]
            } else {
                vec![*n]
            }
        }
        _ => vec![],
    }
}

fn postdoms(blocks: &[Block]) -> Vec<u32> {
    let n = blocks.len();
    let ex = n; // virtual exit
    let mut su: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, b) in blocks.iter().enumerate() {
        su[i] = succs(b).into_iter().map(|x| x as usize).collect();
        if let Inst::Ret(_) = b.insts.last().unwrap() {
            su[i].push(ex);
        }
    }
    let mut pr: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for i in 0..n {
        for s in &su[i] {
            pr[*s].push(i);
        }
    }
    // reverse post order on the reversed graph from exit
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut st = vec![(ex, 0usize)];
    seen[ex] = true;
    while let Some((x, k)) = st.pop() {
        if k < pr[x].len() {
            st.push((x, k + 1));
            let y = pr[x][k];
            if !seen[y] {
                seen[y] = true;
                st.push((y, 0));
            }
        } else {
            order.push(x);
        }
    }
    order.reverse();
    let mut num = vec![usize::MAX; n + 1];
    for (i, x) in order.iter().enumerate() {
        num[*x] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[ex] = ex;
    let mut ch = true;
    while ch {
        ch = false;
        for &x in order.iter().skip(1) {
            let mut new = usize::MAX;
            for &s in &su[x] {
                if idom[s] == usize::MAX {
                    continue;
                }
                if new == usize::MAX {
                    new = s;
                } else {
                    let (mut a, mut b) = (s, new);
                    while a != b {
                        while num[a] > num[b] {
                            a = idom[a];
                        }
                        while num[b] > num[a] {
                            b = idom[b];
                        }
                    }
                    new = a;
                }
            }
            if new != usize::MAX && idom[x] != new {
                idom[x] = new;
                ch = true;
            }
        }
    }
    (0..n).map(|i| if idom[i] == usize::MAX || idom[i] == ex { EXIT } else { idom[i] as u32 }).collect()
}

pub fn uses(i: &Inst, f: &mut dyn FnMut(u32)) {
    let mut o = |x: &Opd| {
        if let Opd::R(r) = x {
            f(*r)
        }
    };
    match i {
        Inst::Bin(_, _, _, a, b) | Inst::ICmp(_, _, _, a, b) | Inst::FCmp(_, _, _, a, b) | Inst::FBin(_, _, _, a, b) => {
            o(a);
            o(b)
        }
        Inst::FNeg(_, _, a) | Inst::Cast(_, _, _, _, a) | Inst::Load(_, _, a) | Inst::Extract(_, a, _) | Inst::Freeze(_, a) => o(a),
        Inst::Select(_, _, a, _, b, c) | Inst::CmpXchg(_, _, a, b, c) | Inst::InsertElem(_, _, a, b, c) => {
            o(a);
            o(b);
            o(c)
        }
        Inst::Store(_, a, b) | Inst::Insert(_, _, a, b, _) | Inst::ExtractElem(_, a, b) | Inst::Rmw(_, _, _, a, b) => {
            o(a);
            o(b)
        }
        Inst::Gep(_, a, s) => {
            o(a);
            for x in s.iter() {
                if let GepStep::Scaled(v, _, _) = x {
                    o(v)
                }
            }
        }
        Inst::Alloca(_, _, a, _) => o(a),
        Inst::Call(_, _, c, args, _, _) => {
            if let Callee::Ind(x) = c {
                o(x)
            }
            for (_, a) in args.iter() {
                o(a)
            }
        }
        Inst::CondBr(c, _, _) => o(c),
        Inst::Switch(_, v, _, _) => o(v),
        Inst::Ret(Some(v)) => o(v),
        _ => {}
    }
}
pub fn def(i: &Inst) -> u32 {
    match i {
        Inst::Bin(d, ..)
        | Inst::ICmp(d, ..)
        | Inst::FCmp(d, ..)
        | Inst::FBin(d, ..)
        | Inst::FNeg(d, ..)
        | Inst::Cast(d, ..)
        | Inst::Select(d, ..)
        | Inst::Load(d, ..)
        | Inst::Gep(d, ..)
        | Inst::Alloca(d, ..)
        | Inst::Extract(d, ..)
        | Inst::Insert(d, ..)
        | Inst::ExtractElem(d, ..)
        | Inst::InsertElem(d, ..)
        | Inst::Freeze(d, ..)
        | Inst::Rmw(d, ..)
        | Inst::CmpXchg(d, ..)
        | Inst::Call(d, ..) => *d,
        _ => NOREG,
    }
}

/// registers live after the phis of each block (phi results included when used)
fn liveness(blocks: &[Block], nregs: u32) -> Vec<Vec<u64>> {
    let w = (nregs as usize + 63) / 64;
    let n = blocks.len();
    let mut lin = vec![vec![0u64; w]; n]; // live after phis
    let set = |v: &mut Vec<u64>, r: u32| v[r as usize / 64] |= 1 << (r % 64);
    let clr = |v: &mut Vec<u64>, r: u32| v[r as usize / 64] &= !(1 << (r % 64));
    let mut ch = true;
    while ch {
        ch = false;
        for bi in (0..n).rev() {
            let b = &blocks[bi];
            let mut live = vec![0u64; w];
            for s in succs(b) {
                let sb = &blocks[s as usize];
                let mut l = lin[s as usize].clone();
                for p in &sb.phis {
                    clr(&mut l, p.dst);
                }
                for p in &sb.phis {
                    for (pb, o) in &p.inc {
                        if *pb == bi as u32 {
                            if let Opd::R(r) = o {
                                set(&mut l, *r);
                            }
                        }
                    }
                }
                for k in 0..w {
                    live[k] |= l[k];
                }
            }
            for i in b.insts.iter().rev() {
                let d = def(i);
                if d != NOREG {
                    clr(&mut live, d);
                }
                uses(i, &mut |r| set(&mut live, r));
            }
            if live != lin[bi] {
                lin[bi] = live;
                ch = true;
            }
        }
    }
    lin
}
