//! Textual LLVM IR (as emitted by rustc 1.83 / LLVM 19) -> compact instruction form.
use crate::expr::{mask, FxMap, Op};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Opaque,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (t.bits() * n).div_ceil(8).next_power_of_two(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => self.size() * 8,
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 0,
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                b.div_ceil(self.align()) * self.align()
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                let b = (t.bits() * n).div_ceil(8);
                b.div_ceil(self.align()) * self.align()
            }
            Ty::Struct(..) => self.field_offsets().1,
        }
    }
    pub fn field_offsets(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(f, packed) => {
                let mut off = 0;
                let mut v = vec![];
                for t in f.iter() {
                    if !*packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    v.push(off);
                    off += t.size();
                }
                let a = self.align();
                (v, (off + a - 1) / a * a)
            }
            _ => panic!("field_offsets"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    S(u32),
    W(Rc<u128>),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opd),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { d: u32, op: Op, w: u32, lanes: u32, a: Opd, b: Opd },
    ICmp { d: u32, p: Pred, w: u32, lanes: u32, a: Opd, b: Opd },
    FBin { d: u32, op: u8, f64_: bool, a: Opd, b: Opd },
    FCmp { d: u32, p: String, f64_: bool, a: Opd, b: Opd },
    FNeg { d: u32, f64_: bool, a: Opd },
    Cast { d: u32, k: CastK, from: Rc<Ty>, to: Rc<Ty>, a: Opd },
    Load { d: u32, ty: Rc<Ty>, p: Opd },
    Store { ty: Rc<Ty>, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: u64, terms: Vec<(Opd, u32, u64)> },
    GepVec { d: u32, base: Opd, off: u64, terms: Vec<(Opd, u32, u64)>, n: u32 },
    Alloca { d: u32, size: u64, align: u64, n: Opd },
    Select { d: u32, c: Opd, a: Opd, b: Opd, ty: Rc<Ty>, vec: bool },
    Freeze { d: u32, a: Opd },
    Call { d: u32, callee: Callee, args: Vec<(Opd, Rc<Ty>)>, ret: Rc<Ty>, normal: u32, phis: u32 },
    Asm { d: u32, text: String, ret: Rc<Ty> },
    ExtractValue { d: u32, a: Opd, idx: Vec<u32> },
    InsertValue { d: u32, a: Opd, v: Opd, idx: Vec<u32>, ty: Rc<Ty> },
    ExtractElem { d: u32, a: Opd, i: Opd },
    InsertElem { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, mask: Vec<i64>, n: u32 },
    AtomicRmw { d: u32, op: String, p: Opd, v: Opd, ty: Rc<Ty> },
    CmpXchg { d: u32, p: Opd, e: Opd, n: Opd, ty: Rc<Ty> },
    Br { t: u32, e: u32 },
    CondBr { c: Opd, t: u32, te: u32, f: u32, fe: u32 },
    Switch { v: Opd, w: u32, def: u32, defe: u32, cases: Vec<(u64, u32, u32)> },
    Ret { v: Option<Opd> },
    Unreachable,
    Bad(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    BitCast,
    PtrToInt,
    IntToPtr,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}

pub struct Func {
    pub name: String,
    pub id: u32,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub ret: Rc<Ty>,
    /// flattened instructions; block i starts at starts[i]
    pub code: Vec<Inst>,
    pub starts: Vec<u32>,
    /// phi edge copies
    pub edges: Vec<Vec<(u32, Opd)>>,
    pub uninit: Vec<Val>,
}

pub struct Module<'t> {
    pub text: &'t str,
    pub types: FxMap<String, Rc<Ty>>,
    pub globals: FxMap<String, u64>,
    /// (name, start offset of `define`, end)
    pub fn_src: Vec<(String, Option<(usize, usize)>)>,
    pub fn_ids: FxMap<String, u32>,
    /// thread-local variables (address, size)
    pub tls: Vec<(u64, u64)>,
    pub global_defs: Vec<(u64, usize, usize)>, // (addr, text range of "type init")
    pub global_tys: Vec<(u64, Rc<Ty>)>,
    pub aliases: Vec<(String, String)>,
    pub globals_end: u64,
}

pub const FN_BASE: u64 = 0x0800_0000;
pub const GLOBAL_BASE: u64 = 0x1000_0000;

// ---------------------------------------------------------------- tokenizer
#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'t> {
    Id(&'t str),
    Local(String),
    Global(String),
    Num(&'t str),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(char),
    Meta,
    Attr,
    End,
}

pub struct Lex<'t> {
    s: &'t [u8],
    t: &'t str,
    i: usize,
    pub end: usize,
    pub cur: Tok<'t>,
}
fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
pub fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    let hex = |c: u8| (c as char).to_digit(16);
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 {
            if let (Some(h), Some(l)) = (hex(b[i + 1]), hex(b[i + 2])) {
                o.push((h * 16 + l) as u8);
                i += 3;
                continue;
            }
        }
        if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
            continue;
        }
        o.push(b[i]);
        i += 1;
    }
    o
}
impl<'t> Lex<'t> {
    pub fn new(t: &'t str, start: usize, end: usize) -> Self {
        let mut l = Lex { s: t.as_bytes(), t, i: start, end, cur: Tok::End };
        l.next();
        l
    }
    pub fn pos(&self) -> usize {
        self.i
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let st = self.i;
        while self.s[self.i] != b'"' {
            self.i += 1;
        }
        let r = unescape(&self.s[st..self.i]);
        self.i += 1;
        r
    }
    pub fn next(&mut self) {
        loop {
            while self.i < self.end && (self.s[self.i] as char).is_ascii_whitespace() {
                self.i += 1;
            }
            if self.i < self.end && self.s[self.i] == b';' {
                while self.i < self.end && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        if self.i >= self.end {
            self.cur = Tok::End;
            return;
        }
        let c = self.s[self.i];
        self.cur = match c {
            b'%' | b'@' => {
                self.i += 1;
                let name = if self.s[self.i] == b'"' {
                    String::from_utf8_lossy(&self.quoted()).into_owned()
                } else {
                    let st = self.i;
                    while self.i < self.end && idch(self.s[self.i]) {
                        self.i += 1;
                    }
                    self.t[st..self.i].to_string()
                };
                if c == b'%' {
                    Tok::Local(name)
                } else {
                    Tok::Global(name)
                }
            }
            b'!' => {
                self.i += 1;
                if self.i < self.end && self.s[self.i] == b'{' {
                    while self.s[self.i] != b'}' {
                        self.i += 1;
                    }
                    self.i += 1;
                } else {
                    while self.i < self.end && idch(self.s[self.i]) {
                        self.i += 1;
                    }
                    if self.i < self.end && self.s[self.i] == b'"' {
                        self.quoted();
                    }
                }
                Tok::Meta
            }
            b'#' => {
                self.i += 1;
                while self.i < self.end && idch(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Attr
            }
            b'"' => Tok::Str(self.quoted()),
            b'c' if self.i + 1 < self.end && self.s[self.i + 1] == b'"' => {
                self.i += 1;
                Tok::CStr(self.quoted())
            }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.end && (idch(self.s[self.i]) || self.s[self.i] == b'+') {
                    self.i += 1;
                }
                Tok::Num(&self.t[st..self.i])
            }
            b'.' => {
                while self.i < self.end && self.s[self.i] == b'.' {
                    self.i += 1;
                }
                Tok::Id("...")
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let st = self.i;
                while self.i < self.end && idch(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Id(&self.t[st..self.i])
            }
            c => {
                self.i += 1;
                Tok::P(c as char)
            }
        };
    }
    pub fn take(&mut self) -> Tok<'t> {
        let t = std::mem::replace(&mut self.cur, Tok::End);
        self.next();
        t
    }
    pub fn is(&self, c: char) -> bool {
        self.cur == Tok::P(c)
    }
    pub fn isid(&self, s: &str) -> bool {
        matches!(self.cur, Tok::Id(x) if x == s)
    }
    pub fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn eatid(&mut self, s: &str) -> bool {
        if self.isid(s) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: char) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?} near {}", c, self.cur, &self.t[self.i.saturating_sub(80)..self.i]))
        }
    }
    pub fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.cur {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::End => return,
                _ => {}
            }
            self.next();
            if d == 0 {
                return;
            }
        }
    }
}

fn is_ty_id(s: &str) -> bool {
    matches!(
        s,
        "ptr" | "void" | "float" | "double" | "half" | "metadata" | "label" | "token" | "x86_fp80" | "opaque" | "fp128"
    ) || (s.len() > 1 && s.as_bytes()[0] == b'i' && s[1..].bytes().all(|c| c.is_ascii_digit()))
}

fn is_ty_start(t: &Tok) -> bool {
    match t {
        Tok::Id(s) => is_ty_id(s),
        Tok::P('[') | Tok::P('<') | Tok::P('{') => true,
        _ => false,
    }
}

type R<T> = Result<T, String>;

impl<'t> Module<'t> {
    pub fn ty(&self, l: &mut Lex<'t>) -> R<Rc<Ty>> {
        let t = match l.take() {
            Tok::Id("ptr") => {
                if l.eatid("addrspace") {
                    l.skip_balanced();
                }
                Ty::Ptr
            }
            Tok::Id("void") => Ty::Void,
            Tok::Id("float") => Ty::F32,
            Tok::Id("double") => Ty::F64,
            Tok::Id("metadata") | Tok::Id("label") | Tok::Id("token") | Tok::Id("opaque") | Tok::Id("half")
            | Tok::Id("x86_fp80") | Tok::Id("fp128") => Ty::Opaque,
            Tok::Id(s) if is_ty_id(s) => Ty::Int(s[1..].parse().unwrap()),
            Tok::P('[') => {
                let n = self.num(l)?;
                l.eatid("x");
                let t = self.ty(l)?;
                l.expect(']')?;
                Ty::Arr(n, t)
            }
            Tok::P('<') => {
                if l.is('{') {
                    l.next();
                    let f = self.tylist(l, '}')?;
                    l.expect('>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num(l)?;
                    l.eatid("x");
                    let t = self.ty(l)?;
                    l.expect('>')?;
                    Ty::Vec(n, t)
                }
            }
            Tok::P('{') => {
                let f = self.tylist(l, '}')?;
                Ty::Struct(Rc::new(f), false)
            }
            Tok::Local(n) => return self.types.get(&n).cloned().ok_or_else(|| format!("type {n}")),
            t => return Err(format!("type? {:?} near {}", t, &l.t[l.i.saturating_sub(100)..l.i])),
        };
        Ok(Rc::new(t))
    }
    fn num(&self, l: &mut Lex<'t>) -> R<u64> {
        match l.take() {
            Tok::Num(s) => s.parse::<u64>().map_err(|e| format!("{s} {e}")),
            t => Err(format!("num? {:?}", t)),
        }
    }
    fn tylist(&self, l: &mut Lex<'t>, close: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if l.eat(close) {
            return Ok(v);
        }
        loop {
            v.push((*self.ty(l)?).clone());
            if l.eat(close) {
                return Ok(v);
            }
            l.expect(',')?;
        }
    }

    // ------------------------------------------------------------ constants
    pub fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Int(w) if *w > 64 => Val::W(Rc::new(0)),
            Ty::Arr(n, t) | Ty::Vec(n, t) => Val::A(Rc::new(vec![Self::zero(t); *n as usize])),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(Self::zero).collect())),
            _ => Val::I(0),
        }
    }
    fn mkint(w: u32, v: u128) -> Val {
        let v = v & mask(w);
        if w > 64 {
            Val::W(Rc::new(v))
        } else {
            Val::I(v as u64)
        }
    }
    pub fn as_u(v: &Val) -> u128 {
        match v {
            Val::I(x) => *x as u128,
            Val::W(x) => **x,
            _ => panic!("as_u"),
        }
    }
    /// constant of the given type
    pub fn constant(&self, l: &mut Lex<'t>, ty: &Ty) -> R<Val> {
        let w = ty.bits() as u32;
        Ok(match l.take() {
            Tok::Id("true") => Val::I(1),
            Tok::Id("false") => Val::I(0),
            Tok::Id("null") | Tok::Id("none") => Val::I(0),
            Tok::Id("undef") | Tok::Id("poison") | Tok::Id("zeroinitializer") => Self::zero(ty),
            Tok::Id("splat") => {
                l.expect('(')?;
                let t = self.ty(l)?;
                let v = self.constant(l, &t)?;
                l.expect(')')?;
                let n = match ty {
                    Ty::Vec(n, _) => *n,
                    _ => return Err("splat".into()),
                };
                Val::A(Rc::new(vec![v; n as usize]))
            }
            Tok::Num(s) => match ty {
                Ty::F64 | Ty::F32 => {
                    let f: f64 = if let Some(h) = s.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
                    } else {
                        s.parse().map_err(|_| format!("float {s}"))?
                    };
                    if *ty == Ty::F64 {
                        Val::I(f.to_bits())
                    } else {
                        Val::I((f as f32).to_bits() as u64)
                    }
                }
                _ => {
                    let v: i128 = match s.parse::<i128>() {
                        Ok(v) => v,
                        Err(_) => s.parse::<u128>().map_err(|_| format!("int {s}"))? as i128,
                    };
                    Self::mkint(w, v as u128)
                }
            },
            Tok::CStr(b) => Val::A(Rc::new(b.into_iter().map(|x| Val::I(x as u64)).collect())),
            Tok::Global(n) => Val::I(self.global_addr(&n)?),
            Tok::P('[') => self.agg(l, ']')?,
            Tok::P('{') => self.agg(l, '}')?,
            Tok::P('<') => {
                if l.eat('{') {
                    let v = self.agg(l, '}')?;
                    l.expect('>')?;
                    v
                } else {
                    self.agg(l, '>')?
                }
            }
            Tok::Id("getelementptr") => {
                while let Tok::Id(s) = l.cur {
                    if is_ty_id(s) {
                        break;
                    }
                    l.next();
                    if l.is('(') && s == "inrange" {
                        l.skip_balanced();
                    }
                }
                l.expect('(')?;
                let t = self.ty(l)?;
                l.expect(',')?;
                let bt = self.ty(l)?;
                let mut a = Self::as_u(&self.constant(l, &bt)?) as u64;
                let mut cur: Rc<Ty> = t;
                let mut first = true;
                while l.eat(',') {
                    while l.isid("inrange") {
                        l.next();
                    }
                    let it = self.ty(l)?;
                    let iv = self.constant(l, &it)?;
                    let i = crate::expr::sext_to_i128(Self::as_u(&iv), it.bits() as u32) as i64;
                    if first {
                        a = a.wrapping_add((i as u64).wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        let (o, n) = Self::step_ty(&cur, i as u64)?;
                        a = a.wrapping_add(o);
                        cur = n;
                    }
                }
                l.expect(')')?;
                Val::I(a)
            }
            Tok::Id(op @ ("ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast")) => {
                l.expect('(')?;
                let t = self.ty(l)?;
                let v = self.constant(l, &t)?;
                l.eatid("to");
                let t2 = self.ty(l)?;
                l.expect(')')?;
                let _ = op;
                Self::mkint(t2.bits() as u32, Self::as_u(&v))
            }
            Tok::Id(op @ ("add" | "sub" | "and" | "or" | "xor" | "mul" | "shl" | "lshr")) => {
                while let Tok::Id(_) = l.cur {
                    l.next();
                }
                l.expect('(')?;
                let t = self.ty(l)?;
                let a = Self::as_u(&self.constant(l, &t)?);
                l.expect(',')?;
                let t2 = self.ty(l)?;
                let b = Self::as_u(&self.constant(l, &t2)?);
                l.expect(')')?;
                let v = match op {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "and" => a & b,
                    "or" => a | b,
                    "xor" => a ^ b,
                    "mul" => a.wrapping_mul(b),
                    "shl" => a << b,
                    _ => a >> b,
                };
                Self::mkint(t.bits() as u32, v)
            }
            Tok::Id("blockaddress") | Tok::Id("dso_local_equivalent") | Tok::Id("asm") => return Err("const kind".into()),
            Tok::Meta => Val::I(0),
            t => return Err(format!("const? {:?}", t)),
        })
    }
    fn agg(&self, l: &mut Lex<'t>, close: char) -> R<Val> {
        let mut v = vec![];
        if l.eat(close) {
            return Ok(Val::A(Rc::new(v)));
        }
        loop {
            let t = self.ty(l)?;
            v.push(self.constant(l, &t)?);
            if l.eat(close) {
                return Ok(Val::A(Rc::new(v)));
            }
            l.expect(',')?;
        }
    }
    pub fn step_ty(t: &Ty, i: u64) -> R<(u64, Rc<Ty>)> {
        Ok(match t {
            Ty::Arr(_, e) | Ty::Vec(_, e) => (i.wrapping_mul(e.size()), e.clone()),
            Ty::Struct(f, _) => {
                let (o, _) = t.field_offsets();
                (o[i as usize], Rc::new(f[i as usize].clone()))
            }
            _ => return Err("gep into scalar".into()),
        })
    }
    pub fn global_addr(&self, n: &str) -> R<u64> {
        if let Some(a) = self.globals.get(n) {
            return Ok(*a);
        }
        if let Some(i) = self.fn_ids.get(n) {
            return Ok(FN_BASE + *i as u64 * 16);
        }
        Err(format!("unknown global {n}"))
    }

    // ------------------------------------------------------------ module scan
    pub fn parse(text: &'t str) -> R<Module<'t>> {
        let mut m = Module {
            text,
            types: Default::default(),
            globals: Default::default(),
            fn_src: vec![],
            fn_ids: Default::default(),
            tls: vec![],
            global_defs: vec![],
            global_tys: vec![],
            aliases: vec![],
            globals_end: GLOBAL_BASE,
        };
        let b = text.as_bytes();
        let mut i = 0;
        let n = b.len();
        let mut glines: Vec<(usize, usize)> = vec![];
        let mut tlines: Vec<(usize, usize)> = vec![];
        while i < n {
            let e = memchr(b, b'\n', i);
            match b[i] {
                b'@' => glines.push((i, e)),
                b'd' if text[i..e].starts_with("define") => {
                    // find end: line "}"
                    let mut j = e + 1;
                    loop {
                        let je = memchr(b, b'\n', j);
                        if b[j] == b'}' {
                            break;
                        }
                        j = je + 1;
                    }
                    let name = fn_name(&text[i..e]);
                    m.add_fn(name, Some((i, j)));
                    i = j + 2;
                    continue;
                }
                b'd' if text[i..e].starts_with("declare") => {
                    let name = fn_name(&text[i..e]);
                    m.add_fn(name, None);
                }
                b'%' => tlines.push((i, e)),
                b'!' | b'a' if text[i..e].starts_with("attributes") || b[i] == b'!' => {
                    if b[i] == b'!' {
                        break; // only metadata from here
                    }
                }
                _ => {}
            }
            i = e + 1;
        }
        // named types may refer to later ones
        while !tlines.is_empty() {
            let before = tlines.len();
            let mut rest = vec![];
            for (s, e) in std::mem::take(&mut tlines) {
                let mut l = Lex::new(text, s, e);
                if let Tok::Local(nm) = l.take() {
                    l.expect('=')?;
                    l.eatid("type");
                    match m.ty(&mut l) {
                        Ok(t) => {
                            m.types.insert(nm, t);
                        }
                        Err(_) => rest.push((s, e)),
                    }
                }
            }
            if rest.len() == before {
                return Err("unresolvable types".into());
            }
            tlines = rest;
        }
        // first pass over globals: addresses
        let mut addr = GLOBAL_BASE;
        let mut defs = vec![];
        for (s, e) in glines {
            let mut l = Lex::new(text, s, e);
            let name = match l.take() {
                Tok::Global(n) => n,
                _ => continue,
            };
            l.expect('=')?;
            let mut external = false;
            let mut weak = false;
            let mut alias = false;
            let mut tls = false;
            loop {
                match l.cur {
                    Tok::Id("global") | Tok::Id("constant") => {
                        l.next();
                        break;
                    }
                    Tok::Id("alias") => {
                        l.next();
                        alias = true;
                        break;
                    }
                    Tok::Id("external") | Tok::Id("extern_weak") => {
                        weak = l.isid("extern_weak");
                        external = true;
                        l.next();
                    }
                    Tok::Id("thread_local") => {
                        tls = true;
                        l.next();
                    }
                    Tok::P('(') => l.skip_balanced(),
                    Tok::End => return Err(format!("global {name}")),
                    _ => l.next(),
                }
            }
            if alias {
                let _ = m.ty(&mut l)?;
                if l.is('(') {
                    l.skip_balanced();
                }
                l.expect(',')?;
                let _ = m.ty(&mut l)?;
                if let Tok::Global(t) = l.take() {
                    m.aliases.push((name, t));
                }
                continue;
            }
            if weak {
                // weak symbols are absent: null address, calls to them are errors
                m.globals.insert(name.clone(), 0);
                m.add_fn(name, None);
                continue;
            }
            let ty = m.ty(&mut l)?;
            let mut align = ty.align().max(8);
            if let Some(k) = text[s..e].rfind(", align ") {
                let d: String = text[s + k + 8..e].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(a) = d.parse::<u64>() {
                    align = align.max(a);
                }
            }
            addr = (addr + align - 1) / align * align;
            m.globals.insert(name.clone(), addr);
            let sz = ty.size();
            if tls {
                m.tls.push((addr, sz));
            }
            if !external {
                // the lexer has already advanced over one token of the initializer; remember position via re-lex
                defs.push((addr, ty.clone(), s, e));
            } else {
                m.global_tys.push((addr, ty.clone()));
            }
            addr += sz.max(1);
        }
        for (a, t, s, e) in defs {
            m.global_defs.push((a, s, e));
            m.global_tys.push((a, t));
        }
        for (n, t) in m.aliases.clone() {
            if let Some(i) = m.fn_ids.get(&t).cloned() {
                m.fn_ids.insert(n, i);
            } else if let Some(a) = m.globals.get(&t).cloned() {
                m.globals.insert(n, a);
            }
        }
        m.globals_end = addr;
        Ok(m)
    }
    /// (type, initial value) of a global definition line
    pub fn global_init(&self, s: usize, e: usize) -> R<(Rc<Ty>, Val)> {
        let mut l = Lex::new(self.text, s, e);
        l.next();
        l.expect('=')?;
        loop {
            match l.cur {
                Tok::Id("global") | Tok::Id("constant") => {
                    l.next();
                    break;
                }
                Tok::P('(') => l.skip_balanced(),
                Tok::End => return Err("global".into()),
                _ => l.next(),
            }
        }
        let ty = self.ty(&mut l)?;
        let v = self.constant(&mut l, &ty)?;
        Ok((ty, v))
    }
    fn add_fn(&mut self, name: String, src: Option<(usize, usize)>) {
        let id = self.fn_src.len() as u32;
        self.fn_ids.insert(name.clone(), id);
        self.fn_src.push((name, src));
    }

    // ------------------------------------------------------------ functions
    pub fn compile(&self, id: u32) -> R<Func> {
        let (name, src) = &self.fn_src[id as usize];
        let (s, e) = src.ok_or_else(|| format!("no body: {name}"))?;
        let mut fc = FnC { m: self, regs: Default::default(), nregs: 0 };
        let he = memchr(self.text.as_bytes(), b'\n', s);
        // header
        let mut l = Lex::new(self.text, s, he);
        l.next(); // define
        let ret = loop {
            if is_ty_start(&l.cur) {
                break self.ty(&mut l)?;
            }
            match &l.cur {
                Tok::Local(n) if self.types.contains_key(n) => break self.ty(&mut l)?,
                _ => {}
            }
            if l.is('(') {
                l.skip_balanced();
            } else {
                l.next();
            }
        };
        l.next(); // @name
        l.expect('(')?;
        let mut params = vec![];
        let mut unnamed = 0u32;
        while !l.is(')') {
            if l.isid("...") {
                l.next();
                continue;
            }
            let _t = self.ty(&mut l)?;
            let mut nm = None;
            while !l.is(',') && !l.is(')') {
                if let Tok::Local(n) = &l.cur {
                    nm = Some(n.clone());
                    l.next();
                } else if l.is('(') {
                    l.skip_balanced();
                } else {
                    l.next();
                }
            }
            let nm = nm.unwrap_or_else(|| unnamed.to_string());
            if nm.bytes().all(|c| c.is_ascii_digit()) {
                unnamed += 1;
            }
            params.push(fc.reg(&nm));
            l.eat(',');
        }
        // body: logical lines
        let body = &self.text[he + 1..e];
        let base = he + 1;
        let mut blocks: Vec<(String, Vec<(usize, usize)>)> = vec![];
        let mut pos = 0;
        let bb = body.as_bytes();
        while pos < bb.len() {
            let le = memchr(bb, b'\n', pos);
            let line = &body[pos..le];
            let lstart = pos;
            pos = le + 1;
            let tr = line.trim_start();
            if tr.is_empty() || tr.starts_with(';') || tr.starts_with("#dbg") {
                continue;
            }
            if !line.starts_with(' ') {
                // label
                let lab = if line.starts_with('"') {
                    let q = line[1..].find('"').unwrap() + 1;
                    String::from_utf8_lossy(&unescape(line[1..q].as_bytes())).into_owned()
                } else {
                    line[..line.find(':').ok_or("label")?].to_string()
                };
                blocks.push((lab, vec![]));
                continue;
            }
            let mut lend = le;
            let has = |s: &str| line.contains(s);
            if tr.starts_with("switch ") && !has("]") {
                loop {
                    let le2 = memchr(bb, b'\n', pos);
                    let l2 = &body[pos..le2];
                    pos = le2 + 1;
                    lend = le2;
                    if l2.trim_start().starts_with(']') {
                        break;
                    }
                }
            } else if has("invoke ") {
                let le2 = memchr(bb, b'\n', pos);
                if body[pos..le2].trim_start().starts_with("to label") {
                    pos = le2 + 1;
                    lend = le2;
                }
            } else if has("landingpad") {
                loop {
                    if pos >= bb.len() {
                        break;
                    }
                    let le2 = memchr(bb, b'\n', pos);
                    let t2 = body[pos..le2].trim_start();
                    if t2.starts_with("cleanup") || t2.starts_with("catch") || t2.starts_with("filter") {
                        pos = le2 + 1;
                        lend = le2;
                    } else {
                        break;
                    }
                }
            }
            if blocks.is_empty() {
                // implicit entry label: numbered after params
                blocks.push((format!("{}", unnamed), vec![]));
            }
            blocks.last_mut().unwrap().1.push((base + lstart, base + lend));
        }
        let mut bidx: FxMap<String, u32> = Default::default();
        for (i, (n, _)) in blocks.iter().enumerate() {
            bidx.insert(n.clone(), i as u32);
        }
        // collect phis
        // per block: Vec<(dst, Vec<(Opd, pred)>)>
        let mut phis: Vec<Vec<(u32, Vec<(Opd, u32)>)>> = vec![vec![]; blocks.len()];
        let mut code = vec![];
        let mut starts = vec![];
        let mut edges: Vec<Vec<(u32, Opd)>> = vec![];
        for (bi, (_, lines)) in blocks.iter().enumerate() {
            for (s, e) in lines {
                let t = self.text[*s..*e].trim_start();
                if t.contains(" = phi ") {
                    let mut l = Lex::new(self.text, *s, *e);
                    let d = match l.take() {
                        Tok::Local(n) => fc.reg(&n),
                        _ => return Err("phi".into()),
                    };
                    l.expect('=')?;
                    l.next();
                    while let Tok::Id(s) = l.cur {
                        if is_ty_id(s) {
                            break;
                        }
                        l.next();
                    }
                    let ty = self.ty(&mut l)?;
                    let mut inc = vec![];
                    loop {
                        if !l.eat('[') {
                            break;
                        }
                        let o = fc.opd(&mut l, &ty)?;
                        l.expect(',')?;
                        let p = match l.take() {
                            Tok::Local(n) => *bidx.get(&n).ok_or_else(|| format!("phi pred {n}"))?,
                            t => return Err(format!("phi pred {:?}", t)),
                        };
                        l.expect(']')?;
                        inc.push((o, p));
                        if !l.eat(',') {
                            break;
                        }
                    }
                    phis[bi].push((d, inc));
                }
            }
        }
        let mut edge_of = |from: u32, to: u32| -> R<u32> {
            if phis[to as usize].is_empty() {
                return Ok(u32::MAX);
            }
            let mut v = vec![];
            for (d, inc) in &phis[to as usize] {
                let o = inc.iter().find(|(_, p)| *p == from).ok_or("phi edge missing")?;
                v.push((*d, o.0.clone()));
            }
            edges.push(v);
            Ok(edges.len() as u32 - 1)
        };
        for (bi, (_, lines)) in blocks.iter().enumerate() {
            starts.push(code.len() as u32);
            for (s, e) in lines {
                let t = self.text[*s..*e].trim_start();
                if t.contains(" = phi ") {
                    continue;
                }
                let r = fc.inst(*s, *e, bi as u32, &bidx, &mut edge_of);
                match r {
                    Ok(Some(i)) => code.push(i),
                    Ok(None) => {}
                    Err(m) => code.push(Inst::Bad(format!("{m}: {}", t))),
                }
            }
        }
        let nregs = fc.nregs;
        Ok(Func {
            name: name.clone(),
            id,
            nregs,
            params,
            ret,
            code,
            starts,
            edges,
            uninit: vec![Val::I(0); nregs as usize],
        })
    }
}

struct FnC<'m, 't> {
    m: &'m Module<'t>,
    regs: FxMap<String, u32>,
    nregs: u32,
}

pub fn memchr(b: &[u8], c: u8, from: usize) -> usize {
    match b[from.min(b.len())..].iter().position(|x| *x == c) {
        Some(p) => from + p,
        None => b.len(),
    }
}
fn fn_name(line: &str) -> String {
    let i = line.find('@').unwrap();
    let b = line.as_bytes();
    if b[i + 1] == b'"' {
        let j = line[i + 2..].find('"').unwrap() + i + 2;
        String::from_utf8_lossy(&unescape(&b[i + 2..j])).into_owned()
    } else {
        let j = line[i..].find('(').unwrap() + i;
        line[i + 1..j].to_string()
    }
}

const NOREG: u32 = u32::MAX;

impl<'m, 't> FnC<'m, 't> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn opd(&mut self, l: &mut Lex<'t>, ty: &Ty) -> R<Opd> {
        if let Tok::Local(n) = &l.cur {
            let n = n.clone();
            l.next();
            return Ok(Opd::R(self.reg(&n)));
        }
        Ok(Opd::C(self.m.constant(l, ty)?))
    }
    fn tyopd(&mut self, l: &mut Lex<'t>) -> R<(Rc<Ty>, Opd)> {
        let t = self.m.ty(l)?;
        let o = self.opd(l, &t)?;
        Ok((t, o))
    }
    fn skip_flags(&self, l: &mut Lex<'t>) {
        while let Tok::Id(s) = l.cur {
            if is_ty_id(s) {
                break;
            }
            l.next();
            if l.is('(') {
                l.skip_balanced();
            }
        }
    }
    fn label(&self, l: &mut Lex<'t>, bidx: &FxMap<String, u32>) -> R<u32> {
        l.eatid("label");
        match l.take() {
            Tok::Local(n) => bidx.get(&n).cloned().ok_or_else(|| format!("label {n}")),
            t => Err(format!("label? {:?}", t)),
        }
    }
    fn inst(
        &mut self,
        s: usize,
        e: usize,
        bi: u32,
        bidx: &FxMap<String, u32>,
        edge: &mut dyn FnMut(u32, u32) -> R<u32>,
    ) -> R<Option<Inst>> {
        let mut l = Lex::new(self.m.text, s, e);
        let mut d = NOREG;
        if let Tok::Local(n) = &l.cur {
            let n = n.clone();
            d = self.reg(&n);
            l.next();
            l.expect('=')?;
        }
        let mut op = match l.take() {
            Tok::Id(s) => s,
            t => return Err(format!("op? {:?}", t)),
        };
        while matches!(op, "tail" | "musttail" | "notail") {
            op = match l.take() {
                Tok::Id(s) => s,
                t => return Err(format!("op? {:?}", t)),
            };
        }
        let lanes_w = |t: &Ty| -> (u32, u32) {
            match t {
                Ty::Vec(n, t) => (*n as u32, t.bits() as u32),
                t => (0, t.bits() as u32),
            }
        };
        Ok(Some(match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                self.skip_flags(&mut l);
                let (t, a) = self.tyopd(&mut l)?;
                l.expect(',')?;
                let b = self.opd(&mut l, &t)?;
                let o = match op {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    _ => Op::AShr,
                };
                let (lanes, w) = lanes_w(&t);
                Inst::Bin { d, op: o, w, lanes, a, b }
            }
            "icmp" => {
                l.eatid("samesign");
                let p = match l.take() {
                    Tok::Id(s) => match s {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => return Err("pred".into()),
                    },
                    _ => return Err("pred".into()),
                };
                let (t, a) = self.tyopd(&mut l)?;
                l.expect(',')?;
                let b = self.opd(&mut l, &t)?;
                let (lanes, w) = lanes_w(&t);
                Inst::ICmp { d, p, w, lanes, a, b }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_flags(&mut l);
                let (t, a) = self.tyopd(&mut l)?;
                l.expect(',')?;
                let b = self.opd(&mut l, &t)?;
                Inst::FBin { d, op: op.as_bytes()[1], f64_: *t == Ty::F64, a, b }
            }
            "fneg" => {
                self.skip_flags(&mut l);
                let (t, a) = self.tyopd(&mut l)?;
                Inst::FNeg { d, f64_: *t == Ty::F64, a }
            }
            "fcmp" => {
                let mut p = String::new();
                while let Tok::Id(s) = l.cur {
                    if is_ty_id(s) {
                        break;
                    }
                    p = s.to_string();
                    l.next();
                }
                let (t, a) = self.tyopd(&mut l)?;
                l.expect(',')?;
                let b = self.opd(&mut l, &t)?;
                Inst::FCmp { d, p, f64_: *t == Ty::F64, a, b }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp"
            | "fpext" | "fptrunc" => {
                self.skip_flags(&mut l);
                let (from, a) = self.tyopd(&mut l)?;
                l.eatid("to");
                let to = self.m.ty(&mut l)?;
                let k = match op {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "bitcast" => CastK::BitCast,
                    "ptrtoint" => CastK::PtrToInt,
                    "inttoptr" => CastK::IntToPtr,
                    "fptoui" => CastK::FpToUi,
                    "fptosi" => CastK::FpToSi,
                    "uitofp" => CastK::UiToFp,
                    "sitofp" => CastK::SiToFp,
                    "fpext" => CastK::FpExt,
                    _ => CastK::FpTrunc,
                };
                Inst::Cast { d, k, from, to, a }
            }
            "load" => {
                self.skip_flags(&mut l);
                let ty = self.m.ty(&mut l)?;
                l.expect(',')?;
                let (_, p) = self.tyopd(&mut l)?;
                Inst::Load { d, ty, p }
            }
            "store" => {
                self.skip_flags(&mut l);
                let (ty, v) = self.tyopd(&mut l)?;
                l.expect(',')?;
                let (_, p) = self.tyopd(&mut l)?;
                Inst::Store { ty, v, p }
            }
            "getelementptr" => {
                self.skip_flags(&mut l);
                let t = self.m.ty(&mut l)?;
                l.expect(',')?;
                let (bt, base) = self.tyopd(&mut l)?;
                let mut vecn = if let Ty::Vec(n, _) = &*bt { *n as u32 } else { 0 };
                let mut off = 0u64;
                let mut terms = vec![];
                let mut cur = t;
                let mut first = true;
                while l.eat(',') {
                    if l.cur == Tok::Meta {
                        break;
                    }
                    let (it, io) = self.tyopd(&mut l)?;
                    let ibits = match &*it {
                        Ty::Vec(n, t) => {
                            vecn = *n as u32;
                            t.bits() as u32
                        }
                        t => t.bits() as u32,
                    };
                    let (scale, nxt) = if first {
                        (cur.size(), cur.clone())
                    } else {
                        match &*cur {
                            Ty::Struct(..) => {
                                let i = match &io {
                                    Opd::C(Val::I(x)) => *x,
                                    _ => return Err("struct idx".into()),
                                };
                                let (o, n) = Module::step_ty(&cur, i)?;
                                off = off.wrapping_add(o);
                                cur = n;
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (e.size(), e.clone()),
                            _ => return Err("gep".into()),
                        }
                    };
                    first = false;
                    cur = nxt;
                    match &io {
                        Opd::C(Val::I(x)) => {
                            let i = crate::expr::sext_to_i128(*x as u128, ibits) as i64 as u64;
                            off = off.wrapping_add(i.wrapping_mul(scale));
                        }
                        _ => terms.push((io, ibits, scale)),
                    }
                }
                if vecn > 0 {
                    Inst::GepVec { d, base, off, terms, n: vecn }
                } else {
                    Inst::Gep { d, base, off, terms }
                }
            }
            "alloca" => {
                l.eatid("inalloca");
                let t = self.m.ty(&mut l)?;
                let mut n = Opd::C(Val::I(1));
                let mut align = t.align();
                while l.eat(',') {
                    if l.eatid("align") {
                        align = self.m.num(&mut l)?;
                    } else if is_ty_start(&l.cur) {
                        n = self.tyopd(&mut l)?.1;
                    } else {
                        break;
                    }
                }
                Inst::Alloca { d, size: t.size(), align, n }
            }
            "select" => {
                self.skip_flags(&mut l);
                let (ct, c) = self.tyopd(&mut l)?;
                l.expect(',')?;
                let (ty, a) = self.tyopd(&mut l)?;
                l.expect(',')?;
                let (_, b) = self.tyopd(&mut l)?;
                Inst::Select { d, c, a, b, ty, vec: matches!(&*ct, Ty::Vec(..)) }
            }
            "freeze" => {
                let (_, a) = self.tyopd(&mut l)?;
                Inst::Freeze { d, a }
            }
            "extractvalue" => {
                let (_, a) = self.tyopd(&mut l)?;
                let mut idx = vec![];
                while l.eat(',') {
                    if l.cur == Tok::Meta {
                        break;
                    }
                    idx.push(self.m.num(&mut l)? as u32);
                }
                Inst::ExtractValue { d, a, idx }
            }
            "insertvalue" => {
                let (ty, a) = self.tyopd(&mut l)?;
                l.expect(',')?;
                let (_, v) = self.tyopd(&mut l)?;
                let mut idx = vec![];
                while l.eat(',') {
                    if l.cur == Tok::Meta {
                        break;
                    }
                    idx.push(self.m.num(&mut l)? as u32);
                }
                Inst::InsertValue { d, a, v, idx, ty }
            }
            "extractelement" => {
                let (_, a) = self.tyopd(&mut l)?;
                l.expect(',')?;
                let (_, i) = self.tyopd(&mut l)?;
                Inst::ExtractElem { d, a, i }
            }
            "insertelement" => {
                let (_, a) = self.tyopd(&mut l)?;
                l.expect(',')?;
                let (_, v) = self.tyopd(&mut l)?;
                l.expect(',')?;
                let (_, i) = self.tyopd(&mut l)?;
                Inst::InsertElem { d, a, v, i }
            }
            "shufflevector" => {
                let (t, a) = self.tyopd(&mut l)?;
                l.expect(',')?;
                let (_, b) = self.tyopd(&mut l)?;
                l.expect(',')?;
                let mt = self.m.ty(&mut l)?;
                let mv = self.m.constant(&mut l, &mt)?;
                let mask = match mv {
                    Val::A(v) => v.iter().map(|x| Module::as_u(x) as i64).collect(),
                    _ => return Err("shuffle".into()),
                };
                let n = if let Ty::Vec(n, _) = &*t { *n as u32 } else { 0 };
                Inst::Shuffle { d, a, b, mask, n }
            }
            "atomicrmw" => {
                l.eatid("volatile");
                let o = match l.take() {
                    Tok::Id(s) => s.to_string(),
                    _ => return Err("rmw".into()),
                };
                let (_, p) = self.tyopd(&mut l)?;
                l.expect(',')?;
                let (ty, v) = self.tyopd(&mut l)?;
                Inst::AtomicRmw { d, op: o, p, v, ty }
            }
            "cmpxchg" => {
                self.skip_flags(&mut l);
                let (_, p) = self.tyopd(&mut l)?;
                l.expect(',')?;
                let (ty, ev) = self.tyopd(&mut l)?;
                l.expect(',')?;
                let (_, n) = self.tyopd(&mut l)?;
                Inst::CmpXchg { d, p, e: ev, n, ty }
            }
            "fence" => return Ok(None),
            "br" => {
                if l.isid("label") {
                    let t = self.label(&mut l, bidx)?;
                    Inst::Br { t, e: edge(bi, t)? }
                } else {
                    let (_, c) = self.tyopd(&mut l)?;
                    l.expect(',')?;
                    let t = self.label(&mut l, bidx)?;
                    l.expect(',')?;
                    let f = self.label(&mut l, bidx)?;
                    Inst::CondBr { c, t, te: edge(bi, t)?, f, fe: edge(bi, f)? }
                }
            }
            "switch" => {
                let (t, v) = self.tyopd(&mut l)?;
                l.expect(',')?;
                let def = self.label(&mut l, bidx)?;
                l.expect('[')?;
                let mut cases = vec![];
                while !l.is(']') {
                    let ct = self.m.ty(&mut l)?;
                    let cv = self.m.constant(&mut l, &ct)?;
                    l.expect(',')?;
                    let t = self.label(&mut l, bidx)?;
                    cases.push((Module::as_u(&cv) as u64, t, edge(bi, t)?));
                }
                Inst::Switch { v, w: t.bits() as u32, def, defe: edge(bi, def)?, cases }
            }
            "ret" => {
                let t = self.m.ty(&mut l)?;
                if *t == Ty::Void {
                    Inst::Ret { v: None }
                } else {
                    Inst::Ret { v: Some(self.opd(&mut l, &t)?) }
                }
            }
            "unreachable" => Inst::Unreachable,
            "call" | "invoke" => {
                // skip calling convention / return attributes
                loop {
                    match &l.cur {
                        Tok::Id(s) if is_ty_id(s) => break,
                        Tok::P('[') | Tok::P('<') | Tok::P('{') => break,
                        Tok::Local(n) if self.m.types.contains_key(n) => break,
                        Tok::P('(') => l.skip_balanced(),
                        Tok::End => return Err("call".into()),
                        _ => l.next(),
                    }
                }
                let ret = self.m.ty(&mut l)?;
                if l.is('(') {
                    l.skip_balanced(); // function type
                }
                let mut callee = None;
                let mut asm = None;
                match l.take() {
                    Tok::Global(n) => {
                        callee = Some(Callee::Direct(
                            *self.m.fn_ids.get(&n).ok_or_else(|| format!("callee {n}"))?,
                        ))
                    }
                    Tok::Local(n) => callee = Some(Callee::Indirect(Opd::R(self.reg(&n)))),
                    Tok::Id("asm") => {
                        while let Tok::Id(_) = l.cur {
                            l.next();
                        }
                        if let Tok::Str(s) = l.take() {
                            asm = Some(String::from_utf8_lossy(&s).into_owned());
                        }
                        l.expect(',')?;
                        l.next();
                    }
                    t => return Err(format!("callee {:?}", t)),
                }
                l.expect('(')?;
                let mut args = vec![];
                let mut ismeta = false;
                while !l.is(')') {
                    let t = self.m.ty(&mut l)?;
                    if *t == Ty::Opaque {
                        ismeta = true;
                        while !l.is(',') && !l.is(')') {
                            if l.is('(') {
                                l.skip_balanced();
                            } else {
                                l.next();
                            }
                        }
                        l.eat(',');
                        continue;
                    }
                    // param attributes
                    loop {
                        match &l.cur {
                            Tok::Id("align") => {
                                l.next();
                                if l.is('(') {
                                    l.skip_balanced()
                                } else {
                                    l.next();
                                }
                            }
                            Tok::Id(s)
                                if !matches!(
                                    *s,
                                    "true"
                                        | "false"
                                        | "null"
                                        | "undef"
                                        | "poison"
                                        | "zeroinitializer"
                                        | "getelementptr"
                                        | "ptrtoint"
                                        | "inttoptr"
                                        | "splat"
                                        | "add"
                                        | "sub"
                                        | "trunc"
                                        | "none"
                                ) =>
                            {
                                l.next();
                                if l.is('(') {
                                    l.skip_balanced();
                                }
                            }
                            _ => break,
                        }
                    }
                    let o = self.opd(&mut l, &t)?;
                    args.push((o, t));
                    l.eat(',');
                }
                l.next();
                let _ = ismeta;
                let mut normal = u32::MAX;
                let mut phis = u32::MAX;
                if op == "invoke" {
                    while !l.isid("to") {
                        if l.cur == Tok::End {
                            return Err("invoke".into());
                        }
                        l.next();
                    }
                    l.next();
                    normal = self.label(&mut l, bidx)?;
                    phis = edge(bi, normal)?;
                }
                if let Some(a) = asm {
                    return Ok(Some(Inst::Asm { d, text: a, ret }));
                }
                if let Some(Callee::Direct(f)) = &callee {
                    let n = &self.m.fn_src[*f as usize].0;
                    if n.starts_with("llvm.dbg")
                        || n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.experimental.noalias")
                        || n == "llvm.assume"
                        || n == "llvm.donothing"
                    {
                        return Ok(None);
                    }
                }
                Inst::Call { d, callee: callee.unwrap(), args, ret, normal, phis }
            }
            "landingpad" | "resume" => Inst::Bad("unwind".into()),
            o => return Err(format!("unsupported {o}")),
        }))
    }
}
