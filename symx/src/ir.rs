//! Parser for the textual LLVM IR of one whole-program module.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

pub const KEYSHIFT: u32 = 28;
pub const GLOBAL_KEY0: u64 = 0x40000;
pub const FUNC_BASE: u64 = 0x70000 << KEYSHIFT;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u8),
    Ptr,
    Flt(u8),
    Void,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match (*w as u64 + 7) / 8 {
                1 => 1,
                2 => 2,
                3..=4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Flt(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store().next_power_of_two().max(1),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr => 8,
            Ty::Flt(w) => *w as u64 / 8,
            Ty::Vec(n, t) => n * t.store(),
            Ty::Void | Ty::Other => 0,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::Flt(_) | Ty::Vec(..) => {
                let (s, a) = (self.store(), self.align());
                (s + a - 1) / a * a
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(ts, _) => ts[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => Ty::Other,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(ts, _) => ts.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
    }
    pub fn bits(&self) -> u8 {
        match self {
            Ty::Int(w) | Ty::Flt(w) => *w,
            Ty::Ptr => 64,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    Int(u8, u128),
    Undef(Ty),
    Zero(Ty),
    Agg(Vec<Opd>),
    Bad(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    Udiv,
    Sdiv,
    Urem,
    Srem,
    And,
    Or,
    Xor,
    Shl,
    Lshr,
    Ashr,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Zext,
    Sext,
    Trunc,
    Bits,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(u32, BinOp, Ty, Opd, Opd),
    Icmp(u32, Pred, Ty, Opd, Opd),
    Cast(u32, CastOp, Ty, Opd, Ty),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u8, i64)>),
    Alloca(u32, u64, Opd),
    Call {
        dst: Option<u32>,
        ret: Ty,
        callee: Opd,
        name: Option<Arc<str>>,
        args: Vec<(Ty, Opd)>,
        noreturn: bool,
        next: Option<u32>,
    },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Select(u32, Ty, Opd, Opd, Opd),
    ExtractV(u32, Opd, Vec<u32>),
    InsertV(u32, Ty, Opd, Opd, Vec<u32>),
    ExtractE(u32, Opd, Opd),
    InsertE(u32, Ty, Opd, Opd, Opd),
    Shuffle(u32, Ty, Opd, Opd, Vec<Option<u32>>),
    Freeze(u32, Opd),
    Rmw(u32, String, Ty, Opd, Opd),
    Cmpxchg(u32, Ty, Opd, Opd, Opd),
    Nop,
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub id: u32,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl {
    pub name: String,
    pub noreturn: bool,
    /// line range of the body (first line = define line); empty for declarations
    pub lines: (usize, usize),
    pub parsed: OnceLock<Result<Arc<Func>, String>>,
}

pub struct GlobalDef {
    pub name: String,
    pub line: usize,
    pub parsed: OnceLock<Result<(Ty, Option<Opd>, bool), String>>,
}

pub struct Module {
    pub text: String,
    pub line_pos: Vec<(usize, usize)>,
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<GlobalDef>,
    pub gmap: HashMap<String, u32>,
    pub types: HashMap<String, usize>,
    pub attr_noreturn: HashMap<u32, bool>,
}

// ---- lexer ------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    W(String),
    L(String),
    G(String),
    N(String),
    S(Vec<u8>),
    Hash(u32),
    Bang,
    P(char),
}

fn unquote(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b.len() > i + 2 - 0 {
            if b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap_or("00");
            out.push(u8::from_str_radix(h, 16).unwrap_or(0));
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            out.push(b'\\');
            i += 2;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let st;
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = s[st..j].to_string();
                    i = j + 1;
                } else {
                    st = i + 1;
                    let mut j = st;
                    while j < b.len() && is_id(b[j]) {
                        j += 1;
                    }
                    name = s[st..j].to_string();
                    i = j;
                }
                out.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::S(unquote(&s[i + 1..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::S(unquote(&s[i + 2..j])));
                i = j + 1;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                out.push(Tok::Hash(s[i + 1..j].parse().unwrap_or(u32::MAX)));
                i = j.max(i + 1);
            }
            b'!' => {
                out.push(Tok::Bang);
                i += 1;
            }
            _ if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || b[j] == b'+' || (b[j]==b'-' && (b[j-1]==b'e'))) {
                    j += 1;
                }
                out.push(Tok::N(s[i..j].to_string()));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let mut j = i + 1;
                while j < b.len() && is_id(b[j]) {
                    j += 1;
                }
                out.push(Tok::W(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

pub struct P<'a> {
    pub t: Vec<Tok>,
    pub i: usize,
    m: &'a Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

type R<X> = Result<X, String>;

impl<'a> P<'a> {
    fn new(m: &'a Module) -> Self {
        P {
            t: vec![],
            i: 0,
            m,
            regs: HashMap::new(),
            blocks: HashMap::new(),
        }
    }
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn peek_at(&self, k: usize) -> Option<&Tok> {
        self.t.get(self.i + k)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or("eol")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if x == w)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?}", c, self.peek()))
        }
    }
    fn skip_words(&mut self, ws: &[&str]) {
        while let Some(Tok::W(w)) = self.peek() {
            if ws.contains(&w.as_str()) {
                self.i += 1;
            } else {
                break;
            }
        }
    }
    fn skip_group(&mut self) {
        // at '('
        let mut d = 0;
        while let Some(t) = self.peek() {
            match t {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.blocks.get(n) {
            return r;
        }
        let r = self.blocks.len() as u32;
        self.blocks.insert(n.to_string(), r);
        r
    }
    fn ty(&mut self) -> R<Ty> {
        let t = self.next()?;
        Ok(match t {
            Tok::W(w) => match w.as_str() {
                "ptr" => {
                    if self.is_w("addrspace") {
                        self.i += 1;
                        self.skip_group();
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "float" => Ty::Flt(32),
                "double" => Ty::Flt(64),
                "half" => Ty::Flt(16),
                "fp128" => Ty::Flt(128),
                "label" | "metadata" | "token" | "x86_fp80" | "opaque" => Ty::Other,
                w if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => {
                    let n: u32 = w[1..].parse().unwrap();
                    if n > 128 {
                        return Err(format!("type {}", w));
                    }
                    Ty::Int(n as u8)
                }
                w => return Err(format!("type {}", w)),
            },
            Tok::P('[') => {
                let n = self.num()?;
                if !self.eat_w("x") {
                    return Err("array type".into());
                }
                let t = self.ty()?;
                self.exp_p(']')?;
                Ty::Arr(n as u64, Box::new(t))
            }
            Tok::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let ts = self.tylist('}')?;
                    self.exp_p('>')?;
                    Ty::Struct(ts, true)
                } else {
                    let n = self.num()?;
                    if !self.eat_w("x") {
                        return Err("vector type".into());
                    }
                    let t = self.ty()?;
                    self.exp_p('>')?;
                    Ty::Vec(n as u64, Box::new(t))
                }
            }
            Tok::P('{') => {
                let ts = self.tylist('}')?;
                Ty::Struct(ts, false)
            }
            Tok::L(n) => {
                let l = *self.m.types.get(&n).ok_or(format!("type %{}", n))?;
                let s = self.m.line(l);
                let rhs = &s[s.find(" = type ").ok_or("type def")? + 8..];
                let mut p = P::new(self.m);
                p.t = lex(rhs);
                p.ty()?
            }
            t => return Err(format!("type {:?}", t)),
        })
    }
    fn tylist(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat_p(end) {
                return Ok(v);
            }
            self.exp_p(',')?;
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            Tok::N(s) => s.parse::<i128>().map_err(|_| format!("num {}", s)),
            t => Err(format!("num {:?}", t)),
        }
    }
    fn sym_addr(&self, n: &str) -> R<u64> {
        self.m.addr(n).ok_or(format!("unknown symbol @{}", n))
    }
    /// operand of the given type
    fn opd(&mut self, ty: &Ty) -> R<Opd> {
        let t = self.next()?;
        Ok(match t {
            Tok::L(n) => Opd::Reg(self.reg(&n)),
            Tok::G(n) => Opd::Int(64, self.sym_addr(&n)? as u128),
            Tok::N(s) => {
                if let Ty::Int(w) = ty {
                    let v: u128 = if s.starts_with('-') {
                        s.parse::<i128>().map_err(|_| s.clone())? as u128
                    } else {
                        s.parse::<u128>().map_err(|_| s.clone())?
                    };
                    Opd::Int(*w, v & crate::term::mask(*w))
                } else if let Ty::Flt(w) = ty {
                    if let Some(h) = s.strip_prefix("0x") {
                        let v = u64::from_str_radix(h, 16).map_err(|_| s.clone())?;
                        if *w == 64 {
                            Opd::Int(64, v as u128)
                        } else if *w == 32 {
                            Opd::Int(32, (f64::from_bits(v) as f32).to_bits() as u128)
                        } else {
                            return Err(format!("float {}", s));
                        }
                    } else {
                        let v: f64 = s.parse().map_err(|_| s.clone())?;
                        if *w == 64 {
                            Opd::Int(64, v.to_bits() as u128)
                        } else if *w == 32 {
                            Opd::Int(32, (v as f32).to_bits() as u128)
                        } else {
                            return Err(format!("float {}", s));
                        }
                    }
                } else {
                    return Err(format!("number for {:?}", ty));
                }
            }
            Tok::P(c @ ('+' | '-')) => match (self.next()?, ty) {
                (Tok::W(x), Ty::Flt(w @ (32 | 64))) if x == "inf" || x == "qnan" => {
                    let v = if x == "inf" { f64::INFINITY } else { f64::from_bits(0x7ff8 << 48) };
                    let v = if c == '-' { -v } else { v };
                    Opd::Int(*w, if *w == 64 { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 })
                }
                t => return Err(format!("operand {:?}", t)),
            },
            Tok::S(b) => Opd::Agg(b.into_iter().map(|x| Opd::Int(8, x as u128)).collect()),
            Tok::P('[') => Opd::Agg(self.oplist(']')?),
            Tok::P('{') => Opd::Agg(self.oplist('}')?),
            Tok::P('<') => {
                if self.eat_p('{') {
                    let v = self.oplist('}')?;
                    self.exp_p('>')?;
                    Opd::Agg(v)
                } else {
                    Opd::Agg(self.oplist('>')?)
                }
            }
            Tok::W(w) => match w.as_str() {
                "true" => Opd::Int(1, 1),
                "false" => Opd::Int(1, 0),
                "null" => Opd::Int(64, 0),
                "undef" | "poison" => Opd::Undef(ty.clone()),
                "zeroinitializer" => Opd::Zero(ty.clone()),
                "splat" => {
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let o = self.opd(&t)?;
                    self.exp_p(')')?;
                    Opd::Agg(vec![o; ty.count()])
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let o = self.opd(&t)?;
                    if !self.eat_w("to") {
                        return Err("const cast".into());
                    }
                    let t2 = self.ty()?;
                    self.exp_p(')')?;
                    match o {
                        Opd::Int(_, v) => Opd::Int(t2.bits(), v & crate::term::mask(t2.bits())),
                        o => o,
                    }
                }
                "getelementptr" => {
                    self.skip_words(&["inbounds", "nuw", "nusw", "inrange"]);
                    if self.is_w("inrange") {
                        self.i += 1;
                        self.skip_group();
                    }
                    self.exp_p('(')?;
                    let (b, off, idx) = self.gep_tail()?;
                    self.exp_p(')')?;
                    if !idx.is_empty() {
                        return Err("const gep with variable".into());
                    }
                    match b {
                        Opd::Int(_, v) => Opd::Int(64, (v as u64).wrapping_add(off as u64) as u128),
                        _ => return Err("const gep base".into()),
                    }
                }
                "add" | "sub" => {
                    self.skip_words(&["nuw", "nsw"]);
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let a = self.opd(&t)?;
                    self.exp_p(',')?;
                    let t2 = self.ty()?;
                    let b = self.opd(&t2)?;
                    self.exp_p(')')?;
                    match (a, b) {
                        (Opd::Int(w1, x), Opd::Int(_, y)) => {
                            let r = if w == "add" { x.wrapping_add(y) } else { x.wrapping_sub(y) };
                            Opd::Int(w1, r & crate::term::mask(w1))
                        }
                        _ => return Err("const add".into()),
                    }
                }
                w => return Err(format!("operand {}", w)),
            },
            t => return Err(format!("operand {:?}", t)),
        })
    }
    fn oplist(&mut self, end: char) -> R<Vec<Opd>> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            v.push(self.opd(&t)?);
            if self.eat_p(end) {
                return Ok(v);
            }
            self.exp_p(',')?;
        }
    }
    fn gep_tail(&mut self) -> R<(Opd, i64, Vec<(Opd, u8, i64)>)> {
        let mut cur = self.ty()?;
        self.exp_p(',')?;
        let pt = self.ty()?;
        if pt != Ty::Ptr {
            return Err("vector gep".into());
        }
        let base = self.opd(&Ty::Ptr)?;
        let mut off: i64 = 0;
        let mut idx = vec![];
        let mut first = true;
        while self.is_p(',') && !matches!(self.peek_at(1), Some(Tok::Bang)) {
            self.i += 1;
            let it = self.ty()?;
            let io = self.opd(&it)?;
            let w = it.bits();
            let scale;
            if first {
                scale = cur.size() as i64;
                first = false;
            } else if let Ty::Struct(..) = cur {
                let k = match io {
                    Opd::Int(_, v) => v as usize,
                    _ => return Err("struct gep index".into()),
                };
                off += cur.field_off(k) as i64;
                cur = cur.elem(k);
                continue;
            } else {
                let e = cur.elem(0);
                scale = e.size() as i64;
                cur = e;
            }
            match io {
                Opd::Int(w, v) => {
                    off = off.wrapping_add((crate::term::sext_val(v, w) as i64).wrapping_mul(scale))
                }
                o => idx.push((o, w, scale)),
            }
        }
        Ok((base, off, idx))
    }
    fn label(&mut self) -> R<u32> {
        if !self.eat_w("label") {
            return Err("label".into());
        }
        match self.next()? {
            Tok::L(n) => Ok(self.block(&n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    const CONSTW: &'static [&'static str] = &[
        "true", "false", "null", "undef", "poison", "zeroinitializer", "inttoptr", "ptrtoint",
        "getelementptr", "bitcast", "add", "sub", "trunc", "splat",
    ];
    fn skip_attrs(&mut self) {
        while let Some(Tok::W(w)) = self.peek() {
            if Self::CONSTW.contains(&w.as_str()) {
                break;
            }
            let al = w == "align" || w == "alignstack";
            self.i += 1;
            if al && matches!(self.peek(), Some(Tok::N(_))) {
                self.i += 1;
            } else if self.is_p('(') {
                self.skip_group();
            }
        }
    }
    fn call(&mut self, dst: Option<u32>, invoke: bool) -> R<Inst> {
        // skip fast-math flags, calling conv and return attributes up to the type
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    let isty = matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "half" | "fp128" | "token" | "metadata")
                        || (w.starts_with('i') && w[1..].parse::<u32>().is_ok());
                    if isty {
                        break;
                    }
                    let al = w == "align";
                    self.i += 1;
                    if al && matches!(self.peek(), Some(Tok::N(_))) {
                        self.i += 1;
                    } else if self.is_p('(') {
                        self.skip_group();
                    }
                }
                _ => break,
            }
        }
        let ret = self.ty()?;
        // function type given explicitly (varargs)
        if self.is_p('(') {
            self.skip_group();
        }
        let (callee, name) = match self.next()? {
            Tok::G(n) => (
                Opd::Int(64, self.m.addr(&n).unwrap_or(0) as u128),
                Some(Arc::from(n.as_str())),
            ),
            Tok::L(n) => (Opd::Reg(self.reg(&n)), None),
            Tok::W(w) if w == "asm" => (Opd::Bad("asm".into()), Some(Arc::from("asm"))),
            t => return Err(format!("callee {:?}", t)),
        };
        if name.as_deref() == Some("asm") {
            return Err("inline asm".into());
        }
        self.exp_p('(')?;
        let mut args = vec![];
        if !self.eat_p(')') {
            loop {
                let t = self.ty()?;
                if t == Ty::Other {
                    // metadata argument
                    while !self.is_p(',') && !self.is_p(')') {
                        self.i += 1;
                    }
                    args.push((t, Opd::Int(1, 0)));
                } else {
                    self.skip_attrs();
                    let o = match self.opd(&t) {
                        Ok(o) => o,
                        Err(e) => return Err(e),
                    };
                    args.push((t, o));
                }
                if self.eat_p(')') {
                    break;
                }
                self.exp_p(',')?;
            }
        }
        let mut noreturn = false;
        let mut next = None;
        while let Some(t) = self.peek().cloned() {
            match t {
                Tok::Hash(n) => {
                    noreturn |= *self.m.attr_noreturn.get(&n).unwrap_or(&false);
                    self.i += 1;
                }
                Tok::W(w) if w == "noreturn" => {
                    noreturn = true;
                    self.i += 1;
                }
                Tok::W(w) if invoke && w == "to" => {
                    self.i += 1;
                    next = Some(self.label()?);
                    break;
                }
                Tok::P('[') => {
                    // operand bundles
                    while !self.is_p(']') {
                        self.next()?;
                    }
                    self.i += 1;
                }
                _ => self.i += 1,
            }
        }
        Ok(Inst::Call {
            dst,
            ret,
            callee,
            name,
            args,
            noreturn,
            next,
        })
    }
    fn inst(&mut self, dst: Option<u32>) -> R<Inst> {
        let d = dst.unwrap_or(u32::MAX);
        let w = match self.next()? {
            Tok::W(w) => w,
            t => return Err(format!("inst {:?}", t)),
        };
        let flags = ["nuw", "nsw", "exact", "inbounds", "samesign", "nneg", "nusw", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"];
        let bin = match w.as_str() {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::Udiv),
            "sdiv" => Some(BinOp::Sdiv),
            "urem" => Some(BinOp::Urem),
            "srem" => Some(BinOp::Srem),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::Lshr),
            "ashr" => Some(BinOp::Ashr),
            _ => None,
        };
        if let Some(mut op) = bin {
            if self.eat_w("disjoint") {
                op = BinOp::Add;
            }
            self.skip_words(&flags);
            let t = self.ty()?;
            let a = self.opd(&t)?;
            self.exp_p(',')?;
            let b = self.opd(&t)?;
            return Ok(Inst::Bin(d, op, t, a, b));
        }
        Ok(match w.as_str() {
            "icmp" => {
                self.skip_words(&flags);
                let p = match self.next()? {
                    Tok::W(w) => match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        w => return Err(format!("icmp {}", w)),
                    },
                    t => return Err(format!("icmp {:?}", t)),
                };
                let t = self.ty()?;
                let a = self.opd(&t)?;
                self.exp_p(',')?;
                let b = self.opd(&t)?;
                Inst::Icmp(d, p, t, a, b)
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                self.skip_words(&flags);
                let t = self.ty()?;
                let a = self.opd(&t)?;
                if !self.eat_w("to") {
                    return Err("cast".into());
                }
                let t2 = self.ty()?;
                let op = match w.as_str() {
                    "zext" => CastOp::Zext,
                    "sext" => CastOp::Sext,
                    "trunc" => CastOp::Trunc,
                    "bitcast" => CastOp::Bits,
                    _ => {
                        if t.bits() >= t2.bits() {
                            CastOp::Trunc
                        } else {
                            CastOp::Zext
                        }
                    }
                };
                Inst::Cast(d, op, t, a, t2)
            }
            "load" => {
                self.skip_words(&["atomic", "volatile"]);
                let t = self.ty()?;
                self.exp_p(',')?;
                self.ty()?;
                let p = self.opd(&Ty::Ptr)?;
                Inst::Load(d, t, p)
            }
            "store" => {
                self.skip_words(&["atomic", "volatile"]);
                let t = self.ty()?;
                let v = self.opd(&t)?;
                self.exp_p(',')?;
                self.ty()?;
                let p = self.opd(&Ty::Ptr)?;
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                self.skip_words(&flags);
                let (b, off, idx) = self.gep_tail()?;
                Inst::Gep(d, b, off, idx)
            }
            "alloca" => {
                self.skip_words(&["inalloca"]);
                let t = self.ty()?;
                let mut n = Opd::Int(64, 1);
                if self.is_p(',') && matches!(self.peek_at(1), Some(Tok::W(w)) if w.starts_with('i')) {
                    self.i += 1;
                    let it = self.ty()?;
                    n = self.opd(&it)?;
                }
                Inst::Alloca(d, t.size(), n)
            }
            "tail" | "musttail" | "notail" => {
                if !self.eat_w("call") {
                    return Err("tail".into());
                }
                self.call(dst, false)?
            }
            "call" => self.call(dst, false)?,
            "invoke" => self.call(dst, true)?,
            "br" => {
                if self.is_w("label") {
                    Inst::Br(self.label()?)
                } else {
                    self.ty()?;
                    let c = self.opd(&Ty::Int(1))?;
                    self.exp_p(',')?;
                    let a = self.label()?;
                    self.exp_p(',')?;
                    let b = self.label()?;
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = self.ty()?;
                let v = self.opd(&t)?;
                self.exp_p(',')?;
                let def = self.label()?;
                self.exp_p('[')?;
                let mut cs = vec![];
                while !self.eat_p(']') {
                    let ct = self.ty()?;
                    let c = match self.opd(&ct)? {
                        Opd::Int(_, c) => c,
                        _ => return Err("switch case".into()),
                    };
                    self.exp_p(',')?;
                    cs.push((c, self.label()?));
                }
                Inst::Switch(t, v, def, cs)
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    let o = self.opd(&t)?;
                    Inst::Ret(Some((t, o)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "select" => {
                self.skip_words(&flags);
                let ct = self.ty()?;
                if ct != Ty::Int(1) {
                    return Err("vector select".into());
                }
                let c = self.opd(&Ty::Int(1))?;
                self.exp_p(',')?;
                let t = self.ty()?;
                let a = self.opd(&t)?;
                self.exp_p(',')?;
                self.ty()?;
                let b = self.opd(&t)?;
                Inst::Select(d, t, c, a, b)
            }
            "extractvalue" => {
                let t = self.ty()?;
                let a = self.opd(&t)?;
                let mut ix = vec![];
                while self.is_p(',') && matches!(self.peek_at(1), Some(Tok::N(_))) {
                    self.i += 1;
                    ix.push(self.num()? as u32);
                }
                Inst::ExtractV(d, a, ix)
            }
            "insertvalue" => {
                let t = self.ty()?;
                let a = self.opd(&t)?;
                self.exp_p(',')?;
                let vt = self.ty()?;
                let v = self.opd(&vt)?;
                let mut ix = vec![];
                while self.is_p(',') && matches!(self.peek_at(1), Some(Tok::N(_))) {
                    self.i += 1;
                    ix.push(self.num()? as u32);
                }
                Inst::InsertV(d, t, a, v, ix)
            }
            "extractelement" => {
                let t = self.ty()?;
                let a = self.opd(&t)?;
                self.exp_p(',')?;
                let it = self.ty()?;
                let i = self.opd(&it)?;
                Inst::ExtractE(d, a, i)
            }
            "insertelement" => {
                let t = self.ty()?;
                let a = self.opd(&t)?;
                self.exp_p(',')?;
                let vt = self.ty()?;
                let v = self.opd(&vt)?;
                self.exp_p(',')?;
                let it = self.ty()?;
                let i = self.opd(&it)?;
                Inst::InsertE(d, t, a, v, i)
            }
            "shufflevector" => {
                let t = self.ty()?;
                let a = self.opd(&t)?;
                self.exp_p(',')?;
                let t2 = self.ty()?;
                let b = self.opd(&t2)?;
                self.exp_p(',')?;
                let mt = self.ty()?;
                let m = self.opd(&mt)?;
                let ms = match m {
                    Opd::Agg(v) => v
                        .into_iter()
                        .map(|o| match o {
                            Opd::Int(_, x) => Some(x as u32),
                            _ => None,
                        })
                        .collect(),
                    Opd::Zero(_) => vec![Some(0); mt.count()],
                    _ => vec![None; mt.count()],
                };
                Inst::Shuffle(d, t, a, b, ms)
            }
            "freeze" => {
                let t = self.ty()?;
                let a = self.opd(&t)?;
                Inst::Freeze(d, a)
            }
            "fence" => Inst::Nop,
            "atomicrmw" => {
                self.skip_words(&["volatile"]);
                let op = match self.next()? {
                    Tok::W(w) => w,
                    _ => return Err("rmw".into()),
                };
                self.ty()?;
                let p = self.opd(&Ty::Ptr)?;
                self.exp_p(',')?;
                let t = self.ty()?;
                let v = self.opd(&t)?;
                Inst::Rmw(d, op, t, p, v)
            }
            "cmpxchg" => {
                self.skip_words(&["weak", "volatile"]);
                self.ty()?;
                let p = self.opd(&Ty::Ptr)?;
                self.exp_p(',')?;
                let t = self.ty()?;
                let a = self.opd(&t)?;
                self.exp_p(',')?;
                self.ty()?;
                let b = self.opd(&t)?;
                Inst::Cmpxchg(d, t, p, a, b)
            }
            w => return Err(format!("unsupported instruction {}", w)),
        })
    }
}

impl Module {
    pub fn line(&self, i: usize) -> &str {
        let (a, b) = self.line_pos[i];
        &self.text[a..b]
    }

    pub fn addr(&self, n: &str) -> Option<u64> {
        if let Some(&i) = self.fmap.get(n) {
            return Some(FUNC_BASE + i as u64 * 16);
        }
        if let Some(&i) = self.gmap.get(n) {
            return Some((GLOBAL_KEY0 + i as u64) << KEYSHIFT);
        }
        None
    }

    pub fn load(text: String) -> Result<Module, String> {
        let mut m = Module {
            line_pos: vec![],
            text,
            funcs: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            types: HashMap::new(),
            attr_noreturn: HashMap::new(),
        };
        let mut pos = 0;
        for l in m.text.split('\n') {
            m.line_pos.push((pos, pos + l.len()));
            pos += l.len() + 1;
        }
        let n = m.line_pos.len();
        let mut pend = vec![];
        let mut i = 0;
        while i < n {
            let l = m.line(i).to_string();
            if l.starts_with("define ") || l.starts_with("declare ") {
                let name = lex(&l).into_iter().find_map(|t| if let Tok::G(g) = t { Some(g) } else { None });
                // the first @ token of the line is the function name
                let name = name.ok_or("define without name")?;
                let st = i;
                let mut en = i;
                if l.starts_with("define ") {
                    while m.line(en) != "}" {
                        en += 1;
                        if en >= n {
                            return Err("unterminated function".into());
                        }
                    }
                }
                let lx = lex(&l);
                // attribute groups after the parameter list
                let hs: Vec<u32> = lx.iter().filter_map(|t| if let Tok::Hash(h) = t { Some(*h) } else { None }).collect();
                pend.push((name, st, en, hs, l.contains(" noreturn ")));
                i = en + 1;
                continue;
            }
            if l.starts_with('@') {
                if let Some(Tok::G(g)) = lex(&l[..l.find(" = ").unwrap_or(l.len())]).into_iter().next() {
                    let id = m.globals.len() as u32;
                    m.globals.push(GlobalDef {
                        name: g.clone(),
                        line: i,
                        parsed: OnceLock::new(),
                    });
                    m.gmap.insert(g, id);
                }
            } else if l.starts_with('%') && l.contains(" = type ") {
                if let Some(Tok::L(g)) = lex(&l).into_iter().next() {
                    m.types.insert(g, i);
                }
            } else if l.starts_with("attributes #") {
                let num: String = l[12..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(k) = num.parse::<u32>() {
                    let nr = l.split(|c: char| c == ' ' || c == '{' || c == '}').any(|w| w == "noreturn");
                    m.attr_noreturn.insert(k, nr);
                }
            }
            i += 1;
        }
        for (name, st, en, hs, nr) in pend {
            let noreturn = nr || hs.iter().any(|h| *m.attr_noreturn.get(h).unwrap_or(&false));
            let id = m.funcs.len() as u32;
            m.fmap.insert(name.clone(), id);
            m.funcs.push(FuncDecl {
                name,
                noreturn,
                lines: if en > st { (st, en) } else { (0, 0) },
                parsed: OnceLock::new(),
            });
        }
        Ok(m)
    }

    pub fn global(&self, id: u32) -> &Result<(Ty, Option<Opd>, bool), String> {
        let g = &self.globals[id as usize];
        g.parsed.get_or_init(|| self.parse_global(g))
    }

    fn parse_global(&self, g: &GlobalDef) -> Result<(Ty, Option<Opd>, bool), String> {
        let l = self.line(g.line);
        let rhs = &l[l.find(" = ").ok_or("global")? + 3..];
        let mut p = P::new(self);
        p.t = lex(rhs);
        let mut constant = false;
        let mut ext = false;
        loop {
            match p.next()? {
                Tok::W(w) => match w.as_str() {
                    "global" => break,
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "external" | "extern_weak" => ext = true,
                    "alias" => return Err("alias".into()),
                    "thread_local" | "addrspace" => {
                        if p.is_p('(') {
                            p.skip_group();
                        }
                    }
                    _ => {}
                },
                t => return Err(format!("global {:?}", t)),
            }
        }
        let t = p.ty()?;
        if ext {
            return Ok((t, None, constant));
        }
        let o = p.opd(&t)?;
        Ok((t, Some(o), constant))
    }

    pub fn func(&self, id: u32) -> &Result<Arc<Func>, String> {
        let f = &self.funcs[id as usize];
        f.parsed.get_or_init(|| self.parse_func(f, id).map(Arc::new))
    }

    fn parse_func(&self, f: &FuncDecl, id: u32) -> Result<Func, String> {
        let (st, en) = f.lines;
        if en == 0 {
            return Err(format!("no body for {}", f.name));
        }
        let mut p = P::new(self);
        // header
        let l = self.line(st);
        let name_at = l.find(&format!("@{}(", f.name)).or_else(|| l.find(&format!("@\"{}\"(", f.name)));
        let name_at = name_at.ok_or("define name")?;
        p.t = lex(&l[name_at..]);
        p.next()?;
        p.exp_p('(')?;
        let mut params = vec![];
        let mut unnamed = 0;
        if !p.eat_p(')') {
            loop {
                if p.is_p('.') || p.is_w("...") {
                    return Err("varargs".into());
                }
                p.ty()?;
                // attributes up to the name
                loop {
                    match p.peek() {
                        Some(Tok::L(n)) => {
                            let n = n.clone();
                            p.i += 1;
                            if n.parse::<u32>().is_ok() {
                                unnamed += 1;
                            }
                            let r = p.reg(&n);
                            params.push(r);
                            break;
                        }
                        Some(Tok::P(',')) | Some(Tok::P(')')) => {
                            let r = p.reg(&unnamed.to_string());
                            unnamed += 1;
                            params.push(r);
                            break;
                        }
                        Some(Tok::P('(')) => p.skip_group(),
                        Some(_) => p.i += 1,
                        None => return Err("params".into()),
                    }
                }
                if p.eat_p(')') {
                    break;
                }
                p.exp_p(',')?;
            }
        }
        let mut blocks: Vec<Block> = vec![];
        let mut cur: Option<usize> = None;
        let mut i = st + 1;
        while i < en {
            let mut l = self.line(i).to_string();
            i += 1;
            if l.is_empty() || l.starts_with(';') || l.trim_start().starts_with("#dbg") {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let nm = match lex(&format!("%{}", &l)).into_iter().next() {
                    Some(Tok::L(n)) => n,
                    _ => return Err(format!("label {}", l)),
                };
                let b = p.block(&nm) as usize;
                cur = Some(b);
                continue;
            }
            if cur.is_none() {
                // implicit entry block: number = number of unnamed params
                let b = p.block(&unnamed.to_string()) as usize;
                cur = Some(b);
            }
            // join continuation lines
            if l.contains(" switch ") || l.trim_start().starts_with("switch ") {
                while !l.contains(']') || (l.matches('[').count() != l.matches(']').count()) {
                    l.push(' ');
                    l.push_str(self.line(i).trim());
                    i += 1;
                }
            } else if l.trim_start().starts_with("invoke ") || l.contains(" = invoke ") {
                l.push(' ');
                l.push_str(self.line(i).trim());
                i += 1;
            } else if l.contains(" landingpad ") {
                while i < en && {
                    let t = self.line(i).trim();
                    t == "cleanup" || t.starts_with("cleanup,") || t.starts_with("catch ") || t.starts_with("filter ")
                } {
                    i += 1;
                }
            }
            let b = cur.unwrap();
            while blocks.len() <= b {
                blocks.push(Block::default());
            }
            p.t = lex(&l);
            p.i = 0;
            let mut dst = None;
            if let (Some(Tok::L(n)), Some(Tok::P('='))) = (p.peek().cloned(), p.peek_at(1)) {
                dst = Some(p.reg(&n));
                p.i = 2;
            }
            if p.is_w("phi") {
                p.i += 1;
                let t = p.ty()?;
                let mut inc = vec![];
                loop {
                    p.exp_p('[')?;
                    let o = p.opd(&t).unwrap_or_else(Opd::Bad);
                    p.exp_p(',')?;
                    let bb = match p.next()? {
                        Tok::L(n) => p.block(&n),
                        t => return Err(format!("phi {:?}", t)),
                    };
                    p.exp_p(']')?;
                    inc.push((bb, o));
                    if p.is_p(',') && matches!(p.peek_at(1), Some(Tok::P('['))) {
                        p.i += 1;
                    } else {
                        break;
                    }
                }
                blocks[b].phis.push((dst.unwrap(), inc));
                continue;
            }
            let ins = match p.inst(dst) {
                Ok(x) => x,
                Err(e) => Inst::Unsupported(format!("{}: {}", e, l.trim())),
            };
            blocks[b].insts.push(ins);
        }
        while blocks.len() < p.blocks.len() {
            blocks.push(Block::default());
        }
        // entry must be block 0
        Ok(Func {
            name: f.name.clone(),
            id,
            params,
            nregs: p.regs.len() as u32,
            blocks,
        })
    }
}
