//! Parser for the textual LLVM IR that rustc emits (post fat-LTO module).

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Double,
    Float,
    Ptr,
    Label,
    Meta,
    Vec(u64, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 1,
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Double | Ty::Ptr => 8,
            Ty::Float => 4,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    /// Allocation size (stride).
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Double | Ty::Ptr => 8,
            Ty::Float => 4,
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => {
                let offs = self.offsets();
                let a = self.align();
                let end = *offs.last().unwrap();
                (end + a - 1) / a * a
            }
        }
    }
    /// Bytes a load or store of this type touches.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => (*n as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// Field offsets of a struct; the last entry is the end of the last field.
    pub fn offsets(&self) -> Vec<u64> {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut v = vec![];
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    v.push(o);
                    o += t.size();
                }
                v.push(o);
                v
            }
            _ => panic!("offsets of non struct"),
        }
    }
    pub fn elems(&self) -> Vec<(u64, Ty)> {
        match self {
            Ty::Struct(f, _) => {
                let o = self.offsets();
                f.iter().cloned().enumerate().map(|(i, t)| (o[i], t)).collect()
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => (0..*n).map(|i| (i * t.size(), (**t).clone())).collect(),
            _ => panic!("elems of scalar"),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr => 64,
            Ty::Double => 64,
            Ty::Float => 32,
            _ => panic!("bits of {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    F64(f64),
    Zero,
    Undef,
    Global(String, i64),
    Agg(Vec<(Ty, Const)>),
    Bytes(Vec<u8>),
    Splat(Box<(Ty, Const)>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(Const),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    FAdd, FSub, FMul, FDiv, FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc, ZExt, SExt, Bitcast, PtrToInt, IntToPtr, SiToFp, UiToFp, FpToSi, FpToUi, FpExt, FpTrunc,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IPred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(u32, BinOp, Ty, Opd, Opd),
    FNeg(u32, Ty, Opd),
    ICmp(u32, IPred, Ty, Opd, Opd),
    FCmp(u32, FPred, Ty, Opd, Opd),
    Select(u32, Opd, Ty, Opd, Opd, bool),
    Cast(u32, CastOp, Ty, Opd, Ty),
    Alloca(u32, u64, Opd),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, u64, Vec<(Opd, u64, Ty)>),
    Extract(u32, Opd, Vec<u32>),
    Insert(u32, Ty, Opd, Opd, Vec<u32>),
    ExtractElem(u32, Opd, Opd),
    InsertElem(u32, Ty, Opd, Opd, Opd),
    Shuffle(u32, u64, Opd, Opd, Vec<i64>),
    Freeze(u32, Ty, Opd),
    Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, Opd)>, next: Option<u32> },
    AtomicRmw(u32, String, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Nop,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Indirect(Opd),
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: Ty,
    pub inc: Vec<(Opd, u32)>,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub nregs: u32,
    pub reg_ty: Vec<Option<Ty>>,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub constant: bool,
}

pub struct Module {
    lines: Vec<String>,
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    /// Defined functions: name -> (first line, last line)
    pub defs: HashMap<String, (usize, usize)>,
    pub decls: Vec<String>,
}

// ---------------------------------------------------------------- tokenizer

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),     // keyword / attribute word
    Local(String),  // %x
    Glob(String),   // @x
    Num(String),    // numbers incl. hex floats
    Str(Vec<u8>),   // "..." or c"..."
    Meta(String),   // !x
    Attr(String),   // #12
    P(char),        // punctuation
    Dots,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    let hex = |c: u8| (c as char).to_digit(16).map(|d| d as u8);
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && i + 2 <= s.len() - 1 {
            if let (Some(a), Some(b)) = (hex(s[i + 1]), hex(s[i + 2])) {
                out.push(a * 16 + b);
                i += 3;
                continue;
            }
        }
        if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            out.push(b'\\');
            i += 2;
            continue;
        }
        out.push(s[i]);
        i += 1;
    }
    out
}

pub fn tokenize(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' | b'\n' => i += 1,
            b';' => break,
            b'%' | b'@' | b'!' => {
                let k = c;
                i += 1;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    let n = String::from_utf8_lossy(&unescape(&b[st..j])).into_owned();
                    i = j + 1;
                    v.push(match k {
                        b'%' => Tok::Local(n),
                        b'@' => Tok::Glob(n),
                        _ => Tok::Meta(n),
                    });
                } else {
                    let st = i;
                    while i < b.len() && idc(b[i]) {
                        i += 1;
                    }
                    let n = s[st..i].to_string();
                    v.push(match k {
                        b'%' => Tok::Local(n),
                        b'@' => Tok::Glob(n),
                        _ => Tok::Meta(n),
                    });
                }
            }
            b'#' => {
                let st = i;
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                v.push(Tok::Attr(s[st..i].to_string()));
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                v.push(Tok::Str(unescape(&b[st..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                v.push(Tok::Str(unescape(&b[st..j])));
                i = j + 1;
            }
            b'.' if s[i..].starts_with("...") => {
                v.push(Tok::Dots);
                i += 3;
            }
            b'+' | b'-' if [&b"inf"[..], b"qnan"].iter().any(|w| b[i + 1..].starts_with(w)) => {
                let n = if b[i + 1] == b'i' { 4 } else { 5 };
                v.push(Tok::Id(s[i..i + n].to_string()));
                i += n;
            }
            _ if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e'))) {
                    i += 1;
                }
                v.push(Tok::Num(s[st..i].to_string()));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'.' || b[i] == b'-') {
                    i += 1;
                }
                v.push(Tok::Id(s[st..i].to_string()));
            }
            _ => {
                v.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    v
}

// ---------------------------------------------------------------- parsing helpers

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    types: &'a HashMap<String, Ty>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn peek_at(&self, k: usize) -> Option<&Tok> {
        self.t.get(self.i + k)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or("unexpected end of line")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {:?}, got {:?} at {}", c, self.peek(), self.i))
        }
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Id(x)) => is_type_word(x),
            Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) => true,
            Some(Tok::Local(n)) => self.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            Tok::Id(x) => match x.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_id("addrspace") {
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                "double" => Ty::Double,
                "float" => Ty::Float,
                "label" => Ty::Label,
                "metadata" | "token" => Ty::Meta,
                "half" | "fp128" | "x86_fp80" => Ty::Float,
                _ if x.starts_with('i') => Ty::Int(x[1..].parse().map_err(|_| format!("type {}", x))?),
                _ => return Err(format!("type {}", x)),
            },
            Tok::Local(n) => self.types.get(&n).cloned().ok_or(format!("named type {}", n))?,
            Tok::P('[') => {
                let n = self.num()? as u64;
                if !self.eat_id("x") {
                    return Err("array type".into());
                }
                let t = self.ty()?;
                self.exp_p(']')?;
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('{') => {
                let f = self.fields('}')?;
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let f = self.fields('}')?;
                    self.exp_p('>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num()? as u64;
                    if !self.eat_id("x") {
                        return Err("vector type".into());
                    }
                    let t = self.ty()?;
                    self.exp_p('>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            t => return Err(format!("type token {:?}", t)),
        };
        Ok(t)
    }
    fn fields(&mut self, end: char) -> R<Vec<Ty>> {
        let mut f = vec![];
        if self.eat_p(end) {
            return Ok(f);
        }
        loop {
            f.push(self.ty()?);
            if self.eat_p(end) {
                return Ok(f);
            }
            self.exp_p(',')?;
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            Tok::Num(n) => n.parse::<i128>().map_err(|_| format!("num {}", n)),
            t => Err(format!("number, got {:?}", t)),
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        self.exp_p('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    /// Skips parameter/return attributes.
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::Id(x)) => {
                    if is_type_word(x) || is_value_word(x) {
                        return Ok(());
                    }
                    let w = x.clone();
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens()?;
                    } else if w == "align" {
                        self.num()?;
                    }
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.next()?;
                    }
                }
                Some(Tok::Attr(_)) => {
                    self.i += 1;
                }
                _ => return Ok(()),
            }
        }
    }
    fn constant(&mut self, ty: &Ty) -> R<Const> {
        let t = self.next()?;
        Ok(match t {
            Tok::Num(n) => match ty {
                Ty::Double | Ty::Float => Const::F64(parse_f(&n, ty)?),
                Ty::Int(w) => {
                    let v: i128 = if n.starts_with('-') {
                        n.parse::<i128>().map_err(|_| format!("int {}", n))?
                    } else {
                        n.parse::<u128>().map_err(|_| format!("int {}", n))? as i128
                    };
                    let m = if *w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                    Const::Int(v as u128 & m)
                }
                _ => return Err(format!("number for {:?}", ty)),
            },
            Tok::Id(x) => match x.as_str() {
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "null" | "zeroinitializer" | "none" => Const::Zero,
                "undef" | "poison" => Const::Undef,
                "splat" => {
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let c = self.constant(&t)?;
                    self.exp_p(')')?;
                    Const::Splat(Box::new((t, c)))
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.exp_p('(')?;
                    // `inrange(...)` may precede the parenthesis
                    let t = self.ty()?;
                    self.exp_p(',')?;
                    let pt = self.ty()?;
                    let base = self.constant(&pt)?;
                    let mut off: i64 = 0;
                    let mut cur = t;
                    let mut first = true;
                    while self.eat_p(',') {
                        let it = self.ty()?;
                        let iv = match self.constant(&it)? {
                            Const::Int(v) => sext(v, it.bits()) as i64,
                            Const::Zero => 0,
                            c => return Err(format!("gep const index {:?}", c)),
                        };
                        if first {
                            off += iv * cur.size() as i64;
                            first = false;
                        } else {
                            match cur.clone() {
                                Ty::Struct(f, _) => {
                                    off += cur.offsets()[iv as usize] as i64;
                                    cur = f[iv as usize].clone();
                                }
                                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                    off += iv * e.size() as i64;
                                    cur = (*e).clone();
                                }
                                _ => return Err("gep const type".into()),
                            }
                        }
                    }
                    self.exp_p(')')?;
                    match base {
                        Const::Global(g, o) => Const::Global(g, o + off),
                        Const::Zero => Const::Int(off as u64 as u128),
                        Const::Int(i) => Const::Int((i as i64 + off) as u64 as u128),
                        _ => return Err("gep const base".into()),
                    }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let c = self.constant(&t)?;
                    if !self.eat_id("to") {
                        return Err("cast const".into());
                    }
                    self.ty()?;
                    self.exp_p(')')?;
                    c
                }
                "sub" | "add" | "trunc" | "xor" => {
                    // relative-pointer tables etc.; not needed by code we run
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.skip_parens()?;
                    Const::Undef
                }
                x if x.starts_with("f0x") => {
                    let v = u64::from_str_radix(&x[3..], 16).map_err(|e| e.to_string())?;
                    match ty {
                        Ty::Float => Const::F64(f32::from_bits(v as u32) as f64),
                        _ => Const::F64(f64::from_bits(v)),
                    }
                }
                "pinf" | "+inf" => Const::F64(f64::INFINITY),
                "ninf" | "-inf" => Const::F64(f64::NEG_INFINITY),
                "nan" | "+qnan" | "-qnan" => Const::F64(f64::NAN),
                _ => return Err(format!("constant word {}", x)),
            },
            Tok::Glob(g) => Const::Global(g, 0),
            Tok::Str(s) => Const::Bytes(s),
            Tok::P('[') => Const::Agg(self.agg(']')?),
            Tok::P('{') => Const::Agg(self.agg('}')?),
            Tok::P('<') => {
                if self.eat_p('{') {
                    let a = self.agg('}')?;
                    self.exp_p('>')?;
                    Const::Agg(a)
                } else {
                    Const::Agg(self.agg('>')?)
                }
            }
            t => return Err(format!("constant token {:?}", t)),
        })
    }
    fn agg(&mut self, end: char) -> R<Vec<(Ty, Const)>> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            let c = self.constant(&t)?;
            v.push((t, c));
            if self.eat_p(end) {
                return Ok(v);
            }
            self.exp_p(',')?;
        }
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

fn parse_f(n: &str, ty: &Ty) -> R<f64> {
    if let Some(h) = n.strip_prefix("0x") {
        let b = u64::from_str_radix(h, 16).map_err(|_| format!("hexfloat {}", n))?;
        return Ok(f64::from_bits(b));
    }
    let v: f64 = n.parse().map_err(|_| format!("float {}", n))?;
    Ok(if *ty == Ty::Float { v as f32 as f64 } else { v })
}

fn is_type_word(x: &str) -> bool {
    match x {
        "void" | "ptr" | "double" | "float" | "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" => true,
        _ => x.len() > 1 && x.starts_with('i') && x[1..].bytes().all(|c| c.is_ascii_digit()),
    }
}

fn is_value_word(x: &str) -> bool {
    x.starts_with("f0x") || matches!(
        x,
        "pinf" | "ninf" | "nan" | "+inf" | "-inf" | "+qnan" | "-qnan" | "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "none" | "bitcast" | "ptrtoaddr"
    )
}

// ---------------------------------------------------------------- module

impl Module {
    pub fn parse(text: &str) -> R<Module> {
        let lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
        let mut m = Module {
            lines: vec![],
            types: HashMap::new(),
            globals: vec![],
            defs: HashMap::new(),
            decls: vec![],
        };
        let mut i = 0;
        let mut glines = vec![];
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with('%') {
                // named type
                let toks = tokenize(l);
                if let Some(Tok::Local(n)) = toks.first() {
                    let name = n.clone();
                    let ty = {
                        let mut p = P { t: &toks, i: 3, types: &m.types };
                        p.ty().unwrap_or(Ty::Struct(Rc::new(vec![]), false))
                    };
                    m.types.insert(name, ty);
                }
            } else if l.starts_with('@') {
                glines.push(i);
            } else if l.starts_with("define") {
                let st = i;
                while lines[i] != "}" {
                    i += 1;
                }
                let name = func_name(&lines[st]).ok_or("define name")?;
                m.defs.insert(name, (st, i));
            } else if l.starts_with("declare") {
                if let Some(n) = func_name(l) {
                    m.decls.push(n);
                }
            }
            i += 1;
        }
        for gi in glines {
            let l = &lines[gi];
            let toks = tokenize(l);
            let name = match &toks[0] {
                Tok::Glob(g) => g.clone(),
                _ => continue,
            };
            let mut p = P { t: &toks, i: 2, types: &m.types };
            let mut external = false;
            let mut constant = false;
            let mut alias = false;
            loop {
                match p.peek() {
                    Some(Tok::Id(x)) if x == "global" || x == "constant" => {
                        constant = x == "constant";
                        p.i += 1;
                        break;
                    }
                    Some(Tok::Id(x)) if x == "alias" => {
                        alias = true;
                        break;
                    }
                    Some(Tok::Id(x)) => {
                        if x == "external" || x == "extern_weak" {
                            external = true;
                        }
                        p.i += 1;
                        if p.is_p('(') {
                            p.skip_parens()?;
                        }
                    }
                    _ => break,
                }
            }
            if alias {
                continue;
            }
            let ty = match p.ty() {
                Ok(t) => t,
                Err(_) => continue,
            };
            let init = if external { None } else { p.constant(&ty).ok() };
            m.globals.push(Global { name, ty, init, constant });
        }
        m.lines = lines;
        Ok(m)
    }

    pub fn parse_func(&self, name: &str) -> R<Func> {
        let (st, en) = *self.defs.get(name).ok_or(format!("no function {}", name))?;
        let head = tokenize(&self.lines[st]);
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut reg_ty: Vec<Option<Ty>> = vec![];
        let mut p = P { t: &head, i: 1, types: &self.types };
        // linkage, cc, attributes
        let ret = loop {
            p.skip_attrs()?;
            if p.is_type_start() {
                break p.ty()?;
            }
            match p.next()? {
                Tok::Num(_) => {}
                t => return Err(format!("define head {:?}", t)),
            }
        };
        match p.next()? {
            Tok::Glob(_) => {}
            t => return Err(format!("define name {:?}", t)),
        }
        p.exp_p('(')?;
        let mut params = vec![];
        let mut reg = |n: &str, t: Option<Ty>, reg_ty: &mut Vec<Option<Ty>>| -> u32 {
            if let Some(r) = regs.get(n) {
                if t.is_some() {
                    reg_ty[*r as usize] = t;
                }
                return *r;
            }
            let r = regs.len() as u32;
            regs.insert(n.to_string(), r);
            reg_ty.push(t);
            r
        };
        if !p.eat_p(')') {
            loop {
                if p.peek() == Some(&Tok::Dots) {
                    p.i += 1;
                    p.exp_p(')')?;
                    break;
                }
                let t = p.ty()?;
                p.skip_attrs()?;
                let n = match p.next()? {
                    Tok::Local(n) => n,
                    t => return Err(format!("param {:?}", t)),
                };
                let r = reg(&n, Some(t.clone()), &mut reg_ty);
                params.push((t, r));
                if p.eat_p(')') {
                    break;
                }
                p.exp_p(',')?;
            }
        }
        // Gather logical lines and block labels
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        let mut i = st + 1;
        while i < en {
            let l = &self.lines[i];
            let tl = l.trim_start();
            if tl.is_empty() || tl.starts_with(';') || tl.starts_with("#dbg") {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let lab = if let Some(r) = l.strip_prefix('"') {
                    r[..r.find('"').unwrap()].to_string()
                } else {
                    l[..l.find(':').ok_or("label")?].to_string()
                };
                blocks.push((lab, vec![]));
                i += 1;
                continue;
            }
            if blocks.is_empty() {
                // unlabeled entry block: number is the number of params
                blocks.push((format!("{}", params.len()), vec![]));
            }
            let mut s = tl.to_string();
            if tl.starts_with("switch ") && !tl.contains(']') {
                loop {
                    i += 1;
                    s.push(' ');
                    s.push_str(self.lines[i].trim());
                    if self.lines[i].contains(']') {
                        break;
                    }
                }
            } else if tl.starts_with("invoke ") || tl.contains(" = invoke ") {
                i += 1;
                s.push(' ');
                s.push_str(self.lines[i].trim());
            } else if tl.contains("landingpad ") {
                while {
                    let n = self.lines[i + 1].trim();
                    n == "cleanup" || n.starts_with("catch ") || n.starts_with("filter ")
                } {
                    i += 1;
                }
            }
            blocks.last_mut().unwrap().1.push(s);
            i += 1;
        }
        let labels: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
        let mut out = vec![];
        for (_, ls) in &blocks {
            let mut b = Block { phis: vec![], insts: vec![] };
            for l in ls {
                let toks = tokenize(l);
                let mut ip = IP { p: P { t: &toks, i: 0, types: &self.types }, reg: &mut reg, reg_ty: &mut reg_ty, labels: &labels };
                match ip.inst() {
                    Ok(PI::Phi(ph)) => b.phis.push(ph),
                    Ok(PI::I(Inst::Nop)) => {}
                    Ok(PI::I(ins)) => b.insts.push(ins),
                    Err(e) => b.insts.push(Inst::Unsupported(format!("{} in: {}", e, l))),
                }
            }
            out.push(b);
        }
        Ok(Func { name: name.to_string(), params, ret, nregs: reg_ty.len() as u32, reg_ty, blocks: out })
    }
}

fn func_name(l: &str) -> Option<String> {
    // first @ token outside attributes
    let toks = tokenize(&l[..l.find('(').map(|_| l.len()).unwrap_or(l.len())]);
    for t in toks {
        if let Tok::Glob(g) = t {
            return Some(g);
        }
    }
    None
}

enum PI {
    Phi(Phi),
    I(Inst),
}

struct IP<'a, 'b, F: FnMut(&str, Option<Ty>, &mut Vec<Option<Ty>>) -> u32> {
    p: P<'a>,
    reg: &'b mut F,
    reg_ty: &'b mut Vec<Option<Ty>>,
    labels: &'b HashMap<String, u32>,
}

impl<'a, 'b, F: FnMut(&str, Option<Ty>, &mut Vec<Option<Ty>>) -> u32> IP<'a, 'b, F> {
    fn opd(&mut self, ty: &Ty) -> R<Opd> {
        if let Some(Tok::Local(n)) = self.p.peek() {
            let n = n.clone();
            self.p.i += 1;
            return Ok(Opd::Reg((self.reg)(&n, None, self.reg_ty)));
        }
        if let (Ty::Meta, Some(_)) = (ty, self.p.peek()) {
            return Ok(Opd::C(Const::Zero));
        }
        Ok(Opd::C(self.p.constant(ty)?))
    }
    fn ty_opd(&mut self) -> R<(Ty, Opd)> {
        let t = self.p.ty()?;
        self.p.skip_attrs()?;
        let o = self.opd(&t)?;
        Ok((t, o))
    }
    fn label(&mut self) -> R<u32> {
        if !self.p.eat_id("label") {
            return Err("label".into());
        }
        match self.p.next()? {
            Tok::Local(n) => self.labels.get(&n).copied().ok_or(format!("label {}", n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn def(&mut self, d: &Option<String>, t: Ty) -> R<u32> {
        let n = d.as_ref().ok_or("no destination")?;
        Ok((self.reg)(n, Some(t), self.reg_ty))
    }
    fn inst(&mut self) -> R<PI> {
        let mut dst = None;
        if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (self.p.peek(), self.p.peek_at(1)) {
            dst = Some(n.clone());
            self.p.i += 2;
        }
        let mut op = match self.p.next()? {
            Tok::Id(x) => x,
            t => return Err(format!("opcode {:?}", t)),
        };
        if op == "tail" || op == "musttail" || op == "notail" {
            op = match self.p.next()? {
                Tok::Id(x) => x,
                t => return Err(format!("opcode {:?}", t)),
            };
        }
        let bin = match op.as_str() {
            "add" => Some(BinOp::Add), "sub" => Some(BinOp::Sub), "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv), "sdiv" => Some(BinOp::SDiv), "urem" => Some(BinOp::URem), "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl), "lshr" => Some(BinOp::LShr), "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And), "or" => Some(BinOp::Or), "xor" => Some(BinOp::Xor),
            "fadd" => Some(BinOp::FAdd), "fsub" => Some(BinOp::FSub), "fmul" => Some(BinOp::FMul), "fdiv" => Some(BinOp::FDiv), "frem" => Some(BinOp::FRem),
            _ => None,
        };
        if let Some(b) = bin {
            self.p.skip_attrs()?;
            let t = self.p.ty()?;
            let a = self.opd(&t)?;
            self.p.exp_p(',')?;
            let c = self.opd(&t)?;
            let d = self.def(&dst, t.clone())?;
            return Ok(PI::I(Inst::Bin(d, b, t, a, c)));
        }
        let cast = match op.as_str() {
            "trunc" => Some(CastOp::Trunc), "zext" => Some(CastOp::ZExt), "sext" => Some(CastOp::SExt),
            "bitcast" => Some(CastOp::Bitcast), "ptrtoint" | "ptrtoaddr" => Some(CastOp::PtrToInt), "inttoptr" => Some(CastOp::IntToPtr),
            "sitofp" => Some(CastOp::SiToFp), "uitofp" => Some(CastOp::UiToFp), "fptosi" => Some(CastOp::FpToSi), "fptoui" => Some(CastOp::FpToUi),
            "fpext" => Some(CastOp::FpExt), "fptrunc" => Some(CastOp::FpTrunc), "addrspacecast" => Some(CastOp::Bitcast),
            _ => None,
        };
        if let Some(c) = cast {
            self.p.skip_attrs()?;
            let (t, o) = self.ty_opd()?;
            if !self.p.eat_id("to") {
                return Err("cast".into());
            }
            let t2 = self.p.ty()?;
            let d = self.def(&dst, t2.clone())?;
            return Ok(PI::I(Inst::Cast(d, c, t, o, t2)));
        }
        Ok(PI::I(match op.as_str() {
            "fneg" => {
                self.p.skip_attrs()?;
                let (t, o) = self.ty_opd()?;
                let d = self.def(&dst, t.clone())?;
                Inst::FNeg(d, t, o)
            }
            "icmp" | "fcmp" => {
                let mut w = match self.p.next()? {
                    Tok::Id(x) => x,
                    t => return Err(format!("pred {:?}", t)),
                };
                while matches!(w.as_str(), "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    w = match self.p.next()? {
                        Tok::Id(x) => x,
                        t => return Err(format!("pred {:?}", t)),
                    };
                }
                let t = self.p.ty()?;
                let a = self.opd(&t)?;
                self.p.exp_p(',')?;
                let b = self.opd(&t)?;
                let rt = match &t {
                    Ty::Vec(n, _) => Ty::Vec(*n, Rc::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                };
                let d = self.def(&dst, rt)?;
                if op == "icmp" {
                    use IPred::*;
                    let pr = match w.as_str() {
                        "eq" => Eq, "ne" => Ne, "ugt" => Ugt, "uge" => Uge, "ult" => Ult, "ule" => Ule,
                        "sgt" => Sgt, "sge" => Sge, "slt" => Slt, "sle" => Sle,
                        _ => return Err(format!("pred {}", w)),
                    };
                    Inst::ICmp(d, pr, t, a, b)
                } else {
                    use FPred::*;
                    let pr = match w.as_str() {
                        "false" => False, "oeq" => Oeq, "ogt" => Ogt, "oge" => Oge, "olt" => Olt, "ole" => Ole, "one" => One, "ord" => Ord,
                        "ueq" => Ueq, "ugt" => Ugt, "uge" => Uge, "ult" => Ult, "ule" => Ule, "une" => Une, "uno" => Uno, "true" => True,
                        _ => return Err(format!("pred {}", w)),
                    };
                    Inst::FCmp(d, pr, t, a, b)
                }
            }
            "select" => {
                self.p.skip_attrs()?;
                let (ct, c) = self.ty_opd()?;
                self.p.exp_p(',')?;
                let (t, a) = self.ty_opd()?;
                self.p.exp_p(',')?;
                let (_, b) = self.ty_opd()?;
                let d = self.def(&dst, t.clone())?;
                Inst::Select(d, c, t, a, b, matches!(ct, Ty::Vec(..)))
            }
            "phi" => {
                self.p.skip_attrs()?;
                let t = self.p.ty()?;
                let mut inc = vec![];
                loop {
                    self.p.exp_p('[')?;
                    let o = self.opd(&t)?;
                    self.p.exp_p(',')?;
                    let l = match self.p.next()? {
                        Tok::Local(n) => *self.labels.get(&n).ok_or(format!("label {}", n))?,
                        t => return Err(format!("phi {:?}", t)),
                    };
                    self.p.exp_p(']')?;
                    inc.push((o, l));
                    if self.p.is_p(',') && self.p.peek_at(1) == Some(&Tok::P('[')) {
                        self.p.i += 1;
                    } else {
                        break;
                    }
                }
                let d = self.def(&dst, t.clone())?;
                return Ok(PI::Phi(Phi { dst: d, ty: t, inc }));
            }
            "alloca" => {
                self.p.eat_id("inalloca");
                let t = self.p.ty()?;
                let mut n = Opd::C(Const::Int(1));
                if self.p.is_p(',') && matches!(self.p.peek_at(1), Some(Tok::Id(x)) if is_type_word(x)) {
                    self.p.i += 1;
                    n = self.ty_opd()?.1;
                }
                let d = self.def(&dst, Ty::Ptr)?;
                Inst::Alloca(d, t.size(), n)
            }
            "load" => {
                self.p.eat_id("atomic");
                self.p.eat_id("volatile");
                let t = self.p.ty()?;
                self.p.exp_p(',')?;
                let (_, o) = self.ty_opd()?;
                let d = self.def(&dst, t.clone())?;
                Inst::Load(d, t, o)
            }
            "store" => {
                self.p.eat_id("atomic");
                self.p.eat_id("volatile");
                let (t, v) = self.ty_opd()?;
                self.p.exp_p(',')?;
                let (_, o) = self.ty_opd()?;
                Inst::Store(t, v, o)
            }
            "getelementptr" => {
                self.skip_gep_flags()?;
                let t = self.p.ty()?;
                self.p.exp_p(',')?;
                let (_, base) = self.ty_opd()?;
                let mut off: u64 = 0;
                let mut dynv = vec![];
                let mut cur = t;
                let mut first = true;
                while self.p.is_p(',') && !matches!(self.p.peek_at(1), Some(Tok::Meta(_))) {
                    self.p.i += 1;
                    let (it, io) = self.ty_opd()?;
                    let cidx = match &io {
                        Opd::C(Const::Int(v)) => Some(sext(*v, it.bits()) as i64),
                        Opd::C(Const::Zero) => Some(0),
                        _ => None,
                    };
                    let scale;
                    if first {
                        scale = cur.size();
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::Struct(f, _) => {
                                let k = cidx.ok_or("gep struct idx")? as usize;
                                off = off.wrapping_add(cur.offsets()[k]);
                                cur = f[k].clone();
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = e.size();
                                cur = (*e).clone();
                            }
                            _ => return Err("gep type".into()),
                        }
                    }
                    match cidx {
                        Some(k) => off = off.wrapping_add((k.wrapping_mul(scale as i64)) as u64),
                        None => dynv.push((io, scale, it)),
                    }
                }
                let d = self.def(&dst, Ty::Ptr)?;
                Inst::Gep(d, base, off, dynv)
            }
            "extractvalue" => {
                let (t, o) = self.ty_opd()?;
                let mut idx = vec![];
                let mut cur = t;
                while self.p.is_p(',') && matches!(self.p.peek_at(1), Some(Tok::Num(_))) {
                    self.p.i += 1;
                    let k = self.p.num()? as u32;
                    cur = match &cur {
                        Ty::Struct(f, _) => f[k as usize].clone(),
                        Ty::Arr(_, e) => (**e).clone(),
                        _ => return Err("extractvalue".into()),
                    };
                    idx.push(k);
                }
                let d = self.def(&dst, cur)?;
                Inst::Extract(d, o, idx)
            }
            "insertvalue" => {
                let (t, a) = self.ty_opd()?;
                self.p.exp_p(',')?;
                let (_, v) = self.ty_opd()?;
                let mut idx = vec![];
                while self.p.is_p(',') && matches!(self.p.peek_at(1), Some(Tok::Num(_))) {
                    self.p.i += 1;
                    idx.push(self.p.num()? as u32);
                }
                let d = self.def(&dst, t.clone())?;
                Inst::Insert(d, t, a, v, idx)
            }
            "extractelement" => {
                let (t, v) = self.ty_opd()?;
                self.p.exp_p(',')?;
                let (_, i) = self.ty_opd()?;
                let e = match &t {
                    Ty::Vec(_, e) => (**e).clone(),
                    _ => return Err("extractelement".into()),
                };
                let d = self.def(&dst, e)?;
                Inst::ExtractElem(d, v, i)
            }
            "insertelement" => {
                let (t, v) = self.ty_opd()?;
                self.p.exp_p(',')?;
                let (_, e) = self.ty_opd()?;
                self.p.exp_p(',')?;
                let (_, i) = self.ty_opd()?;
                let d = self.def(&dst, t.clone())?;
                Inst::InsertElem(d, t, v, e, i)
            }
            "shufflevector" => {
                let (t, a) = self.ty_opd()?;
                self.p.exp_p(',')?;
                let (_, b) = self.ty_opd()?;
                self.p.exp_p(',')?;
                let mt = self.p.ty()?;
                let mc = self.p.constant(&mt)?;
                let n = match &mt {
                    Ty::Vec(n, _) => *n as usize,
                    _ => return Err("shuffle".into()),
                };
                let mask: Vec<i64> = match mc {
                    Const::Zero => vec![0; n],
                    Const::Undef => vec![-1; n],
                    Const::Splat(b) => match b.1 {
                        Const::Int(v) => vec![v as i64; n],
                        _ => return Err("shuffle mask".into()),
                    },
                    Const::Agg(a) => a
                        .iter()
                        .map(|(_, c)| match c {
                            Const::Int(v) => *v as i64,
                            Const::Zero => 0,
                            _ => -1,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                let (n0, e) = match &t {
                    Ty::Vec(n, e) => (*n, e.clone()),
                    _ => return Err("shuffle".into()),
                };
                let d = self.def(&dst, Ty::Vec(n as u64, e))?;
                Inst::Shuffle(d, n0, a, b, mask)
            }
            "freeze" => {
                let (t, v) = self.ty_opd()?;
                let d = self.def(&dst, t.clone())?;
                Inst::Freeze(d, t, v)
            }
            "call" | "invoke" => {
                // fast-math flags, cc, return attributes
                loop {
                    self.p.skip_attrs()?;
                    if self.p.is_type_start() {
                        break;
                    }
                    self.p.next()?;
                }
                let ret = self.p.ty()?;
                // function type, e.g. `i64 (i64, ...)`
                if self.p.is_p('(') {
                    self.p.skip_parens()?;
                }
                let callee = match self.p.next()? {
                    Tok::Glob(g) => Callee::Direct(g),
                    Tok::Local(n) => Callee::Indirect(Opd::Reg((self.reg)(&n, None, self.reg_ty))),
                    Tok::Id(x) if x == "asm" => return Ok(PI::I(Inst::Nop)),
                    t => return Err(format!("callee {:?}", t)),
                };
                if let Callee::Direct(g) = &callee {
                    if g.starts_with("llvm.dbg") || g.starts_with("llvm.lifetime") || g.starts_with("llvm.experimental.noalias") || g.starts_with("llvm.assume") {
                        return Ok(PI::I(Inst::Nop));
                    }
                }
                self.p.exp_p('(')?;
                let mut args = vec![];
                if !self.p.eat_p(')') {
                    loop {
                        let (t, o) = self.ty_opd()?;
                        args.push((t, o));
                        if self.p.eat_p(')') {
                            break;
                        }
                        self.p.exp_p(',')?;
                    }
                }
                let mut next = None;
                if op == "invoke" {
                    while !self.p.eat_id("to") {
                        self.p.next()?;
                    }
                    next = Some(self.label()?);
                }
                let d = match (&dst, &ret) {
                    (Some(_), Ty::Void) | (None, _) => None,
                    _ => Some(self.def(&dst, ret.clone())?),
                };
                Inst::Call { dst: d, ret, callee, args, next }
            }
            "br" => {
                if self.p.is_id("label") {
                    Inst::Br(self.label()?)
                } else {
                    let (_, c) = self.ty_opd()?;
                    self.p.exp_p(',')?;
                    let a = self.label()?;
                    self.p.exp_p(',')?;
                    let b = self.label()?;
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.ty_opd()?;
                self.p.exp_p(',')?;
                let def = self.label()?;
                self.p.exp_p('[')?;
                let mut cs = vec![];
                while !self.p.eat_p(']') {
                    let ct = self.p.ty()?;
                    let c = match self.p.constant(&ct)? {
                        Const::Int(v) => v,
                        Const::Zero => 0,
                        _ => return Err("switch case".into()),
                    };
                    self.p.exp_p(',')?;
                    let l = self.label()?;
                    cs.push((c, l));
                }
                Inst::Switch(t, v, def, cs)
            }
            "ret" => {
                if self.p.is_id("void") {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.ty_opd()?))
                }
            }
            "unreachable" => Inst::Unreachable,
            "fence" => Inst::Nop,
            "landingpad" | "resume" => Inst::Unsupported("landingpad".into()),
            "atomicrmw" => {
                self.p.eat_id("volatile");
                let o = match self.p.next()? {
                    Tok::Id(x) => x,
                    _ => return Err("atomicrmw".into()),
                };
                let (_, ptr) = self.ty_opd()?;
                self.p.exp_p(',')?;
                let (t, v) = self.ty_opd()?;
                let d = if dst.is_some() { self.def(&dst, t.clone())? } else { (self.reg)("__rmw", Some(t.clone()), self.reg_ty) };
                Inst::AtomicRmw(d, o, t, ptr, v)
            }
            "cmpxchg" => {
                self.p.eat_id("weak");
                self.p.eat_id("volatile");
                let (_, ptr) = self.ty_opd()?;
                self.p.exp_p(',')?;
                let (t, c) = self.ty_opd()?;
                self.p.exp_p(',')?;
                let (_, n) = self.ty_opd()?;
                let rt = Ty::Struct(Rc::new(vec![t.clone(), Ty::Int(1)]), false);
                let d = self.def(&dst, rt)?;
                Inst::CmpXchg(d, t, ptr, c, n)
            }
            _ => return Err(format!("opcode {}", op)),
        }))
    }
    fn skip_gep_flags(&mut self) -> R<()> {
        loop {
            match self.p.peek() {
                Some(Tok::Id(x)) if matches!(x.as_str(), "inbounds" | "nuw" | "nusw") => self.p.i += 1,
                Some(Tok::Id(x)) if x == "inrange" => {
                    self.p.i += 1;
                    self.p.skip_parens()?;
                }
                _ => return Ok(()),
            }
        }
    }
}
