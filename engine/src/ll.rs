//! Parser for textual LLVM IR. Function bodies are parsed lazily, on first execution.
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u8),
    Ptr,
    Float(u8),
    Struct(Rc<Vec<Ty>>, bool),
    Array(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Meta,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(b) => *b as u64,
            Ty::Struct(_, true) => 1,
            Ty::Struct(f, false) => f.iter().map(|t| t.align()).max().unwrap_or(1),
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two().min(64).max(1),
            _ => 1,
        }
    }
    /// bytes touched by a store
    pub fn store(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => {
                let s = self.store();
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(b) => *b as u64,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => match &**t {
                Ty::Int(w) => (n * *w as u64 + 7) / 8,
                t => n * t.size(),
            },
            _ => 0,
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Array(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vector(_, t) => (i * t.store(), (**t).clone()),
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn bits(&self) -> u8 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(b) => b * 8,
            _ => panic!("bits of {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    I(E),
    Agg(Rc<Vec<Val>>),
    Undef,
}
impl Val {
    #[inline]
    pub fn e(&self) -> E {
        match self {
            Val::I(e) => *e,
            v => panic!("not a scalar: {:?}", v),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Bitcast,
    PtrInt,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opnd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(Bin, u32, Opnd, Opnd),
    Icmp(Pred, u32, Opnd, Opnd),
    Cast(Cast, u32, Ty, Ty, Opnd),
    Load(u32, Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(u32, Opnd, u64, Vec<(Opnd, u64)>),
    Alloca(u32, u64, u64),
    Select(u32, Opnd, Opnd, Opnd),
    Copy(u32, Opnd, Ty),
    Call(Option<u32>, Ty, Callee, Vec<Opnd>),
    ExtractV(u32, Opnd, Vec<u32>),
    InsertV(u32, Ty, Opnd, Opnd, Vec<u32>),
    ExtractE(u32, Opnd, Opnd),
    InsertE(u32, Ty, Opnd, Opnd, Opnd),
    Shuffle(u32, Ty, Opnd, Opnd, Vec<i32>),
    Rmw(u32, String, Ty, Opnd, Opnd),
    CmpXchg(u32, Ty, Opnd, Opnd, Opnd),
    Nop,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Unsupported(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
    pub label: String,
}
pub struct Func {
    pub id: u32,
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub init: (usize, usize), // text range, empty when external
    pub ty: Ty,
    pub tls: bool,
}
pub struct FnDecl {
    pub name: String,
    pub head: (usize, usize),
    pub body: Option<(usize, usize)>,
    pub noreturn: bool,
}
pub struct Module {
    pub text: String,
    pub globals: Vec<Global>,
    pub gname: HashMap<String, u32>,
    pub fns: Vec<FnDecl>,
    pub fname: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
}

pub const FN_BASE: u64 = 0x1000_0000_0000;
pub const GLOBAL_BASE: u64 = 0x2000_0000_0000;
pub const HEAP_BASE: u64 = 0x3000_0000_0000;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T<'a> {
    W(&'a str),
    L(&'a str),
    G(&'a str),
    N(&'a str),
    S(&'a str),
    CS(&'a str),
    M(&'a str),
    A(&'a str),
    P(u8),
    End,
}

pub struct Lex<'a> {
    s: &'a str,
    b: &'a [u8],
    p: usize,
    tok: T<'a>,
    pub start: usize,
}
fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self {
        let mut l = Lex { s, b: s.as_bytes(), p: 0, tok: T::End, start: 0 };
        l.adv();
        l
    }
    fn name(&mut self) -> &'a str {
        if self.p < self.b.len() && self.b[self.p] == b'"' {
            self.p += 1;
            let st = self.p;
            while self.b[self.p] != b'"' {
                self.p += 1;
            }
            self.p += 1;
            &self.s[st..self.p - 1]
        } else {
            let st = self.p;
            while self.p < self.b.len() && idc(self.b[self.p]) {
                self.p += 1;
            }
            &self.s[st..self.p]
        }
    }
    pub fn adv(&mut self) -> T<'a> {
        let old = self.tok;
        loop {
            while self.p < self.b.len() && (self.b[self.p] as char).is_ascii_whitespace() {
                self.p += 1;
            }
            if self.p < self.b.len() && self.b[self.p] == b';' {
                while self.p < self.b.len() && self.b[self.p] != b'\n' {
                    self.p += 1;
                }
                continue;
            }
            break;
        }
        self.start = self.p;
        if self.p >= self.b.len() {
            self.tok = T::End;
            return old;
        }
        let c = self.b[self.p];
        self.tok = match c {
            b'%' => {
                self.p += 1;
                T::L(self.name())
            }
            b'@' => {
                self.p += 1;
                T::G(self.name())
            }
            b'!' => {
                self.p += 1;
                T::M(self.name())
            }
            b'#' => {
                self.p += 1;
                T::A(self.name())
            }
            b'"' => T::S(self.name()),
            b'c' if self.p + 1 < self.b.len() && self.b[self.p + 1] == b'"' => {
                self.p += 1;
                T::CS(self.name())
            }
            b'.' => {
                self.p += 3;
                T::W("...")
            }
            _ if c.is_ascii_digit() || c == b'-' => {
                let st = self.p;
                self.p += 1;
                while self.p < self.b.len() && idc(self.b[self.p]) {
                    self.p += 1;
                }
                T::N(&self.s[st..self.p])
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = self.p;
                while self.p < self.b.len() && idc(self.b[self.p]) {
                    self.p += 1;
                }
                T::W(&self.s[st..self.p])
            }
            _ => {
                self.p += 1;
                T::P(c)
            }
        };
        old
    }
    pub fn peek(&self) -> T<'a> {
        self.tok
    }
    fn is_p(&self, c: u8) -> bool {
        self.tok == T::P(c)
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: u8) {
        if !self.eat_p(c) {
            panic!("expected {:?} got {:?} in {}", c as char, self.tok, self.s);
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.tok == T::W(w) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // current token is '('
        let mut d = 0;
        loop {
            match self.adv() {
                T::P(b'(') => d += 1,
                T::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::End => return,
                _ => {}
            }
        }
    }
    fn is_ty(&self) -> bool {
        match self.tok {
            T::W(w) => {
                matches!(w, "ptr" | "void" | "float" | "double" | "metadata" | "half" | "label" | "x86_fp80" | "fp128")
                    || (w.as_bytes()[0] == b'i' && w.len() > 1 && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()))
            }
            T::P(b'{') | T::P(b'[') | T::P(b'<') => true,
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.adv() {
            T::W("ptr") => {
                if self.eat_w("addrspace") {
                    self.skip_parens();
                }
                Ty::Ptr
            }
            T::W("void") => Ty::Void,
            T::W("float") => Ty::Float(4),
            T::W("double") => Ty::Float(8),
            T::W("half") => Ty::Float(2),
            T::W("x86_fp80") | T::W("fp128") => Ty::Float(16),
            T::W("metadata") | T::W("label") => Ty::Meta,
            T::W(w) if w.starts_with('i') => {
                let n: u32 = w[1..].parse().unwrap_or_else(|_| panic!("type {}", w));
                Ty::Int(if n > 255 { 255 } else { n as u8 })
            }
            T::P(b'{') => self.struct_tail(b'}', false),
            T::P(b'[') => {
                let n = self.num() as u64;
                assert!(self.eat_w("x"));
                let t = self.ty();
                self.exp(b']');
                Ty::Array(n, Rc::new(t))
            }
            T::P(b'<') => {
                if self.eat_p(b'{') {
                    let t = self.struct_tail(b'}', true);
                    self.exp(b'>');
                    t
                } else {
                    let n = self.num() as u64;
                    assert!(self.eat_w("x"));
                    let t = self.ty();
                    self.exp(b'>');
                    Ty::Vector(n, Rc::new(t))
                }
            }
            t => panic!("type? {:?} in {}", t, self.s),
        }
    }
    fn struct_tail(&mut self, close: u8, packed: bool) -> Ty {
        let mut f = vec![];
        while !self.eat_p(close) {
            f.push(self.ty());
            self.eat_p(b',');
        }
        Ty::Struct(Rc::new(f), packed)
    }
    fn num(&mut self) -> i128 {
        match self.adv() {
            T::N(n) => n.parse().unwrap_or_else(|_| panic!("num {}", n)),
            t => panic!("num? {:?} in {}", t, self.s),
        }
    }
    /// Skip parameter/return attributes up to a value or the end of the argument.
    fn attrs(&mut self) {
        loop {
            match self.tok {
                T::W("align") | T::W("alignstack") => {
                    self.adv();
                    if self.is_p(b'(') {
                        self.skip_parens()
                    } else {
                        self.adv();
                    }
                }
                T::W(w) => {
                    if is_const_word(w) || self.is_ty() {
                        return;
                    }
                    self.adv();
                    if self.is_p(b'(') {
                        self.skip_parens();
                    }
                }
                T::S(_) => {
                    self.adv();
                    if self.eat_p(b'=') {
                        self.adv();
                    }
                }
                T::A(_) => {
                    self.adv();
                }
                _ => return,
            }
        }
    }
}
fn is_const_word(w: &str) -> bool {
    matches!(
        w,
        "true"
            | "false"
            | "null"
            | "undef"
            | "poison"
            | "zeroinitializer"
            | "getelementptr"
            | "ptrtoint"
            | "ptrtoaddr"
            | "inttoptr"
            | "bitcast"
            | "trunc"
            | "add"
            | "sub"
            | "xor"
            | "blockaddress"
            | "asm"
            | "splat"
            | "none"
    )
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

impl Module {
    pub fn load(text: String) -> Module {
        let mut m = Module { text, globals: vec![], gname: HashMap::new(), fns: vec![], fname: HashMap::new(), aliases: HashMap::new() };
        let text = std::mem::take(&mut m.text);
        let mut gaddr = GLOBAL_BASE;
        let mut pos = 0;
        let len = text.len();
        while pos < len {
            let eol = text[pos..].find('\n').map(|x| pos + x).unwrap_or(len);
            let line = &text[pos..eol];
            if line.starts_with('@') {
                let mut lx = Lex::new(line);
                let name = match lx.adv() {
                    T::G(n) => n.to_string(),
                    _ => unreachable!(),
                };
                lx.exp(b'=');
                let mut tls = false;
                let mut external = false;
                let mut kind = "";
                loop {
                    match lx.peek() {
                        T::W("global") | T::W("constant") | T::W("alias") => {
                            kind = match lx.adv() {
                                T::W(w) => w,
                                _ => unreachable!(),
                            };
                            break;
                        }
                        T::W("thread_local") => {
                            tls = true;
                            lx.adv();
                            if lx.is_p(b'(') {
                                lx.skip_parens();
                            }
                        }
                        T::W(w) => {
                            if w == "external" || w == "extern_weak" {
                                external = true;
                            }
                            lx.adv();
                            if lx.is_p(b'(') {
                                lx.skip_parens();
                            }
                        }
                        T::End => break,
                        _ => {
                            lx.adv();
                        }
                    }
                }
                if kind == "alias" {
                    // @a = alias ty, ptr @b
                    let mut target = String::new();
                    while lx.peek() != T::End {
                        if let T::G(g) = lx.adv() {
                            target = g.to_string();
                        }
                    }
                    m.aliases.insert(name, target);
                } else {
                    let ty = lx.ty();
                    let size = ty.size();
                    let st = pos + lx.start;
                    gaddr = (gaddr + 63) & !63;
                    let g = Global {
                        name: name.clone(),
                        addr: gaddr,
                        size,
                        constant: kind == "constant",
                        init: if external { (0, 0) } else { (st, eol) },
                        ty,
                        tls,
                    };
                    gaddr += size + 32;
                    m.gname.insert(name, m.globals.len() as u32);
                    m.globals.push(g);
                }
            } else if line.starts_with("define") || line.starts_with("declare") {
                let at = line.find('@').unwrap();
                let mut lx = Lex::new(&line[at..]);
                let name = match lx.adv() {
                    T::G(n) => n.to_string(),
                    _ => unreachable!(),
                };
                let def = line.starts_with("define");
                let mut body = None;
                let mut next = eol;
                if def {
                    let e = text[eol..].find("\n}").map(|x| eol + x).unwrap();
                    body = Some((eol + 1, e));
                    next = e + 2;
                }
                m.fname.insert(name.clone(), m.fns.len() as u32);
                m.fns.push(FnDecl { name, head: (pos, eol), body, noreturn: false });
                pos = next;
                if pos < len {
                    pos += 1;
                }
                continue;
            }
            pos = eol + 1;
        }
        m.text = text;
        m
    }
    pub fn fn_addr(id: u32) -> u64 {
        FN_BASE + 16 * id as u64
    }
    pub fn resolve_sym(&self, n: &str) -> Option<u64> {
        let mut n = n;
        while let Some(t) = self.aliases.get(n) {
            n = t;
        }
        if let Some(&g) = self.gname.get(n) {
            return Some(self.globals[g as usize].addr);
        }
        self.fname.get(n).map(|&f| Module::fn_addr(f))
    }

    /// Parse a constant of type `ty`.
    fn constant(&self, cx: &mut Ctx, lx: &mut Lex, ty: &Ty) -> Val {
        match lx.adv() {
            T::W("true") => Val::I(cx.con(1, 1)),
            T::W("false") => Val::I(cx.con(1, 0)),
            T::W("null") => Val::I(cx.con(64, 0)),
            T::W("zeroinitializer") => zero(cx, ty),
            T::W("none") => Val::Undef,
            T::W("undef") | T::W("poison") => undef(ty),
            T::W("splat") => {
                lx.exp(b'(');
                let t = lx.ty();
                let v = self.constant(cx, lx, &t);
                lx.exp(b')');
                match ty {
                    Ty::Vector(n, _) => Val::Agg(Rc::new(vec![v; *n as usize])),
                    _ => panic!("splat"),
                }
            }
            T::N(n) => match ty {
                Ty::Int(w) => {
                    let v: i128 = match n.parse::<i128>() {
                        Ok(v) => v,
                        Err(_) => n.parse::<u128>().unwrap() as i128,
                    };
                    Val::I(cx.con(*w, v as u128))
                }
                Ty::Float(_) => Val::Undef,
                _ => panic!("num of {:?}", ty),
            },
            T::G(g) => {
                let a = self.resolve_sym(g).unwrap_or_else(|| panic!("unknown symbol {}", g));
                Val::I(cx.con(64, a as u128))
            }
            T::CS(s) => {
                let b = unescape(s);
                Val::Agg(Rc::new(b.iter().map(|&x| Val::I(x as u32)).collect()))
            }
            T::P(b'{') => {
                let v = self.const_list(cx, lx, b'}');
                Val::Agg(Rc::new(v))
            }
            T::P(b'[') => {
                let v = self.const_list(cx, lx, b']');
                Val::Agg(Rc::new(v))
            }
            T::P(b'<') => {
                if lx.eat_p(b'{') {
                    let v = self.const_list(cx, lx, b'}');
                    lx.exp(b'>');
                    Val::Agg(Rc::new(v))
                } else {
                    let v = self.const_list(cx, lx, b'>');
                    Val::Agg(Rc::new(v))
                }
            }
            T::W("getelementptr") => {
                while let T::W(w) = lx.peek() {
                    if matches!(w, "inbounds" | "nuw" | "nusw") {
                        lx.adv();
                    } else if w == "inrange" {
                        lx.adv();
                        lx.skip_parens();
                    } else {
                        break;
                    }
                }
                lx.exp(b'(');
                let t = lx.ty();
                lx.exp(b',');
                let pt = lx.ty();
                let base = self.constant(cx, lx, &pt).e();
                let mut off = 0u64;
                let mut cur = t;
                let mut first = true;
                while lx.eat_p(b',') {
                    let it = lx.ty();
                    let v = self.constant(cx, lx, &it).e();
                    let i = sx(cx.cv(v).unwrap(), it.bits()) as i64;
                    if first {
                        off = off.wrapping_add((i as u64).wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        let (o, t) = cur.field_off(i as u64);
                        off = off.wrapping_add(o);
                        cur = t;
                    }
                }
                lx.exp(b')');
                let b = cx.cv(base).unwrap() as u64;
                Val::I(cx.con(64, b.wrapping_add(off) as u128))
            }
            T::W("ptrtoint") | T::W("inttoptr") | T::W("bitcast") | T::W("trunc") | T::W("ptrtoaddr") => {
                lx.exp(b'(');
                let t = lx.ty();
                let v = self.constant(cx, lx, &t);
                assert!(lx.eat_w("to"));
                let d = lx.ty();
                lx.exp(b')');
                match (&v, &d) {
                    (Val::I(e), Ty::Int(w)) => {
                        let k = cx.cv(*e).unwrap();
                        Val::I(cx.con(*w, k))
                    }
                    (Val::I(e), Ty::Ptr) => {
                        let k = cx.cv(*e).unwrap();
                        Val::I(cx.con(64, k))
                    }
                    _ => v,
                }
            }
            T::W(op @ ("add" | "sub" | "xor")) => {
                while let T::W("nuw" | "nsw") = lx.peek() {
                    lx.adv();
                }
                lx.exp(b'(');
                let t = lx.ty();
                let a = self.constant(cx, lx, &t).e();
                lx.exp(b',');
                let t2 = lx.ty();
                let b = self.constant(cx, lx, &t2).e();
                lx.exp(b')');
                Val::I(match op {
                    "add" => cx.add(a, b),
                    "sub" => cx.sub(a, b),
                    _ => cx.xor(a, b),
                })
            }
            t => panic!("constant? {:?} in {}", t, lx.s),
        }
    }
    fn const_list(&self, cx: &mut Ctx, lx: &mut Lex, close: u8) -> Vec<Val> {
        let mut v = vec![];
        while !lx.eat_p(close) {
            let t = lx.ty();
            v.push(self.constant(cx, lx, &t));
            lx.eat_p(b',');
        }
        v
    }
    pub fn global_init(&self, cx: &mut Ctx, g: u32) -> Option<Val> {
        let gl = &self.globals[g as usize];
        if gl.init == (0, 0) {
            return None;
        }
        let text = &self.text[gl.init.0..gl.init.1];
        let mut lx = Lex::new(text);
        Some(self.constant(cx, &mut lx, &gl.ty))
    }

    pub fn parse_fn(&self, cx: &mut Ctx, id: u32) -> Func {
        let d = &self.fns[id as usize];
        let head = &self.text[d.head.0..d.head.1];
        let at = head.find('@').unwrap();
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut lx = Lex::new(&head[at..]);
        lx.adv();
        lx.exp(b'(');
        let mut nparams = 0;
        let mut unnamed = 0;
        while !lx.eat_p(b')') {
            if lx.eat_w("...") {
                continue;
            }
            lx.ty();
            lx.attrs();
            if let T::L(n) = lx.peek() {
                lx.adv();
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                regs.insert(n.to_string(), nparams);
            }
            nparams += 1;
            lx.eat_p(b',');
        }
        let (s, e) = d.body.unwrap();
        let body = &self.text[s..e];
        // collect logical lines and block labels
        let mut lines: Vec<&str> = vec![];
        let mut blocks: Vec<(String, usize)> = vec![];
        let mut bmap: HashMap<String, u32> = HashMap::new();
        let mut p = 0;
        let b = body.as_bytes();
        let mut first = true;
        while p < body.len() {
            let mut eol = body[p..].find('\n').map(|x| p + x).unwrap_or(body.len());
            let l = &body[p..eol];
            if l.trim().is_empty() {
                p = eol + 1;
                continue;
            }
            let c0 = b[p];
            if c0 != b' ' && c0 != b';' {
                // label
                let name = if c0 == b'"' {
                    let q = l[1..].find('"').unwrap();
                    &l[1..1 + q]
                } else {
                    &l[..l.find(':').unwrap()]
                };
                bmap.insert(name.to_string(), blocks.len() as u32);
                blocks.push((name.to_string(), lines.len()));
                first = false;
                p = eol + 1;
                continue;
            }
            if first {
                let n = unnamed.to_string();
                bmap.insert(n.clone(), 0);
                blocks.push((n, 0));
                first = false;
            }
            if c0 == b';' {
                p = eol + 1;
                continue;
            }
            if l.trim_start().starts_with("switch") && !l.contains(']') {
                let q = body[eol..].find("\n  ]").unwrap();
                eol = eol + q + 4;
                let e2 = body[eol..].find('\n').map(|x| eol + x).unwrap_or(body.len());
                lines.push(&body[p..e2]);
                p = e2 + 1;
                continue;
            }
            lines.push(l);
            p = eol + 1;
        }
        // assign registers
        let mut nregs = nparams;
        for l in &lines {
            let t = l.trim_start();
            if t.starts_with('%') {
                let mut lx = Lex::new(t);
                if let T::L(n) = lx.adv() {
                    regs.insert(n.to_string(), nregs);
                    nregs += 1;
                }
            }
        }
        let mut out = vec![];
        for (i, (name, st)) in blocks.iter().enumerate() {
            let en = if i + 1 < blocks.len() { blocks[i + 1].1 } else { lines.len() };
            let mut blk = Block { phis: vec![], insts: vec![], label: name.clone() };
            for l in &lines[*st..en] {
                self.parse_inst(cx, l.trim_start(), &regs, &bmap, &mut blk);
            }
            out.push(blk);
        }
        Func { id, name: d.name.clone(), nparams, nregs, blocks: out }
    }

    fn opnd(&self, cx: &mut Ctx, lx: &mut Lex, ty: &Ty, regs: &HashMap<String, u32>) -> Opnd {
        if let T::L(n) = lx.peek() {
            lx.adv();
            return Opnd::R(*regs.get(n).unwrap_or_else(|| panic!("reg {}", n)));
        }
        Opnd::C(self.constant(cx, lx, ty))
    }

    fn parse_inst(&self, cx: &mut Ctx, line: &str, regs: &HashMap<String, u32>, bm: &HashMap<String, u32>, blk: &mut Block) {
        let mut lx = Lex::new(line);
        let mut dst = None;
        if let T::L(n) = lx.peek() {
            lx.adv();
            lx.exp(b'=');
            dst = Some(regs[n]);
        }
        let mut op = match lx.adv() {
            T::W(w) => w,
            t => panic!("op {:?} in {}", t, line),
        };
        if matches!(op, "tail" | "musttail" | "notail") {
            op = match lx.adv() {
                T::W(w) => w,
                _ => panic!(),
            };
        }
        let flags = |lx: &mut Lex| {
            while let T::W(w) = lx.peek() {
                if matches!(
                    w,
                    "nuw" | "nsw" | "exact" | "inbounds" | "nusw" | "samesign" | "disjoint" | "nneg" | "volatile" | "atomic" | "weak" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
                ) {
                    lx.adv();
                } else {
                    break;
                }
            }
        };
        let lab = |lx: &mut Lex| -> u32 {
            lx.ty();
            match lx.adv() {
                T::L(n) => *bm.get(n).unwrap_or_else(|| panic!("label {}", n)),
                t => panic!("label {:?}", t),
            }
        };
        let ins = match op {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                flags(&mut lx);
                let t = lx.ty();
                let a = self.opnd(cx, &mut lx, &t, regs);
                lx.exp(b',');
                let b = self.opnd(cx, &mut lx, &t, regs);
                let k = match op {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "urem" => Bin::URem,
                    "sdiv" => Bin::SDiv,
                    "srem" => Bin::SRem,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    "ashr" => Bin::AShr,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    _ => Bin::Xor,
                };
                Inst::Bin(k, dst.unwrap(), a, b)
            }
            "icmp" => {
                flags(&mut lx);
                let p = match lx.adv() {
                    T::W("eq") => Pred::Eq,
                    T::W("ne") => Pred::Ne,
                    T::W("ugt") => Pred::Ugt,
                    T::W("uge") => Pred::Uge,
                    T::W("ult") => Pred::Ult,
                    T::W("ule") => Pred::Ule,
                    T::W("sgt") => Pred::Sgt,
                    T::W("sge") => Pred::Sge,
                    T::W("slt") => Pred::Slt,
                    T::W("sle") => Pred::Sle,
                    t => panic!("pred {:?}", t),
                };
                let t = lx.ty();
                let a = self.opnd(cx, &mut lx, &t, regs);
                lx.exp(b',');
                let b = self.opnd(cx, &mut lx, &t, regs);
                Inst::Icmp(p, dst.unwrap(), a, b)
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                flags(&mut lx);
                let t = lx.ty();
                let a = self.opnd(cx, &mut lx, &t, regs);
                assert!(lx.eat_w("to"));
                let d = lx.ty();
                let k = match op {
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "trunc" => Cast::Trunc,
                    "bitcast" => Cast::Bitcast,
                    _ => Cast::PtrInt,
                };
                Inst::Cast(k, dst.unwrap(), t, d, a)
            }
            "load" => {
                flags(&mut lx);
                let t = lx.ty();
                lx.exp(b',');
                let pt = lx.ty();
                let p = self.opnd(cx, &mut lx, &pt, regs);
                Inst::Load(dst.unwrap(), t, p)
            }
            "store" => {
                flags(&mut lx);
                let t = lx.ty();
                let v = self.opnd(cx, &mut lx, &t, regs);
                lx.exp(b',');
                let pt = lx.ty();
                let p = self.opnd(cx, &mut lx, &pt, regs);
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                flags(&mut lx);
                let t = lx.ty();
                lx.exp(b',');
                let pt = lx.ty();
                let base = self.opnd(cx, &mut lx, &pt, regs);
                let mut off = 0u64;
                let mut cur = t;
                let mut firsti = true;
                let mut dynv = vec![];
                while lx.is_p(b',') {
                    lx.adv();
                    if let T::M(_) = lx.peek() {
                        break;
                    }
                    let it = lx.ty();
                    let v = self.opnd(cx, &mut lx, &it, regs);
                    let k = match &v {
                        Opnd::C(Val::I(e)) => cx.cv(*e).map(|k| sx(k, it.bits()) as i64),
                        _ => None,
                    };
                    if firsti {
                        firsti = false;
                        let sz = cur.size();
                        match k {
                            Some(k) => off = off.wrapping_add((k as u64).wrapping_mul(sz)),
                            None => dynv.push((v, sz)),
                        }
                    } else {
                        match k {
                            Some(k) => {
                                let (o, t) = cur.field_off(k as u64);
                                off = off.wrapping_add(o);
                                cur = t;
                            }
                            None => {
                                let (_, t) = cur.field_off(0);
                                dynv.push((v, t.size()));
                                cur = t;
                            }
                        }
                    }
                }
                Inst::Gep(dst.unwrap(), base, off, dynv)
            }
            "alloca" => {
                flags(&mut lx);
                let t = lx.ty();
                let mut n = 1u64;
                let mut al = t.align();
                while lx.eat_p(b',') {
                    if lx.eat_w("align") {
                        al = lx.num() as u64;
                    } else if lx.is_ty() {
                        let it = lx.ty();
                        if let Opnd::C(Val::I(e)) = self.opnd(cx, &mut lx, &it, regs) {
                            n = cx.cv(e).unwrap() as u64;
                        } else {
                            panic!("dynamic alloca")
                        }
                    } else {
                        lx.adv();
                    }
                }
                Inst::Alloca(dst.unwrap(), t.size() * n, al)
            }
            "select" => {
                flags(&mut lx);
                let ct = lx.ty();
                let c = self.opnd(cx, &mut lx, &ct, regs);
                lx.exp(b',');
                let t = lx.ty();
                let a = self.opnd(cx, &mut lx, &t, regs);
                lx.exp(b',');
                let t2 = lx.ty();
                let b = self.opnd(cx, &mut lx, &t2, regs);
                Inst::Select(dst.unwrap(), c, a, b)
            }
            "freeze" => {
                let t = lx.ty();
                let a = self.opnd(cx, &mut lx, &t, regs);
                Inst::Copy(dst.unwrap(), a, t)
            }
            "phi" => {
                flags(&mut lx);
                let t = lx.ty();
                let mut v = vec![];
                while lx.eat_p(b'[') {
                    let o = self.opnd(cx, &mut lx, &t, regs);
                    lx.exp(b',');
                    let l = match lx.adv() {
                        T::L(n) => bm[n],
                        t => panic!("{:?}", t),
                    };
                    lx.exp(b']');
                    v.push((l, o));
                    lx.eat_p(b',');
                }
                blk.phis.push((dst.unwrap(), v));
                return;
            }
            "call" => {
                flags(&mut lx);
                // calling convention and return attributes
                while let T::W(w) = lx.peek() {
                    if lx.is_ty() {
                        break;
                    }
                    lx.adv();
                    if w == "cc" || w == "align" {
                        lx.adv();
                    } else if lx.is_p(b'(') {
                        lx.skip_parens();
                    }
                }
                let rt = lx.ty();
                if lx.is_p(b'(') {
                    lx.skip_parens();
                }
                let callee = match lx.peek() {
                    T::G(n) => {
                        lx.adv();
                        let mut n = n;
                        while let Some(t) = self.aliases.get(n) {
                            n = t;
                        }
                        Callee::Fn(*self.fname.get(n).unwrap_or_else(|| panic!("fn {}", n)))
                    }
                    T::L(_) => Callee::Ind(self.opnd(cx, &mut lx, &Ty::Ptr, regs)),
                    T::W("asm") => {
                        lx.adv();
                        let mut s = String::new();
                        loop {
                            match lx.peek() {
                                T::S(x) => {
                                    if s.is_empty() {
                                        s = format!("asm:{}", x);
                                    }
                                    lx.adv();
                                }
                                T::P(b'(') => break,
                                _ => {
                                    lx.adv();
                                }
                            }
                        }
                        Callee::Asm(s)
                    }
                    _ => Callee::Ind(self.opnd(cx, &mut lx, &Ty::Ptr, regs)),
                };
                lx.exp(b'(');
                let mut args = vec![];
                while !lx.eat_p(b')') {
                    let t = lx.ty();
                    if t == Ty::Meta {
                        // skip metadata operand
                        let mut d = 0;
                        loop {
                            match lx.peek() {
                                T::P(b'(') => d += 1,
                                T::P(b')') if d == 0 => break,
                                T::P(b')') => d -= 1,
                                T::P(b',') if d == 0 => break,
                                _ => {}
                            }
                            lx.adv();
                        }
                    } else {
                        lx.attrs();
                        args.push(self.opnd(cx, &mut lx, &t, regs));
                    }
                    lx.eat_p(b',');
                }
                Inst::Call(dst, rt, callee, args)
            }
            "extractvalue" => {
                let t = lx.ty();
                let a = self.opnd(cx, &mut lx, &t, regs);
                let mut ix = vec![];
                while lx.eat_p(b',') {
                    if let T::N(_) = lx.peek() {
                        ix.push(lx.num() as u32);
                    } else {
                        break;
                    }
                }
                Inst::ExtractV(dst.unwrap(), a, ix)
            }
            "insertvalue" => {
                let t = lx.ty();
                let a = self.opnd(cx, &mut lx, &t, regs);
                lx.exp(b',');
                let vt = lx.ty();
                let v = self.opnd(cx, &mut lx, &vt, regs);
                let mut ix = vec![];
                while lx.eat_p(b',') {
                    if let T::N(_) = lx.peek() {
                        ix.push(lx.num() as u32);
                    } else {
                        break;
                    }
                }
                Inst::InsertV(dst.unwrap(), t, a, v, ix)
            }
            "extractelement" => {
                let t = lx.ty();
                let a = self.opnd(cx, &mut lx, &t, regs);
                lx.exp(b',');
                let it = lx.ty();
                let i = self.opnd(cx, &mut lx, &it, regs);
                Inst::ExtractE(dst.unwrap(), a, i)
            }
            "insertelement" => {
                let t = lx.ty();
                let a = self.opnd(cx, &mut lx, &t, regs);
                lx.exp(b',');
                let vt = lx.ty();
                let v = self.opnd(cx, &mut lx, &vt, regs);
                lx.exp(b',');
                let it = lx.ty();
                let i = self.opnd(cx, &mut lx, &it, regs);
                Inst::InsertE(dst.unwrap(), t, a, v, i)
            }
            "shufflevector" => {
                let t = lx.ty();
                let a = self.opnd(cx, &mut lx, &t, regs);
                lx.exp(b',');
                let t2 = lx.ty();
                let b = self.opnd(cx, &mut lx, &t2, regs);
                lx.exp(b',');
                let mt = lx.ty();
                let m = self.constant(cx, &mut lx, &mt);
                let v = match m {
                    Val::Agg(v) => v
                        .iter()
                        .map(|x| match x {
                            Val::I(e) => cx.cv(*e).unwrap() as i32,
                            _ => -1,
                        })
                        .collect(),
                    _ => match mt {
                        Ty::Vector(n, _) => vec![-1; n as usize],
                        _ => panic!(),
                    },
                };
                Inst::Shuffle(dst.unwrap(), t, a, b, v)
            }
            "atomicrmw" => {
                flags(&mut lx);
                let o = match lx.adv() {
                    T::W(w) => w.to_string(),
                    _ => panic!(),
                };
                let pt = lx.ty();
                let p = self.opnd(cx, &mut lx, &pt, regs);
                lx.exp(b',');
                let t = lx.ty();
                let v = self.opnd(cx, &mut lx, &t, regs);
                Inst::Rmw(dst.unwrap(), o, t, p, v)
            }
            "cmpxchg" => {
                flags(&mut lx);
                let pt = lx.ty();
                let p = self.opnd(cx, &mut lx, &pt, regs);
                lx.exp(b',');
                let t = lx.ty();
                let c = self.opnd(cx, &mut lx, &t, regs);
                lx.exp(b',');
                let t2 = lx.ty();
                let n = self.opnd(cx, &mut lx, &t2, regs);
                Inst::CmpXchg(dst.unwrap(), t, p, c, n)
            }
            "fence" => Inst::Nop,
            "br" => {
                if lx.peek() == T::W("label") {
                    Inst::Br(lab(&mut lx))
                } else {
                    let t = lx.ty();
                    let c = self.opnd(cx, &mut lx, &t, regs);
                    lx.exp(b',');
                    let a = lab(&mut lx);
                    lx.exp(b',');
                    let b = lab(&mut lx);
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = lx.ty();
                let v = self.opnd(cx, &mut lx, &t, regs);
                lx.exp(b',');
                let d = lab(&mut lx);
                lx.exp(b'[');
                let mut cs = vec![];
                while !lx.eat_p(b']') {
                    let ct = lx.ty();
                    let k = self.constant(cx, &mut lx, &ct).e();
                    lx.exp(b',');
                    let l = lab(&mut lx);
                    cs.push((cx.cv(k).unwrap(), l));
                }
                Inst::Switch(v, d, cs)
            }
            "ret" => {
                let t = lx.ty();
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.opnd(cx, &mut lx, &t, regs)))
                }
            }
            "unreachable" => Inst::Unreachable,
            _ => Inst::Unsupported(line.to_string()),
        };
        blk.insts.push(ins);
    }
}

pub fn zero(cx: &mut Ctx, ty: &Ty) -> Val {
    match ty {
        Ty::Int(w) => Val::I(cx.con(*w, 0)),
        Ty::Ptr => Val::I(cx.con(64, 0)),
        Ty::Float(b) => Val::I(cx.con(b * 8, 0)),
        Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(|t| zero(cx, t)).collect())),
        Ty::Array(n, t) | Ty::Vector(n, t) => {
            let z = zero(cx, t);
            Val::Agg(Rc::new(vec![z; *n as usize]))
        }
        _ => Val::Undef,
    }
}
pub fn undef(ty: &Ty) -> Val {
    match ty {
        Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(undef).collect())),
        Ty::Array(n, t) | Ty::Vector(n, t) => Val::Agg(Rc::new(vec![undef(t); *n as usize])),
        _ => Val::Undef,
    }
}
