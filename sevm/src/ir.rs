//! Parser for the textual LLVM IR that rustc emits (`--emit=llvm-ir`, fat LTO).
//! Functions are parsed lazily, the first time they are executed.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float => 32,
            Ty::Double => 64,
            Ty::Vec(n, t) => (*n as u32) * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) }
            }
            Ty::Void | Ty::Other => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(n, t) => ((*n) * (t.bits() as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    /// Allocation size.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !*packed { o = up(o, t.align()); }
                    o += t.size();
                }
                up(o, self.align())
            }
            Ty::Void | Ty::Other => 0,
            _ => up(self.store_size(), self.align()),
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !*packed { o = up(o, t.align()); }
                    if k == i { return (o, t.clone()); }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
}
pub fn up(o: u64, a: u64) -> u64 { (o + a - 1) / a * a }

/// Constant, before globals have been given addresses.
#[derive(Clone, Debug)]
pub enum Const {
    Int(u32, u128),
    Undef(Ty),
    Zero(Ty),
    Global(String, i64),
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Const)>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    Int(u128),
    Undef,
    /// zero / aggregate constants
    Cst(Rc<(Ty, Const)>),
    /// resolved address
    Addr(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, Bit }

#[derive(Clone, Debug)]
pub enum Callee { Direct(Rc<str>), Indirect(Op) }

#[derive(Clone, Debug)]
pub enum GepIdx { Const(i64), Scaled(Op, u32, i64) } // op, width, scale

#[derive(Clone, Debug)]
pub enum I {
    Bin(u32, Bin, Ty, Op, Op),
    Icmp(u32, Pred, Ty, Op, Op),
    Cast(u32, Cast, Ty, Op, Ty),
    Select(u32, Op, Ty, Op, Op),
    Freeze(u32, Op),
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    Alloca(u32, u64, Op),
    Gep(u32, Op, Vec<GepIdx>),
    Extract(u32, Op, Vec<u32>),
    Insert(u32, Ty, Op, Op, Vec<u32>),
    ExtractEl(u32, Op, Op),
    InsertEl(u32, Ty, Op, Op, Op),
    Shuffle(u32, Ty, Op, Op, Vec<Option<u32>>),
    Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, Op)>, normal: Option<u32> },
    AtomicRmw(u32, String, Ty, Op, Op),
    CmpXchg(u32, Ty, Op, Op, Op),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Fence,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, Op)>)>, pub ins: Vec<I> }

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub demangled: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub vararg: bool,
}

pub struct GlobalDef { pub name: String, pub ty: Ty, pub init: Option<Const>, pub constant: bool }

pub struct Module {
    pub lines: Vec<String>,
    pub func_lines: HashMap<String, (usize, usize)>,
    pub declared: Vec<String>,
    pub globals: Vec<GlobalDef>,
    pub aliases: Vec<(String, Const)>,
    pub named: HashMap<String, Ty>,
    pub addr: HashMap<String, u64>,
}

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(String),
    Global(String),
    Int(bool, u128), // negative, magnitude
    Word(String),
    Str(Vec<u8>),   // c"..."
    Quoted(String), // "..."
    P(char),
    Dots,
    Meta,           // ! things
    Hash,           // #12
    Label(String),
}

fn ident_char(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

pub fn lex(line: &str) -> Vec<Tok> {
    let b = line.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let (name, j) = if b.get(i + 1) == Some(&b'"') {
                    let e = line[i + 2..].find('"').unwrap() + i + 2;
                    (line[i + 2..e].to_string(), e + 1)
                } else {
                    let mut j = i + 1;
                    while j < b.len() && ident_char(b[j]) { j += 1; }
                    (line[i + 1..j].to_string(), j)
                };
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
                i = j;
            }
            b'c' if b.get(i + 1) == Some(&b'"') => {
                let (s, j) = lex_str(b, i + 2);
                out.push(Tok::Str(s));
                i = j;
            }
            b'"' => {
                let (s, j) = lex_str(b, i + 1);
                out.push(Tok::Quoted(String::from_utf8_lossy(&s).into_owned()));
                i = j;
            }
            b'!' => {
                // metadata: skip name or balanced braces
                let mut j = i + 1;
                if b.get(j) == Some(&b'{') || b.get(j) == Some(&b'"') {
                    let mut d = 0;
                    while j < b.len() {
                        if b[j] == b'{' { d += 1 }
                        if b[j] == b'}' { d -= 1; if d == 0 { j += 1; break } }
                        j += 1;
                    }
                } else {
                    while j < b.len() && ident_char(b[j]) { j += 1; }
                    if b.get(j) == Some(&b'(') {
                        let mut d = 0;
                        while j < b.len() {
                            if b[j] == b'(' { d += 1 }
                            if b[j] == b')' { d -= 1; if d == 0 { j += 1; break } }
                            j += 1;
                        }
                    }
                }
                out.push(Tok::Meta);
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && ident_char(b[j]) { j += 1; }
                out.push(Tok::Hash);
                i = j;
            }
            b'0'..=b'9' | b'-' => {
                let neg = c == b'-';
                let s = if neg { i + 1 } else { i };
                let mut j = s;
                while j < b.len() && ident_char(b[j]) && b[j] != b'-' { j += 1; }
                if line[s..j].contains('.') && b[j - 1] == b'e' && matches!(b.get(j), Some(b'+' | b'-')) {
                    j += 1;
                    while j < b.len() && b[j].is_ascii_digit() { j += 1; }
                }
                let t = &line[s..j];
                match t.parse::<u128>() {
                    Ok(v) => out.push(Tok::Int(neg, v)),
                    Err(_) => out.push(Tok::Word(line[i..j].to_string())),
                }
                i = j.max(i + 1);
            }
            b'.' if line[i..].starts_with("...") => { out.push(Tok::Dots); i += 3; }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let mut j = i;
                while j < b.len() && ident_char(b[j]) { j += 1; }
                if b.get(j) == Some(&b':') && b.get(j + 1) != Some(&b' ') || (b.get(j) == Some(&b':') && out.is_empty()) {
                    out.push(Tok::Label(line[i..j].to_string()));
                    i = j + 1;
                } else {
                    out.push(Tok::Word(line[i..j].to_string()));
                    i = j;
                }
            }
            _ => { out.push(Tok::P(c as char)); i += 1; }
        }
    }
    out
}

fn lex_str(b: &[u8], mut i: usize) -> (Vec<u8>, usize) {
    let mut v = Vec::new();
    while b[i] != b'"' {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { v.push(b'\\'); i += 2; continue; }
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            v.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else { v.push(b[i]); i += 1; }
    }
    (v, i + 1)
}

// ---------------------------------------------------------------- parser
pub struct P<'a> { pub t: &'a [Tok], pub i: usize, pub named: &'a HashMap<String, Ty> }

fn mask128(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn next(&mut self) -> Tok { let t = self.t[self.i].clone(); self.i += 1; t }
    fn word(&self) -> Option<&str> { match self.peek() { Some(Tok::Word(w)) => Some(w), _ => None } }
    fn is_p(&self, c: char) -> bool { self.peek() == Some(&Tok::P(c)) }
    fn eat_p(&mut self, c: char) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn exp(&mut self, c: char) { if !self.eat_p(c) { panic!("expected {c} at {} in {:?}", self.i, self.t) } }
    fn eat_w(&mut self, w: &str) -> bool { if self.word() == Some(w) { self.i += 1; true } else { false } }

    fn skip_parens(&mut self) {
        if self.is_p('(') {
            let mut d = 0;
            loop {
                match self.next() {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => { d -= 1; if d == 0 { return } }
                    _ => {}
                }
            }
        }
    }

    pub fn is_ty(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => {
                matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token" | "opaque" | "half" | "x86_fp80" | "fp128")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::Local(n)) => self.named.contains_key(n),
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_w("addrspace") { self.skip_parens(); }
                    Ty::Ptr
                }
                "float" => Ty::Float,
                "double" => Ty::Double,
                "label" | "metadata" | "token" | "opaque" | "half" | "x86_fp80" | "fp128" => Ty::Other,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {w}"))),
                _ => panic!("type {w} in {:?}", self.t),
            },
            Tok::P('{') => { let f = self.ty_list('}'); Ty::Struct(Rc::new(f), false) }
            Tok::P('[') => {
                let n = match self.next() { Tok::Int(_, n) => n as u64, x => panic!("{x:?}") };
                assert!(self.eat_w("x"));
                let t = self.ty();
                self.exp(']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let f = self.ty_list('}');
                    self.exp('>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = match self.next() { Tok::Int(_, n) => n as u64, x => panic!("{x:?}") };
                    assert!(self.eat_w("x"));
                    let t = self.ty();
                    self.exp('>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::Local(n) => self.named[&n].clone(),
            x => panic!("type token {x:?} in {:?}", self.t),
        }
    }
    fn ty_list(&mut self, end: char) -> Vec<Ty> {
        let mut f = Vec::new();
        if self.eat_p(end) { return f }
        loop {
            f.push(self.ty());
            if self.eat_p(end) { return f }
            self.exp(',');
        }
    }

    /// Skips parameter / return attributes and instruction flags.
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    if self.is_ty() || w.starts_with(|c: char| c.is_ascii_digit() || c == '-') { return }
                    match w.as_str() {
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr"
                        | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "trunc" | "add" | "sub" | "splat" | "asm" | "bitcast" | "xor" => return,
                        _ => {}
                    }
                    let al = w == "align";
                    self.i += 1;
                    if al && matches!(self.peek(), Some(Tok::Int(..))) { self.i += 1 }
                    self.skip_parens();
                }
                Some(Tok::Hash) => self.i += 1,
                Some(Tok::Quoted(_)) => {
                    self.i += 1;
                    if self.eat_p('=') { self.i += 1 }
                }
                _ => return,
            }
        }
    }

    pub fn konst(&mut self, ty: &Ty) -> Const {
        match self.next() {
            Tok::Int(neg, v) => {
                let w = ty.bits();
                let v = if neg { v.wrapping_neg() } else { v } & mask128(w);
                Const::Int(w, v)
            }
            Tok::Global(g) => Const::Global(g, 0),
            Tok::Str(s) => Const::Bytes(s),
            Tok::P('{') => self.agg('}'),
            Tok::P('[') => self.agg(']'),
            Tok::P('<') => {
                if self.eat_p('{') {
                    let a = self.agg('}');
                    self.exp('>');
                    a
                } else { self.agg('>') }
            }
            Tok::Word(w) => match w.as_str() {
                "true" => Const::Int(1, 1),
                "false" => Const::Int(1, 0),
                "null" => Const::Int(64, 0),
                "none" => Const::Int(64, 0),
                "undef" | "poison" => Const::Undef(ty.clone()),
                "zeroinitializer" => Const::Zero(ty.clone()),
                "splat" => {
                    self.exp('(');
                    let t = self.ty();
                    let c = self.konst(&t);
                    self.exp(')');
                    let n = match ty { Ty::Vec(n, _) => *n, _ => panic!() };
                    Const::Agg((0..n).map(|_| (t.clone(), c.clone())).collect())
                }
                "getelementptr" => {
                    while !self.is_p('(') { if self.eat_w("inrange") { self.skip_parens(); } else { self.next(); } }
                    self.exp('(');
                    let bt = self.ty();
                    self.exp(',');
                    self.skip_attrs();
                    let pt = self.ty();
                    let base = self.konst(&pt);
                    let mut off = 0i64;
                    let mut first = true;
                    let mut cur = bt;
                    while self.eat_p(',') {
                        self.skip_attrs();
                        let it = self.ty();
                        let c = self.konst(&it);
                        let v = match c { Const::Int(w, v) => sext(v, w) as i64, _ => panic!("gep idx") };
                        if first { off += v * cur.size() as i64; first = false; }
                        else if let Ty::Struct(..) = cur { let (o, t) = cur.field(v as usize); off += o as i64; cur = t; }
                        else {
                            let t = match &cur { Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => panic!() };
                            off += v * t.size() as i64;
                            cur = t;
                        }
                    }
                    self.exp(')');
                    match base {
                        Const::Global(g, o) => Const::Global(g, o + off),
                        Const::Int(w, v) => Const::Int(w, (v as i64).wrapping_add(off) as u64 as u128),
                        Const::Undef(t) => Const::Undef(t),
                        x => panic!("gep base {x:?}"),
                    }
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    self.exp('(');
                    let t = self.ty();
                    let c = self.konst(&t);
                    assert!(self.eat_w("to"));
                    let t2 = self.ty();
                    self.exp(')');
                    match c {
                        Const::Int(_, v) => Const::Int(t2.bits(), v & mask128(t2.bits())),
                        c => c,
                    }
                }
                "sub" | "add" => {
                    while !self.is_p('(') { self.next(); }
                    self.exp('(');
                    let t = self.ty();
                    let a = self.konst(&t);
                    self.exp(',');
                    let t2 = self.ty();
                    let b = self.konst(&t2);
                    self.exp(')');
                    match (a, b) {
                        (Const::Int(w, a), Const::Int(_, b)) => Const::Int(w, if w == 1 { a } else { a.wrapping_add(b) } & mask128(w)),
                        (Const::Global(g, o), Const::Int(_, b)) => Const::Global(g, if w_is(&w, "add") { o + b as i64 } else { o - b as i64 }),
                        _ => Const::Undef(t),
                    }
                }
                _ => {
                    let v = if let Some(h) = w.strip_prefix("0x") { u64::from_str_radix(h, 16).ok().map(f64::from_bits) } else { w.parse::<f64>().ok() };
                    match (v, ty) {
                        (Some(v), Ty::Double) => Const::Int(64, v.to_bits() as u128),
                        (Some(v), Ty::Float) => Const::Int(32, (v as f32).to_bits() as u128),
                        _ => panic!("const {w} in {:?}", self.t),
                    }
                }
            },
            x => panic!("const tok {x:?} in {:?} at {}", self.t, self.i),
        }
    }
    fn agg(&mut self, end: char) -> Const {
        let mut v = Vec::new();
        if self.eat_p(end) { return Const::Agg(v) }
        loop {
            let t = self.ty();
            let c = self.konst(&t);
            v.push((t, c));
            if self.eat_p(end) { return Const::Agg(v) }
            self.exp(',');
        }
    }
}
fn w_is(a: &str, b: &str) -> bool { a == b }
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).unwrap_or_else(|e| panic!("reading {path}: {e}"));
        let text = String::from_utf8_lossy(&text);
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module {
            lines: vec![], func_lines: HashMap::new(), declared: vec![], globals: vec![], aliases: vec![],
            named: HashMap::new(), addr: HashMap::new(),
        };
        // named types first
        for l in &lines {
            if l.starts_with('%') && l.contains(" = type ") {
                let t = lex(l);
                if let Tok::Local(n) = &t[0] {
                    let mut p = P { t: &t, i: 3, named: &m.named };
                    let ty = p.ty();
                    m.named.insert(n.clone(), ty);
                }
            }
        }
        let mut i = 0;
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with("define ") {
                let name = func_name(l);
                let s = i;
                while lines[i] != "}" { i += 1; }
                m.func_lines.insert(name, (s, i));
            } else if l.starts_with("declare ") {
                m.declared.push(func_name(l));
            } else if l.starts_with('@') {
                m.parse_global(l);
            }
            i += 1;
        }
        m.lines = lines;
        m
    }

    fn parse_global(&mut self, l: &str) {
        let t = lex(l);
        let name = match &t[0] { Tok::Global(n) => n.clone(), _ => panic!() };
        let named = std::mem::take(&mut self.named);
        {
            let mut p = P { t: &t, i: 2, named: &named };
            let mut constant = false;
            let mut external = false;
            loop {
                match p.word() {
                    Some("global") => { p.i += 1; break }
                    Some("constant") => { p.i += 1; constant = true; break }
                    Some("alias") => {
                        p.i += 1;
                        p.ty();
                        p.exp(',');
                        let t2 = p.ty();
                        let c = p.konst(&t2);
                        self.aliases.push((name.clone(), c));
                        drop(p);
                        self.named = named;
                        return;
                    }
                    Some("external") | Some("extern_weak") => { external = true; p.i += 1 }
                    Some(_) => { p.i += 1; p.skip_parens(); }
                    None => panic!("global {l}"),
                }
            }
            let ty = p.ty();
            let init = if external { None } else { Some(p.konst(&ty)) };
            self.globals.push(GlobalDef { name, ty, init, constant });
        }
        self.named = named;
    }

    pub fn parse_func(&self, name: &str) -> Func {
        let (s, e) = self.func_lines[name];
        FuncParser::new(self).parse(name, s, e)
    }
}

fn func_name(l: &str) -> String {
    let at = l.find('@').unwrap();
    let r = &l[at + 1..];
    if r.starts_with('"') { r[1..1 + r[1..].find('"').unwrap()].to_string() }
    else { r[..r.find('(').unwrap()].to_string() }
}

struct FuncParser<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

impl<'a> FuncParser<'a> {
    fn new(m: &'a Module) -> Self { FuncParser { m, regs: HashMap::new(), labels: HashMap::new() } }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn label(&mut self, n: &str) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n.to_string()).or_insert(k)
    }

    fn parse(mut self, name: &str, s: usize, e: usize) -> Func {
        let head = lex(&self.m.lines[s]);
        let demangled = if s > 0 && self.m.lines[s - 1].starts_with("; ") { 
            // "; Function Attrs" may sit between
            let mut k = s - 1;
            if self.m.lines[k].starts_with("; Function Attrs") { k -= 1; }
            self.m.lines[k].trim_start_matches("; ").to_string() } else { name.to_string() };
        let mut p = P { t: &head, i: 0, named: &self.m.named };
        while !matches!(p.peek(), Some(Tok::Global(_))) { p.i += 1; }
        p.i += 1;
        p.exp('(');
        let mut params = vec![];
        let mut vararg = false;
        if !p.eat_p(')') {
            let mut n = 0;
            loop {
                if p.peek() == Some(&Tok::Dots) { p.i += 1; vararg = true; p.exp(')'); break; }
                p.ty();
                p.skip_attrs();
                if let Some(Tok::Local(x)) = p.peek() {
                    let x = x.clone();
                    p.i += 1;
                    params.push(self.reg(&x));
                } else {
                    params.push(self.reg(&format!("{n}")));
                }
                n += 1;
                if p.eat_p(')') { break }
                p.exp(',');
            }
        }
        let nparams = params.len();
        let mut blocks: Vec<(u32, Block)> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        let mut i = s + 1;
        while i < e {
            let l = &self.m.lines[i];
            i += 1;
            if l.trim().is_empty() || l.trim_start().starts_with(';') || l.trim_start().starts_with('#') { continue; }
            if !l.starts_with(' ') {
                // label
                let end = if l.starts_with('"') { l[1..].find('"').unwrap() + 1 } else { l.find(':').unwrap() };
                let n = if l.starts_with('"') { &l[1..end] } else { &l[..end] };
                let id = self.label(n);
                if let Some(c) = cur.take() { blocks.push(c) }
                cur = Some((id, Block { phis: vec![], ins: vec![] }));
                continue;
            }
            if cur.is_none() {
                let id = self.label(&format!("{nparams}"));
                cur = Some((id, Block { phis: vec![], ins: vec![] }));
            }
            let mut full = l.clone();
            // multi-line constructs
            let tl = l.trim_start();
            if tl.starts_with("switch ") && l.trim_end().ends_with('[') {
                while !self.m.lines[i].trim_start().starts_with(']') { full.push(' '); full.push_str(&self.m.lines[i]); i += 1; }
                full.push_str(" ]");
                i += 1;
            } else if tl.contains("= landingpad ") || tl.starts_with("landingpad ") {
                while i < e {
                    let t2 = self.m.lines[i].trim_start();
                    if t2.starts_with("cleanup") || t2.starts_with("catch ") || t2.starts_with("filter ") { i += 1; } else { break }
                }
            } else if tl.starts_with("invoke ") || tl.contains(" = invoke ") {
                if !full.contains(" unwind label ") { full.push(' '); full.push_str(&self.m.lines[i]); i += 1; }
            }
            let toks = lex(&full);
            let (_, blk) = cur.as_mut().unwrap();
            if let Some(phi) = self.phi(&toks) { blk.phis.push(phi); continue; }
            let ins = self.ins(&toks);
            let (_, blk) = cur.as_mut().unwrap();
            blk.ins.push(ins);
        }
        if let Some(c) = cur.take() { blocks.push(c) }
        let n = self.labels.len();
        let entry = blocks[0].0;
        let mut out: Vec<Block> = (0..n).map(|_| Block { phis: vec![], ins: vec![I::Unreachable] }).collect();
        for (id, b) in blocks { out[id as usize] = b; }
        // entry must be block 0
        if entry != 0 {
            // insert a trampoline: swap ids is complex, so the engine asks for `entry` via labels order
            // (entry is always first label seen unless a label was referenced before; it cannot be.)
            panic!("entry block not first in {name}");
        }
        Func { name: name.to_string(), demangled, params, nregs: self.regs.len() as u32, blocks: out, vararg }
    }

    fn op(&mut self, p: &mut P, ty: &Ty) -> Op {
        if let Some(Tok::Local(n)) = p.peek() {
            let n = n.clone();
            p.i += 1;
            return Op::Reg(self.reg(&n));
        }
        let c = p.konst(ty);
        self.cop(c, ty)
    }
    fn cop(&self, c: Const, ty: &Ty) -> Op {
        match c {
            Const::Int(_, v) => Op::Int(v),
            Const::Global(g, o) => {
                let a = *self.m.addr.get(&g).unwrap_or_else(|| panic!("no address for {g}"));
                Op::Addr(a.wrapping_add(o as u64))
            }
            Const::Undef(t) => match t { Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => Op::Cst(Rc::new((ty.clone(), Const::Undef(t)))), _ => Op::Undef },
            Const::Zero(Ty::Int(_)) | Const::Zero(Ty::Ptr) => Op::Int(0),
            c => Op::Cst(Rc::new((ty.clone(), c))),
        }
    }
    fn tyop(&mut self, p: &mut P) -> (Ty, Op) {
        let t = p.ty();
        p.skip_attrs();
        if let Ty::Other = t { 
            // metadata argument
            while !p.is_p(',') && !p.is_p(')') { p.i += 1; if p.i >= p.t.len() { break } }
            return (t, Op::Undef);
        }
        let o = self.op(p, &t);
        (t, o)
    }
    fn lab(&mut self, p: &mut P) -> u32 {
        assert!(p.eat_w("label"), "{:?}", p.t);
        match p.next() { Tok::Local(n) => self.label(&n), x => panic!("{x:?}") }
    }

    fn phi(&mut self, t: &[Tok]) -> Option<(u32, Vec<(u32, Op)>)> {
        if t.len() < 3 || t[2] != Tok::Word("phi".into()) { return None }
        let d = match &t[0] { Tok::Local(n) => self.reg(n), _ => return None };
        let named = &self.m.named;
        let mut p = P { t, i: 3, named };
        let ty = p.ty();
        let mut v = vec![];
        loop {
            p.exp('[');
            let o = self.op(&mut p, &ty);
            p.exp(',');
            let l = match p.next() { Tok::Local(n) => self.label(&n), x => panic!("{x:?}") };
            p.exp(']');
            v.push((l, o));
            if !p.eat_p(',') { break }
            if !p.is_p('[') { break }
        }
        Some((d, v))
    }

    fn ins(&mut self, t: &[Tok]) -> I {
        let named = &self.m.named;
        let mut p = P { t, i: 0, named };
        let mut dst = 0;
        let mut has = false;
        if let (Tok::Local(n), Some(Tok::P('='))) = (&t[0], t.get(1)) {
            dst = self.reg(n);
            has = true;
            p.i = 2;
        }
        let mut w = match p.next() { Tok::Word(w) => w, x => panic!("{x:?} in {t:?}") };
        while matches!(w.as_str(), "tail" | "musttail" | "notail") { w = match p.next() { Tok::Word(w) => w, _ => panic!() } }
        let bin = match w.as_str() {
            "add" => Some(Bin::Add), "sub" => Some(Bin::Sub), "mul" => Some(Bin::Mul), "udiv" => Some(Bin::UDiv),
            "sdiv" => Some(Bin::SDiv), "urem" => Some(Bin::URem), "srem" => Some(Bin::SRem), "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::LShr), "ashr" => Some(Bin::AShr), "and" => Some(Bin::And), "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor), _ => None,
        };
        if let Some(b) = bin {
            while matches!(p.word(), Some("nuw" | "nsw" | "exact" | "disjoint")) { p.i += 1 }
            let ty = p.ty();
            let a = self.op(&mut p, &ty);
            p.exp(',');
            let c = self.op(&mut p, &ty);
            return I::Bin(dst, b, ty, a, c);
        }
        match w.as_str() {
            "icmp" => {
                p.eat_w("samesign");
                let pr = match p.next() { Tok::Word(w) => w, _ => panic!() };
                let pr = match pr.as_str() {
                    "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult,
                    "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle,
                    _ => panic!("pred"),
                };
                let ty = p.ty();
                let a = self.op(&mut p, &ty);
                p.exp(',');
                let c = self.op(&mut p, &ty);
                I::Icmp(dst, pr, ty, a, c)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                while matches!(p.word(), Some("nuw" | "nsw" | "nneg")) { p.i += 1 }
                let (ty, a) = self.tyop(&mut p);
                assert!(p.eat_w("to"), "{t:?}");
                let t2 = p.ty();
                let (fw, tw) = (ty.bits(), t2.bits());
                let c = match w.as_str() {
                    "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "bitcast" => Cast::Bit,
                    _ => if tw < fw { Cast::Trunc } else if tw > fw { Cast::ZExt } else { Cast::Bit },
                };
                I::Cast(dst, c, ty, a, t2)
            }
            "select" => {
                let (_, c) = self.tyop(&mut p);
                p.exp(',');
                let (ty, a) = self.tyop(&mut p);
                p.exp(',');
                let (_, b) = self.tyop(&mut p);
                I::Select(dst, c, ty, a, b)
            }
            "freeze" => { let (_, a) = self.tyop(&mut p); I::Freeze(dst, a) }
            "load" => {
                while matches!(p.word(), Some("volatile" | "atomic")) { p.i += 1 }
                let ty = p.ty();
                p.exp(',');
                let (_, a) = self.tyop(&mut p);
                I::Load(dst, ty, a)
            }
            "store" => {
                while matches!(p.word(), Some("volatile" | "atomic")) { p.i += 1 }
                let (ty, v) = self.tyop(&mut p);
                p.exp(',');
                let (_, a) = self.tyop(&mut p);
                I::Store(ty, v, a)
            }
            "alloca" => {
                let ty = p.ty();
                let mut n = Op::Int(1);
                if p.eat_p(',') && p.is_ty() { let (_, o) = self.tyop(&mut p); n = o; }
                I::Alloca(dst, ty.size(), n)
            }
            "getelementptr" => {
                while matches!(p.word(), Some("inbounds" | "nuw" | "nusw")) { p.i += 1 }
                let mut cur = p.ty();
                p.exp(',');
                let (bt, base) = self.tyop(&mut p);
                if let Ty::Vec(..) = bt { return I::Unsupported("vector gep".into()) }
                let mut idx = vec![];
                let mut first = true;
                let mut acc = 0i64;
                while p.eat_p(',') {
                    if !p.is_ty() { break }
                    let (it, o) = self.tyop(&mut p);
                    let step;
                    if first { step = cur.size() as i64; first = false; }
                    else if let Ty::Struct(..) = cur {
                        let k = match o { Op::Int(k) => k as usize, _ => panic!("struct gep") };
                        let (off, ty) = cur.field(k);
                        acc += off as i64;
                        cur = ty;
                        continue;
                    } else {
                        let ty = match &cur { Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), x => panic!("gep into {x:?}") };
                        step = ty.size() as i64;
                        cur = ty;
                    }
                    match o {
                        Op::Int(k) => acc += sext(k, it.bits()) as i64 * step,
                        o => idx.push(GepIdx::Scaled(o, it.bits(), step)),
                    }
                }
                if acc != 0 { idx.push(GepIdx::Const(acc)) }
                I::Gep(dst, base, idx)
            }
            "extractvalue" => {
                let (_, a) = self.tyop(&mut p);
                let v = self.idxs(&mut p);
                I::Extract(dst, a, v)
            }
            "insertvalue" => {
                let (ty, a) = self.tyop(&mut p);
                p.exp(',');
                let (_, b) = self.tyop(&mut p);
                let v = self.idxs(&mut p);
                I::Insert(dst, ty, a, b, v)
            }
            "extractelement" => {
                let (_, a) = self.tyop(&mut p);
                p.exp(',');
                let (_, b) = self.tyop(&mut p);
                I::ExtractEl(dst, a, b)
            }
            "insertelement" => {
                let (ty, a) = self.tyop(&mut p);
                p.exp(',');
                let (_, b) = self.tyop(&mut p);
                p.exp(',');
                let (_, c) = self.tyop(&mut p);
                I::InsertEl(dst, ty, a, b, c)
            }
            "shufflevector" => {
                let (ty, a) = self.tyop(&mut p);
                p.exp(',');
                let (_, b) = self.tyop(&mut p);
                p.exp(',');
                let mt = p.ty();
                let m = p.konst(&mt);
                let n = match &mt { Ty::Vec(n, _) => *n as usize, _ => panic!() };
                let mv = match m {
                    Const::Zero(_) => vec![Some(0); n],
                    Const::Undef(_) => vec![None; n],
                    Const::Agg(v) => v.into_iter().map(|(_, c)| match c { Const::Int(_, k) => Some(k as u32), _ => None }).collect(),
                    _ => panic!(),
                };
                I::Shuffle(dst, ty, a, b, mv)
            }
            "call" | "invoke" => {
                while matches!(p.word(), Some("fastcc" | "coldcc" | "tailcc" | "ccc" | "nnan" | "fast")) { p.i += 1 }
                p.skip_attrs();
                let ret = p.ty();
                // optional function type
                if p.is_p('(') {
                    p.skip_parens();
                }
                let callee = match p.peek() {
                    Some(Tok::Global(g)) => { let g: Rc<str> = g.as_str().into(); p.i += 1; Callee::Direct(g) }
                    Some(Tok::Local(n)) => { let n = n.clone(); p.i += 1; Callee::Indirect(Op::Reg(self.reg(&n))) }
                    Some(Tok::Word(w)) if w == "asm" => {
                        let s = format!("{:?}", &t[p.i..]);
                        while !p.is_p('(') { p.i += 1 }
                        // inline asm: only barriers (black_box) are tolerated
                        p.skip_parens();
                        return I::Unsupported(format!("asm {s}"));
                    }
                    _ => { let c = p.konst(&Ty::Ptr); Callee::Indirect(self.cop(c, &Ty::Ptr)) }
                };
                p.exp('(');
                let mut args = vec![];
                if !p.eat_p(')') {
                    loop {
                        args.push(self.tyop(&mut p));
                        if p.eat_p(')') { break }
                        p.exp(',');
                    }
                }
                let mut normal = None;
                if w == "invoke" {
                    while !p.eat_w("to") { p.i += 1; }
                    normal = Some(self.lab(&mut p));
                    assert!(p.eat_w("unwind"));
                    self.lab(&mut p);
                }
                I::Call { dst: if has { Some(dst) } else { None }, ret, callee, args, normal }
            }
            "atomicrmw" => {
                p.eat_w("volatile");
                let o = match p.next() { Tok::Word(w) => w, _ => panic!() };
                let (_, a) = self.tyop(&mut p);
                p.exp(',');
                let (ty, v) = self.tyop(&mut p);
                I::AtomicRmw(dst, o, ty, a, v)
            }
            "cmpxchg" => {
                while matches!(p.word(), Some("weak" | "volatile")) { p.i += 1 }
                let (_, a) = self.tyop(&mut p);
                p.exp(',');
                let (ty, c) = self.tyop(&mut p);
                p.exp(',');
                let (_, n) = self.tyop(&mut p);
                I::CmpXchg(dst, ty, a, c, n)
            }
            "fence" => I::Fence,
            "br" => {
                if p.word() == Some("label") { let l = self.lab(&mut p); I::Br(l) }
                else {
                    let (_, c) = self.tyop(&mut p);
                    p.exp(',');
                    let a = self.lab(&mut p);
                    p.exp(',');
                    let b = self.lab(&mut p);
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (ty, c) = self.tyop(&mut p);
                p.exp(',');
                let d = self.lab(&mut p);
                p.exp('[');
                let mut v = vec![];
                while !p.eat_p(']') {
                    let t2 = p.ty();
                    let k = match p.konst(&t2) { Const::Int(_, k) => k, _ => panic!() };
                    p.exp(',');
                    v.push((k, self.lab(&mut p)));
                }
                I::Switch(ty, c, d, v)
            }
            "ret" => {
                let ty = p.ty();
                if ty == Ty::Void { I::Ret(None) } else { let o = self.op(&mut p, &ty); I::Ret(Some((ty, o))) }
            }
            "unreachable" | "resume" => I::Unreachable,
            _ => {
                I::Unsupported(format!("{w}"))
            }
        }
    }
    fn idxs(&mut self, p: &mut P) -> Vec<u32> {
        let mut v = vec![];
        while p.eat_p(',') {
            match p.peek() {
                Some(Tok::Int(_, k)) => { v.push(*k as u32); p.i += 1 }
                _ => break,
            }
        }
        v
    }
}
