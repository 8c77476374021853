//! Reader for the textual LLVM IR of the whole program (post-LTO, one module).
//! Functions are parsed on first use; global initialisers are materialised on first use.
use crate::engine_error;
use crate::expr::B;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(usize, Rc<Ty>),
    Vec(usize, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
    Fn,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => engine_error(&format!("bits of {:?}", self)) }
    }
    pub fn align(&self) -> usize {
        match self {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().min(64),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Ty::Int(w) => { let b = ((*w + 7) / 8) as usize; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as usize + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            Ty::Void => 0,
            _ => engine_error(&format!("size of {:?}", self)),
        }
    }
    pub fn field_off(&self, i: usize) -> usize {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k == i { return o; }
                    o += t.size();
                }
                engine_error("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i * t.size(),
            _ => engine_error("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => engine_error("elem") }
    }
}

/// constants
#[derive(Clone, Debug)]
pub enum Cv { Int(u128), Zero, Undef, Bytes(Rc<Vec<u8>>), Agg(Rc<Vec<Cv>>), Splat(Rc<Cv>) }

#[derive(Clone, Debug)]
pub enum Op { Reg(u32), K(u64), C(Cv, Ty) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Zext, Sext, Trunc, Bit, Fp }

/// scalar width, or vector of n lanes
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Vt { pub n: u32, pub w: u32 }

#[derive(Clone, Debug)]
pub enum Callee { Func(u32), Ext(String), Reg(Op) }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(B, Vt, u32, Op, Op),
    FBin(String, Ty, u32, Op, Op),
    Fcmp(String, Ty, u32, Op, Op),
    FCast(String, Ty, Ty, u32, Op),
    Icmp(Pred, Vt, u32, Op, Op),
    Cast(Cast, Vt, Vt, u32, Op),
    Copy(u32, Op),
    Select(Ty, Vt, u32, Op, Op, Op), // Vt: lanes of the condition
    Gep(u32, Op, i64, Vec<(Op, u32, i64)>),
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    Alloca(u32, u64),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, Vec<(u64, u32)>, u32),
    Ret(Option<Op>),
    Call { dst: Option<u32>, callee: Callee, args: Vec<Op>, tys: Vec<Ty>, rty: Ty, noreturn: bool },
    ExtractValue(u32, Op, Vec<u32>),
    InsertValue(u32, Op, Op, Vec<u32>),
    ExtractElem(u32, Op, Op),
    InsertElem(u32, Op, Op, Op),
    Shuffle(u32, Op, Op, Vec<u32>, u32),
    AtomicRmw(String, Ty, u32, Op, Op),
    CmpXchg(Ty, u32, Op, Op, Op),
    Nop,
    Unreachable,
    Bad(String),
}

#[derive(Debug)]
pub struct Edge { pub target: u32, pub moves: Vec<(u32, Op)> }

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub frame: u64,
    pub insts: Vec<Inst>,
    pub dbg: Vec<u32>,
    pub lines: Vec<u32>,
    pub edges: Vec<Edge>,
}

pub struct Global { pub name: String, pub konst: bool, pub ty: Ty, pub init: Option<usize>, pub init_col: usize, pub size: usize, pub weak: bool }

pub struct FuncDecl { pub name: String, pub line: usize, pub end: usize, pub noreturn: bool }

pub struct Module {
    pub text: Vec<u8>,
    pub lines: Vec<(usize, usize)>,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub decls: HashMap<String, bool>, // external: noreturn
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub attrs_noreturn: HashMap<u32, bool>,
    pub meta: HashMap<u32, usize>,
    pub types: HashMap<String, usize>,
    parsed: RefCell<HashMap<u32, Rc<Func>>>,
    pub ext_addr: RefCell<(HashMap<String, u64>, Vec<String>)>,
    /// distances between globals, for llvm.load.relative: they do not fit into the 32 bits of such a table here, which holds the number of an entry of this list
    pub rel: RefCell<Vec<i64>>,
}

pub const FUNC_BASE: u64 = 0x0000_1000_0000_0000;
pub const EXT_BASE: u64 = 0x0000_1800_0000_0000;
pub const GLOB_BASE: u64 = 0x0000_2000_0000_0000;
pub const OBJ_BASE: u64 = 0x0000_4000_0000_0000;
pub const OBJ_SHIFT: u32 = 24;

struct Cur<'a> { s: &'a [u8], i: usize }

impl<'a> Cur<'a> {
    fn new(s: &'a [u8]) -> Cur<'a> { Cur { s, i: 0 } }
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) { if !self.eat(c) { self.fail(&format!("expected '{}'", c as char)); } }
    fn fail(&self, m: &str) -> ! { engine_error(&format!("IR parse: {} at col {} in: {}", m, self.i, String::from_utf8_lossy(&self.s[..self.s.len().min(400)]))) }
    /// identifier-like word
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'-' | b'$' | b'+')) { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str { let i = self.i; let w = self.word(); self.i = i; w }
    fn eat_word(&mut self, w: &str) -> bool { if self.peek_word() == w { self.word(); true } else { false } }
    /// name after % or @
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' { j += 1; }
            self.i = j + 1;
            String::from_utf8_lossy(&self.s[st..j]).into_owned()
        } else { self.word().to_string() }
    }
    fn rest(&self) -> &'a [u8] { &self.s[self.i..] }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => { d -= 1; if d == 0 { self.i += 1; return; } }
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } }
                _ => {}
            }
            self.i += 1;
        }
        self.fail("unbalanced")
    }
    fn uint(&mut self) -> u64 {
        let w = self.word();
        w.parse().unwrap_or_else(|_| self.fail(&format!("number '{}'", w)))
    }
}

fn hexv(c: u8) -> u8 { match c { b'0'..=b'9' => c - b'0', b'a'..=b'f' => c - b'a' + 10, b'A'..=b'F' => c - b'A' + 10, _ => 0 } }

const ATTR_WORDS: &[&str] = &["noundef", "zeroext", "signext", "noalias", "nonnull", "nofree", "readonly", "readnone", "writeonly", "inreg", "immarg", "returned",
    "nocapture", "noreturn", "nounwind", "swiftself", "allocptr", "allocalign", "dead_on_unwind", "writable", "noext", "nest"];
const ATTR_PAREN: &[&str] = &["captures", "dereferenceable", "dereferenceable_or_null", "range", "sret", "byval", "byref", "initializes", "nofpclass", "memory", "elementtype", "preallocated", "inalloca", "dead_on_return"];

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).unwrap_or_else(|e| engine_error(&format!("{}: {}", path, e)));
        let mut lines = vec![];
        let mut st = 0;
        for (i, &c) in text.iter().enumerate() { if c == b'\n' { lines.push((st, i)); st = i + 1; } }
        if st < text.len() { lines.push((st, text.len())); }
        let mut m = Module { text, lines, funcs: vec![], fidx: HashMap::new(), decls: HashMap::new(), globals: vec![], gidx: HashMap::new(),
            attrs_noreturn: HashMap::new(), meta: HashMap::new(), types: HashMap::new(), parsed: RefCell::new(HashMap::new()), rel: RefCell::new(vec![]), ext_addr: RefCell::new((HashMap::new(), vec![])) };
        m.index();
        m
    }
    pub fn line(&self, n: usize) -> &[u8] { let (a, b) = self.lines[n]; &self.text[a..b] }
    fn index(&mut self) {
        let mut i = 0;
        let mut gl: Vec<usize> = vec![];
        let mut pend: Vec<(bool, String, u32)> = vec![];
        while i < self.lines.len() {
            let (a, b) = self.lines[i];
            if a == b { i += 1; continue; }
            let l = &self.text[a..b];
            match l[0] {
                b'@' => gl.push(i),
                b'd' if l.starts_with(b"define ") || l.starts_with(b"declare ") => {
                    let isdef = l.starts_with(b"define ");
                    let at = l.iter().position(|&c| c == b'@').unwrap();
                    let mut c = Cur { s: l, i: at + 1 };
                    let name = c.name();
                    c.skip_parens();
                    let mut attr = u32::MAX;
                    let r = c.rest();
                    let mut k = 0;
                    while k < r.len() {
                        if r[k] == b'#' { let mut v = 0u32; k += 1; while k < r.len() && r[k].is_ascii_digit() { v = v * 10 + (r[k] - b'0') as u32; k += 1; } attr = v; break; }
                        if r[k] == b'"' { break; }
                        k += 1;
                    }
                    if isdef {
                        let st = i;
                        let mut j = i + 1;
                        while self.text[self.lines[j].0] != b'}' || self.lines[j].1 == self.lines[j].0 { j += 1; }
                        let id = self.funcs.len() as u32;
                        self.funcs.push(FuncDecl { name: name.clone(), line: st, end: j, noreturn: false });
                        self.fidx.insert(name.clone(), id);
                        pend.push((true, name, attr));
                        i = j;
                    } else {
                        pend.push((false, name, attr));
                    }
                }
                b'a' if l.starts_with(b"attributes #") => {
                    let mut c = Cur { s: l, i: 12 };
                    let n = c.uint() as u32;
                    let t = String::from_utf8_lossy(l);
                    let nr = t.split(|ch: char| ch == ' ').any(|w| w == "noreturn");
                    self.attrs_noreturn.insert(n, nr);
                }
                b'!' => {
                    let mut v = 0u32; let mut k = 1;
                    while k < l.len() && l[k].is_ascii_digit() { v = v * 10 + (l[k] - b'0') as u32; k += 1; }
                    if k > 1 { self.meta.insert(v, i); }
                }
                b'%' => { let mut c = Cur { s: l, i: 1 }; let n = c.name(); self.types.insert(n, i); }
                _ => {}
            }
            i += 1;
        }
        for (isdef, name, attr) in pend {
            let nr = *self.attrs_noreturn.get(&attr).unwrap_or(&false);
            if isdef { let id = self.fidx[&name]; self.funcs[id as usize].noreturn = nr; } else { self.decls.insert(name, nr); }
        }
        // globals: names first, types next
        for &ln in &gl {
            let (a, b) = self.lines[ln];
            let l = &self.text[a..b];
            let mut c = Cur { s: l, i: 1 };
            let name = c.name();
            let id = self.globals.len() as u32;
            self.gidx.insert(name.clone(), id);
            self.globals.push(Global { name, konst: false, ty: Ty::Void, init: None, init_col: 0, size: 0, weak: false });
        }
        for (id, &ln) in gl.iter().enumerate() {
            let (a, b) = self.lines[ln];
            let l = self.text[a..b].to_vec();
            let mut c = Cur { s: &l, i: 1 };
            c.name();
            c.expect(b'=');
            let mut external = false;
            loop {
                let w = c.word();
                match w {
                    "external" => external = true,
                    "extern_weak" => { external = true; self.globals[id].weak = true; }
                    "constant" => { self.globals[id].konst = true; break; }
                    "global" => break,
                    "alias" => { external = true; break; }
                    "thread_local" | "addrspace" => { if c.peek() == b'(' { c.skip_parens(); } }
                    "" => c.fail("global"),
                    _ => {}
                }
            }
            let ty = self.ty(&mut c);
            let g = &mut self.globals[id];
            g.size = if ty == Ty::Fn { 0 } else { ty.size() };
            g.ty = ty;
            if !external { g.init = Some(ln); g.init_col = c.i; }
        }
    }
    fn ty(&self, c: &mut Cur) -> Ty {
        let base = match c.peek() {
            b'[' => { c.i += 1; let n = c.uint() as usize; if !c.eat_word("x") { c.fail("x"); } let t = self.ty(c); c.expect(b']'); Ty::Arr(n, Rc::new(t)) }
            b'{' => { c.i += 1; let f = self.ty_list(c, b'}'); Ty::Struct(Rc::new(f), false) }
            b'<' => {
                c.i += 1;
                if c.eat(b'{') { let f = self.ty_list(c, b'}'); c.expect(b'>'); Ty::Struct(Rc::new(f), true) }
                else { let n = c.uint() as usize; if !c.eat_word("x") { c.fail("x"); } let t = self.ty(c); c.expect(b'>'); Ty::Vec(n, Rc::new(t)) }
            }
            b'%' => {
                c.i += 1;
                let n = c.name();
                let ln = *self.types.get(&n).unwrap_or_else(|| c.fail("named type"));
                let l = self.line(ln).to_vec();
                let mut d = Cur { s: &l, i: 1 };
                d.name(); d.expect(b'='); d.word();
                self.ty(&mut d)
            }
            _ => {
                let w = c.word();
                match w {
                    "ptr" => { if c.peek_word() == "addrspace" { c.word(); c.skip_parens(); } Ty::Ptr }
                    "void" => Ty::Void,
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => c.fail(&format!("type '{}'", w)),
                }
            }
        };
        if c.peek() == b'(' { c.skip_parens(); return Ty::Fn; }
        base
    }
    fn ty_list(&self, c: &mut Cur, end: u8) -> Vec<Ty> {
        let mut f = vec![];
        if c.eat(end) { return f; }
        loop { f.push(self.ty(c)); if c.eat(end) { return f; } c.expect(b','); }
    }
    pub fn sym_addr(&self, name: &str) -> u64 {
        if let Some(&g) = self.gidx.get(name) {
            if self.globals[g as usize].weak { return 0; }
            return GLOB_BASE + ((g as u64) << OBJ_SHIFT);
        }
        if let Some(&f) = self.fidx.get(name) { return FUNC_BASE + (f as u64) * 16; }
        if self.decls.contains_key(name) {
            let mut e = self.ext_addr.borrow_mut();
            if let Some(&a) = e.0.get(name) { return a; }
            let a = EXT_BASE + (e.1.len() as u64) * 16;
            e.1.push(name.to_string());
            e.0.insert(name.to_string(), a);
            return a;
        }
        engine_error(&format!("unknown symbol @{}", name))
    }
    fn cv_int(&self, v: &Cv) -> u128 { match v { Cv::Int(x) => *x, Cv::Zero | Cv::Undef => 0, _ => engine_error("constant expression operand") } }
    fn konst(&self, c: &mut Cur, ty: &Ty) -> Cv {
        match c.peek() {
            b'@' => { c.i += 1; let n = c.name(); Cv::Int(self.sym_addr(&n) as u128) }
            b'c' if c.s.get(c.i + 1) == Some(&b'"') => {
                c.i += 2;
                let mut out = vec![];
                while c.s[c.i] != b'"' {
                    if c.s[c.i] == b'\\' {
                        if c.s[c.i + 1] == b'\\' { out.push(b'\\'); c.i += 2; }
                        else { out.push(hexv(c.s[c.i + 1]) * 16 + hexv(c.s[c.i + 2])); c.i += 3; }
                    } else { out.push(c.s[c.i]); c.i += 1; }
                }
                c.i += 1;
                Cv::Bytes(Rc::new(out))
            }
            b'[' => { c.i += 1; Cv::Agg(Rc::new(self.konst_list(c, b']'))) }
            b'{' => { c.i += 1; Cv::Agg(Rc::new(self.konst_list(c, b'}'))) }
            b'<' => {
                c.i += 1;
                if c.eat(b'{') { let l = self.konst_list(c, b'}'); c.expect(b'>'); Cv::Agg(Rc::new(l)) }
                else { Cv::Agg(Rc::new(self.konst_list(c, b'>'))) }
            }
            _ => {
                let w = c.word();
                match w {
                    "true" => Cv::Int(1),
                    "false" => Cv::Int(0),
                    "null" => Cv::Int(0),
                    "zeroinitializer" => Cv::Zero,
                    "undef" | "poison" => Cv::Undef,
                    "dso_local_equivalent" | "no_cfi" => self.konst(c, ty),
                    "splat" => { c.expect(b'('); let t = self.ty(c); let v = self.konst(c, &t); c.expect(b')'); Cv::Splat(Rc::new(v)) }
                    "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                        while c.peek() != b'(' { c.word(); }
                        c.expect(b'(');
                        let t = self.ty(c);
                        let v = self.konst(c, &t);
                        if !c.eat_word("to") { c.fail("to"); }
                        let t2 = self.ty(c);
                        c.expect(b')');
                        let x = self.cv_int(&v);
                        if w == "trunc" && t2.bits() == 32 && t.bits() == 64 {
                            let mut r = self.rel.borrow_mut();
                            let n = r.iter().position(|&y| y == x as u64 as i64).unwrap_or(r.len());
                            if n == r.len() { r.push(x as u64 as i64); }
                            return Cv::Int(0x8000_0000 | n as u128);
                        }
                        Cv::Int(x & crate::expr::mask(t2.bits()))
                    }
                    "add" | "sub" | "xor" => {
                        let op = w;
                        while c.peek() != b'(' { c.word(); }
                        c.expect(b'(');
                        let t = self.ty(c);
                        let a = self.konst(c, &t);
                        c.expect(b',');
                        let t2 = self.ty(c);
                        let b = self.konst(c, &t2);
                        c.expect(b')');
                        let (a, b) = (self.cv_int(&a), self.cv_int(&b));
                        let m = crate::expr::mask(t.bits());
                        Cv::Int(match op { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), _ => a ^ b } & m)
                    }
                    "getelementptr" => {
                        while c.peek() != b'(' { let q = c.word(); if q == "inrange" && c.peek() == b'(' { c.skip_parens(); } }
                        c.expect(b'(');
                        let st = self.ty(c);
                        c.expect(b',');
                        let pt = self.ty(c);
                        let base = self.konst(c, &pt);
                        let mut off = 0i64;
                        let mut t = st;
                        let mut first = true;
                        while c.eat(b',') {
                            let it = self.ty(c);
                            let v = self.konst(c, &it);
                            let x = crate::expr::sext(self.cv_int(&v), it.bits()) as i64;
                            if first { off += x * t.size() as i64; first = false; }
                            else { off += t.field_off(x as usize) as i64; t = t.elem(x as usize); }
                        }
                        c.expect(b')');
                        Cv::Int((self.cv_int(&base) as u64).wrapping_add(off as u64) as u128)
                    }
                    _ => {
                        if let Ty::F64 | Ty::F32 = ty {
                            if let Some(h) = w.strip_prefix("0x") {
                                let v = u64::from_str_radix(h, 16).unwrap_or_else(|_| c.fail("float"));
                                return Cv::Int(if *ty == Ty::F32 { (f64::from_bits(v) as f32).to_bits() as u128 } else { v as u128 });
                            }
                            let (neg, name) = match w.strip_prefix('-') { Some(n) => (true, n), None => (false, w.strip_prefix('+').unwrap_or(w)) };
                            let f: f64 = match name {
                                "inf" => f64::INFINITY,
                                "qnan" | "nan" => f64::from_bits(0x7ff8_0000_0000_0000),
                                n => n.parse().unwrap_or_else(|_| c.fail("float")),
                            };
                            let f = if neg { -f } else { f };
                            return Cv::Int(if *ty == Ty::F32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 });
                        }
                        let v: u128 = if let Some(n) = w.strip_prefix('-') {
                            let x: u128 = n.parse().unwrap_or_else(|_| c.fail(&format!("constant '{}'", w)));
                            0u128.wrapping_sub(x)
                        } else { w.parse().unwrap_or_else(|_| c.fail(&format!("constant '{}'", w))) };
                        Cv::Int(v & crate::expr::mask(ty.bits()))
                    }
                }
            }
        }
    }
    fn konst_list(&self, c: &mut Cur, end: u8) -> Vec<Cv> {
        let mut out = vec![];
        if c.eat(end) { return out; }
        loop {
            let t = self.ty(c);
            out.push(self.konst(c, &t));
            if c.eat(end) { return out; }
            c.expect(b',');
        }
    }
    pub fn write_cv(&self, v: &Cv, ty: &Ty, buf: &mut [u8]) {
        match v {
            Cv::Zero | Cv::Undef => {}
            Cv::Bytes(b) => buf[..b.len()].copy_from_slice(b),
            Cv::Int(x) => { let n = ty.size(); for i in 0..n { buf[i] = if i < 16 { (x >> (8 * i)) as u8 } else { 0 }; } }
            Cv::Agg(l) => for (i, e) in l.iter().enumerate() {
                let o = ty.field_off(i);
                let t = ty.elem(i);
                let n = t.size();
                self.write_cv(e, &t, &mut buf[o..o + n]);
            },
            Cv::Splat(e) => if let Ty::Vec(n, t) = ty { let s = t.size(); for i in 0..*n { self.write_cv(e, t, &mut buf[i * s..(i + 1) * s]); } },
        }
    }
    pub fn global_bytes(&self, g: u32) -> Vec<u8> {
        let gl = &self.globals[g as usize];
        let mut buf = vec![0u8; gl.size];
        if let Some(ln) = gl.init {
            let mut c = Cur { s: self.line(ln), i: gl.init_col };
            let v = self.konst(&mut c, &gl.ty);
            self.write_cv(&v, &gl.ty, &mut buf);
        }
        buf
    }

    pub fn func(&self, id: u32) -> Rc<Func> {
        if let Some(f) = self.parsed.borrow().get(&id) { return f.clone(); }
        let f = Rc::new(self.parse_func(id));
        self.parsed.borrow_mut().insert(id, f.clone());
        f
    }
    fn parse_func(&self, id: u32) -> Func {
        let fd = &self.funcs[id as usize];
        let mut p = FP { m: self, regs: HashMap::new(), labels: HashMap::new(), nlabels: 0, frame: 0 };
        let l = self.line(fd.line);
        let at = l.iter().position(|&c| c == b'@').unwrap();
        let mut c = Cur { s: l, i: at + 1 };
        c.name();
        c.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0;
        if !c.eat(b')') {
            loop {
                if c.peek() == b'.' { c.fail("vararg define"); }
                let _t = self.ty(&mut c);
                p.attrs(&mut c);
                c.expect(b'%');
                let n = c.name();
                if n.bytes().all(|b| b.is_ascii_digit()) { unnamed += 1; }
                params.push(p.reg(&n));
                if c.eat(b')') { break; }
                c.expect(b',');
            }
        }
        let mut insts: Vec<Inst> = vec![];
        let mut dbg: Vec<u32> = vec![];
        let mut lns: Vec<u32> = vec![];
        let mut cur: u32 = u32::MAX;
        let mut block_start: HashMap<u32, u32> = HashMap::new();
        let mut phis: HashMap<u32, Vec<(u32, HashMap<u32, Op>)>> = HashMap::new();
        let mut rawedges: Vec<(u32, u32)> = vec![]; // (pred block, succ block)
        let mut ln = fd.line + 1;
        while ln < fd.end {
            let l0 = self.line(ln);
            let this = ln;
            ln += 1;
            if l0.is_empty() || l0[0] == b';' { continue; }
            if l0[0] != b' ' {
                // label
                let mut c = Cur::new(l0);
                let n = c.name();
                cur = p.label(&n);
                block_start.insert(cur, insts.len() as u32);
                continue;
            }
            if cur == u32::MAX { cur = p.label(&unnamed.to_string()); block_start.insert(cur, insts.len() as u32); }
            // join continuation lines (switch tables, invoke destinations, landingpad clauses)
            let mut joined: Option<Vec<u8>> = None;
            let t = l0;
            let trimmed = trim(t);
            if trimmed.starts_with(b"switch") {
                let mut v = t.to_vec();
                while !contains_close(&v) { v.push(b' '); v.extend_from_slice(self.line(ln)); ln += 1; }
                joined = Some(v);
            } else if has_word(trimmed, b"invoke") || has_word(trimmed, b"landingpad") {
                let mut v = t.to_vec();
                while ln < fd.end && self.line(ln).starts_with(b"          ") { v.push(b' '); v.extend_from_slice(self.line(ln)); ln += 1; }
                joined = Some(v);
            }
            let l: &[u8] = joined.as_deref().unwrap_or(l0);
            if trim(l)[0] == b'#' { continue; } // debug record
            let d = find_dbg(l);
            let mut c = Cur::new(l);
            let before = insts.len();
            if let Some((dst, inc)) = p.inst(&mut c, cur, &mut insts, &mut rawedges) {
                phis.entry(cur).or_default().push((dst, inc));
            }
            while dbg.len() < insts.len() { dbg.push(d); lns.push(this as u32); }
            let _ = before;
        }
        let mut edges = vec![];
        for (pr, su) in rawedges {
            let mut moves = vec![];
            if let Some(ps) = phis.get(&su) {
                for (dst, inc) in ps {
                    match inc.get(&pr) { Some(o) => moves.push((*dst, o.clone())), None => engine_error(&format!("phi without incoming in {}", fd.name)) }
                }
            }
            edges.push(Edge { target: *block_start.get(&su).unwrap_or_else(|| engine_error("missing block")), moves });
        }
        Func { id, name: fd.name.clone(), params, nregs: p.regs.len() as u32, frame: p.frame, insts, dbg, lines: lns, edges }
    }
}

fn trim(s: &[u8]) -> &[u8] { let mut i = 0; while i < s.len() && s[i] == b' ' { i += 1; } &s[i..] }
fn contains_close(s: &[u8]) -> bool { s.contains(&b']') }
fn has_word(s: &[u8], w: &[u8]) -> bool {
    // the opcode, possibly after "%x = "
    let mut t = s;
    if t[0] == b'%' { match t.windows(3).position(|x| x == b" = ") { Some(p) => t = &t[p + 3..], None => return false } }
    t.starts_with(w)
}
fn find_dbg(l: &[u8]) -> u32 {
    let pat = b"!dbg !";
    if l.len() < pat.len() { return 0; }
    for i in (0..l.len() - pat.len()).rev() {
        if &l[i..i + pat.len()] == pat {
            let mut v = 0u32; let mut k = i + pat.len();
            while k < l.len() && l[k].is_ascii_digit() { v = v * 10 + (l[k] - b'0') as u32; k += 1; }
            return v;
        }
    }
    0
}

struct FP<'a> { m: &'a Module, regs: HashMap<String, u32>, labels: HashMap<String, u32>, nlabels: u32, frame: u64 }

impl<'a> FP<'a> {
    fn reg(&mut self, n: &str) -> u32 { if let Some(&r) = self.regs.get(n) { return r; } let r = self.regs.len() as u32; self.regs.insert(n.to_string(), r); r }
    fn label(&mut self, n: &str) -> u32 { if let Some(&r) = self.labels.get(n) { return r; } let r = self.nlabels; self.nlabels += 1; self.labels.insert(n.to_string(), r); r }
    fn attrs(&self, c: &mut Cur) {
        loop {
            let w = c.peek_word();
            if ATTR_WORDS.contains(&w) { c.word(); continue; }
            if ATTR_PAREN.contains(&w) { c.word(); if c.peek() == b'(' { c.skip_parens(); } continue; }
            if w == "align" { c.word(); if c.peek() == b'(' { c.skip_parens(); } else { c.word(); } continue; }
            if c.peek() == b'"' { c.i += 1; while c.s[c.i] != b'"' { c.i += 1; } c.i += 1; if c.peek() == b'=' { c.i += 1; c.expect(b'"'); while c.s[c.i] != b'"' { c.i += 1; } c.i += 1; } continue; }
            return;
        }
    }
    fn val(&mut self, c: &mut Cur, ty: &Ty) -> Op {
        if c.peek() == b'%' { c.i += 1; let n = c.name(); return Op::Reg(self.reg(&n)); }
        let v = self.m.konst(c, ty);
        match (&v, ty) {
            (Cv::Int(x), Ty::Int(w)) if *w <= 64 => Op::K(*x as u64),
            (Cv::Int(x), Ty::Ptr) | (Cv::Int(x), Ty::F64) | (Cv::Int(x), Ty::F32) => Op::K(*x as u64),
            (Cv::Zero, Ty::Int(w)) | (Cv::Undef, Ty::Int(w)) if *w <= 64 => Op::K(0),
            (Cv::Zero, Ty::Ptr) | (Cv::Undef, Ty::Ptr) | (Cv::Undef, Ty::F64) | (Cv::Undef, Ty::F32) => Op::K(0),
            _ => Op::C(v, ty.clone()),
        }
    }
    fn tval(&mut self, c: &mut Cur) -> (Ty, Op) { let t = self.m.ty(c); let v = self.val(c, &t); (t, v) }
    fn vt(&self, t: &Ty) -> Vt { match t { Ty::Vec(n, e) => Vt { n: *n as u32, w: e.bits() }, _ => Vt { n: 0, w: t.bits() } } }
    fn lab(&mut self, c: &mut Cur) -> u32 { if !c.eat_word("label") { c.fail("label"); } c.expect(b'%'); let n = c.name(); self.label(&n) }
    fn edge(&mut self, e: &mut Vec<(u32, u32)>, a: u32, b: u32) -> u32 { e.push((a, b)); (e.len() - 1) as u32 }

    fn inst(&mut self, c: &mut Cur, cur: u32, out: &mut Vec<Inst>, edges: &mut Vec<(u32, u32)>) -> Option<(u32, HashMap<u32, Op>)> {
        let mut dst: Option<u32> = None;
        if c.peek() == b'%' { c.i += 1; let n = c.name(); dst = Some(self.reg(&n)); c.expect(b'='); }
        let op = c.word();
        let d = dst.unwrap_or(0);
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                loop { let w = c.peek_word(); if matches!(w, "nuw" | "nsw" | "exact" | "disjoint") { c.word(); } else { break; } }
                let t = self.m.ty(c);
                let a = self.val(c, &t);
                c.expect(b',');
                let b = self.val(c, &t);
                let o = match op { "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "sdiv" => B::SDiv, "urem" => B::URem, "srem" => B::SRem,
                    "shl" => B::Shl, "lshr" => B::LShr, "ashr" => B::AShr, "and" => B::And, "or" => B::Or, _ => B::Xor };
                out.push(Inst::Bin(o, self.vt(&t), d, a, b));
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                fmf(c);
                let t = self.m.ty(c);
                let a = self.val(c, &t);
                c.expect(b',');
                let b = self.val(c, &t);
                out.push(Inst::FBin(op.to_string(), t, d, a, b));
            }
            "fneg" => { fmf(c); let (t, a) = self.tval(c); out.push(Inst::FBin(op.to_string(), t, d, a.clone(), a)); }
            "fcmp" => {
                fmf(c);
                let p = c.word().to_string();
                let t = self.m.ty(c);
                let a = self.val(c, &t);
                c.expect(b',');
                let b = self.val(c, &t);
                out.push(Inst::Fcmp(p, t, d, a, b));
            }
            "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc" => {
                loop { let w = c.peek_word(); if matches!(w, "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { c.word(); } else { break; } }
                let (t, a) = self.tval(c);
                if !c.eat_word("to") { c.fail("to"); }
                let t2 = self.m.ty(c);
                out.push(Inst::FCast(op.to_string(), t, t2, d, a));
            }
            "icmp" => {
                if c.peek_word() == "samesign" { c.word(); }
                let p = match c.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, w => c.fail(w) };
                let t = self.m.ty(c);
                let a = self.val(c, &t);
                c.expect(b',');
                let b = self.val(c, &t);
                out.push(Inst::Icmp(p, self.vt(&t), d, a, b));
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                loop { let w = c.peek_word(); if matches!(w, "nuw" | "nsw" | "nneg") { c.word(); } else { break; } }
                let (t, a) = self.tval(c);
                if !c.eat_word("to") { c.fail("to"); }
                let t2 = self.m.ty(c);
                let (f, g) = (self.vt(&t), self.vt(&t2));
                let k = match op {
                    "zext" => Cast::Zext, "sext" => Cast::Sext, "trunc" => Cast::Trunc, "bitcast" => Cast::Bit,
                    _ => if f.w == g.w { Cast::Bit } else if f.w < g.w { Cast::Zext } else { Cast::Trunc },
                };
                out.push(Inst::Cast(k, f, g, d, a));
            }
            "freeze" => { let (_, a) = self.tval(c); out.push(Inst::Copy(d, a)); }
            "select" => {
                fmf(c);
                let (ct, cv) = self.tval(c);
                c.expect(b',');
                let (t, a) = self.tval(c);
                c.expect(b',');
                let (_, b) = self.tval(c);
                let v = self.vt(&ct);
                out.push(Inst::Select(t, v, d, cv, a, b));
            }
            "getelementptr" => {
                loop { let w = c.peek_word(); if matches!(w, "inbounds" | "nuw" | "nusw") { c.word(); } else { break; } }
                let st = self.m.ty(c);
                c.expect(b',');
                let (_, base) = self.tval(c);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut t = st;
                let mut first = true;
                while c.eat(b',') {
                    if c.peek() == b'!' { break; }
                    let (it, v) = self.tval(c);
                    if first {
                        first = false;
                        let sz = t.size() as i64;
                        match v { Op::K(k) => off += crate::expr::sext(k as u128, it.bits()) as i64 * sz, v => idx.push((v, it.bits(), sz)) }
                    } else {
                        match (&t, v) {
                            (_, Op::K(k)) => { let k = crate::expr::sext(k as u128, it.bits()) as i64;
                                if let Ty::Struct(..) = t { off += t.field_off(k as usize) as i64; t = t.elem(k as usize); }
                                else { let e = t.elem(0); off += k * e.size() as i64; t = e; } }
                            (_, v) => { let e = t.elem(0); idx.push((v, it.bits(), e.size() as i64)); t = e; }
                        }
                    }
                }
                out.push(Inst::Gep(d, base, off, idx));
            }
            "load" => {
                loop { let w = c.peek_word(); if matches!(w, "volatile" | "atomic") { c.word(); } else { break; } }
                let t = self.m.ty(c);
                c.expect(b',');
                let (_, p) = self.tval(c);
                out.push(Inst::Load(d, t, p));
            }
            "store" => {
                loop { let w = c.peek_word(); if matches!(w, "volatile" | "atomic") { c.word(); } else { break; } }
                let (t, v) = self.tval(c);
                c.expect(b',');
                let (_, p) = self.tval(c);
                out.push(Inst::Store(t, v, p));
            }
            "alloca" => {
                let t = self.m.ty(c);
                let mut al = t.align() as u64;
                let mut n = t.size() as u64;
                while c.eat(b',') {
                    if c.eat_word("align") { al = c.uint(); }
                    else if c.peek() == b'!' { break; }
                    else { let (_, v) = self.tval(c); match v { Op::K(k) => n *= k, _ => { out.push(Inst::Bad("dynamic alloca".into())); return None; } } }
                }
                self.frame = (self.frame + al - 1) / al * al;
                out.push(Inst::Alloca(d, self.frame));
                self.frame += n.max(1);
            }
            "br" => {
                if c.peek_word() == "label" { let l = self.lab(c); let e = self.edge(edges, cur, l); out.push(Inst::Br(e)); }
                else {
                    let (_, v) = self.tval(c);
                    c.expect(b',');
                    let a = self.lab(c);
                    c.expect(b',');
                    let b = self.lab(c);
                    let ea = self.edge(edges, cur, a);
                    let eb = self.edge(edges, cur, b);
                    out.push(Inst::CondBr(v, ea, eb));
                }
            }
            "switch" => {
                let (t, v) = self.tval(c);
                c.expect(b',');
                let dl = self.lab(c);
                let de = self.edge(edges, cur, dl);
                c.expect(b'[');
                let mut cases = vec![];
                let mut by_label: HashMap<u32, u32> = HashMap::new();
                while !c.eat(b']') {
                    let (_, k) = self.tval(c);
                    c.expect(b',');
                    let l = self.lab(c);
                    let k = match k { Op::K(k) => k, _ => c.fail("switch case") };
                    let e = *by_label.entry(l).or_insert_with(|| { edges.push((cur, l)); (edges.len() - 1) as u32 });
                    cases.push((k, e));
                }
                out.push(Inst::Switch(t.bits(), v, cases, de));
            }
            "ret" => { if c.peek_word() == "void" { out.push(Inst::Ret(None)); } else { let (_, v) = self.tval(c); out.push(Inst::Ret(Some(v))); } }
            "unreachable" => out.push(Inst::Unreachable),
            "fence" => out.push(Inst::Nop),
            "resume" | "landingpad" => out.push(Inst::Bad(op.to_string())),
            "phi" => {
                fmf(c);
                let t = self.m.ty(c);
                let mut inc = HashMap::new();
                loop {
                    c.expect(b'[');
                    let v = self.val(c, &t);
                    c.expect(b',');
                    c.expect(b'%');
                    let n = c.name();
                    let l = self.label(&n);
                    c.expect(b']');
                    inc.insert(l, v);
                    if !(c.eat(b',') && c.peek() == b'[') { break; }
                }
                return Some((d, inc));
            }
            "extractvalue" => {
                let (_, a) = self.tval(c);
                let mut p = vec![];
                while c.eat(b',') { if c.peek() == b'!' { break; } p.push(c.uint() as u32); }
                out.push(Inst::ExtractValue(d, a, p));
            }
            "insertvalue" => {
                let (_, a) = self.tval(c);
                c.expect(b',');
                let (_, b) = self.tval(c);
                let mut p = vec![];
                while c.eat(b',') { if c.peek() == b'!' { break; } p.push(c.uint() as u32); }
                out.push(Inst::InsertValue(d, a, b, p));
            }
            "extractelement" => { let (_, a) = self.tval(c); c.expect(b','); let (_, i) = self.tval(c); out.push(Inst::ExtractElem(d, a, i)); }
            "insertelement" => { let (_, a) = self.tval(c); c.expect(b','); let (_, b) = self.tval(c); c.expect(b','); let (_, i) = self.tval(c); out.push(Inst::InsertElem(d, a, b, i)); }
            "shufflevector" => {
                let (t, a) = self.tval(c);
                c.expect(b',');
                let (_, b) = self.tval(c);
                c.expect(b',');
                let mt = self.m.ty(c);
                let mv = self.m.konst(c, &mt);
                let n = match &mt { Ty::Vec(n, _) => *n, _ => c.fail("mask") };
                let mask: Vec<u32> = match mv {
                    Cv::Zero | Cv::Undef => vec![0; n],
                    Cv::Agg(l) => l.iter().map(|x| match x { Cv::Int(v) => *v as u32, _ => 0 }).collect(),
                    Cv::Splat(s) => match &*s { Cv::Int(v) => vec![*v as u32; n], _ => vec![0; n] },
                    _ => c.fail("mask"),
                };
                let an = match &t { Ty::Vec(n, _) => *n as u32, _ => c.fail("vec") };
                out.push(Inst::Shuffle(d, a, b, mask, an));
            }
            "atomicrmw" => {
                if c.peek_word() == "volatile" { c.word(); }
                let o = c.word().to_string();
                let (_, p) = self.tval(c);
                c.expect(b',');
                let (t, v) = self.tval(c);
                out.push(Inst::AtomicRmw(o, t, d, p, v));
            }
            "cmpxchg" => {
                loop { let w = c.peek_word(); if matches!(w, "weak" | "volatile") { c.word(); } else { break; } }
                let (_, p) = self.tval(c);
                c.expect(b',');
                let (t, e) = self.tval(c);
                c.expect(b',');
                let (_, n) = self.tval(c);
                out.push(Inst::CmpXchg(t, d, p, e, n));
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" { if !c.eat_word("call") { c.fail("call"); } }
                loop {
                    let w = c.peek_word();
                    if matches!(w, "fastcc" | "coldcc" | "ccc" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "preserve_mostcc" | "preserve_allcc") { c.word(); }
                    else if w == "cc" { c.word(); c.word(); }
                    else { break; }
                }
                self.attrs(c);
                let rty = {
                    // a function type may follow: `call void (ptr, ...) @f(...)`
                    let save = c.i;
                    let t = self.m.ty(c);
                    if t == Ty::Fn { c.i = save; let inner = ret_ty(self.m, c); inner } else { t }
                };
                if c.peek_word() == "asm" { out.push(Inst::Nop); if dst.is_some() { out.pop(); out.push(Inst::Bad("inline asm with result".into())); } 
                    if op == "invoke" { c.fail("asm invoke"); } return None; }
                let mut noreturn = false;
                let callee = match c.peek() {
                    b'@' => {
                        c.i += 1;
                        let n = c.name();
                        if let Some(&f) = self.m.fidx.get(&n) { noreturn = self.m.funcs[f as usize].noreturn; Callee::Func(f) }
                        else { noreturn = *self.m.decls.get(&n).unwrap_or(&false); Callee::Ext(n) }
                    }
                    _ => { let v = self.val(c, &Ty::Ptr); Callee::Reg(v) }
                };
                c.expect(b'(');
                let mut args = vec![];
                let mut tys = vec![];
                if !c.eat(b')') {
                    loop {
                        let t = self.m.ty(c);
                        if t == Ty::Meta { // skip to next , or ) at depth 0
                            let mut dep = 0;
                            while !(dep == 0 && (c.peek() == b',' || c.peek() == b')')) { match c.s[c.i] { b'(' => dep += 1, b')' => dep -= 1, _ => {} } c.i += 1; }
                        } else {
                            self.attrs(c);
                            let v = self.val(c, &t);
                            args.push(v);
                            tys.push(t);
                        }
                        if c.eat(b')') { break; }
                        c.expect(b',');
                    }
                }
                // call-site attribute groups
                loop {
                    if c.eat(b'#') { let n = c.uint() as u32; if *self.m.attrs_noreturn.get(&n).unwrap_or(&false) { noreturn = true; } }
                    else if matches!(c.peek_word(), "noreturn") { c.word(); noreturn = true; }
                    else if matches!(c.peek_word(), "nounwind" | "memory" | "range" | "captures") { c.word(); if c.peek() == b'(' { c.skip_parens(); } }
                    else { break; }
                }
                if c.peek() == b'[' { c.skip_parens(); }
                out.push(Inst::Call { dst, callee, args, tys, rty, noreturn });
                if op == "invoke" {
                    if !c.eat_word("to") { c.fail("to"); }
                    let n = self.lab(c);
                    let e = self.edge(edges, cur, n);
                    out.push(Inst::Br(e));
                }
            }
            _ => out.push(Inst::Bad(format!("unsupported instruction {}", op))),
        }
        None
    }
}
fn fmf(c: &mut Cur) { loop { let w = c.peek_word(); if matches!(w, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { c.word(); } else { return; } } }
fn ret_ty(m: &Module, c: &mut Cur) -> Ty {
    // type followed by a parenthesised parameter list
    let t = match c.peek() {
        b'[' | b'{' | b'<' | b'%' => { let st = c.i; c.skip_parens(); let s = c.s[st..c.i].to_vec(); let mut d = Cur::new(&s); m.ty(&mut d) }
        _ => { let w = c.word().to_string(); let b = w.into_bytes(); let mut d = Cur::new(&b); m.ty(&mut d) }
    };
    c.ws();
    c.skip_parens();
    t
}
