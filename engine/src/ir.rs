//! Parser for textual LLVM IR (the subset rustc emits for this project), lazily per function.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Named(Rc<str>),
    Other,
}

#[derive(Clone, Debug)]
pub enum C {
    Int(u128),
    Null,
    Undef,
    Zero,
    Str(Rc<[u8]>),
    Agg(Vec<(Ty, C)>),
    Global(Rc<str>),
    /// constant gep: base + computed byte offset (index constants resolved at parse time)
    Gep(Box<C>, i128),
    Sub(Box<C>, Box<C>),
    Add(Box<C>, Box<C>),
    /// width-changing casts of constants (ptrtoint, inttoptr, bitcast, trunc)
    Cast(Box<C>, u32),
    F(u64),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(Ty, C),
    V(crate::exec::V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum COp { Trunc, Zext, Sext, PtrToInt, IntToPtr, Bitcast, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }

#[derive(Debug)]
pub enum I {
    Bin(u32, BOp, Ty, Opd, Opd),
    FNeg(u32, Ty, Opd),
    ICmp(u32, Pred, Ty, Opd, Opd),
    FCmp(u32, String, Ty, Opd, Opd),
    Cast(u32, COp, Ty, Ty, Opd),
    Select(u32, Ty, Ty, Opd, Opd, Opd), // cond ty, val ty
    Alloca(u32, Ty, u64, Opd),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    /// dst, base, constant byte offset, (index operand, scale, index width)*
    Gep(u32, Opd, i128, Vec<(Opd, u64, u32)>),
    Call(Option<u32>, Ty, Callee, Vec<(Ty, Opd)>, Option<u32>), // normal dest for invoke
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, Ty, Opd, Ty, Opd, Vec<u32>),
    ExtractElement(u32, Ty, Opd, Opd),
    InsertElement(u32, Ty, Opd, Opd, Opd),
    Shuffle(u32, Ty, Opd, Opd, Vec<Option<u32>>),
    AtomicRmw(u32, String, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Freeze(u32, Ty, Opd),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Nop,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub enum Callee { Direct(Rc<str>), Id(u32), Reg(Opd), Asm(String) }

pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(Opd, u32)>)>,
    pub insts: Vec<I>,
}
impl I {
    pub fn operands(&mut self, f: &mut dyn FnMut(&mut Opd)) {
        match self {
            I::Bin(_, _, _, a, b) | I::ICmp(_, _, _, a, b) | I::FCmp(_, _, _, a, b) => { f(a); f(b) }
            I::FNeg(_, _, a) | I::Cast(_, _, _, _, a) | I::Load(_, _, a) | I::ExtractValue(_, a, _) | I::Freeze(_, _, a) | I::Alloca(_, _, _, a) => f(a),
            I::Select(_, _, _, a, b, c) => { f(a); f(b); f(c) }
            I::Store(_, a, b) => { f(a); f(b) }
            I::Gep(_, b, _, ix) => { f(b); for x in ix { f(&mut x.0) } }
            I::Call(_, _, c, args, _) => { if let Callee::Reg(o) = c { f(o) } for a in args { f(&mut a.1) } }
            I::InsertValue(_, _, a, _, b, _) => { f(a); f(b) }
            I::ExtractElement(_, _, a, b) => { f(a); f(b) }
            I::InsertElement(_, _, a, b, c) => { f(a); f(b); f(c) }
            I::Shuffle(_, _, a, b, _) => { f(a); f(b) }
            I::AtomicRmw(_, _, _, a, b) => { f(a); f(b) }
            I::CmpXchg(_, _, a, b, c) => { f(a); f(b); f(c) }
            I::CondBr(a, _, _) => f(a),
            I::Switch(_, a, _, _) => f(a),
            I::Ret(Some((_, a))) => f(a),
            I::Br(_) | I::Ret(None) | I::Unreachable | I::Nop | I::Unsupported(_) => {}
        }
    }
}
pub struct Func {
    pub name: Rc<str>,
    pub nparams: usize,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub ipdom: std::cell::RefCell<Option<Vec<Option<u32>>>>,
}

pub struct Global {
    pub name: Rc<str>,
    pub ty: Ty,
    pub init: Option<(usize, usize)>, // text range of the initializer
    pub align: u64,
    pub constant: bool,
}

pub struct Module {
    pub text: String,
    pub types: HashMap<Rc<str>, Ty>,
    pub globals: Vec<Global>,
    pub aliases: Vec<(Rc<str>, (usize, usize))>,
    pub funcs: HashMap<Rc<str>, (usize, usize)>,
    pub decls: Vec<Rc<str>>,
}

pub struct P<'a> { pub s: &'a [u8], pub i: usize, pub m: &'a Module }

fn name_char(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'$' | b'.' | b'_' | b'-') }

impl<'a> P<'a> {
    pub fn ws(&mut self) {
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' { self.i += 1; }
            else if c == b';' { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } }
            else { break; }
        }
    }
    /// whitespace within a line only
    fn sp(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') { self.i += 1; } }
    pub fn peek(&self) -> u8 { *self.s.get(self.i).unwrap_or(&0) }
    pub fn eat(&mut self, c: u8) -> bool { self.ws(); if self.peek() == c { self.i += 1; true } else { false } }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) { panic!("IR parse: expected '{}' at: {}", c as char, self.ctx()); }
    }
    fn ctx(&self) -> String {
        let a = self.i.saturating_sub(60); let e = (self.i + 160).min(self.s.len());
        String::from_utf8_lossy(&self.s[a..self.i]).to_string() + " <<HERE>> " + &String::from_utf8_lossy(&self.s[self.i..e])
    }
    pub fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && name_char(self.s[self.i]) { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str { let sv = self.i; let w = self.word(); self.i = sv; w }
    fn kw(&mut self, k: &str) -> bool {
        let sv = self.i;
        if self.word() == k { true } else { self.i = sv; false }
    }
    /// after '@' or '%'
    pub fn name(&mut self) -> String {
        if self.peek() == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && name_char(self.s[self.i]) { self.i += 1; }
            String::from_utf8_lossy(&self.s[st..self.i]).to_string()
        }
    }
    fn num(&mut self) -> u128 {
        self.ws();
        let neg = if self.peek() == b'-' { self.i += 1; true } else { false };
        let mut v: u128 = 0;
        while self.peek().is_ascii_digit() { v = v.wrapping_mul(10).wrapping_add((self.peek() - b'0') as u128); self.i += 1; }
        if neg { (!v).wrapping_add(1) } else { v }
    }
    pub fn is_type_start(&mut self) -> bool {
        self.ws();
        match self.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                w == "ptr" || w == "void" || w == "float" || w == "double" || w == "half" || w == "x86_fp80" || w == "label" || w == "metadata" || w == "token" || w == "fp128" || w == "bfloat"
                    || (w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()))
            }
        }
    }
    pub fn ty(&mut self) -> Ty {
        self.ws();
        match self.peek() {
            b'{' => { self.i += 1; let v = self.ty_list(b'}'); Ty::Struct(Rc::new(v), false) }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' {
                    self.i += 1;
                    let v = self.ty_list(b'}');
                    self.expect(b'>');
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n = self.num() as u64;
                    self.word();
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'[' => {
                self.i += 1;
                let n = self.num() as u64;
                self.word(); // x
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            b'%' => { self.i += 1; let n = self.name(); Ty::Named(n.into()) }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => { 
                        if self.kw("addrspace") { self.parens(); }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" | "metadata" | "token" | "x86_fp80" | "half" | "fp128" | "bfloat" => Ty::Other,
                    _ if w.starts_with('i') && w.len() > 1 => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("bad type {} at {}", w, self.ctx()))),
                    _ => panic!("IR parse: bad type '{}' at {}", w, self.ctx()),
                }
            }
        }
    }
    fn ty_list(&mut self, end: u8) -> Vec<Ty> {
        let mut v = Vec::new();
        loop {
            self.ws();
            if self.peek() == end { self.i += 1; return v; }
            v.push(self.ty());
            self.ws();
            if self.peek() == b',' { self.i += 1; }
        }
    }
    fn parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.peek() { b'(' => d += 1, b')' => d -= 1, b'"' => { self.i += 1; while self.peek() != b'"' { self.i += 1; } } , 0 => panic!("eof in parens"), _ => {} }
            self.i += 1;
        }
    }
    /// skip parameter / return / function attributes before a type or value
    fn attrs(&mut self) {
        loop {
            self.ws();
            let c = self.peek();
            if c == b'#' { self.i += 1; self.num(); continue; }
            if c == b'"' {
                self.i += 1; while self.peek() != b'"' { self.i += 1; } self.i += 1;
                if self.peek() == b'=' { self.i += 1; if self.peek() == b'"' { self.i += 1; while self.peek() != b'"' { self.i += 1; } self.i += 1; } }
                continue;
            }
            if !c.is_ascii_lowercase() { return; }
            let w = self.peek_word();
            match w {
                "align" | "alignstack" | "dereferenceable" | "dereferenceable_or_null" | "range" | "captures" | "sret" | "byval" | "initializes" | "nofpclass" | "elementtype" | "memory" | "allocsize" | "allockind" | "vscale_range" | "inalloca" | "preallocated" | "dead_on_return" => {
                    self.word();
                    self.sp();
                    if self.peek() == b'(' { self.parens(); } else { self.num(); }
                }
                "noundef" | "nonnull" | "noalias" | "readonly" | "readnone" | "writeonly" | "zeroext" | "signext" | "inreg" | "nocapture" | "returned" | "immarg" | "nofree" | "nest" | "swiftself" | "swifterror" | "writable" | "dead_on_unwind" | "allocptr" | "allocalign" | "noext" | "noinline" | "cold" | "nounwind" => { self.word(); }
                _ => return,
            }
        }
    }
    pub fn konst(&mut self, ty: &Ty) -> C {
        self.ws();
        match self.peek() {
            b'@' => { self.i += 1; let n = self.name(); C::Global(n.into()) }
            b'-' | b'0'..=b'9' => {
                // integer or float
                let st = self.i;
                if matches!(ty, Ty::F64 | Ty::F32) {
                    while self.i < self.s.len() && (name_char(self.s[self.i]) || self.s[self.i] == b'+') { self.i += 1; }
                    let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                    if let Some(h) = t.strip_prefix("0x") {
                        return C::F(u64::from_str_radix(h, 16).unwrap_or(0));
                    }
                    let v: f64 = t.parse().unwrap_or(0.0);
                    return C::F(v.to_bits());
                }
                C::Int(self.num())
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let mut v = Vec::new();
                while self.peek() != b'"' {
                    let c = self.peek();
                    if c == b'\\' && self.s[self.i + 1] == b'\\' { v.push(b'\\'); self.i += 2; }
                    else if c == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        v.push(u8::from_str_radix(h, 16).unwrap());
                        self.i += 3;
                    } else { v.push(c); self.i += 1; }
                }
                self.i += 1;
                C::Str(v.into())
            }
            b'[' | b'{' => { let e = if self.peek() == b'[' { b']' } else { b'}' }; self.i += 1; C::Agg(self.const_list(e)) }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' { self.i += 1; let v = self.const_list(b'}'); self.expect(b'>'); C::Agg(v) } else { C::Agg(self.const_list(b'>')) }
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => C::Int(1),
                    "false" => C::Int(0),
                    "null" | "none" => C::Null,
                    "undef" | "poison" => C::Undef,
                    "zeroinitializer" => C::Zero,
                    "splat" => {
                        self.expect(b'(');
                        let t = self.ty();
                        let c = self.konst(&t);
                        self.expect(b')');
                        let n = match ty { Ty::Vec(n, _) | Ty::Arr(n, _) => *n, _ => 1 };
                        C::Agg((0..n).map(|_| (t.clone(), c.clone())).collect())
                    }
                    "getelementptr" => {
                        loop { let w = self.peek_word(); if matches!(w, "inbounds" | "nuw" | "nusw" | "inrange") { self.word(); self.ws(); if w == "inrange" { self.parens(); } } else { break; } }
                        self.expect(b'(');
                        let t = self.ty();
                        self.expect(b',');
                        let pt = self.ty();
                        let base = self.konst(&pt);
                        let mut idx = Vec::new();
                        while self.eat(b',') {
                            if self.kw("inrange") {}
                            let it = self.ty();
                            let c = self.konst(&it);
                            let v = match c { C::Int(v) => { let wd = match it { Ty::Int(w) => w, _ => 64 }; crate::term::sext128(v & crate::term::mask(wd), wd) } C::Zero | C::Null => 0, _ => panic!("non-int const gep index") };
                            idx.push(v);
                        }
                        self.expect(b')');
                        let off = self.m.gep_const(&t, &idx);
                        C::Gep(Box::new(base), off)
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" => {
                        self.expect(b'(');
                        let t = self.ty();
                        let c = self.konst(&t);
                        if !self.kw("to") { panic!("cast const"); }
                        let t2 = self.ty();
                        self.expect(b')');
                        let wd = match t2 { Ty::Int(w) => w, _ => 64 };
                        C::Cast(Box::new(c), wd)
                    }
                    "sub" | "add" => {
                        loop { let w = self.peek_word(); if matches!(w, "nuw" | "nsw") { self.word(); } else { break; } }
                        self.expect(b'(');
                        let t = self.ty();
                        let a = self.konst(&t);
                        self.expect(b',');
                        let t = self.ty();
                        let b = self.konst(&t);
                        self.expect(b')');
                        if w == "sub" { C::Sub(Box::new(a), Box::new(b)) } else { C::Add(Box::new(a), Box::new(b)) }
                    }
                    "asm" => panic!("asm const"),
                    "f0x" => panic!("f0x"),
                    _ => {
                        if let Some(h) = w.strip_prefix("f0x") { return C::F(u64::from_str_radix(h, 16).unwrap_or(0)); }
                        panic!("IR parse: const '{}' at {}", w, self.ctx())
                    }
                }
            }
        }
    }
    fn const_list(&mut self, end: u8) -> Vec<(Ty, C)> {
        let mut v = Vec::new();
        loop {
            self.ws();
            if self.peek() == end { self.i += 1; return v; }
            let t = self.ty();
            let c = self.konst(&t);
            v.push((t, c));
            self.ws();
            if self.peek() == b',' { self.i += 1; }
        }
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("read .ll");
        let mut m = Module { text, types: HashMap::new(), globals: vec![], aliases: vec![], funcs: HashMap::new(), decls: vec![] };
        let text: &'static str = unsafe { &*(m.text.as_str() as *const str) };
        let b = text.as_bytes();
        let mut pos = 0;
        while pos < b.len() {
            let e = memchr(b, pos, b'\n');
            let line = &text[pos..e];
            let mut next = e + 1;
            let c = b[pos.min(b.len() - 1)];
            if c == b'%' && line.contains(" = type ") {
                let mref: &Module = unsafe { &*(&m as *const Module) };
                let mut p = P { s: b, i: pos + 1, m: mref };
                let n = p.name();
                p.expect(b'=');
                p.word();
                let t = if p.peek_word() == "opaque" { Ty::Other } else { p.ty() };
                m.types.insert(n.into(), t);
            } else if c == b'@' {
                let mref: &Module = unsafe { &*(&m as *const Module) };
                let mut p = P { s: b, i: pos + 1, m: mref };
                let n: Rc<str> = p.name().into();
                p.expect(b'=');
                let mut ext = false;
                let mut kind = "";
                loop {
                    p.ws();
                    if p.peek() == b'(' { p.parens(); continue; }
                    let w = p.word();
                    match w {
                        "external" | "extern_weak" => ext = true,
                        "global" | "constant" | "alias" => { kind = w; break; }
                        "ifunc" => { kind = w; break; }
                        "" => panic!("global parse: {}", line),
                        _ => {}
                    }
                }
                if kind == "alias" {
                    let _t = p.ty();
                    p.expect(b',');
                    let st = p.i;
                    m.aliases.push((n, (st, e)));
                } else if kind != "ifunc" {
                    let ty = p.ty();
                    p.sp();
                    let init = if ext { None } else { Some((p.i, e)) };
                    let align = line.rfind(", align ").map(|k| line[k + 8..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(1)).unwrap_or(1);
                    m.globals.push(Global { name: n, ty, init, align, constant: kind == "constant" });
                }
            } else if line.starts_with("define") {
                // to matching "\n}\n"
                let end = find(b, e, b"\n}").expect("function end") + 2;
                let at = pos + line.find('@').unwrap();
                let mref: &Module = unsafe { &*(&m as *const Module) };
                let mut p = P { s: b, i: at + 1, m: mref };
                let n = p.name();
                m.funcs.insert(n.into(), (pos, end));
                next = end;
            } else if line.starts_with("declare") {
                if let Some(k) = line.find('@') {
                    let mref: &Module = unsafe { &*(&m as *const Module) };
                    let mut p = P { s: b, i: pos + k + 1, m: mref };
                    let n = p.name();
                    m.decls.push(n.into());
                }
            }
            pos = next;
        }
        m
    }

    pub fn resolve<'a>(&'a self, t: &'a Ty) -> &'a Ty {
        match t { Ty::Named(n) => self.resolve(self.types.get(n).unwrap_or_else(|| panic!("type {}", n))), _ => t }
    }
    pub fn align_of(&self, t: &Ty) -> u64 {
        match self.resolve(t) {
            Ty::Int(w) => { let b = ((*w as u64 + 7) / 8).next_power_of_two(); b.min(16).max(1) }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => self.align_of(t),
            Ty::Vec(_, _) => self.size_of(t).next_power_of_two().max(1),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|x| self.align_of(x)).max().unwrap_or(1) },
            Ty::Void | Ty::Other => 1,
            Ty::Named(_) => unreachable!(),
        }
    }
    /// allocation size
    pub fn size_of(&self, t: &Ty) -> u64 {
        match self.resolve(t) {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align_of(t); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * self.size_of(t),
            Ty::Vec(n, t) => match self.resolve(t) { Ty::Int(w) => (n * *w as u64 + 7) / 8, _ => n * self.size_of(t) },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for x in f.iter() { if !*packed { let a = self.align_of(x); o = (o + a - 1) / a * a; } o += self.size_of(x); }
                if !*packed { let a = self.align_of(t); o = (o + a - 1) / a * a; }
                o
            }
            Ty::Void | Ty::Other => 0,
            Ty::Named(_) => unreachable!(),
        }
    }
    pub fn field_off(&self, t: &Ty, i: usize) -> u64 {
        match self.resolve(t) {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, x) in f.iter().enumerate() {
                    if !*packed { let a = self.align_of(x); o = (o + a - 1) / a * a; }
                    if k == i { return o; }
                    o += self.size_of(x);
                }
                panic!("field")
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => i as u64 * self.size_of(e),
            _ => panic!("field_off"),
        }
    }
    pub fn field_ty(&self, t: &Ty, i: usize) -> Ty {
        match self.resolve(t) {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(),
            _ => panic!("field_ty"),
        }
    }
    fn gep_const(&self, t: &Ty, idx: &[i128]) -> i128 {
        let mut off = 0i128;
        let mut cur = t.clone();
        for (k, &i) in idx.iter().enumerate() {
            if k == 0 { off += i * self.size_of(&cur) as i128; continue; }
            match self.resolve(&cur).clone() {
                Ty::Struct(_, _) => { off += self.field_off(&cur, i as usize) as i128; cur = self.field_ty(&cur, i as usize); }
                Ty::Arr(_, e) | Ty::Vec(_, e) => { off += i * self.size_of(&e) as i128; cur = (*e).clone(); }
                _ => panic!("gep const"),
            }
        }
        off
    }

    pub fn parse_func(&self, name: &str) -> Func {
        let (s, e) = self.funcs[name];
        let p = P { s: &self.text.as_bytes()[..e], i: s, m: self };
        FP { p, regs: HashMap::new(), blocks: HashMap::new(), nregs: 0 }.func(name)
    }
}

fn memchr(b: &[u8], mut i: usize, c: u8) -> usize { while i < b.len() && b[i] != c { i += 1; } i }
fn find(b: &[u8], mut i: usize, pat: &[u8]) -> Option<usize> {
    while i + pat.len() <= b.len() {
        i = memchr(b, i, pat[0]);
        if i + pat.len() <= b.len() && &b[i..i + pat.len()] == pat { return Some(i); }
        i += 1;
    }
    None
}

struct FP<'a> { p: P<'a>, regs: HashMap<String, u32>, blocks: HashMap<String, u32>, nregs: usize }

impl<'a> FP<'a> {
    fn reg(&mut self, n: String) -> u32 {
        let next = self.nregs as u32;
        let r = *self.regs.entry(n).or_insert(next);
        if r == next { self.nregs += 1; }
        r
    }
    fn blk(&mut self, n: String) -> u32 { let k = self.blocks.len() as u32; *self.blocks.entry(n).or_insert(k) }
    fn opd(&mut self, ty: &Ty) -> Opd {
        self.p.attrs();
        self.p.ws();
        if self.p.peek() == b'%' { self.p.i += 1; let n = self.p.name(); return Opd::Reg(self.reg(n)); }
        let c = self.p.konst(ty);
        Opd::C(ty.clone(), c)
    }
    fn tyopd(&mut self) -> (Ty, Opd) { self.p.attrs(); let t = self.p.ty(); let o = self.opd(&t); (t, o) }
    fn label(&mut self) -> u32 {
        if !self.p.kw("label") { panic!("label at {}", self.p.ctx()); }
        self.p.expect(b'%');
        let n = self.p.name();
        self.blk(n)
    }
    fn func(mut self, name: &str) -> Func {
        // header: skip to '@name('
        let line_end = memchr(self.p.s, self.p.i, b'\n');
        while self.p.s[self.p.i] != b'@' { self.p.i += 1; }
        self.p.i += 1;
        self.p.name();
        self.p.expect(b'(');
        let mut nparams = 0;
        loop {
            self.p.ws();
            if self.p.peek() == b')' { break; }
            if self.p.s[self.p.i..].starts_with(b"...") { self.p.i += 3; continue; }
            self.p.ty();
            self.p.attrs();
            self.p.ws();
            if self.p.peek() == b'%' {
                self.p.i += 1;
                let n = self.p.name();
                let r = self.reg(n);
                assert_eq!(r as usize, nparams);
            } else { let n = format!("{}", nparams); self.reg(n); }
            nparams += 1;
            self.p.eat(b',');
        }
        self.p.i = line_end + 1;
        let mut blocks: Vec<(u32, Block)> = Vec::new();
        let mut cur = Block { phis: vec![], insts: vec![] };
        let mut cur_id: Option<u32> = None;
        loop {
            // at line start
            let le = memchr(self.p.s, self.p.i, b'\n');
            let line = &self.p.s[self.p.i..le];
            if line.starts_with(b"}") { break; }
            let t = trim(line);
            if t.is_empty() || t[0] == b';' || t.starts_with(b"#dbg") { self.p.i = le + 1; continue; }
            if line[0] != b' ' {
                // label
                let n = self.p.name();
                if let Some(id) = cur_id { blocks.push((id, std::mem::replace(&mut cur, Block { phis: vec![], insts: vec![] }))); }
                cur_id = Some(self.blk(n));
                self.p.i = le + 1;
                continue;
            }
            if cur_id.is_none() {
                let n = format!("{}", nparams); // unnamed entry label takes the next number
                cur_id = Some(if self.blocks.is_empty() { self.blk(n) } else { self.blk(n) });
            }
            self.inst(&mut cur);
            // an optional-token probe may have run past the end of the line: step back over blanks
            while matches!(self.p.s[self.p.i - 1], b' ' | b'\t' | b'\n' | b'\r') { self.p.i -= 1; }
            // skip rest of line (metadata etc.)
            let le = memchr(self.p.s, self.p.i, b'\n');
            self.p.i = le + 1;
        }
        if let Some(id) = cur_id { blocks.push((id, cur)); }
        let n = self.blocks.len();
        let mut out: Vec<Option<Block>> = (0..n).map(|_| None).collect();
        let entry = blocks[0].0;
        assert_eq!(entry, 0);
        for (id, b) in blocks { out[id as usize] = Some(b); }
        Func {
            name: name.into(), nparams, nregs: self.nregs,
            blocks: out.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], insts: vec![I::Unsupported("missing block".into())] })).collect(),
            ipdom: Default::default(),
        }
    }
    fn inst(&mut self, b: &mut Block) {
        self.p.ws();
        let mut dst: Option<String> = None;
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            self.p.expect(b'=');
            dst = Some(n);
        }
        let mut op = self.p.word();
        if matches!(op, "tail" | "musttail" | "notail") { op = self.p.word(); }
        let d = |s: &mut Self| -> u32 { let n = dst.clone().unwrap(); s.reg(n) };
        let bop = match op {
            "add" => Some(BOp::Add), "sub" => Some(BOp::Sub), "mul" => Some(BOp::Mul), "udiv" => Some(BOp::UDiv), "sdiv" => Some(BOp::SDiv),
            "urem" => Some(BOp::URem), "srem" => Some(BOp::SRem), "shl" => Some(BOp::Shl), "lshr" => Some(BOp::LShr), "ashr" => Some(BOp::AShr),
            "and" => Some(BOp::And), "or" => Some(BOp::Or), "xor" => Some(BOp::Xor),
            "fadd" => Some(BOp::FAdd), "fsub" => Some(BOp::FSub), "fmul" => Some(BOp::FMul), "fdiv" => Some(BOp::FDiv), "frem" => Some(BOp::FRem),
            _ => None,
        };
        let flags = |s: &mut Self| loop {
            let w = s.p.peek_word();
            if matches!(w, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak") { s.p.word(); } else { break; }
        };
        if let Some(o) = bop {
            flags(self);
            let t = self.p.ty();
            let a = self.opd(&t);
            self.p.expect(b',');
            let c = self.opd(&t);
            let r = d(self);
            b.insts.push(I::Bin(r, o, t, a, c));
            return;
        }
        let cop = match op {
            "trunc" => Some(COp::Trunc), "zext" => Some(COp::Zext), "sext" => Some(COp::Sext), "ptrtoint" | "ptrtoaddr" => Some(COp::PtrToInt), "inttoptr" => Some(COp::IntToPtr),
            "bitcast" | "addrspacecast" => Some(COp::Bitcast), "fptoui" => Some(COp::FpToUi), "fptosi" => Some(COp::FpToSi), "uitofp" => Some(COp::UiToFp), "sitofp" => Some(COp::SiToFp),
            "fpext" => Some(COp::FpExt), "fptrunc" => Some(COp::FpTrunc), _ => None,
        };
        if let Some(o) = cop {
            flags(self);
            let (t, a) = self.tyopd();
            if !self.p.kw("to") { panic!("cast to"); }
            let t2 = self.p.ty();
            let r = d(self);
            b.insts.push(I::Cast(r, o, t, t2, a));
            return;
        }
        let i = match op {
            "fneg" => { flags(self); let (t, a) = self.tyopd(); let r = d(self); I::FNeg(r, t, a) }
            "icmp" => {
                flags(self);
                let p = match self.p.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("icmp {}", x) };
                let t = self.p.ty();
                let a = self.opd(&t);
                self.p.expect(b',');
                let c = self.opd(&t);
                let r = d(self);
                I::ICmp(r, p, t, a, c)
            }
            "fcmp" => {
                flags(self);
                let p = self.p.word().to_string();
                let t = self.p.ty();
                let a = self.opd(&t);
                self.p.expect(b',');
                let c = self.opd(&t);
                let r = d(self);
                I::FCmp(r, p, t, a, c)
            }
            "select" => {
                flags(self);
                let (ct, c) = self.tyopd();
                self.p.expect(b',');
                let (t, x) = self.tyopd();
                self.p.expect(b',');
                let (_, y) = self.tyopd();
                let r = d(self);
                I::Select(r, ct, t, c, x, y)
            }
            "alloca" => {
                let t = self.p.ty();
                let mut align = 1;
                let mut cnt = Opd::C(Ty::Int(64), C::Int(1));
                while self.p.eat(b',') {
                    if self.p.kw("align") { align = self.p.num() as u64; } else if self.p.is_type_start() { let (_, o) = self.tyopd(); cnt = o; } else { break; }
                }
                let r = d(self);
                I::Alloca(r, t, align, cnt)
            }
            "load" => {
                flags(self);
                let t = self.p.ty();
                self.p.expect(b',');
                let (_, p) = self.tyopd();
                let r = d(self);
                I::Load(r, t, p)
            }
            "store" => {
                flags(self);
                let (t, v) = self.tyopd();
                self.p.expect(b',');
                let (_, p) = self.tyopd();
                I::Store(t, v, p)
            }
            "getelementptr" => {
                flags(self);
                let t = self.p.ty();
                self.p.expect(b',');
                let (bt, base) = self.tyopd();
                let mut off = 0i128;
                let mut dynv = Vec::new();
                let mut cur = t.clone();
                let mut k = 0;
                let mut vecgep = matches!(bt, Ty::Vec(..));
                loop {
                    self.p.sp();
                    if self.p.peek() != b',' { break; }
                    let sv = self.p.i;
                    self.p.i += 1;
                    self.p.sp();
                    if self.p.peek() == b'!' { self.p.i = sv; break; }
                    let (it, o) = self.tyopd();
                    if matches!(it, Ty::Vec(..)) { vecgep = true; }
                    let iw = match it { Ty::Int(w) => w, _ => 64 };
                    let cv = match &o { Opd::C(_, C::Int(v)) => Some(crate::term::sext128(*v & crate::term::mask(iw), iw)), Opd::C(_, C::Zero) => Some(0), _ => None };
                    let m = self.p.m;
                    if k == 0 {
                        let sz = m.size_of(&cur);
                        match cv { Some(v) => off += v * sz as i128, None => dynv.push((o, sz, iw)) }
                    } else {
                        match m.resolve(&cur).clone() {
                            Ty::Struct(..) => { let v = cv.expect("struct index") as usize; off += m.field_off(&cur, v) as i128; cur = m.field_ty(&cur, v); }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                let sz = m.size_of(&e);
                                match cv { Some(v) => off += v * sz as i128, None => dynv.push((o, sz, iw)) }
                                cur = (*e).clone();
                            }
                            _ => panic!("gep type"),
                        }
                    }
                    k += 1;
                }
                let r = d(self);
                if vecgep { I::Unsupported("vector gep".into()) } else { I::Gep(r, base, off, dynv) }
            }
            "extractvalue" => {
                let (_, a) = self.tyopd();
                let mut ix = vec![];
                while { self.p.sp(); self.p.peek() == b',' } { self.p.i += 1; self.p.sp(); if self.p.peek() == b'!' { break; } ix.push(self.p.num() as u32); }
                let r = d(self);
                I::ExtractValue(r, a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tyopd();
                self.p.expect(b',');
                let (t2, v) = self.tyopd();
                let mut ix = vec![];
                while { self.p.sp(); self.p.peek() == b',' } { self.p.i += 1; self.p.sp(); if self.p.peek() == b'!' { break; } ix.push(self.p.num() as u32); }
                let r = d(self);
                I::InsertValue(r, t, a, t2, v, ix)
            }
            "extractelement" => {
                let (t, a) = self.tyopd();
                self.p.expect(b',');
                let (_, i) = self.tyopd();
                let r = d(self);
                I::ExtractElement(r, t, a, i)
            }
            "insertelement" => {
                let (t, a) = self.tyopd();
                self.p.expect(b',');
                let (_, v) = self.tyopd();
                self.p.expect(b',');
                let (_, i) = self.tyopd();
                let r = d(self);
                I::InsertElement(r, t, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyopd();
                self.p.expect(b',');
                let (_, c) = self.tyopd();
                self.p.expect(b',');
                let mt = self.p.ty();
                let mc = self.p.konst(&mt);
                let n = match mt { Ty::Vec(n, _) => n, _ => 0 };
                let mask = match mc {
                    C::Agg(v) => v.into_iter().map(|(_, c)| match c { C::Int(v) => Some(v as u32), C::Zero => Some(0), _ => None }).collect(),
                    C::Zero => vec![Some(0); n as usize],
                    C::Undef => vec![None; n as usize],
                    _ => panic!("shuffle mask"),
                };
                let r = d(self);
                I::Shuffle(r, t, a, c, mask)
            }
            "phi" => {
                flags(self);
                let t = self.p.ty();
                let mut v = vec![];
                loop {
                    self.p.expect(b'[');
                    let o = self.opd(&t);
                    self.p.expect(b',');
                    self.p.expect(b'%');
                    let n = self.p.name();
                    let k = self.blk(n);
                    self.p.expect(b']');
                    v.push((o, k));
                    self.p.sp();
                    if self.p.peek() == b',' {
                        self.p.i += 1;
                        self.p.sp();
                        if self.p.peek() != b'[' { break; }
                    } else { break; }
                }
                let r = d(self);
                b.phis.push((r, t, v));
                return;
            }
            "freeze" => { let (t, a) = self.tyopd(); let r = d(self); I::Freeze(r, t, a) }
            "br" => {
                if self.p.peek_word() == "label" { let l = self.label(); I::Br(l) } else {
                    let (_, c) = self.tyopd();
                    self.p.expect(b',');
                    let x = self.label();
                    self.p.expect(b',');
                    let y = self.label();
                    I::CondBr(c, x, y)
                }
            }
            "switch" => {
                let (t, v) = self.tyopd();
                self.p.expect(b',');
                let def = self.label();
                self.p.expect(b'[');
                let mut cs = vec![];
                loop {
                    self.p.ws();
                    if self.p.peek() == b']' { self.p.i += 1; break; }
                    let ct = self.p.ty();
                    let c = self.p.konst(&ct);
                    self.p.expect(b',');
                    let l = self.label();
                    let wd = match ct { Ty::Int(w) => w, _ => 64 };
                    let cv = match c { C::Int(v) => v & crate::term::mask(wd), _ => panic!("switch const") };
                    cs.push((cv, l));
                }
                I::Switch(t, v, def, cs)
            }
            "ret" => {
                if self.p.peek_word() == "void" { self.p.word(); I::Ret(None) } else { let (t, v) = self.tyopd(); I::Ret(Some((t, v))) }
            }
            "unreachable" => I::Unreachable,
            "call" | "invoke" => {
                // fast-math, cconv, ret attrs
                loop {
                    flags(self);
                    self.p.attrs();
                    let w = self.p.peek_word();
                    if matches!(w, "fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "preserve_allcc" | "tailcc" | "preserve_nonecc") { self.p.word(); }
                    else if w == "cc" { self.p.word(); self.p.num(); }
                    else if w == "addrspace" { self.p.word(); self.p.parens(); }
                    else { break; }
                }
                let rt = self.p.ty();
                self.p.ws();
                if self.p.peek() == b'(' { self.p.parens(); } // function type
                self.p.ws();
                let callee = if self.p.peek() == b'@' { self.p.i += 1; Callee::Direct(self.p.name().into()) }
                    else if self.p.peek_word() == "asm" {
                        let st = self.p.i;
                        // asm [sideeffect] ... "..." , "..."
                        while self.p.peek() != b'"' { self.p.i += 1; }
                        self.p.i += 1; while self.p.peek() != b'"' { self.p.i += 1; } self.p.i += 1;
                        self.p.expect(b',');
                        self.p.ws();
                        self.p.i += 1; while self.p.peek() != b'"' { self.p.i += 1; } self.p.i += 1;
                        Callee::Asm(String::from_utf8_lossy(&self.p.s[st..self.p.i]).into())
                    } else { let o = self.opd(&Ty::Ptr); Callee::Reg(o) };
                self.p.expect(b'(');
                let mut args = vec![];
                loop {
                    self.p.ws();
                    if self.p.peek() == b')' { self.p.i += 1; break; }
                    if self.p.peek_word() == "metadata" {
                        // skip metadata argument
                        let mut dp = 0;
                        loop { let c = self.p.peek(); if dp == 0 && (c == b',' || c == b')') { break; } if c == b'(' { dp += 1; } if c == b')' { dp -= 1; } self.p.i += 1; }
                        args.push((Ty::Other, Opd::C(Ty::Other, C::Undef)));
                    } else {
                        self.p.attrs();
                        let t = self.p.ty();
                        let o = self.opd(&t);
                        args.push((t, o));
                    }
                    self.p.eat(b',');
                }
                let mut normal = None;
                if op == "invoke" {
                    self.p.attrs();
                    // operand bundles / attrs until 'to'
                    loop { self.p.ws(); if self.p.peek() == b'[' { while self.p.peek() != b']' { self.p.i += 1; } self.p.i += 1; } else if self.p.kw("to") { break; } else if self.p.peek() == b'#' { self.p.i += 1; self.p.num(); } else { self.p.word(); } }
                    normal = Some(self.label());
                    // unwind label: on the same or next line
                    self.p.ws();
                    if self.p.kw("unwind") { self.label(); }
                }
                let r = if dst.is_some() { Some(d(self)) } else { None };
                I::Call(r, rt, callee, args, normal)
            }
            "fence" => I::Nop,
            "atomicrmw" => {
                flags(self);
                let o = self.p.word().to_string();
                let (_, p) = self.tyopd();
                self.p.expect(b',');
                let (t, v) = self.tyopd();
                let r = d(self);
                I::AtomicRmw(r, o, t, p, v)
            }
            "cmpxchg" => {
                flags(self);
                let (_, p) = self.tyopd();
                self.p.expect(b',');
                let (t, c) = self.tyopd();
                self.p.expect(b',');
                let (_, n) = self.tyopd();
                let r = d(self);
                I::CmpXchg(r, t, p, c, n)
            }
            "landingpad" => {
                // may span lines: type, then clauses on following lines
                if dst.is_some() { d(self); }
                loop {
                    let le = memchr(self.p.s, self.p.i, b'\n');
                    let nl = le + 1;
                    let ne = memchr(self.p.s, nl, b'\n');
                    let t = trim(&self.p.s[nl..ne]);
                    if t.starts_with(b"cleanup") || t.starts_with(b"catch") || t.starts_with(b"filter") { self.p.i = nl; } else { break; }
                }
                I::Unsupported("landingpad".into())
            }
            "resume" => I::Unsupported("resume".into()),
            x => { if dst.is_some() { d(self); } I::Unsupported(x.to_string()) }
        };
        b.insts.push(i);
    }
}
fn trim(s: &[u8]) -> &[u8] {
    let mut a = 0;
    while a < s.len() && (s[a] == b' ' || s[a] == b'\t') { a += 1; }
    &s[a..]
}
