//! Symbolic interpreter for the LLVM IR of the harness linked with the real crates.
use crate::ir::*;
use crate::mem::*;
use crate::solver::{self, Inc, Res};
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    I(u128),
    T(T),
    A(Rc<Vec<V>>),
    U,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub block: u32,
    pub ip: usize,
    pub regs: Vec<V>,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
    pub sp: u64,
}

#[derive(Clone)]
pub enum Draw { Sym(T) }

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub frames: Vec<Frame>,
    pub sp: u64,
    pub heap: u64,
    pub pc: Rc<Vec<T>>,
    pub binds: Rc<Vec<(T, u128)>>,
    pub draws: Rc<Vec<T>>,
    pub nseed: u64,
    pub pending: Vec<(T, u32, bool)>,
    pub party: u32,
    /// PRF variables drawn while a party was current: (party, var)
    pub known: Rc<HashSet<(u32, u32)>>,
    pub used_masks: Rc<HashSet<u32>>,
    pub nsym: usize,
    /// 1: draws from concretely seeded streams are concrete
    pub mode: u32,
    pub tapes: u32,
    /// a panic from here on is an accepted outcome
    pub allow_panic: bool,
}

pub enum Out {
    Done,
    Reached,
    Panic(String),
    Killed,
    Unsup(String),
    Budget,
    /// (condition, target block) alternatives of the current terminator
    Branch(Vec<(T, u32)>),
    /// re-execute the current instruction with the term bound to each value
    Split(T, Vec<u128>),
}

struct Slot { name: Rc<str>, parsed: Option<Rc<Func>>, defined: bool, kind: X }

#[derive(Clone, Copy, PartialEq, Debug)]
enum X {
    None, Defined, Nop, Memcpy, Memset, Ctpop, Ctlz, Cttz, Bswap, Bitrev, Fshl, Fshr, Umin, Umax, Smin, Smax, Abs, UaddO, UsubO, UmulO, SaddO, SsubO, SmulO,
    UaddS, UsubS, SaddS, SsubS, Ucmp, Scmp, Tls, IsConst, F64Un, FptouiSat, FptosiSat, Assume, Expect, Xgetbv, Trap, Bcmp, Strlen, Malloc, Calloc, Realloc, Free, PosixMemalign,
    Ret0, RetNull, Write, Syscall, RetM1, Panic, Errno, Obj, Pclmul,
    VSym, VAssume, VAssert, VReach, VNote, VPrf, VHash, VSeed, VCut, VSplit, VParty, VMasked, VSymbolic, VAllowPanic, VMode,
}

#[derive(Default)]
pub struct Report {
    pub violations: Vec<Violation>,
    pub unknown: Vec<String>,
    pub unsupported: Vec<String>,
    pub paths: u64,
    pub asserts_total: u64,
    pub asserts_folded: u64,
    pub asserts_solver: u64,
    pub assert_ids: std::collections::BTreeMap<u32, u64>,
    pub reach: std::collections::BTreeMap<u32, u64>,
    pub panics_refuted: u64,
    pub cuts: u64,
    pub merges: u64,
    pub forks: u64,
    pub insts: u64,
    pub funcs: HashMap<Rc<str>, u64>,
    pub notes: Vec<u8>,
}
pub struct Violation { pub what: String, pub id: Option<u32>, pub model: String }

pub struct Exec {
    pub m: &'static Module,
    slots: Vec<Slot>,
    ids: HashMap<Rc<str>, u32>,
    gaddr: HashMap<Rc<str>, u64>,
    pub inc: Inc,
    pub rep: Report,
    nomerge: HashSet<(usize, u32)>,
    prf: HashMap<(Vec<T>, u64), (T, u32)>,
    prf_list: Vec<(Vec<T>, u64, T)>,
    hashes: HashMap<Vec<T>, T>,
    hash_list: Vec<(Rc<Vec<T>>, T)>,
    pub timeout: u64,
    pub deadline: std::time::Instant,
    pub concrete: Option<Vec<u8>>, // seed for concrete (differential) mode
    conc_ctr: u64,
    pub verbose: bool,
    feas_memo: HashMap<(T, usize, usize), bool>,
    pub max_viol: usize,
    replay: Option<Replay>,
    trace: bool,
    finger: Subst<'static>,
}
/// concrete values for a replayed model
pub struct Replay { pub syms: Vec<Vec<u8>>, pub prf: HashMap<(Vec<u8>, u64), u32>, pub hash: HashMap<Vec<u8>, Vec<u8>> }

const FUNC_BASE: u64 = 0x10000;
const GLOB_BASE: u64 = 0x100_0000;
const STACK_BASE: u64 = 0x3000_0000;
const HEAP_BASE: u64 = 0x4000_0000;

pub fn vt(v: &V, wd: u32) -> T {
    match v {
        V::I(c) => konst(*c, wd),
        V::T(t) => *t,
        V::U => konst(0, wd),
        V::A(_) => panic!("aggregate as scalar"),
    }
}
pub fn tv(t: T) -> V { match as_const(t) { Some(c) => V::I(c), None => V::T(t) } }

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

enum E { Unsup(String), Split(T), Panic(String), Killed, Exit }
type R<TT> = Result<TT, E>;

impl Exec {
    pub fn new(m: &'static Module) -> Exec {
        let mut ex = Exec {
            m, slots: vec![], ids: HashMap::new(), gaddr: HashMap::new(), inc: Inc::new(), rep: Report::default(), nomerge: HashSet::new(),
            prf: HashMap::new(), prf_list: vec![], hashes: HashMap::new(), hash_list: vec![], timeout: 60, deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600),
            concrete: None, conc_ctr: 0, verbose: false, feas_memo: HashMap::new(), max_viol: 3, replay: None, trace: std::env::var("SYMEX_TRACE").is_ok(),
            finger: Subst::new(|v| { let n = ctx().vars[v as usize].width; let mut x = 0x5eed_0000 + v as u64; let ps: Vec<T> = (0..(n + 63) / 64).map(|i| konst(splitmix(&mut x) as u128, 64.min(n - 64 * i))).collect(); Some(cat(&ps)) }),
        };
        let mut names: Vec<Rc<str>> = m.funcs.keys().cloned().collect();
        names.sort();
        for n in names { ex.slot(&n); }
        for n in &m.decls { ex.slot(n); }
        // globals
        let mut a = GLOB_BASE;
        for g in &m.globals {
            let al = g.align.max(16);
            a = (a + al - 1) / al * al;
            ex.gaddr.insert(g.name.clone(), a);
            a += m.size_of(&g.ty).max(1);
        }
        assert!(a < STACK_BASE);
        for (n, (s, e)) in &m.aliases {
            let txt = &m.text[*s..*e];
            if let Some(k) = txt.rfind('@') {
                let mut p = P { s: m.text.as_bytes(), i: s + k + 1, m };
                let t = p.name();
                if let Some(&x) = ex.gaddr.get(t.as_str()) { ex.gaddr.insert(n.clone(), x); }
                else if let Some(&id) = ex.ids.get(t.as_str()) { ex.gaddr.insert(n.clone(), FUNC_BASE + 16 * id as u64); ex.ids.insert(n.clone(), id); }
            }
        }
        ex
    }
    fn slot(&mut self, n: &str) -> u32 {
        if let Some(&i) = self.ids.get(n) { return i; }
        let rn: Rc<str> = n.into();
        let i = self.slots.len() as u32;
        let defined = self.m.funcs.contains_key(n);
        let kind = Self::kind(n, defined);
        self.slots.push(Slot { name: rn.clone(), parsed: None, defined, kind });
        self.ids.insert(rn, i);
        i
    }
    fn kind(n: &str, defined: bool) -> X {
        if let Some(k) = n.strip_prefix("llvm.") {
            let p = |s: &str| k.starts_with(s);
            return if p("memcpy") || p("memmove") { X::Memcpy } else if p("memset") { X::Memset } else if p("lifetime") || p("experimental.noalias") || p("dbg") || p("x86.sse2.pause") || p("x86.avx.vzeroupper") || p("prefetch") || p("invariant") || p("va_") { X::Nop }
            else if p("assume") { X::Assume } else if p("ctpop") { X::Ctpop } else if p("ctlz") { X::Ctlz } else if p("cttz") { X::Cttz } else if p("bswap") { X::Bswap } else if p("bitreverse") { X::Bitrev }
            else if p("fshl") { X::Fshl } else if p("fshr") { X::Fshr } else if p("umin") { X::Umin } else if p("umax") { X::Umax } else if p("smin") { X::Smin } else if p("smax") { X::Smax }
            else if p("abs") { X::Abs } else if p("uadd.with") { X::UaddO } else if p("usub.with") { X::UsubO } else if p("umul.with") { X::UmulO } else if p("sadd.with") { X::SaddO } else if p("ssub.with") { X::SsubO } else if p("smul.with") { X::SmulO }
            else if p("uadd.sat") { X::UaddS } else if p("usub.sat") { X::UsubS } else if p("sadd.sat") { X::SaddS } else if p("ssub.sat") { X::SsubS }
            else if p("ucmp") { X::Ucmp } else if p("scmp") { X::Scmp } else if p("threadlocal.address") { X::Tls } else if p("is.constant") { X::IsConst } else if p("objectsize") { X::Obj }
            else if p("sqrt") || p("log2") || p("ceil") || p("floor") || p("fabs") || p("trunc.f") || p("round.f") || p("log.") || p("pow") || p("copysign") || p("maxnum") || p("minnum") || p("fma") { X::F64Un }
            else if p("fptoui.sat") { X::FptouiSat } else if p("fptosi.sat") { X::FptosiSat } else if p("x86.xgetbv") { X::Xgetbv } else if p("trap") { X::Trap } else if p("expect") { X::Expect } else if p("x86.pclmulqdq") { X::Pclmul } else { X::None };
        }
        if n.ends_with("17rust_begin_unwind") { return X::Panic; }
        // numbers inside texts (error and panic messages) are left out
        if n.contains("4core3fmt3num") && !n.contains("5error") && ["7Display3fmt", "5Debug3fmt", "8LowerHex3fmt", "8UpperHex3fmt"].iter().any(|s| n.contains(s)) { return X::Ret0; }
        if defined { return X::Defined; }
        match n {
            "memcpy" | "memmove" => X::Memcpy, "memset" => X::Memset, "memcmp" | "bcmp" => X::Bcmp, "strlen" => X::Strlen, "malloc" => X::Malloc, "calloc" => X::Calloc, "realloc" => X::Realloc,
            "free" => X::Free, "posix_memalign" => X::PosixMemalign, "getenv" => X::RetNull, "write" | "writev" => X::Write, "syscall" => X::Syscall, "abort" | "exit" | "_exit" => X::Trap,
            "__errno_location" => X::Errno, "getcwd" | "open" | "open64" | "read" | "stat64" | "fstat64" | "statx" | "readlink" | "realpath" => X::RetM1,
            "floor" | "ceil" | "log2" | "sqrt" | "log" | "pow" => X::F64Un,
            "verif_sym" => X::VSym, "verif_assume" => X::VAssume, "verif_assert" => X::VAssert, "verif_reach" => X::VReach, "verif_note" => X::VNote, "verif_prf" => X::VPrf, "verif_hash" => X::VHash, "verif_seed" => X::VSeed,
            "verif_cut" => X::VCut, "verif_split" => X::VSplit, "verif_party" => X::VParty, "verif_masked" => X::VMasked, "verif_symbolic" => X::VSymbolic, "verif_allow_panic" => X::VAllowPanic, "verif_mode" => X::VMode,
            _ if n.starts_with("pthread_") || n == "__cxa_thread_atexit_impl" || n == "gettid" || n == "close" || n == "poll" || n == "munmap" || n.starts_with("_Unwind") || n == "dl_iterate_phdr" || n == "sched_yield" || n == "clock_gettime" => X::Ret0,
            _ => X::None,
        }
    }
    fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.slots[id as usize].parsed { return f.clone(); }
        let name = self.slots[id as usize].name.clone();
        let mut f = self.m.parse_func(&name);
        // resolve constants and callees
        let this: *mut Exec = self;
        for b in f.blocks.iter_mut() {
            for (_, ty, inc) in b.phis.iter_mut() {
                for (o, _) in inc.iter_mut() { if let Opd::C(_, c) = o { let v = unsafe { (*this).cval(ty, c) }; *o = Opd::V(v); } }
            }
            for i in b.insts.iter_mut() {
                i.operands(&mut |o| {
                    if let Opd::C(t, c) = o { let v = unsafe { (*this).cval(t, c) }; *o = Opd::V(v); }
                });
                if let I::Call(_, _, c, _, _) = i {
                    if let Callee::Direct(n) = c { let id = unsafe { (*this).slot(n) }; *c = Callee::Id(id); }
                }
            }
        }
        let f = Rc::new(f);
        self.slots[id as usize].parsed = Some(f.clone());
        f
    }
    fn gaddr(&mut self, n: &str) -> u64 {
        if let Some(&a) = self.gaddr.get(n) { return a; }
        FUNC_BASE + 16 * self.slot(n) as u64
    }
    fn cval(&mut self, ty: &Ty, c: &C) -> V {
        let m = self.m;
        match c {
            C::Int(v) => match m.resolve(ty) { Ty::Int(wd) => V::I(v & mask(*wd)), _ => V::I(*v) },
            C::Null => V::I(0),
            C::Undef | C::Zero => match m.resolve(ty).clone() {
                Ty::Struct(fs, _) => V::A(Rc::new(fs.iter().map(|t| self.cval(t, c)).collect())),
                Ty::Arr(n, t) | Ty::Vec(n, t) => { let x = self.cval(&t, c); V::A(Rc::new(vec![x; n as usize])) }
                _ => V::I(0),
            },
            C::Str(b) => V::A(Rc::new(b.iter().map(|&x| V::I(x as u128)).collect())),
            C::Agg(v) => V::A(Rc::new(v.iter().map(|(t, c)| self.cval(t, c)).collect())),
            C::Global(n) => V::I(self.gaddr(n) as u128),
            C::Gep(b, o) => { let V::I(x) = self.cval(&Ty::Ptr, b) else { panic!() }; V::I((x as i128 + o) as u128 & mask(64)) }
            C::Sub(a, b) => { let (V::I(x), V::I(y)) = (self.cval(ty, a), self.cval(ty, b)) else { panic!() }; V::I(x.wrapping_sub(y) & mask(64)) }
            C::Add(a, b) => { let (V::I(x), V::I(y)) = (self.cval(ty, a), self.cval(ty, b)) else { panic!() }; V::I(x.wrapping_add(y) & mask(64)) }
            C::Cast(a, wd) => { let V::I(x) = self.cval(&Ty::Int(128), a) else { panic!() }; V::I(x & mask(*wd)) }
            C::F(b) => match m.resolve(ty) { Ty::F32 => V::I((f64::from_bits(*b) as f32).to_bits() as u128), _ => V::I(*b as u128) },
        }
    }
    pub fn init_state(&mut self, entry: &str) -> State {
        let mut st = State {
            mem: Mem::new(), frames: vec![], sp: STACK_BASE, heap: HEAP_BASE, pc: Rc::new(vec![]), binds: Rc::new(vec![]), draws: Rc::new(vec![]), nseed: 0, pending: vec![],
            party: 0, known: Rc::new(HashSet::new()), used_masks: Rc::new(HashSet::new()), nsym: 0, mode: 0, tapes: 0, allow_panic: false,
        };
        for g in self.m.globals.iter() {
            if let Some((s, _)) = g.init {
                let mut p = P { s: self.m.text.as_bytes(), i: s, m: self.m };
                let c = p.konst(&g.ty);
                if matches!(c, C::Zero | C::Undef) { continue; }
                let v = self.cval(&g.ty, &c);
                let a = self.gaddr[&g.name];
                self.store_raw(&mut st.mem, a, &g.ty, &v);
            }
        }
        let id = *self.ids.get(entry).unwrap_or_else(|| panic!("entry {} not found", entry));
        let f = self.func(id);
        assert!(f.nparams == 0);
        *self.rep.funcs.entry(f.name.clone()).or_default() += 1;
        st.frames.push(Frame { block: 0, ip: 0, regs: vec![V::U; f.nregs], dst: None, normal: None, sp: st.sp, f });
        st
    }

    // ---------- memory typed access ----------
    fn store_raw(&self, mem: &mut Mem, a: u64, ty: &Ty, v: &V) {
        match self.m.resolve(ty) {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => {
                let wd = self.width(ty);
                let n = ((wd + 7) / 8) as usize;
                match v {
                    V::I(c) if n <= 16 => mem.write_conc(a, n, *c & mask(wd)),
                    V::U => { for k in 0..n { mem.set(a + k as u64, B::C(0)); } }
                    _ => mem.write_term(a, vt(v, wd)),
                }
            }
            Ty::Vec(n, e) if matches!(self.m.resolve(e), Ty::Int(w) if w % 8 != 0) => {
                let wd = self.width(e);
                let ts: Vec<T> = match v { V::A(x) => x.iter().map(|y| vt(y, wd)).collect(), _ => vec![konst(0, wd); *n as usize] };
                mem.write_term(a, cat(&ts));
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let sz = self.m.size_of(e);
                if let V::A(x) = v {
                    for (k, y) in x.iter().enumerate() { self.store_raw(mem, a + k as u64 * sz, e, y); }
                } else { mem.fill(a, 0, n * sz); }
            }
            Ty::Struct(fs, _) => {
                if let V::A(x) = v {
                    for (k, y) in x.iter().enumerate() { let o = self.m.field_off(ty, k); self.store_raw(mem, a + o, &fs[k], y); }
                }
            }
            _ => {}
        }
    }
    fn load_raw(&self, mem: &Mem, a: u64, ty: &Ty) -> V {
        match self.m.resolve(ty) {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => {
                let wd = self.width(ty);
                let n = ((wd + 7) / 8) as usize;
                if n <= 16 { if let Some(c) = mem.read_conc(a, n) { return V::I(c & mask(wd)); } }
                let t = mem.read_term(a, n);
                tv(ext(t, 0, wd))
            }
            Ty::Vec(n, e) if matches!(self.m.resolve(e), Ty::Int(w) if w % 8 != 0) => {
                let wd = self.width(e);
                let t = mem.read_term(a, ((n * wd as u64 + 7) / 8) as usize);
                V::A(Rc::new((0..*n).map(|k| tv(ext(t, k as u32 * wd, wd))).collect()))
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let sz = self.m.size_of(e);
                V::A(Rc::new((0..*n).map(|k| self.load_raw(mem, a + k * sz, e)).collect()))
            }
            Ty::Struct(fs, _) => V::A(Rc::new(fs.iter().enumerate().map(|(k, f)| self.load_raw(mem, a + self.m.field_off(ty, k), f)).collect())),
            _ => V::U,
        }
    }
    fn width(&self, ty: &Ty) -> u32 {
        match self.m.resolve(ty) { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, t => panic!("width of {:?}", t) }
    }

    // ---------- feasibility ----------
    fn feasible(&mut self, st: &State, cond: T) -> bool {
        if let Some(c) = as_const(cond) { return c == 1; }
        let nc = not(cond);
        for &p in st.pc.iter() { if p == cond { return true; } if p == nc { return false; } }
        let mut roots = self.slice(&st.pc, cond);
        roots.push(cond);
        self.hash_axioms(&mut roots);
        match self.inc.check(&roots) {
            Some(b) => b,
            None => !matches!(solver::check(&roots, 10, false), Res::Unsat),
        }
    }
    /// only the path-condition conjuncts connected to `goal` by shared variables (the rest is satisfiable on its own)
    fn slice(&self, pc: &[T], goal: T) -> Vec<T> {
        if pc.len() <= 1 { return pc.to_vec(); }
        let mut vs: HashSet<u32> = vars_of(&[goal]).into_iter().collect();
        let pv: Vec<Vec<u32>> = pc.iter().map(|&p| vars_of(&[p])).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !used[i] && pv[i].iter().any(|v| vs.contains(v)) { used[i] = true; ch = true; for v in &pv[i] { vs.insert(*v); } }
            }
            if !ch { break; }
        }
        pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, &p)| p).collect()
    }
    /// ideal-hash axioms for the digests that occur in a query: equal digests <=> equal inputs
    fn hash_axioms(&self, roots: &mut Vec<T>) {
        let vs = vars_of(roots);
        let hs: Vec<u32> = vs.into_iter().filter(|&v| ctx().vars[v as usize].kind == VK::Hash).collect();
        if hs.len() > 12 { return; }
        for i in 0..hs.len() {
            for j in i + 1..hs.len() {
                let (a, b) = (ctx().vars[hs[i] as usize].term, ctx().vars[hs[j] as usize].term);
                let ideal = eq(a, b);
                let raw = raw_eq(a, b);
                roots.push(not(bin(Op::Xor, ideal, raw)));
            }
        }
    }
    /// equal seeds give equal words
    fn prf_axioms(&self, goal: T, roots: &mut Vec<T>) {
        let vs: HashSet<u32> = vars_of(&[goal]).into_iter().filter(|&v| ctx().vars[v as usize].kind == VK::Prf).collect();
        let l: Vec<_> = self.prf_list.iter().filter(|(_, _, t)| matches!(*node(*t), N::Var(v) if vs.contains(&v))).collect();
        if l.len() > 40 { return; }
        for i in 0..l.len() {
            for j in i + 1..l.len() {
                let (a, b) = (l[i], l[j]);
                if a.1 != b.1 || w(a.2) != w(b.2) || a.0.len() != b.0.len() { continue; }
                let mut same = konst(1, 1);
                for (x, y) in a.0.iter().zip(&b.0) { same = and(same, eq(*x, *y)); }
                if as_const(same) == Some(0) { continue; }
                roots.push(or(not(same), eq(a.2, b.2)));
            }
        }
    }
    /// all values of t under pc, up to limit (None if more)
    fn enumerate(&mut self, st: &State, t: T, limit: usize) -> Option<Vec<u128>> {
        let mut vals = vec![];
        let mut block: Vec<T> = self.slice(&st.pc, eq_shape(t));
        self.hash_axioms(&mut block);
        loop {
            if vals.len() > limit { return None; }
            // make the value visible in the model through a fresh definition
            let x = var(format!("enum{}", ctx().vars.len()), w(t), VK::Free);
            let mut roots = block.clone();
            roots.push(raw_eq(x, t));
            let r = solver::check(&roots, 20, true);
            match r {
                Res::Unsat => return Some(vals),
                Res::Sat(m) => {
                    let N::Var(id) = *node(x) else { unreachable!() };
                    let v = m.get(&id).map(|b| le(b)).unwrap_or(0);
                    vals.push(v);
                    block.push(not(eq(t, konst(v, w(t)))));
                }
                Res::Unknown => return None,
            }
        }
    }

    // ---------- scalar helpers ----------
    fn conc(&self, st: &State, v: &V) -> R<u128> {
        match v {
            V::I(c) => Ok(*c),
            V::U => Ok(0),
            V::T(t) => {
                for (b, c) in st.binds.iter() { if b == t { return Ok(*c); } }
                Err(E::Split(*t))
            }
            V::A(_) => Err(E::Unsup("aggregate as integer".into())),
        }
    }

    fn ptr_cases(&mut self, st: &State, t: T) -> R<Vec<(T, u64)>> {
        for (b, c) in st.binds.iter() { if *b == t { return Ok(vec![(konst(1, 1), *c as u64)]); } }
        if let Some(l) = leaves(t, 64) { return Ok(l.into_iter().map(|(c, v)| (c, v as u64)).collect()); }
        match self.enumerate(st, t, 300) {
            Some(v) => Ok(v.into_iter().map(|x| (eq(t, konst(x, 64)), x as u64)).collect()),
            None => Err(E::Unsup("symbolic address with too many values".into())),
        }
    }
    fn check_addr(&self, a: u64, n: u64) -> R<()> {
        if Mem::valid(a, n) { Ok(()) } else { Err(E::Unsup(format!("bad address {:#x}+{}", a, n))) }
    }
    fn load(&mut self, st: &State, p: &V, ty: &Ty) -> R<V> {
        match p {
            V::I(a) => { self.check_addr(*a as u64, self.m.size_of(ty))?; Ok(self.load_raw(&st.mem, *a as u64, ty)) }
            V::T(t) => {
                let cs = self.ptr_cases(st, *t)?;
                let n = self.m.size_of(ty);
                let mut r: Option<V> = None;
                for (c, a) in cs {
                    if !Mem::valid(a, n) { if self.feasible(st, c) { return Err(E::Unsup("bad symbolic address".into())); } continue; }
                    let v = self.load_raw(&st.mem, a, ty);
                    r = Some(match r { None => v, Some(o) => self.vite(c, &v, &o, ty) });
                }
                r.ok_or(E::Killed)
            }
            _ => Err(E::Unsup("load through undef".into())),
        }
    }
    fn store(&mut self, st: &mut State, p: &V, ty: &Ty, v: &V) -> R<()> {
        match p {
            V::I(a) => { self.check_addr(*a as u64, self.m.size_of(ty))?; let a = *a as u64; self.store_raw(&mut st.mem, a, ty, v); Ok(()) }
            V::T(t) => {
                let cs = self.ptr_cases(st, *t)?;
                let n = self.m.size_of(ty);
                for (c, a) in cs {
                    if !Mem::valid(a, n) { if self.feasible(st, c) { return Err(E::Unsup("bad symbolic address".into())); } continue; }
                    let o = self.load_raw(&st.mem, a, ty);
                    let x = self.vite(c, v, &o, ty);
                    self.store_raw(&mut st.mem, a, ty, &x);
                }
                Ok(())
            }
            _ => Err(E::Unsup("store through undef".into())),
        }
    }
    fn vite(&self, c: T, a: &V, b: &V, ty: &Ty) -> V {
        match (a, b) {
            (V::U, x) | (x, V::U) => x.clone(),
            (V::I(x), V::I(y)) if x == y => a.clone(),
            (V::A(x), V::A(y)) => V::A(Rc::new((0..x.len()).map(|k| {
                let et = self.m.field_ty(ty, k);
                self.vite(c, &x[k], &y[k], &et)
            }).collect())),
            _ => { let wd = self.width(ty); tv(ite(c, vt(a, wd), vt(b, wd))) }
        }
    }
    fn bin(&mut self, st: &State, op: BOp, ty: &Ty, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let wd = self.width(ty);
            let (x, y) = (*x, *y);
            let m = mask(wd);
            return Ok(V::I(match op {
                BOp::Add => x.wrapping_add(y) & m,
                BOp::Sub => x.wrapping_sub(y) & m,
                BOp::Mul => x.wrapping_mul(y) & m,
                BOp::And => x & y,
                BOp::Or => x | y,
                BOp::Xor => x ^ y,
                BOp::Shl => if y >= wd as u128 { 0 } else { (x << y) & m },
                BOp::LShr => if y >= wd as u128 { 0 } else { x >> y },
                BOp::AShr => (sext128(x, wd) >> y.min(wd as u128 - 1).min(127)) as u128 & m,
                BOp::UDiv | BOp::URem | BOp::SDiv | BOp::SRem if y == 0 => return Err(E::Unsup("division by zero".into())),
                BOp::UDiv => x / y,
                BOp::URem => x % y,
                BOp::SDiv => sext128(x, wd).wrapping_div(sext128(y, wd)) as u128 & m,
                BOp::SRem => sext128(x, wd).wrapping_rem(sext128(y, wd)) as u128 & m,
                BOp::FAdd | BOp::FSub | BOp::FMul | BOp::FDiv | BOp::FRem => {
                    if wd == 64 {
                        let (p, q) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                        fop(op, p, q).to_bits() as u128
                    } else {
                        let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match op { BOp::FAdd => p + q, BOp::FSub => p - q, BOp::FMul => p * q, BOp::FDiv => p / q, _ => p % q }).to_bits() as u128
                    }
                }
            }));
        }
        match self.m.resolve(ty).clone() {
            Ty::Vec(_, e) => {
                let (V::A(x), V::A(y)) = (a, b) else { return Ok(V::U) };
                let mut o = Vec::with_capacity(x.len());
                for k in 0..x.len() { o.push(self.bin(st, op, &e, &x[k], &y[k])?); }
                return Ok(V::A(Rc::new(o)));
            }
            _ => {}
        }
        let wd = self.width(ty);
        let (x, y) = (vt(a, wd), vt(b, wd));
        let o = match op {
            BOp::Add => Op::Add, BOp::Sub => Op::Sub, BOp::Mul => Op::Mul, BOp::And => Op::And, BOp::Or => Op::Or, BOp::Xor => Op::Xor,
            BOp::Shl => Op::Shl, BOp::LShr => Op::LShr, BOp::AShr => Op::AShr, BOp::UDiv => Op::UDiv, BOp::URem => Op::URem, BOp::SDiv => Op::SDiv, BOp::SRem => Op::SRem,
            _ => {
                // floating point on case-split constants
                if wd != 64 { return Err(E::Unsup("symbolic f32".into())); }
                let (la, lb) = (leaves(x, 256), leaves(y, 256));
                let (Some(la), Some(lb)) = (la, lb) else { return Err(E::Unsup("symbolic float".into())) };
                if la.len() * lb.len() > 600 { return Err(E::Unsup("symbolic float (too many cases)".into())); }
                let mut r: Option<T> = None;
                for (c, u) in &la { for (d, v) in &lb {
                    let z = konst(fop(op, f64::from_bits(*u as u64), f64::from_bits(*v as u64)).to_bits() as u128, 64);
                    r = Some(match r { None => z, Some(o) => ite(and(*c, *d), z, o) });
                } }
                return Ok(tv(r.unwrap()));
            }
        };
        Ok(tv(bin(o, x, y)))
    }
    fn icmp(&self, p: Pred, wd: u32, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext128(x, wd), sext128(y, wd));
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy };
            return V::I(r as u128);
        }
        let (x, y) = (vt(a, wd), vt(b, wd));
        tv(match p {
            Pred::Eq => eq(x, y), Pred::Ne => not(eq(x, y)),
            Pred::Ult => ult(x, y), Pred::Ugt => ult(y, x), Pred::Ule => not(ult(y, x)), Pred::Uge => not(ult(x, y)),
            Pred::Slt => slt(x, y), Pred::Sgt => slt(y, x), Pred::Sle => not(slt(y, x)), Pred::Sge => not(slt(x, y)),
        })
    }
    fn icmp_ty(&self, p: Pred, ty: &Ty, a: &V, b: &V) -> R<V> {
        match self.m.resolve(ty) {
            Ty::Vec(_, e) => {
                let wd = self.width(e);
                let (V::A(x), V::A(y)) = (a, b) else { return Ok(V::U) };
                Ok(V::A(Rc::new((0..x.len()).map(|k| self.icmp(p, wd, &x[k], &y[k])).collect())))
            }
            _ => Ok(self.icmp(p, self.width(ty), a, b)),
        }
    }
    fn cast(&mut self, st: &State, op: COp, t1: &Ty, t2: &Ty, a: &V) -> R<V> {
        if let (Ty::Vec(n1, e1), Ty::Vec(n2, e2)) = (self.m.resolve(t1).clone(), self.m.resolve(t2).clone()) {
            if op != COp::Bitcast {
                let V::A(x) = a else { return Ok(V::U) };
                let mut o = vec![];
                for y in x.iter() { o.push(self.cast(st, op, &e1, &e2, y)?); }
                return Ok(V::A(Rc::new(o)));
            }
            let _ = (n1, n2);
        }
        if op == COp::Bitcast {
            // through a flat bit string
            let flat = self.flatten(t1, a);
            return Ok(self.unflatten(t2, flat));
        }
        let (w1, w2) = (self.width(t1), self.width(t2));
        if let V::I(x) = a {
            let x = *x;
            return Ok(V::I(match op {
                COp::Trunc | COp::Zext | COp::PtrToInt | COp::IntToPtr => x & mask(w2),
                COp::Sext => sext128(x, w1) as u128 & mask(w2),
                COp::UiToFp => if w2 == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 },
                COp::SiToFp => if w2 == 64 { (sext128(x, w1) as f64).to_bits() as u128 } else { (sext128(x, w1) as f32).to_bits() as u128 },
                COp::FpToUi => (if w1 == 64 { f64::from_bits(x as u64) as u128 } else { f32::from_bits(x as u32) as u128 }) & mask(w2),
                COp::FpToSi => (if w1 == 64 { f64::from_bits(x as u64) as i128 } else { f32::from_bits(x as u32) as i128 }) as u128 & mask(w2),
                COp::FpExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
                COp::FpTrunc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
                COp::Bitcast => unreachable!(),
            }));
        }
        let x = vt(a, w1);
        Ok(tv(match op {
            COp::Trunc => trunc(x, w2),
            COp::Zext => zext(x, w2),
            COp::Sext => sext(x, w2),
            COp::PtrToInt | COp::IntToPtr => if w2 < w1 { trunc(x, w2) } else { zext(x, w2) },
            _ => {
                // no symbolic floats: one path per integer value
                let c = self.conc(st, a)?;
                return self.cast(st, op, t1, t2, &V::I(c));
            }
        }))
    }
    fn flatten(&self, ty: &Ty, v: &V) -> T {
        match (self.m.resolve(ty), v) {
            (Ty::Vec(_, e), V::A(x)) | (Ty::Arr(_, e), V::A(x)) => { let ts: Vec<T> = x.iter().map(|y| self.flatten(e, y)).collect(); cat(&ts) }
            (Ty::Vec(n, e), _) => konst(0, *n as u32 * self.width(e)),
            _ => vt(v, self.width(ty)),
        }
    }
    fn unflatten(&self, ty: &Ty, t: T) -> V {
        match self.m.resolve(ty) {
            Ty::Vec(n, e) => { let wd = self.width(e); V::A(Rc::new((0..*n as u32).map(|k| tv(ext(t, k * wd, wd))).collect())) }
            _ => tv(t),
        }
    }

    // ---------- main loop ----------
    fn opd<'a>(fr: &'a Frame, o: &'a Opd) -> &'a V {
        match o { Opd::Reg(r) => &fr.regs[*r as usize], Opd::V(v) => v, Opd::C(..) => unreachable!() }
    }
    fn goto(st: &mut State, b: u32) {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let prev = fr.block;
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let (r, _, inc) = &blk.phis[0];
                let v = inc.iter().find(|(_, k)| *k == prev).map(|(o, _)| Self::opd(fr, o).clone()).expect("phi");
                fr.regs[*r as usize] = v;
            } else {
                let vals: Vec<V> = blk.phis.iter().map(|(_, _, inc)| inc.iter().find(|(_, k)| *k == prev).map(|(o, _)| Self::opd(fr, o).clone()).expect("phi")).collect();
                for ((r, _, _), v) in blk.phis.iter().zip(vals) { fr.regs[*r as usize] = v; }
            }
        }
        fr.block = b;
        fr.ip = 0;
    }
    /// where the feasible targets of a branch meet again: their nearest common post-dominator
    fn meet(f: &Func, ts: &[(T, u32)]) -> Option<u32> {
        if f.ipdom.borrow().is_none() { *f.ipdom.borrow_mut() = Some(compute_ipdom(f)); }
        let b = f.ipdom.borrow();
        let d = b.as_ref().unwrap();
        let chain = |mut x: u32| { let mut v = vec![x]; while let Some(y) = d[x as usize] { v.push(y); x = y; } v };
        let mut c = chain(ts[0].1);
        for t in &ts[1..] { let o: HashSet<u32> = chain(t.1).into_iter().collect(); let k = c.iter().position(|x| o.contains(x))?; c.drain(..k); }
        c.first().copied()
    }

    pub fn run(&mut self, st: &mut State, stop: Option<(usize, u32)>, budget: &mut u64) -> Out {
        loop {
            if *budget == 0 { return Out::Budget; }
            *budget -= 1;
            self.rep.insts += 1;
            if self.rep.insts & 0xfffff == 0 && std::time::Instant::now() > self.deadline { return Out::Unsup("time budget exhausted".into()); }
            let f = st.frames.last().unwrap().f.clone();
            let (b, ip) = { let fr = st.frames.last().unwrap(); (fr.block, fr.ip) };
            let inst = &f.blocks[b as usize].insts[ip];
            macro_rules! fr { () => { st.frames.last().unwrap() } }
            macro_rules! get { ($o:expr) => { Self::opd(st.frames.last().unwrap(), $o).clone() } }
            macro_rules! set { ($r:expr, $v:expr) => {{ let v = $v; let fr = st.frames.last_mut().unwrap(); fr.regs[*$r as usize] = v; fr.ip += 1; }} }
            macro_rules! tri { ($e:expr) => { match $e { Ok(v) => v, Err(E::Unsup(s)) => return Out::Unsup(format!("{} in {}", s, f.name)), Err(E::Split(t)) => return self.split(st, t), Err(E::Panic(s)) => return Out::Panic(s), Err(E::Killed) => return Out::Killed, Err(E::Exit) => return Out::Done } } }
            match inst {
                I::Bin(r, op, ty, a, c) => {
                    let v = { let fr = fr!(); let (x, y) = (Self::opd(fr, a), Self::opd(fr, c)); let (x, y) = (x.clone(), y.clone()); tri!(self.bin(st, *op, ty, &x, &y)) };
                    set!(r, v);
                }
                I::ICmp(r, p, ty, a, c) => { let v = { let fr = fr!(); tri!(self.icmp_ty(*p, ty, Self::opd(fr, a), Self::opd(fr, c))) }; set!(r, v); }
                I::Load(r, ty, p) => { let p = get!(p); let v = tri!(self.load(st, &p, ty)); set!(r, v); }
                I::Store(ty, v, p) => { let v = get!(v); let p = get!(p); tri!(self.store(st, &p, ty, &v)); st.frames.last_mut().unwrap().ip += 1; }
                I::Gep(r, base, off, dynv) => {
                    let v = {
                        let fr = fr!();
                        let b = Self::opd(fr, base);
                        let mut c: u128 = 0;
                        let mut ts: Vec<T> = vec![];
                        match b { V::I(x) => c = *x, V::T(t) => ts.push(*t), _ => {} }
                        c = c.wrapping_add(*off as u128);
                        for (o, sc, iw) in dynv {
                            match Self::opd(fr, o) {
                                V::I(x) => c = c.wrapping_add((sext128(*x, *iw) as u128).wrapping_mul(*sc as u128)),
                                V::T(t) => ts.push(bin(Op::Mul, if *iw < 64 { sext(*t, 64) } else { *t }, konst(*sc as u128, 64))),
                                _ => {}
                            }
                        }
                        if ts.is_empty() { V::I(c & mask(64)) } else {
                            let mut t = ts[0];
                            for x in &ts[1..] { t = bin(Op::Add, t, *x); }
                            tv(bin(Op::Add, t, konst(c & mask(64), 64)))
                        }
                    };
                    set!(r, v);
                }
                I::Cast(r, op, t1, t2, a) => { let a = get!(a); let v = tri!(self.cast(st, *op, t1, t2, &a)); set!(r, v); }
                I::Br(t) => {
                    Self::goto(st, *t);
                    if let Some((d, sb)) = stop { if st.frames.len() == d && sb == *t { return Out::Reached; } }
                }
                I::CondBr(c, x, y) => {
                    let cv = get!(c);
                    let t = match cv {
                        V::I(k) => if k == 1 { *x } else { *y },
                        V::U => *y,
                        V::T(t) => {
                            if let Some(k) = self.known(st, t) { if k { *x } else { *y } } else { return Out::Branch(vec![(t, *x), (not(t), *y)]); }
                        }
                        _ => return Out::Unsup("cond".into()),
                    };
                    Self::goto(st, t);
                    if let Some((d, sb)) = stop { if st.frames.len() == d && sb == t { return Out::Reached; } }
                }
                I::Switch(ty, v, def, cs) => {
                    let v = get!(v);
                    let t = match v {
                        V::I(k) => cs.iter().find(|(c, _)| *c == k).map(|(_, t)| *t).unwrap_or(*def),
                        V::U => *def,
                        V::T(t) => {
                            let wd = self.width(ty);
                            if let Some((_, k)) = st.binds.iter().find(|(b, _)| *b == t) { cs.iter().find(|(c, _)| c == k).map(|(_, t)| *t).unwrap_or(*def) }
                            else {
                                let mut by: Vec<(T, u32)> = vec![];
                                let mut rest = konst(1, 1);
                                for (c, tg) in cs {
                                    let e = eq(t, konst(*c, wd));
                                    rest = and(rest, not(e));
                                    if let Some(x) = by.iter_mut().find(|(_, g)| g == tg) { x.0 = or(x.0, e); } else { by.push((e, *tg)); }
                                }
                                if let Some(x) = by.iter_mut().find(|(_, g)| g == def) { x.0 = or(x.0, rest); } else { by.push((rest, *def)); }
                                by.retain(|(c, _)| as_const(*c) != Some(0));
                                if by.len() == 1 { by[0].1 } else { return Out::Branch(by); }
                            }
                        }
                        _ => return Out::Unsup("switch".into()),
                    };
                    Self::goto(st, t);
                    if let Some((d, sb)) = stop { if st.frames.len() == d && sb == t { return Out::Reached; } }
                }
                I::Select(r, ct, ty, c, x, y) => {
                    let (c, x, y) = (get!(c), get!(x), get!(y));
                    let v = match c {
                        V::I(k) => if k == 1 { x } else { y },
                        V::U => y,
                        V::T(t) => self.vite(t, &x, &y, ty),
                        V::A(cs) => {
                            let et = self.m.field_ty(ty, 0);
                            let (V::A(xs), V::A(ys)) = (&x, &y) else { return Out::Unsup("vector select".into()) };
                            let _ = ct;
                            V::A(Rc::new((0..cs.len()).map(|k| match &cs[k] { V::I(1) => xs[k].clone(), V::T(t) => self.vite(*t, &xs[k], &ys[k], &et), _ => ys[k].clone() }).collect()))
                        }
                    };
                    set!(r, v);
                }
                I::Call(r, rt, callee, args, normal) => {
                    let id = match callee {
                        Callee::Id(id) => *id,
                        Callee::Reg(o) => {
                            let p = get!(o);
                            let a = tri!(self.conc(st, &p)) as u64;
                            if a < FUNC_BASE || (a - FUNC_BASE) % 16 != 0 || (a - FUNC_BASE) / 16 >= self.slots.len() as u64 { return Out::Unsup(format!("call through {:#x} in {}", a, f.name)); }
                            ((a - FUNC_BASE) / 16) as u32
                        }
                        Callee::Asm(s) => {
                            if s.starts_with("\"\"") || s.is_empty() {
                                if let Some(r) = r { let v = args.get(0).map(|a| get!(&a.1)).unwrap_or(V::U); st.frames.last_mut().unwrap().regs[*r as usize] = v; }
                                st.frames.last_mut().unwrap().ip += 1; continue;
                            }
                            return Out::Unsup(format!("inline asm {} in {}", s, f.name));
                        }
                        Callee::Direct(_) => unreachable!(),
                    };
                    let kind = self.slots[id as usize].kind;
                    if kind == X::Nop { st.frames.last_mut().unwrap().ip += 1; continue; }
                    let vals: Vec<V> = { let fr = fr!(); args.iter().map(|(_, o)| Self::opd(fr, o).clone()).collect() };
                    if kind == X::Defined {
                        let g = self.func(id);
                        *self.rep.funcs.entry(g.name.clone()).or_default() += 1;
                        if st.frames.len() > 4000 { return Out::Unsup("call depth".into()); }
                        if self.trace { eprintln!("{}call {}", " ".repeat(st.frames.len()), g.name); }
                        let mut regs = vec![V::U; g.nregs];
                        for (k, v) in vals.into_iter().enumerate().take(g.nparams) { regs[k] = v; }
                        st.frames.push(Frame { block: 0, ip: 0, regs, dst: *r, normal: *normal, sp: st.sp, f: g });
                        continue;
                    }
                    let tys: Vec<&Ty> = args.iter().map(|(t, _)| t).collect();
                    let v = tri!(self.ext(st, id, kind, rt, &tys, &vals));
                    let fr = st.frames.last_mut().unwrap();
                    if let Some(r) = r { fr.regs[*r as usize] = v; }
                    fr.ip += 1;
                    if let Some(n) = normal {
                        Self::goto(st, *n);
                        if let Some((d, sb)) = stop { if st.frames.len() == d && sb == *n { return Out::Reached; } }
                    }
                }
                I::Ret(v) => {
                    let val = v.as_ref().map(|(_, o)| get!(o));
                    let done = st.frames.pop().unwrap();
                    st.sp = done.sp;
                    if st.frames.is_empty() { return Out::Done; }
                    if let Some((d, _)) = stop { if st.frames.len() < d { return Out::Budget; } }
                    let fr = st.frames.last_mut().unwrap();
                    if let (Some(r), Some(v)) = (done.dst, val) { fr.regs[r as usize] = v; }
                    fr.ip += 1;
                    if let Some(n) = done.normal {
                        Self::goto(st, n);
                        if let Some((d, sb)) = stop { if st.frames.len() == d && sb == n { return Out::Reached; } }
                    }
                }
                I::Alloca(r, ty, al, cnt) => {
                    let c = get!(cnt);
                    let n = tri!(self.conc(st, &c)) as u64 * self.m.size_of(ty);
                    let al = (*al).max(8);
                    let a = (st.sp + al - 1) / al * al;
                    st.sp = a + n.max(1);
                    if st.sp >= HEAP_BASE { return Out::Unsup("stack overflow".into()); }
                    set!(r, V::I(a as u128));
                }
                I::ExtractValue(r, a, ix) => {
                    let mut v = get!(a);
                    for &i in ix { v = match v { V::A(x) => x[i as usize].clone(), _ => V::U }; }
                    set!(r, v);
                }
                I::InsertValue(r, ty, a, _, e, ix) => {
                    let a = get!(a);
                    let e = get!(e);
                    let v = self.insert(ty, a, e, ix);
                    set!(r, v);
                }
                I::ExtractElement(r, _, a, i) => {
                    let i = get!(i);
                    let i = tri!(self.conc(st, &i)) as usize;
                    let v = match get!(a) { V::A(x) => x.get(i).cloned().unwrap_or(V::U), _ => V::U };
                    set!(r, v);
                }
                I::InsertElement(r, ty, a, e, i) => {
                    let i = get!(i);
                    let i = tri!(self.conc(st, &i)) as u32;
                    let (a, e) = (get!(a), get!(e));
                    let v = self.insert(ty, a, e, &[i]);
                    set!(r, v);
                }
                I::Shuffle(r, ty, a, c, mk) => {
                    let n = match self.m.resolve(ty) { Ty::Vec(n, _) => *n as usize, _ => 0 };
                    let (a, c) = (get!(a), get!(c));
                    let at = |k: usize| -> V { let (v, k) = if k < n { (&a, k) } else { (&c, k - n) }; match v { V::A(x) => x[k].clone(), _ => V::U } };
                    let v = V::A(Rc::new(mk.iter().map(|m| match m { Some(k) => at(*k as usize), None => V::I(0) }).collect()));
                    set!(r, v);
                }
                I::AtomicRmw(r, op, ty, p, v) => {
                    let (p, v) = (get!(p), get!(v));
                    let old = tri!(self.load(st, &p, ty));
                    let nv = match op.as_str() {
                        "xchg" => v,
                        "add" => tri!(self.bin(st, BOp::Add, ty, &old, &v)),
                        "sub" => tri!(self.bin(st, BOp::Sub, ty, &old, &v)),
                        "and" => tri!(self.bin(st, BOp::And, ty, &old, &v)),
                        "or" => tri!(self.bin(st, BOp::Or, ty, &old, &v)),
                        "xor" => tri!(self.bin(st, BOp::Xor, ty, &old, &v)),
                        "umax" | "umin" => { let wd = self.width(ty); let c = self.icmp(if op == "umax" { Pred::Ugt } else { Pred::Ult }, wd, &old, &v); match c { V::I(1) => old.clone(), V::I(_) => v, _ => return Out::Unsup("atomic minmax".into()) } }
                        _ => return Out::Unsup(format!("atomicrmw {}", op)),
                    };
                    tri!(self.store(st, &p, ty, &nv));
                    set!(r, old);
                }
                I::CmpXchg(r, ty, p, c, n) => {
                    let (p, c, n) = (get!(p), get!(c), get!(n));
                    let old = tri!(self.load(st, &p, ty));
                    let e = self.icmp(Pred::Eq, self.width(ty), &old, &c);
                    match e {
                        V::I(1) => { tri!(self.store(st, &p, ty, &n)); }
                        V::I(_) => {}
                        _ => return Out::Unsup("symbolic cmpxchg".into()),
                    }
                    set!(r, V::A(Rc::new(vec![old, e])));
                }
                I::Freeze(r, ty, a) => { let a = get!(a); let v = match a { V::U => self.cval(ty, &C::Zero), x => x }; set!(r, v); }
                I::FCmp(r, p, _, a, c) => {
                    let (a, c) = (get!(a), get!(c));
                    let v = match (&a, &c) {
                        (V::I(x), V::I(y)) => V::I(fcmp(p, *x, *y) as u128),
                        _ => {
                            let (Some(la), Some(lb)) = (leaves(vt(&a, 64), 256), leaves(vt(&c, 64), 256)) else { return Out::Unsup("symbolic fcmp".into()) };
                            let mut r = konst(0, 1);
                            for (g, x) in &la { for (h, y) in &lb { if fcmp(p, *x, *y) { r = or(r, and(*g, *h)); } } }
                            tv(r)
                        }
                    };
                    set!(r, v);
                }
                I::FNeg(r, _, a) => { let a = get!(a); match a { V::I(x) => set!(r, V::I(((-f64::from_bits(x as u64)).to_bits()) as u128)), _ => return Out::Unsup("symbolic fneg".into()) } }
                I::Unreachable => return Out::Unsup(format!("reached unreachable in {}", f.name)),
                I::Nop => { st.frames.last_mut().unwrap().ip += 1; }
                I::Unsupported(s) => return Out::Unsup(format!("instruction {} in {}", s, f.name)),
            }
        }
    }
    fn known(&self, st: &State, c: T) -> Option<bool> {
        let nc = not(c);
        for &p in st.pc.iter().rev() { if p == c { return Some(true); } if p == nc { return Some(false); } }
        None
    }
    fn split(&mut self, st: &State, t: T) -> Out {
        if let Some(l) = leaves(t, 64) {
            let mut vs: Vec<u128> = l.into_iter().map(|x| x.1).collect();
            vs.sort_unstable(); vs.dedup();
            return Out::Split(t, vs);
        }
        match self.enumerate(st, t, 256) { Some(v) => Out::Split(t, v), None => Out::Unsup(format!("cannot concretize (in {})", st.frames.last().unwrap().f.name)) }
    }
    fn insert(&mut self, ty: &Ty, a: V, e: V, ix: &[u32]) -> V {
        if ix.is_empty() { return e; }
        let a = match a { V::A(x) => x, _ => match self.cval(ty, &C::Zero) { V::A(x) => x, _ => panic!("insert into scalar") } };
        let ft = self.m.field_ty(ty, ix[0] as usize);
        let mut v = a;
        let vm = Rc::make_mut(&mut v);
        let old = std::mem::replace(&mut vm[ix[0] as usize], V::U);
        vm[ix[0] as usize] = self.insert(&ft, old, e, &ix[1..]);
        V::A(v)
    }

    // ---------- exploration ----------
    pub fn explore(&mut self, st: State, stop: Option<(usize, u32)>, budget: &mut u64, spec: &mut Vec<(usize, u32)>) -> Option<Vec<State>> {
        let mut work = vec![st];
        let mut out = vec![];
        while let Some(mut s) = work.pop() {
            if self.rep.violations.len() >= self.max_viol { return if stop.is_some() { None } else { Some(out) }; }
            let r = self.run(&mut s, stop, budget);
            match r {
                Out::Reached => { out.push(s); if out.len() > 64 { return None; } }
                Out::Done => { if stop.is_some() { return None; } self.flush(&mut s); self.rep.paths += 1; out.push(s); out.clear(); }
                Out::Killed => { self.flush(&mut s); if stop.is_none() { self.rep.paths += 1; } }
                Out::Budget => { if stop.is_some() { return None; } self.rep.unsupported.push("instruction budget exhausted".into()); }
                Out::Unsup(m) => {
                    if self.trace { let f = s.frames.last().unwrap(); eprintln!("unsup {} at {} block {} ip {}: {:?}\n {:?}", m, f.f.name, f.block, f.ip, f.f.blocks[f.block as usize].insts[f.ip], f.regs); }
                    if stop.is_some() { return None; }
                    if self.feasible_pc(&s) { self.rep.unsupported.push(format!("{}\n{}", m, self.backtrace(&s))); }
                }
                Out::Panic(m) => { self.flush(&mut s); self.panic(&s, m); if stop.is_none() { self.rep.paths += 1; } }
                Out::Split(t, vals) => {
                    if stop.is_some() && vals.len() > 1 { return None; }
                    self.flush(&mut s);
                    for v in vals {
                        let c = eq(t, konst(v, w(t)));
                        if !self.feasible(&s, c) { continue; }
                        let mut n = s.clone();
                        Rc::make_mut(&mut n.pc).push(c);
                        Rc::make_mut(&mut n.binds).push((t, v));
                        work.push(n);
                        self.rep.forks += 1;
                    }
                }
                Out::Branch(alts) => {
                    self.flush(&mut s);
                    let mut feas: Vec<(T, u32)> = vec![];
                    let n = alts.len();
                    for (k, (c, b)) in alts.into_iter().enumerate() {
                        if k + 1 == n && feas.is_empty() { feas.push((c, b)); break; }
                        if self.feasible(&s, c) { feas.push((c, b)); }
                    }
                    if feas.len() == 1 {
                        let (c, b) = feas[0];
                        let _ = c;
                        Self::goto(&mut s, b);
                        if let Some((d, sb)) = stop { if s.frames.len() == d && sb == b { out.push(s); continue; } }
                        work.push(s);
                        continue;
                    }
                    let fr = s.frames.last().unwrap();
                    let site = (Rc::as_ptr(&fr.f) as usize, fr.block);
                    let depth = s.frames.len();
                    if self.trace { eprintln!("branch {} at {} block {}", feas.len(), fr.f.name, fr.block); }
                    if let (Some(ip), false) = (Self::meet(&fr.f, &feas), self.nomerge.contains(&site) || spec.len() > 40) {
                        spec.push(site);
                        let mut ends: Vec<(T, State)> = vec![];
                        let mut ok = true;
                        let mut b2 = 60_000u64;
                        for (c, b) in &feas {
                            let mut n = s.clone();
                            Rc::make_mut(&mut n.pc).push(*c);
                            Self::goto(&mut n, *b);
                            let r = if *b == ip { Some(vec![n]) } else { self.explore(n, Some((depth, ip)), &mut b2, spec) };
                            match r {
                                Some(v) if v.len() <= 1 => for x in v { ends.push((*c, x)); },
                                _ => { ok = false; break; }
                            }
                        }
                        spec.pop();
                        if ok {
                            if ends.is_empty() { continue; }
                            if ends.len() == 1 {
                                let (_, x) = ends.pop().unwrap();
                                if let Some((d, sb)) = stop { if x.frames.len() == d && sb == ip { out.push(x); continue; } }
                                work.push(x);
                                continue;
                            }
                            if let Some(m) = self.merge(&s, ends) {
                                self.rep.merges += 1;
                                if let Some((d, sb)) = stop { if m.frames.len() == d && sb == ip { out.push(m); continue; } }
                                work.push(m);
                                continue;
                            }
                        }
                        if self.trace { eprintln!("merge failed at {} block {}", s.frames.last().unwrap().f.name, s.frames.last().unwrap().block); }
                        self.nomerge.insert(site);
                    }
                    if stop.is_some() { return None; }
                    self.rep.forks += feas.len() as u64 - 1;
                    for (c, b) in feas.into_iter().rev() {
                        let mut n = s.clone();
                        Rc::make_mut(&mut n.pc).push(c);
                        Self::goto(&mut n, b);
                        work.push(n);
                    }
                }
            }
        }
        Some(out)
    }
    fn merge(&mut self, base: &State, ends: Vec<(T, State)>) -> Option<State> {
        let mut it = ends.into_iter();
        let (_, mut acc) = it.next().unwrap();
        let mut extra: Vec<T> = vec![];
        let nb = base.pc.len() + 1;
        let c0 = acc.pc[base.pc.len()];
        for &p in &acc.pc[nb.min(acc.pc.len())..] { extra.push(or(not(c0), p)); }
        for (c, s) in it {
            if s.allow_panic != acc.allow_panic || s.draws.len() != base.draws.len() || acc.draws.len() != base.draws.len() || s.nseed != acc.nseed || s.party != acc.party || !s.pending.is_empty() || !acc.pending.is_empty() { return None; }
            if !Rc::ptr_eq(&s.binds, &base.binds) || !Rc::ptr_eq(&acc.binds, &base.binds) || s.known.len() != acc.known.len() { return None; }
            let (fa, fs) = (acc.frames.last()?, s.frames.last()?);
            if acc.frames.len() != s.frames.len() || fa.block != fs.block || fa.ip != fs.ip || acc.sp != s.sp { 
                if acc.sp != s.sp || acc.frames.len() != s.frames.len() { return None; }
            }
            for &p in &s.pc[nb.min(s.pc.len())..] { extra.push(or(not(c), p)); }
            // registers of the current frame
            let f = fa.f.clone();
            let n = fa.regs.len();
            let types = reg_types(&f);
            let mut regs = Vec::with_capacity(n);
            for k in 0..n {
                let (x, y) = (&fs.regs[k], &fa.regs[k]);
                let v = match (x, y) {
                    (V::U, v) | (v, V::U) => v.clone(),
                    (V::I(p), V::I(q)) if p == q => x.clone(),
                    (V::T(p), V::T(q)) if p == q => x.clone(),
                    (V::A(p), V::A(q)) if Rc::ptr_eq(p, q) => x.clone(),
                    _ => match &types[k] { Some(t) => self.vite(c, x, y, t), None => return None },
                };
                regs.push(v);
            }
            let mut mem = acc.mem.clone();
            mem.merge(c, &s.mem, 4096)?;
            acc.mem = mem;
            acc.frames.last_mut().unwrap().regs = regs;
            acc.heap = acc.heap.max(s.heap);
        }
        let mut pc = (*base.pc).clone();
        for e in extra { if as_const(e) != Some(1) { pc.push(e); } }
        acc.pc = Rc::new(pc);
        Some(acc)
    }
    fn feasible_pc(&mut self, st: &State) -> bool {
        let mut roots: Vec<T> = st.pc.to_vec();
        self.hash_axioms(&mut roots);
        !matches!(solver::check(&roots, self.timeout, false), Res::Unsat)
    }
    fn panic(&mut self, st: &State, msg: String) {
        if st.allow_panic { return; }
        let mut roots: Vec<T> = st.pc.to_vec();
        self.hash_axioms(&mut roots);
        match solver::check(&roots, self.timeout, true) {
            Res::Unsat => self.rep.panics_refuted += 1,
            Res::Sat(m) => {
                let bt = self.backtrace(st);
                let model = self.model_text(st, &m);
                self.rep.violations.push(Violation { what: format!("panic: {}\n{}", msg, bt), id: None, model });
            }
            Res::Unknown => self.rep.unknown.push(format!("panic feasibility: {}", msg)),
        }
    }
    fn backtrace(&self, st: &State) -> String {
        st.frames.iter().rev().take(14).map(|f| format!("    {}", f.f.name)).collect::<Vec<_>>().join("\n")
    }
    pub fn flush(&mut self, st: &mut State) {
        if st.pending.is_empty() { return; }
        let p = std::mem::take(&mut st.pending);
        if self.rep.violations.len() >= self.max_viol { return; }
        self.discharge(st, &p);
    }
    fn discharge(&mut self, st: &State, p: &[(T, u32, bool)]) {
        // wide sums one by one through their normal form
        let easy = |c: T| matches!(*node(c), N::Eq(a, b) if w(a) >= 32 && dag_size(c) < 400 && crate::poly::equal(a, b) == Some(true));
        let rest: Vec<_> = p.iter().filter(|x| !easy(x.0)).copied().collect();
        if rest.len() < p.len() {
            self.rep.asserts_folded += (p.len() - rest.len()) as u64;
            if rest.is_empty() { return; }
        }
        let p = &rest[..];
        // one query for the whole batch, split on failure to decide
        let mut neg = konst(0, 1);
        for (c, _, _) in p { neg = or(neg, not(*c)); }
        let mut roots = self.slice(&st.pc, neg);
        roots.push(neg);
        self.hash_axioms(&mut roots);
        let roots = self.expand(&roots);
        let tmo = if p.len() > 1 { (self.timeout / 4).max(5) } else { self.timeout };
        let big = p.len() > 1 && dag_size(neg) > 20000;
        if std::env::var("DISDBG").is_ok() { eprintln!("discharge {:?}: {}", p.iter().map(|x| x.1).collect::<Vec<_>>(), show(neg, 12)); }
        let r = if big { Res::Unknown } else { solver::check(&roots, tmo, true) };
        match r {
            Res::Unsat => self.rep.asserts_solver += p.len() as u64,
            Res::Unknown => {
                if p.len() > 1 {
                    let k = p.len() / 2;
                    self.discharge(st, &p[..k]);
                    if self.rep.violations.len() >= self.max_viol { return; }
                    self.discharge(st, &p[k..]);
                } else {
                    self.rep.unknown.push(format!("assertion {}", p[0].1));
                }
            }
            Res::Sat(m) => {
                // the slice may leave the rest of the path condition out: solve the whole for a usable model
                let mut full: Vec<T> = st.pc.to_vec();
                full.push(neg);
                self.prf_axioms(neg, &mut full);
                self.hash_axioms(&mut full);
                let full = self.expand(&full);
                let m = match solver::check(&full, self.timeout, true) { Res::Sat(m2) => m2, Res::Unsat => { self.rep.asserts_solver += p.len() as u64; return; } _ => m };
                let mut id = None;
                for (c, i, _) in p { if eval(*c, &m) == Some(0) { id = Some(*i); break; } }
                let model = self.model_text(st, &m);
                let id = id.or(Some(p[0].1));
                self.rep.violations.push(Violation { what: format!("assertion {} fails", id.unwrap()), id, model });
            }
        }
    }
    fn expand(&self, roots: &[T]) -> Vec<T> { solver::expand_defs(roots) }

    fn model_text(&self, st: &State, m: &HashMap<u32, Vec<u8>>) -> String {
        let mut o = String::new();
        let hex = |b: &[u8]| b.iter().map(|x| format!("{:02x}", x)).collect::<String>();
        // streams the solver left open take the values the native driver will supply
        let mut full = m.clone();
        for (seed, pos, t) in &self.prf_list {
            let N::Var(v) = node(*t) else { continue };
            if full.contains_key(v) { continue; }
            let sd: Vec<u8> = seed.iter().flat_map(|x| eval_bytes(*x, &full)).collect();
            let mut b = vec![];
            for k in 0..(w(*t) / 32) as u64 { b.extend_from_slice(&default_prf(&sd, pos + k).to_le_bytes()); }
            full.insert(*v, b);
        }
        let bytes = |t: T| -> Vec<u8> { eval_bytes(t, &full) };
        for t in st.draws.iter() { o.push_str(&format!("S {}\n", hex(&bytes(*t)))); }
        for (seed, pos, t) in &self.prf_list {
            let N::Var(v) = node(*t) else { continue };
            if !m.contains_key(v) { continue; }
            let sd: Vec<u8> = seed.iter().flat_map(|x| bytes(*x)).collect();
            for (k, c) in bytes(*t).chunks(4).enumerate() { o.push_str(&format!("P {} {} {}\n", hex(&sd), pos + k as u64, hex(c))); }
        }
        for (inp, t) in &self.hash_list {
            let N::Var(v) = node(*t) else { continue };
            if !m.contains_key(v) { continue; }
            let i: Vec<u8> = inp.iter().flat_map(|x| bytes(*x)).collect();
            o.push_str(&format!("H {} {}\n", if i.is_empty() { "-".into() } else { hex(&i) }, hex(&bytes(*t))));
        }
        o
    }

    // ---------- externs ----------
    fn alloc(&mut self, st: &mut State, n: u64, al: u64) -> R<u64> {
        let al = al.max(16);
        let a = (st.heap + 16 + al - 1) / al * al;
        let e = a + n;
        if e > 0xffff_0000 { return Err(E::Unsup("heap exhausted".into())); }
        st.mem.write_conc(a - 16, 8, n as u128);
        st.heap = e;
        Ok(a)
    }
    fn elementwise(&mut self, st: &mut State, id: u32, kind: X, rt: &Ty, tys: &[&Ty], a: &[V]) -> R<Option<V>> {
        if let Ty::Vec(n, e) = self.m.resolve(rt).clone() {
            if matches!(kind, X::Umin | X::Umax | X::Smin | X::Smax | X::Fshl | X::Fshr | X::Ctpop | X::Bswap | X::Abs | X::UaddS | X::UsubS | X::Ctlz | X::Cttz | X::Bitrev) {
                let mut o = vec![];
                for k in 0..n as usize {
                    let av: Vec<V> = a.iter().map(|v| match v { V::A(x) => x[k].clone(), v => v.clone() }).collect();
                    let t: Vec<Ty> = tys.iter().map(|t| match self.m.resolve(t) { Ty::Vec(_, e) => (**e).clone(), t => t.clone() }).collect();
                    let tr: Vec<&Ty> = t.iter().collect();
                    o.push(self.ext(st, id, kind, &e, &tr, &av)?);
                }
                return Ok(Some(V::A(Rc::new(o))));
            }
        }
        Ok(None)
    }
    fn ext(&mut self, st: &mut State, id: u32, kind: X, rt: &Ty, tys: &[&Ty], a: &[V]) -> R<V> {
        if let Some(v) = self.elementwise(st, id, kind, rt, tys, a)? { return Ok(v); }
        macro_rules! c { ($k:expr) => { self.conc(st, &a[$k])? } }
        let w0 = || -> u32 { self.width(tys[0]) };
        Ok(match kind {
            X::Nop => V::U,
            X::Memcpy => { let n = c!(2) as u64; let (d, s) = (c!(0) as u64, c!(1) as u64); if n > 0 { self.check_addr(d, n)?; self.check_addr(s, n)?; st.mem.copy(d, s, n); } V::I(d as u128) }
            X::Memset => {
                let n = c!(2) as u64; let d = c!(0) as u64;
                if n > 0 { self.check_addr(d, n)?; match &a[1] { V::I(x) => st.mem.fill(d, *x as u8, n), v => { let t = trunc(vt(v, self.width(tys[1])), 8); for k in 0..n { st.mem.write_term(d + k, t); } } } }
                V::I(d as u128)
            }
            X::Bcmp => {
                let n = c!(2) as usize; let (p, q) = (c!(0) as u64, c!(1) as u64);
                if n == 0 { return Ok(V::I(0)); }
                self.check_addr(p, n as u64)?; self.check_addr(q, n as u64)?;
                let is_bcmp = &*self.slots[id as usize].name == "bcmp";
                let (x, y) = (st.mem.read_term(p, n), st.mem.read_term(q, n));
                let e = eq(x, y);
                if as_const(e) == Some(1) { return Ok(V::I(0)); }
                if is_bcmp { return Ok(tv(ite(e, konst(0, 32), konst(1, 32)))); }
                // lexicographic
                let mut r = konst(0, 32);
                for k in (0..n as u64).rev() {
                    let (bx, by) = (st.mem.byte_term(p + k), st.mem.byte_term(q + k));
                    r = ite(eq(bx, by), r, ite(ult(bx, by), konst(0xffff_ffff, 32), konst(1, 32)));
                }
                tv(r)
            }
            X::Strlen => { let p = c!(0) as u64; let mut n = 0; loop { match st.mem.get(p + n) { B::C(0) => break, B::C(_) => n += 1, _ => return Err(E::Unsup("strlen".into())) } } V::I(n as u128) }
            X::Malloc => { let n = c!(0) as u64; V::I(self.alloc(st, n, 16)? as u128) }
            X::Calloc => { let n = c!(0) as u64 * c!(1) as u64; V::I(self.alloc(st, n, 16)? as u128) }
            X::PosixMemalign => { let (al, n) = (c!(1) as u64, c!(2) as u64); let p = c!(0) as u64; let x = self.alloc(st, n, al)?; st.mem.write_conc(p, 8, x as u128); V::I(0) }
            X::Realloc => {
                let p = c!(0) as u64; let n = c!(1) as u64;
                if p == 0 { return Ok(V::I(self.alloc(st, n, 16)? as u128)); }
                let old = st.mem.read_conc(p - 16, 8).unwrap_or(0) as u64;
                if p + old == st.heap && p + n < 0xffff_0000 { st.mem.write_conc(p - 16, 8, n as u128); if n > old { st.heap = p + n; } V::I(p as u128) }
                else { let q = self.alloc(st, n, 16)?; st.mem.copy(q, p, old.min(n)); if old > 8192 { st.mem.release(p, old); } V::I(q as u128) }
            }
            X::Free => { if let V::I(p) = a[0] { let p = p as u64; if p != 0 { let old = st.mem.read_conc(p - 16, 8).unwrap_or(0) as u64; if old > 8192 { st.mem.release(p, old); } } } V::U }
            X::Ctpop => { match &a[0] { V::I(x) => V::I(x.count_ones() as u128), v => tv(popcount(vt(v, w0()))) } }
            X::Ctlz | X::Cttz => {
                let wd = w0();
                match &a[0] {
                    V::I(x) => V::I(if *x == 0 { wd as u128 } else if kind == X::Ctlz { (x.leading_zeros() - (128 - wd)) as u128 } else { x.trailing_zeros() as u128 }),
                    v => {
                        let t = vt(v, wd);
                        let mut r = konst(wd as u128, wd);
                        let it: Vec<u32> = if kind == X::Ctlz { (0..wd).collect() } else { (0..wd).rev().collect() };
                        for k in it { let val = if kind == X::Ctlz { wd - 1 - k } else { k }; r = ite(ext(t, k, 1), konst(val as u128, wd), r); }
                        tv(r)
                    }
                }
            }
            X::Bswap => tv(bswap(vt(&a[0], w0()))),
            X::Bitrev => { let wd = w0(); let t = vt(&a[0], wd); let v: Vec<T> = (0..wd).map(|k| ext(t, wd - 1 - k, 1)).collect(); tv(cat(&v)) }
            X::Fshl | X::Fshr => {
                let wd = w0();
                let s = (c!(2) % wd as u128) as u32;
                let (x, y) = (vt(&a[0], wd), vt(&a[1], wd));
                if kind == X::Fshl { if s == 0 { tv(x) } else { tv(cat(&[ext(y, wd - s, s), ext(x, 0, wd - s)])) } }
                else if s == 0 { tv(y) } else { tv(cat(&[ext(y, s, wd - s), ext(x, 0, s)])) }
            }
            X::Umin | X::Umax | X::Smin | X::Smax => {
                let wd = w0();
                let lt = self.icmp(if matches!(kind, X::Umin | X::Umax) { Pred::Ult } else { Pred::Slt }, wd, &a[0], &a[1]);
                let min = matches!(kind, X::Umin | X::Smin);
                let (p, q) = if min { (&a[0], &a[1]) } else { (&a[1], &a[0]) };
                match lt { V::I(1) => p.clone(), V::I(_) => q.clone(), v => tv(ite(vt(&v, 1), vt(p, wd), vt(q, wd))) }
            }
            X::Abs => { let wd = w0(); let t = vt(&a[0], wd); tv(ite(ext(t, wd - 1, 1), bin(Op::Sub, konst(0, wd), t), t)) }
            X::UaddO | X::UsubO | X::UmulO | X::SaddO | X::SsubO | X::SmulO => {
                let wd = w0();
                let (x, y) = (vt(&a[0], wd), vt(&a[1], wd));
                let (r, o) = match kind {
                    X::UaddO => { let r = bin(Op::Add, x, y); (r, if ubound(x).checked_add(ubound(y)).map_or(false, |s| s <= mask(wd)) { konst(0, 1) } else { ult(r, x) }) }
                    X::UsubO => (bin(Op::Sub, x, y), ult(x, y)),
                    X::UmulO => {
                        let r = bin(Op::Mul, x, y);
                        let o = if ubound(x).checked_mul(ubound(y)).map_or(false, |s| s <= mask(wd)) { konst(0, 1) } else if let (Some(p), Some(q)) = (as_const(x), as_const(y)) { konst((p.checked_mul(q).map_or(true, |z| z > mask(wd))) as u128, 1) }
                            else { let m = bin(Op::Mul, zext(x, 2 * wd), zext(y, 2 * wd)); not(eq(ext(m, wd, wd), konst(0, wd))) };
                        (r, o)
                    }
                    X::SaddO | X::SsubO => {
                        let op = if kind == X::SaddO { Op::Add } else { Op::Sub };
                        let r = bin(op, x, y);
                        let e = bin(op, sext(x, wd + 1), sext(y, wd + 1));
                        (r, bin(Op::Xor, ext(e, wd, 1), ext(e, wd - 1, 1)))
                    }
                    _ => {
                        let r = bin(Op::Mul, x, y);
                        if wd > 64 { return Err(E::Unsup("wide smul overflow".into())); }
                        let e = bin(Op::Mul, sext(x, 2 * wd), sext(y, 2 * wd));
                        (r, not(eq(e, sext(r, 2 * wd))))
                    }
                };
                V::A(Rc::new(vec![tv(r), tv(o)]))
            }
            X::UaddS => { let wd = w0(); let (x, y) = (vt(&a[0], wd), vt(&a[1], wd)); let r = bin(Op::Add, x, y); tv(ite(ult(r, x), konst(mask(wd), wd), r)) }
            X::UsubS => { let wd = w0(); let (x, y) = (vt(&a[0], wd), vt(&a[1], wd)); tv(ite(ult(x, y), konst(0, wd), bin(Op::Sub, x, y))) }
            X::SaddS | X::SsubS => {
                let wd = w0();
                let op = if kind == X::SaddS { Op::Add } else { Op::Sub };
                let e = bin(op, sext(vt(&a[0], wd), wd + 1), sext(vt(&a[1], wd), wd + 1));
                let ovf = bin(Op::Xor, ext(e, wd, 1), ext(e, wd - 1, 1));
                tv(ite(ovf, ite(ext(e, wd, 1), konst(1u128 << (wd - 1), wd), konst(mask(wd) >> 1, wd)), ext(e, 0, wd)))
            }
            X::Ucmp | X::Scmp => {
                let wd = w0(); let rw = self.width(rt);
                let p = if kind == X::Ucmp { Pred::Ult } else { Pred::Slt };
                let lt = vt(&self.icmp(p, wd, &a[0], &a[1]), 1);
                let gt = vt(&self.icmp(p, wd, &a[1], &a[0]), 1);
                tv(ite(lt, konst(mask(rw), rw), ite(gt, konst(1, rw), konst(0, rw))))
            }
            X::Tls | X::Expect => a[0].clone(),
            X::IsConst => V::I(0),
            X::Obj => V::I(mask(64)),
            X::Assume => V::U,
            X::Xgetbv => V::I(0),
            X::F64Un => {
                let name = self.slots[id as usize].name.clone();
                let g = |x: u128, y: u128| -> u128 {
                    let x = f64::from_bits(x as u64); let y = f64::from_bits(y as u64);
                    let r = if name.contains("sqrt") { x.sqrt() } else if name.contains("log2") { x.log2() } else if name.contains("log") { x.ln() } else if name.contains("ceil") { x.ceil() } else if name.contains("floor") { x.floor() } else if name.contains("fabs") { x.abs() }
                        else if name.contains("trunc") { x.trunc() } else if name.contains("round") { x.round() } else if name.contains("pow") { x.powf(y) } else if name.contains("copysign") { x.copysign(y) } else if name.contains("max") { x.max(y) } else { x.min(y) };
                    r.to_bits() as u128
                };
                match (&a[0], a.get(1)) {
                    (V::I(x), None) => V::I(g(*x, 0)),
                    (V::I(x), Some(V::I(y))) => V::I(g(*x, *y)),
                    (V::T(t), None) => {
                        let Some(ls) = leaves(*t, 256) else { return Err(E::Unsup("symbolic float".into())) };
                        let mut r: Option<T> = None;
                        for (c, v) in ls { let z = konst(g(v, 0), 64); r = Some(match r { None => z, Some(o) => ite(c, z, o) }); }
                        tv(r.unwrap())
                    }
                    _ => return Err(E::Unsup("symbolic float".into())),
                }
            }
            X::FptouiSat | X::FptosiSat => {
                let rw = self.width(rt);
                let g = |x: u128| -> u128 { let f = f64::from_bits(x as u64); if kind == X::FptouiSat { (f as u128).min(mask(rw)) } else { let m = (mask(rw) >> 1) as i128; (f as i128).clamp(-m - 1, m) as u128 & mask(rw) } };
                match &a[0] {
                    V::I(x) => V::I(g(*x)),
                    V::T(t) => {
                        let Some(ls) = leaves(*t, 256) else { return Err(E::Unsup("symbolic float".into())) };
                        let mut r: Option<T> = None;
                        for (c, v) in ls { let z = konst(g(v), rw); r = Some(match r { None => z, Some(o) => ite(c, z, o) }); }
                        tv(r.unwrap())
                    }
                    _ => V::U,
                }
            }
            X::Trap => return Err(E::Panic("abort".into())),
            X::Ret0 => V::I(0),
            X::RetNull => V::I(0),
            X::RetM1 => V::I(mask(self.width(rt))),
            X::Write => V::I(if a.len() > 2 { c!(2) } else { 0 }),
            X::Syscall => V::I(mask(64)),
            X::Errno => V::I((GLOB_BASE - 64) as u128),
            X::Panic => {
                let p = c!(0) as u64;
                let rd = |q: u64, n: usize| st.mem.read_conc(q, n).unwrap_or(0) as u64;
                let loc = rd(p + 8, 8);
                let (fp, fl, line) = (rd(loc, 8), rd(loc + 8, 8), rd(loc + 16, 4));
                let mut s = String::new();
                for k in 0..fl.min(300) { if let B::C(c) = st.mem.get(fp + k) { s.push(c as char); } }
                return Err(E::Panic(format!("{}:{}", s, line)));
            }
            X::VSym => {
                let p = c!(0) as u64; let n = c!(1) as u64;
                if n == 0 { return Ok(V::U); }
                let k = st.nsym; st.nsym += 1;
                if let Some(r) = &self.replay {
                    let b = r.syms.get(k).cloned().unwrap_or_default();
                    for j in 0..n { st.mem.set(p + j, B::C(*b.get(j as usize).unwrap_or(&0))); }
                } else if self.concrete.is_some() {
                    for j in 0..n { let b = self.conc_byte(); st.mem.set(p + j, B::C(b)); }
                } else {
                    let t = var(format!("s{}", k), 8 * n as u32, VK::Input);
                    for j in 0..n { st.mem.set(p + j, B::S(t, j as u32)); }
                    Rc::make_mut(&mut st.draws).push(t);
                }
                V::U
            }
            X::VAssume => {
                let t = trunc(vt(&a[0], w0()), 1);
                match as_const(t) {
                    Some(1) => V::U,
                    Some(_) => return Err(E::Killed),
                    None => {
                        self.flush(st);
                        if !self.feasible(st, t) { return Err(E::Killed); }
                        Rc::make_mut(&mut st.pc).push(t);
                        V::U
                    }
                }
            }
            X::VAssert => {
                let t = trunc(vt(&a[0], w0()), 1);
                let id = c!(1) as u32;
                self.rep.asserts_total += 1;
                *self.rep.assert_ids.entry(id).or_default() += 1;
                match as_const(t) {
                    Some(1) => { self.rep.asserts_folded += 1; }
                    _ => { st.pending.push((t, id, false)); if st.pending.len() >= 64 { self.flush(st); } }
                }
                V::U
            }
            X::VSplit => V::I(c!(0)),
            X::VReach => { let id = c!(0) as u32; *self.rep.reach.entry(id).or_default() += 1; V::U }
            X::VNote => {
                let p = c!(0) as u64; let n = c!(1) as u64;
                for k in 0..n { if let B::C(x) = st.mem.get(p + k) { self.rep.notes.push(x); } else if self.concrete.is_some() || self.replay.is_some() { return Err(E::Unsup("symbolic note in concrete mode".into())); } }
                V::U
            }
            X::VSymbolic => V::I((self.concrete.is_none() && self.replay.is_none()) as u128),
            X::VParty => { st.party = c!(0) as u32; V::U }
            X::VAllowPanic => { st.allow_panic = true; V::U }
            X::VMode => { st.mode = c!(0) as u32; V::U }
            X::VSeed => {
                let p = c!(0) as u64;
                st.nseed += 1;
                let mut b = [0xA5u8; 32];
                b[..8].copy_from_slice(&st.nseed.to_le_bytes());
                st.mem.write_bytes(p, &b);
                V::U
            }
            X::VPrf => {
                let (sp, pos, n, out) = (c!(0) as u64, c!(1) as u64, c!(2) as u64, c!(3) as u64);
                let seed: Vec<T> = {
                    let t = st.mem.read_term(sp, 32);
                    if is_konst(t) { vec![t] } else {
                        // equal seeds must be one stream however they were combined: sort the xor of every byte
                        let v: Vec<T> = (0..32).map(|k| canon_xor(ext(t, 8 * k, 8))).collect();
                        vec![cat(&v)]
                    }
                };
                if self.concrete.is_some() || self.replay.is_some() {
                    let sb = eval_bytes(seed[0], &HashMap::new());
                    for k in 0..n {
                        let wv = self.replay.as_ref().and_then(|r| r.prf.get(&(sb.clone(), pos + k)).copied()).unwrap_or_else(|| default_prf(&sb, pos + k));
                        st.mem.write_conc(out + 4 * k, 4, wv as u128);
                    }
                    return Ok(V::U);
                }
                if st.mode == 1 && (0..n).all(|k| !self.prf.contains_key(&(seed.clone(), pos + k))) && is_konst(seed[0]) {
                    let sb = eval_bytes(seed[0], &HashMap::new());
                    for k in 0..n { st.mem.write_conc(out + 4 * k, 4, default_prf(&sb, pos + k) as u128); }
                    return Ok(V::U);
                }
                let all_new = (0..n).all(|k| !self.prf.contains_key(&(seed.clone(), pos + k)));
                if all_new {
                    let t = var(format!("p{}_{}", self.prf_list.len(), pos), 32 * n as u32, VK::Prf);
                    for k in 0..n { self.prf.insert((seed.clone(), pos + k), (t, k as u32)); }
                    self.prf_list.push((seed.clone(), pos, t));
                }
                for k in 0..n {
                    let key = (seed.clone(), pos + k);
                    let (t, i) = match self.prf.get(&key) {
                        Some(x) => *x,
                        None => { let t = var(format!("p{}_{}", self.prf_list.len(), pos + k), 32, VK::Prf); self.prf.insert(key, (t, 0)); self.prf_list.push((seed.clone(), pos + k, t)); (t, 0) }
                    };
                    for j in 0..4 { st.mem.set(out + 4 * k + j, B::S(t, 4 * i + j as u32)); }
                    let N::Var(v) = *node(t) else { unreachable!() };
                    if !st.known.contains(&(st.party, v)) { let pt = st.party; Rc::make_mut(&mut st.known).insert((pt, v)); }
                }
                V::U
            }
            X::VHash => {
                let (p, n, out) = (c!(0) as u64, c!(1) as u64, c!(2) as u64);
                let conc = self.concrete.is_some() || self.replay.is_some();
                let bytes: Vec<T> = (0..n).map(|k| st.mem.byte_term(p + k)).collect();
                if conc {
                    let b: Vec<u8> = bytes.iter().map(|t| as_const(*t).unwrap_or(0) as u8).collect();
                    let d = self.replay.as_ref().and_then(|r| r.hash.get(&b).cloned()).unwrap_or_else(|| default_hash(&b));
                    st.mem.write_bytes(out, &d);
                    return Ok(V::U);
                }
                let t = match self.hashes.get(&bytes) {
                    Some(t) => *t,
                    None => {
                        let t = var(format!("h{}", self.hash_list.len()), 512, VK::Hash);
                        let N::Var(v) = *node(t) else { unreachable!() };
                        let rc = Rc::new(bytes.clone());
                        ctx().vars[v as usize].input = Some(rc.clone());
                        self.hashes.insert(bytes, t);
                        self.hash_list.push((rc, t));
                        t
                    }
                };
                for j in 0..64 { st.mem.set(out + j, B::S(t, j as u32)); }
                V::U
            }
            X::VCut => { self.cut(st, a)?; V::U }
            X::VMasked => { self.masked(st, a)? }
            X::Pclmul | X::None | X::Defined => return Err(E::Unsup(format!("external function {}", self.slots[id as usize].name))),
        })
    }
    fn conc_byte(&mut self) -> u8 {
        // byte stream shared with the native driver
        let seed = self.concrete.as_ref().unwrap();
        let mut x = u64::from_le_bytes(seed[..8].try_into().unwrap()) ^ (self.conc_ctr / 8).wrapping_mul(0xD1342543DE82EF95);
        let r = splitmix(&mut x);
        let b = (r >> (8 * (self.conc_ctr % 8))) as u8;
        self.conc_ctr += 1;
        b
    }
    pub fn set_replay(&mut self, text: &str) { self.replay = Some(parse_model(text)); }

    /// verif_cut(kind, nbytes, p0, p1, p2): the three messages of one resharing round.
    /// kind 0: xor, 1: wrapping add over big-endian integers of `nbytes` bytes.
    fn cut(&mut self, st: &mut State, a: &[V]) -> R<()> {
        if self.concrete.is_some() || self.replay.is_some() { return Ok(()); }
        let kind = self.conc(st, &a[0])? as u32;
        let n = self.conc(st, &a[1])? as usize;
        let ps: Vec<u64> = vec![self.conc(st, &a[2])? as u64, self.conc(st, &a[3])? as u64, self.conc(st, &a[4])? as u64];
        let wd0 = 8 * n as u32;
        let mut ms: Vec<T> = ps.iter().map(|&p| { let t = st.mem.read_term(p, n); if n > 1 { bswap(t) } else { t } }).collect();
        // bits travel as 0/1 bytes
        let mut wd = wd0;
        if kind == 0 {
            let z = ms.iter().all(|&m| { let top = ubound(m); top <= 1 });
            if z && n == 1 { wd = 1; ms = ms.iter().map(|&m| ext(m, 0, 1)).collect(); }
        }
        if ms.iter().any(|&m| !vars_of(&[m]).iter().any(|&v| matches!(ctx().vars[v as usize].kind, VK::Prf))) { return Ok(()); }
        // opaque base terms only
        let op = if kind == 0 { Op::Xor } else { Op::Add };
        let s = bin(op, bin(op, ms[0], ms[1]), ms[2]);
        // candidate: all masks set to zero
        let mut z = Subst::new(|v| { let i = &ctx().vars[v as usize]; if matches!(i.kind, VK::Prf | VK::Cut) { Some(konst(0, i.width)) } else { None } });
        let d = z.run(s);
        let t0 = std::time::Instant::now();
        if s != d && crate::poly::equal(s, d) != Some(true) && !solver::nf_equal(s, d) {
            let goal = not(eq(s, d));
            let mut roots = self.slice(&st.pc, goal);
            roots.push(goal);
            self.hash_axioms(&mut roots);
            if !matches!(solver::check(&roots, 20, false), Res::Unsat) {
                if self.trace { eprintln!("no cut: {} bytes, size {}\n  {}", n, dag_size(s), show(ms[0], 7)); }
                return Ok(());
            }
        }
        self.rep.cuts += 1;
        if self.trace { eprintln!("cut {}: {} bytes, size {} of {}, {:?}\n  {}", self.rep.cuts, n, dag_size(d), dag_size(s), t0.elapsed(), show(ms[0], 7)); }
        let dv = if dag_size(d) > 6 {
            let v = var(format!("d{}", self.rep.cuts), wd, VK::Def);
            let N::Var(i) = *node(v) else { unreachable!() };
            ctx().vars[i as usize].def = Some(d);
            v
        } else { d };
        let m0 = var(format!("c{}a", self.rep.cuts), wd, VK::Cut);
        let m1 = var(format!("c{}b", self.rep.cuts), wd, VK::Cut);
        let m2 = if kind == 0 { bin(Op::Xor, bin(Op::Xor, m0, m1), dv) } else { bin(Op::Sub, dv, bin(Op::Add, m0, m1)) };
        let news = [m0, m1, m2];
        let mut sub = Subst::new(|_| None);
        sub.floor = T::MAX;
        for k in 0..3 {
            if !is_konst(ms[k]) { sub.memo.entry(ms[k]).or_insert(news[k]); sub.floor = sub.floor.min(ms[k]); }
            // a message may be stored in pieces
            if let N::Cat(ps) = node(ms[k]) {
                let mut lo = 0;
                for &p in ps.iter() {
                    if !is_konst(p) && !matches!(node(p), N::Var(_)) {
                        sub.memo.entry(p).or_insert_with(|| ext(news[k], lo, w(p))); sub.floor = sub.floor.min(p);
                        let (b, l) = match *node(p) { N::Ext(b, l) => (b, l), _ => (p, 0) };
                        if !matches!(node(b), N::Var(_)) { sub.slices.entry(b).or_default().push((l, w(p), news[k], lo)); sub.floor = sub.floor.min(b); }
                    }
                    lo += w(p);
                }
            }
        }
        // other forms of the same values: candidates by a random evaluation, confirmed by normal forms
        let floor = sub.floor;
        let fps: Vec<T> = ms.iter().map(|&m| self.finger.run(m)).collect();
        let mut forms: HashMap<T, Option<T>> = HashMap::new();
        let fg = &mut self.finger;
        st.mem.replace_terms(&mut |t| {
            if t >= floor && w(t) == wd && !sub.memo.contains_key(&t) {
                let r = *forms.entry(t).or_insert_with(|| {
                    let e = fg.run(t);
                    (0..3).find(|&k| e == fps[k] && crate::poly::equal(t, ms[k]) == Some(true)).map(|k| news[k])
                });
                if r.is_some() { return r; }
            }
            let r = sub.run(t);
            if r != t { Some(r) } else { None }
        });
        for fr in st.frames.iter_mut() { for r in fr.regs.iter_mut() { subst_v(&mut sub, r); } }
        if self.trace {
            let pv: HashSet<u32> = vars_of(&ms).into_iter().filter(|&v| matches!(ctx().vars[v as usize].kind, VK::Prf)).collect();
            st.mem.replace_terms(&mut |t| { if t >= sub.floor && vars_of(&[t]).iter().any(|v| pv.contains(v)) { eprintln!("   left {}", show(t, 6)); } None });
        }
        Ok(())
    }
    /// verif_masked(receiver, kind, p, n): is the message at p masked, for the receiver, by a fresh random value?
    fn masked(&mut self, st: &mut State, a: &[V]) -> R<V> {
        if self.concrete.is_some() || self.replay.is_some() { return Ok(V::I(1)); }
        let rcv = self.conc(st, &a[0])? as u32;
        let kind = self.conc(st, &a[1])? as u32;
        let n = self.conc(st, &a[2 + 1])? as usize;
        let p = self.conc(st, &a[2])? as u64;
        let t0 = st.mem.read_term(p, n);
        let mut t = if n > 1 { bswap(t0) } else { t0 };
        let mut wd = 8 * n as u32;
        if kind == 0 && n == 1 && ubound(t) <= 1 { wd = 1; t = ext(t, 0, 1); }
        let op = if kind == 0 { Op::Xor } else { Op::Sub };
        for v in vars_of(&[t]) {
            let i = &ctx().vars[v as usize];
            if i.kind != VK::Prf || st.known.contains(&(rcv, v)) || st.used_masks.contains(&v) { continue; }
            let vw = i.width;
            let vt0 = i.term;
            // bijective in v: m(v) - m(v') == v - v' on the low bits (or the negation)
            let fresh = var(format!("alt{}", v), vw, VK::Free);
            let mut s = Subst::new(move |x| if x == v { Some(fresh) } else { None });
            let t2 = s.run(t);
            if vw < wd { continue; }
            let diff = bin(op, t, t2);
            for lo in [0u32, 32, 64, 96] {
                if lo + wd > vw { break; }
                let d1 = bin(op, ext(vt0, lo, wd), ext(fresh, lo, wd));
                let d2 = bin(op, ext(fresh, lo, wd), ext(vt0, lo, wd));
                let bad = and(not(eq(diff, d1)), not(eq(diff, d2)));
                // equal for all values in one of the two orientations
                let ok = as_const(bad) == Some(0) || matches!(solver::check(&[not(eq(diff, d1))], 10, false), Res::Unsat) || matches!(solver::check(&[not(eq(diff, d2))], 10, false), Res::Unsat);
                if ok { Rc::make_mut(&mut st.used_masks).insert(v); return Ok(V::I(1)); }
            }
        }
        Ok(V::I(0))
    }
}

fn subst_v(s: &mut Subst, v: &mut V) {
    match v {
        V::T(t) => { let r = s.run(*t); if r != *t { *v = tv(r); } }
        V::A(x) => { if x.iter().any(|y| matches!(y, V::T(_) | V::A(_))) { for y in Rc::make_mut(x).iter_mut() { subst_v(s, y); } } }
        _ => {}
    }
}
pub fn parse_model(text: &str) -> Replay {
    let un = |s: &str| -> Vec<u8> { if s == "-" { vec![] } else { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() } };
    let mut r = Replay { syms: vec![], prf: HashMap::new(), hash: HashMap::new() };
    for l in text.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        match f.get(0) {
            Some(&"S") => r.syms.push(f.get(1).map(|s| un(s)).unwrap_or_default()),
            Some(&"P") => { let b = un(f[3]); r.prf.insert((un(f[1]), f[2].parse().unwrap()), u32::from_le_bytes(b.try_into().unwrap())); }
            Some(&"H") => { r.hash.insert(un(f[1]), un(f[2])); }
            _ => {}
        }
    }
    r
}

/// xor of the sorted leaves of `t` (equal leaves cancelled)
fn canon_xor(t: T) -> T {
    fn go(t: T, lo: u32, wd: u32, out: &mut Vec<T>) {
        match *node(t) {
            N::Bin(Op::Xor, x, y) => { go(x, lo, wd, out); go(y, lo, wd, out) }
            N::Ext(b, l) if matches!(node(b), N::Bin(Op::Xor, _, _)) => go(b, l + lo, wd, out),
            _ => out.push(ext(t, lo, wd)),
        }
    }
    let wd = w(t);
    let mut l = vec![];
    go(t, 0, wd, &mut l);
    l.sort_unstable();
    let mut r: Vec<T> = vec![];
    for x in l { if r.last() == Some(&x) { r.pop(); } else { r.push(x); } }
    let mut acc = konst(0, wd);
    for x in r { acc = bin(Op::Xor, acc, x); }
    acc
}

pub fn default_prf(seed: &[u8], pos: u64) -> u32 {
    let mut h = 0xcbf29ce484222325u64;
    for &b in seed { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    let mut x = h ^ pos.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut x) as u32
}
pub fn default_hash(b: &[u8]) -> Vec<u8> {
    let mut h = 0xcbf29ce484222325u64;
    let mut g = 0x9E3779B97F4A7C15u64;
    for &c in b { h ^= c as u64; h = h.wrapping_mul(0x100000001b3); g = g.rotate_left(5) ^ (c as u64).wrapping_add(h); }
    let mut o = vec![];
    let mut x = h ^ g.rotate_left(17) ^ (b.len() as u64).wrapping_mul(0xA0761D6478BD642F);
    let mut y = g;
    for _ in 0..4 { o.extend_from_slice(&splitmix(&mut x).to_le_bytes()); o.extend_from_slice(&splitmix(&mut y).to_le_bytes()); }
    o
}

fn fop(op: BOp, p: f64, q: f64) -> f64 { match op { BOp::FAdd => p + q, BOp::FSub => p - q, BOp::FMul => p * q, BOp::FDiv => p / q, _ => p % q } }
fn fcmp(p: &str, x: u128, y: u128) -> bool {
    let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
    let un = a.is_nan() || b.is_nan();
    match p { "oeq" => a == b, "one" => !un && a != b, "olt" => a < b, "ole" => a <= b, "ogt" => a > b, "oge" => a >= b, "ord" => !un, "uno" => un, "ueq" => un || a == b, "une" => un || a != b, "ult" => un || a < b, "ule" => un || a <= b, "ugt" => un || a > b, "uge" => un || a >= b, "true" => true, _ => false }
}
fn le(b: &[u8]) -> u128 { let mut v = 0u128; for (i, x) in b.iter().enumerate().take(16) { v |= (*x as u128) << (8 * i); } v }

/// decompose into constant leaves of an if-then-else tree
fn leaves(t: T, limit: usize) -> Option<Vec<(T, u128)>> {
    fn go(t: T, c: T, out: &mut Vec<(T, u128)>, limit: usize) -> bool {
        if out.len() > limit { return false; }
        if let Some(k) = as_const(t) { out.push((c, k)); return true; }
        match node(t).clone() {
            N::Ite(g, a, b) => go(a, and(c, g), out, limit) && go(b, and(c, not(g)), out, limit),
            N::Bin(op @ (Op::Add | Op::Mul | Op::Sub | Op::Shl), a, b) => {
                if let Some(k) = as_const(b) {
                    let mut o2 = vec![];
                    if !go(a, c, &mut o2, limit) { return false; }
                    for (g, v) in o2 { out.push((g, as_const(bin(op, konst(v, w(t)), konst(k, w(t)))).unwrap())); }
                    return out.len() <= limit;
                }
                let mut oa = vec![];
                let mut ob = vec![];
                if !go(a, c, &mut oa, limit) || !go(b, konst(1, 1), &mut ob, limit) || oa.len() * ob.len() > limit { return false; }
                for (g, v) in &oa { for (h, u) in &ob { out.push((and(*g, *h), as_const(bin(op, konst(*v, w(t)), konst(*u, w(t)))).unwrap())); } }
                out.len() <= limit
            }
            N::Cat(ps) => {
                // few symbolic bits in total
                let mut acc: Vec<(T, u128)> = vec![(c, 0)];
                let mut pos = 0;
                for p in ps.iter() {
                    let mut o2 = vec![];
                    if w(*p) == 1 && !is_konst(*p) { o2.push((*p, 1)); o2.push((not(*p), 0)); } else if !go(*p, konst(1, 1), &mut o2, limit) { return false; }
                    if acc.len() * o2.len() > limit { return false; }
                    let mut n = vec![];
                    for (g, v) in &acc { for (h, u) in &o2 { n.push((and(*g, *h), v | (u << pos))); } }
                    acc = n;
                    pos += w(*p);
                }
                out.extend(acc);
                out.len() <= limit
            }
            _ => {
                if w(t) == 1 { out.push((and(c, t), 1)); out.push((and(c, not(t)), 0)); return true; }
                false
            }
        }
    }
    if w(t) > 128 { return None; }
    let mut o = vec![];
    if go(t, konst(1, 1), &mut o, limit) {
        // merge equal values
        let mut by: Vec<(T, u128)> = vec![];
        for (c, v) in o { if as_const(c) == Some(0) { continue; } if let Some(x) = by.iter_mut().find(|x| x.1 == v) { x.0 = or(x.0, c); } else { by.push((c, v)); } }
        Some(by)
    } else { None }
}

/// a boolean term over the same variables (used only for slicing)
fn eq_shape(t: T) -> T { if w(t) == 1 { t } else { eq(t, konst(0, w(t))) } }

/// cheap unsigned upper bound
fn raw_eq(a: T, b: T) -> T {
    // bypass the ideal-hash rule: compare the low and high halves separately
    let wd = w(a);
    if wd < 16 { return eq(a, b); }
    let h = wd / 2;
    and(eq(ext(a, 0, h), ext(b, 0, h)), eq(ext(a, h, wd - h), ext(b, h, wd - h)))
}

pub fn eval(t: T, m: &HashMap<u32, Vec<u8>>) -> Option<u128> {
    let mut s = Subst::new(|v| {
        let i = &ctx().vars[v as usize];
        if let Some(d) = i.def { return Some(d); }
        Some(bytes_term(m.get(&v).map(|x| x.as_slice()).unwrap_or(&[]), i.width))
    });
    let mut r = s.run(t);
    // definitions may need more rounds
    for _ in 0..64 { if is_konst(r) { break; } let mut s2 = Subst::new(|v| { let i = &ctx().vars[v as usize]; if let Some(d) = i.def { return Some(d); } Some(bytes_term(m.get(&v).map(|x| x.as_slice()).unwrap_or(&[]), i.width)) }); r = s2.run(r); }
    as_const(r)
}
fn bytes_term(b: &[u8], width: u32) -> T {
    let n = (width + 7) / 8;
    let mut v = vec![];
    for k in 0..n { v.push(konst(*b.get(k as usize).unwrap_or(&0) as u128, 8)); }
    ext(cat(&v), 0, width)
}
pub fn eval_bytes(t: T, m: &HashMap<u32, Vec<u8>>) -> Vec<u8> {
    let wd = w(t);
    let n = (wd + 7) / 8;
    let t = if wd % 8 != 0 { zext(t, n * 8) } else { t };
    let mut o = vec![];
    let mut k = 0;
    while k < n { let l = (n - k).min(16); let v = eval(ext(t, 8 * k, 8 * l), m).unwrap_or(0); o.extend_from_slice(&v.to_le_bytes()[..l as usize]); k += l; }
    o
}

fn reg_types(f: &Func) -> Rc<Vec<Option<Ty>>> {
    thread_local!(static MEMO: std::cell::RefCell<HashMap<usize, Rc<Vec<Option<Ty>>>>> = Default::default());
    let key = f as *const Func as usize;
    if let Some(r) = MEMO.with(|m| m.borrow().get(&key).cloned()) { return r; }
    let mut v: Vec<Option<Ty>> = vec![None; f.nregs];
    for b in &f.blocks {
        for (r, t, _) in &b.phis { v[*r as usize] = Some(t.clone()); }
        for i in &b.insts {
            match i {
                I::Bin(r, _, t, _, _) | I::Load(r, t, _) | I::Freeze(r, t, _) | I::FNeg(r, t, _) | I::AtomicRmw(r, _, t, _, _) => v[*r as usize] = Some(t.clone()),
                I::Cast(r, _, _, t, _) => v[*r as usize] = Some(t.clone()),
                I::Select(r, _, t, _, _, _) => v[*r as usize] = Some(t.clone()),
                I::ICmp(r, _, t, _, _) => v[*r as usize] = Some(match t { Ty::Vec(n, _) => Ty::Vec(*n, Rc::new(Ty::Int(1))), _ => Ty::Int(1) }),
                I::FCmp(r, _, _, _, _) => v[*r as usize] = Some(Ty::Int(1)),
                I::Alloca(r, ..) | I::Gep(r, ..) => v[*r as usize] = Some(Ty::Ptr),
                I::Call(Some(r), t, _, _, _) => v[*r as usize] = Some(t.clone()),
                I::InsertValue(r, t, ..) | I::InsertElement(r, t, ..) => v[*r as usize] = Some(t.clone()),
                _ => {}
            }
        }
    }
    let r = Rc::new(v);
    MEMO.with(|m| m.borrow_mut().insert(key, r.clone()));
    r
}

fn compute_ipdom(f: &Func) -> Vec<Option<u32>> {
    let n = f.blocks.len();
    let succ = |b: usize| -> Vec<usize> {
        match f.blocks[b].insts.last() {
            Some(I::Br(t)) => vec![*t as usize],
            Some(I::CondBr(_, x, y)) => vec![*x as usize, *y as usize],
            Some(I::Switch(_, _, d, cs)) => { let mut v: Vec<usize> = cs.iter().map(|c| c.1 as usize).collect(); v.push(*d as usize); v }
            Some(I::Call(_, _, _, _, Some(t))) => vec![*t as usize],
            _ => vec![],
        }
    };
    let exit = n;
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n + 1];
    let mut succs: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for b in 0..n {
        let mut s = succ(b);
        if matches!(f.blocks[b].insts.last(), Some(I::Ret(_))) { s.push(exit); }
        for &t in &s { preds[t].push(b); }
        succs[b] = s;
    }
    // postorder on the reverse graph from exit
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut st = vec![(exit, 0usize)];
    seen[exit] = true;
    while let Some((b, k)) = st.pop() {
        if k < preds[b].len() { st.push((b, k + 1)); let p = preds[b][k]; if !seen[p] { seen[p] = true; st.push((p, 0)); } } else { order.push(b); }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, &b) in order.iter().enumerate() { num[b] = i; }
    let mut idom: Vec<Option<usize>> = vec![None; n + 1];
    idom[exit] = Some(exit);
    loop {
        let mut ch = false;
        for &b in order.iter().rev() {
            if b == exit { continue; }
            let mut ni: Option<usize> = None;
            for &s in &succs[b] {
                if num[s] == usize::MAX || idom[s].is_none() { continue; }
                ni = Some(match ni { None => s, Some(mut x) => { let mut y = s; while x != y { while num[x] < num[y] { x = idom[x].unwrap(); } while num[y] < num[x] { y = idom[y].unwrap(); } } x } });
            }
            if ni != idom[b] { idom[b] = ni; ch = true; }
        }
        if !ch { break; }
    }
    (0..n).map(|b| idom[b].and_then(|x| if x == exit { None } else { Some(x as u32) })).collect()
}
