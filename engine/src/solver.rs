//! SMT-LIB emission and a small solver portfolio (z3, z3-new, cvc5 as subprocesses).
use crate::term::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Res {
    Unsat,
    Sat(HashMap<u32, Vec<u8>>),
    Unknown,
}

#[derive(Default)]
pub struct Stats {
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub time: f64,
    pub by: HashMap<String, u64>,
    pub max_query_s: f64,
}

static mut STATS: Option<Stats> = None;
#[allow(static_mut_refs)]
pub fn stats() -> &'static mut Stats {
    unsafe { STATS.get_or_insert_with(Stats::default) }
}

static mut POLY: bool = false;
fn poly() -> bool { unsafe { POLY } }
fn with_poly<R>(f: impl FnOnce() -> R) -> R { unsafe { POLY = true; } let r = f(); unsafe { POLY = false; } r }

/// Push truncations through +,-,* so that the solver sees polynomials over one width.
fn lower(roots: &[T]) -> Vec<T> {
    let mut memo: HashMap<T, T> = HashMap::new();
    fn push_trunc(t: T, wd: u32, memo: &mut HashMap<(T, u32), T>) -> T {
        if w(t) == wd { return t; }
        if let Some(&r) = memo.get(&(t, wd)) { return r; }
        let r = match node(t).clone() {
            N::Bin(op @ (Op::Add | Op::Sub | Op::Mul), a, b) => {
                let (x, y) = (push_trunc(a, wd, memo), push_trunc(b, wd, memo));
                bin(op, x, y)
            }
            N::Ite(c, a, b) if wd > 1 => ite(c, push_trunc(a, wd, memo), push_trunc(b, wd, memo)),
            _ => ext(t, 0, wd),
        };
        memo.insert((t, wd), r);
        r
    }
    /// a term of `t`'s width that agrees with it modulo 2^m, with zero extensions moved to the leaves
    fn lift(t: T, m: u32) -> T {
        let wd = w(t);
        match node(t).clone() {
            N::Bin(op @ (Op::Add | Op::Sub | Op::Mul), a, b) => bin(op, lift(a, m), lift(b, m)),
            N::Cat(ps) if ps.len() == 2 && as_const(ps[1]) == Some(0) && w(ps[0]) >= m => up(ps[0], wd, m),
            N::Sext(x) if w(x) >= m => up(x, wd, m),
            _ => t,
        }
    }
    fn up(x: T, wd: u32, m: u32) -> T {
        match *node(x) {
            N::Bin(op @ (Op::Add | Op::Sub | Op::Mul), a, b) => bin(op, up(a, wd, m), up(b, wd, m)),
            _ => zext(x, wd),
        }
    }
    fn mulc(op: Op, a: T, b: T) -> T {
        if op == Op::Mul {
            if let Some(c) = as_const(b) {
                let s = c.trailing_zeros().min(w(b));
                if s > 0 && s < w(b) { let l = lift(a, w(b) - s); if l != a { return bin(op, l, b); } }
            }
        }
        bin(op, a, b)
    }
    let mut tm: HashMap<(T, u32), T> = HashMap::new();
    let mut go = |root: T| -> T {
        let mut st = vec![(root, false)];
        while let Some((t, done)) = st.pop() {
            if memo.contains_key(&t) { continue; }
            if !done {
                st.push((t, true));
                children(t, &mut |c| st.push((c, false)));
                continue;
            }
            let wd = w(t);
            let g = |x: T| memo[&x];
            let r = match node(t).clone() {
                N::Const(_) | N::Wide(_) | N::Var(_) => t,
                N::Bin(Op::Xor, a, b) if wd == 1 && poly() => { let x = bin(Op::Xor, g(a), g(b)); match crate::poly::constant(x) { Some(c) => konst(c as u128, 1), None => x } }
                N::Not(a) => not(g(a)),
                N::Ext(a, 0) => push_trunc(g(a), wd, &mut tm),
                N::Ext(a, lo) => ext(g(a), lo, wd),
                N::Sext(a) => sext(g(a), wd),
                N::Bswap(a) => bswap(g(a)),
                N::Bin(op, a, b) => mulc(op, g(a), g(b)),
                N::Cat(ps) if ps.len() == 2 && as_const(ps[0]) == Some(0) && wd <= 128 && matches!(node(ps[1]), N::Bin(Op::Add | Op::Sub | Op::Mul, _, _)) => {
                    let x = g(ps[1]);
                    bin(Op::Mul, up(x, wd, w(x)), konst(1u128 << w(ps[0]), wd))
                }
                N::Eq(a, b) => { let (x, y) = (g(a), g(b)); match if poly() { crate::poly::equal(x, y) } else { None } { Some(c) => konst(c as u128, 1), None => eq(x, y) } }
                N::Ult(a, b) => ult(g(a), g(b)),
                N::Slt(a, b) => slt(g(a), g(b)),
                N::Fp(o, a, b) => fp(o, g(a), g(b), wd),
                N::Cat(p) => { let v: Vec<T> = p.iter().map(|&x| g(x)).collect(); cat(&v) }
                N::Ite(a, b, c) => ite(g(a), g(b), g(c)),
            };
            memo.insert(t, r);
        }
        memo[&root]
    };
    roots.iter().map(|&r| go(r)).collect()
}

/// equality by normal forms after lowering
pub fn nf_equal(a: T, b: T) -> bool {
    let r = lower(&[a, b]);
    r[0] == r[1] || crate::poly::equal(r[0], r[1]) == Some(true)
}
pub fn expand_defs(roots: &[T]) -> Vec<T> {
    // repeatedly substitute definitional variables
    let mut cur: Vec<T> = roots.to_vec();
    loop {
        let vs = vars_of(&cur);
        if !vs.iter().any(|&v| ctx().vars[v as usize].def.is_some()) { return cur; }
        let mut s = Subst::new(|v| ctx().vars[v as usize].def);
        cur = cur.iter().map(|&t| s.run(t)).collect();
    }
}

fn lit(t: T, o: &mut String) {
    let wd = w(t);
    match node(t) {
        N::Const(c) => {
            if wd == 1 { o.push_str(if *c == 1 { "true" } else { "false" }); }
            else if wd % 4 == 0 { let _ = write!(o, "#x{:0>width$x}", c, width = (wd / 4) as usize); }
            else { let _ = write!(o, "#b{:0>width$b}", c, width = wd as usize); }
        }
        N::Wide(l) => {
            o.push_str("#b");
            for i in (0..wd).rev() { o.push(if (l[(i / 64) as usize] >> (i % 64)) & 1 == 1 { '1' } else { '0' }); }
        }
        N::Var(v) => { let _ = write!(o, "v{}", v); }
        _ => { let _ = write!(o, "n{}", t); }
    }
}
/// as a bit-vector even when width is 1
fn bvlit(t: T, o: &mut String) {
    if w(t) == 1 {
        match node(t) {
            N::Const(c) => o.push_str(if *c == 1 { "#b1" } else { "#b0" }),
            _ => { o.push_str("(ite "); lit(t, o); o.push_str(" #b1 #b0)"); }
        }
    } else { lit(t, o); }
}

pub struct Script { pub decls: String, pub vars: Vec<u32> }

/// define every node reachable from `roots` that is not yet in `done`
fn emit(roots: &[T], o: &mut String, vars: &mut Vec<u32>, done: &mut std::collections::HashSet<T>) {
    for &r in roots {
        let mut st = vec![(r, false)];
        while let Some((t, d)) = st.pop() {
            if done.contains(&t) { continue; }
            if !d {
                st.push((t, true));
                children(t, &mut |c| st.push((c, false)));
                continue;
            }
            done.insert(t);
            let wd = w(t);
            match node(t).clone() {
                N::Const(_) | N::Wide(_) => continue,
                N::Var(v) => {
                    vars.push(v);
                    if wd == 1 { let _ = writeln!(o, "(declare-const v{} Bool)", v); }
                    else { let _ = writeln!(o, "(declare-const v{} (_ BitVec {}))", v, wd); }
                    continue;
                }
                n => {
                    if wd == 1 { let _ = write!(o, "(define-fun n{} () Bool ", t); }
                    else { let _ = write!(o, "(define-fun n{} () (_ BitVec {}) ", t, wd); }
                    match n {
                        N::Not(a) => { o.push_str(if wd == 1 { "(not " } else { "(bvnot " }); lit(a, o); o.push(')'); }
                        N::Bin(op, a, b) => {
                            let s = if wd == 1 {
                                match op { Op::And => "and", Op::Or => "or", Op::Xor => "xor", _ => panic!("1-bit {:?}", op) }
                            } else {
                                match op {
                                    Op::Add => "bvadd", Op::Sub => "bvsub", Op::Mul => "bvmul", Op::UDiv => "bvudiv", Op::URem => "bvurem",
                                    Op::SDiv => "bvsdiv", Op::SRem => "bvsrem", Op::Shl => "bvshl", Op::LShr => "bvlshr", Op::AShr => "bvashr",
                                    Op::And => "bvand", Op::Or => "bvor", Op::Xor => "bvxor",
                                }
                            };
                            let _ = write!(o, "({} ", s);
                            lit(a, o); o.push(' '); lit(b, o); o.push(')');
                        }
                        N::Cat(p) => {
                            o.push_str("(concat");
                            for &x in p.iter().rev() { o.push(' '); bvlit(x, o); }
                            o.push(')');
                        }
                        N::Ext(a, lo) => {
                            if wd == 1 { let _ = write!(o, "(= ((_ extract {} {}) ", lo, lo); lit(a, o); o.push_str(") #b1)"); }
                            else { let _ = write!(o, "((_ extract {} {}) ", lo + wd - 1, lo); lit(a, o); o.push(')'); }
                        }
                        N::Sext(a) => { let _ = write!(o, "((_ sign_extend {}) ", wd - w(a)); bvlit(a, o); o.push(')'); }
                        N::Bswap(a) => {
                            o.push_str("(concat");
                            for i in 0..wd / 8 { let _ = write!(o, " ((_ extract {} {}) ", 8 * i + 7, 8 * i); lit(a, o); o.push(')'); }
                            o.push(')');
                        }
                        N::Ite(c, a, b) => { o.push_str("(ite "); lit(c, o); o.push(' '); lit(a, o); o.push(' '); lit(b, o); o.push(')'); }
                        N::Eq(a, b) => { o.push_str("(= "); lit(a, o); o.push(' '); lit(b, o); o.push(')'); }
                        N::Ult(a, b) => { o.push_str("(bvult "); bvlit(a, o); o.push(' '); bvlit(b, o); o.push(')'); }
                        N::Slt(a, b) => { o.push_str("(bvslt "); bvlit(a, o); o.push(' '); bvlit(b, o); o.push(')'); }
                        N::Fp(_, _, _) => panic!("fp term reached the solver"),
                        _ => unreachable!(),
                    }
                    o.push_str(")\n");
                }
            }
        }
    }
}

pub fn script(roots: &[T]) -> Script {
    let roots = lower(roots);
    let mut o = String::new();
    let mut vars = Vec::new();
    let mut done: std::collections::HashSet<T> = Default::default();
    emit(&roots, &mut o, &mut vars, &mut done);
    for &r in &roots {
        o.push_str("(assert ");
        lit(r, &mut o);
        o.push_str(")\n");
    }
    Script { decls: o, vars }
}

fn have(bin: &str) -> bool {
    std::env::var("PATH").unwrap_or_default().split(':').any(|d| std::path::Path::new(d).join(bin).exists())
}

struct Job { name: String, child: Child, out: std::path::PathBuf, inp: std::path::PathBuf }

fn tmpdir() -> std::path::PathBuf {
    let d = std::env::var("SYMEX_TMP").unwrap_or_else(|_| "/tmp".into());
    let p = std::path::PathBuf::from(d).join(format!("symex-{}", std::process::id()));
    std::fs::create_dir_all(&p).ok();
    p
}
pub fn cleanup() { let _ = std::fs::remove_dir_all(tmpdir()); }

static mut SEQ: u64 = 0;
fn start(cfg: &str, sc: &Script, timeout: u64, want_model: bool) -> Option<Job> {
    let (bin, args, head, chk): (&str, Vec<String>, &str, &str) = match cfg {
        "z3-som" => ("z3-new", vec![format!("-T:{}", timeout), "-memory:3500".into()], "", "(check-sat-using (then (using-params simplify :som true :som_blowup 4000000000) simplify smt))"),
        "z3" => ("z3-new", vec![format!("-T:{}", timeout), "-memory:3500".into()], "", "(check-sat)"),
        "z3-sat" => ("z3-new", vec![format!("-T:{}", timeout), "-memory:3500".into()], "", "(check-sat-using (then simplify propagate-values solve-eqs elim-uncnstr simplify bit-blast simplify sat))"),
        "z3-old" => ("z3", vec![format!("-T:{}", timeout), "-memory:3500".into()], "", "(check-sat)"),
        "cvc5" => ("cvc5", vec![format!("--tlimit={}", timeout * 1000), "--produce-models".into()], "(set-logic QF_BV)\n", "(check-sat)"),
        "cvc5-int" => ("cvc5", vec![format!("--tlimit={}", timeout * 1000), "--produce-models".into(), "--solve-bv-as-int=sum".into()], "(set-logic ALL)\n", "(check-sat)"),
        _ => return None,
    };
    if !have(bin) { return None; }
    let seq = unsafe { SEQ += 1; SEQ };
    let dir = tmpdir();
    let inp = dir.join(format!("q{}-{}.smt2", seq, cfg));
    let out = dir.join(format!("q{}-{}.out", seq, cfg));
    let mut f = std::io::BufWriter::new(std::fs::File::create(&inp).ok()?);
    f.write_all(head.as_bytes()).ok()?;
    f.write_all(sc.decls.as_bytes()).ok()?;
    writeln!(f, "{}", chk).ok()?;
    if want_model && !sc.vars.is_empty() {
        for ch in sc.vars.chunks(200) {
            write!(f, "(get-value (").ok()?;
            for v in ch { write!(f, "v{} ", v).ok()?; }
            writeln!(f, "))").ok()?;
        }
    }
    f.flush().ok()?;
    drop(f);
    let o = std::fs::File::create(&out).ok()?;
    let child = bound(Command::new(bin).args(&args).arg(&inp)).stdout(o).stderr(Stdio::null()).stdin(Stdio::null()).spawn().ok()?;
    Some(Job { name: cfg.into(), child, out, inp })
}

fn parse(out: &str, vars: &[u32]) -> Option<Res> {
    let mut ls = out.lines();
    let first = loop {
        match ls.next() {
            Some(l) if l.trim().is_empty() => continue,
            Some(l) => break l.trim(),
            None => return None,
        }
    };
    // an (error line before the verdict makes the answer inconclusive
    match first {
        "unsat" => Some(Res::Unsat),
        "sat" => {
            let rest: String = ls.collect::<Vec<_>>().join(" ");
            let mut m = HashMap::new();
            let toks: Vec<&str> = rest.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|s| !s.is_empty()).collect();
            let mut i = 0;
            while i + 1 < toks.len() {
                if let Some(v) = toks[i].strip_prefix('v').and_then(|s| s.parse::<u32>().ok()) {
                    let val = toks[i + 1];
                    let bits = |b: &str| -> Vec<u8> {
                        let mut o = vec![0u8; (b.len() + 7) / 8];
                        for (i, c) in b.bytes().rev().enumerate() { if c == b'1' { o[i / 8] |= 1 << (i % 8); } }
                        o
                    };
                    let x = if let Some(h) = val.strip_prefix("#x") {
                        let b: String = h.chars().map(|c| format!("{:04b}", c.to_digit(16).unwrap_or(0))).collect();
                        Some(bits(&b))
                    } else if let Some(b) = val.strip_prefix("#b") { Some(bits(b)) }
                    else if val == "true" { Some(vec![1]) } else if val == "false" { Some(vec![0]) } else { None };
                    if let Some(x) = x { m.insert(v, x); }
                    i += 2;
                } else { i += 1; }
            }
            let _ = vars;
            Some(Res::Sat(m))
        }
        _ => None,
    }
}

fn run_portfolio(cfgs: &[&str], sc: &Script, timeout: u64, want_model: bool) -> (Res, String) {
    let mut jobs: Vec<Job> = cfgs.iter().filter_map(|c| start(c, sc, timeout, want_model)).collect();
    let t0 = Instant::now();
    let mut result = (Res::Unknown, String::new());
    let mut sleep = 1u64;
    while !jobs.is_empty() {
        let mut i = 0;
        let mut found = false;
        while i < jobs.len() {
            match jobs[i].child.try_wait() {
                Ok(Some(_)) => {
                    let s = std::fs::read_to_string(&jobs[i].out).unwrap_or_default();
                    let j = jobs.remove(i);
                    if let Some(r) = parse(&s, &sc.vars) {
                        if std::env::var("SYMEX_KEEP").is_err() { let _ = std::fs::remove_file(&j.inp); }
                        let _ = std::fs::remove_file(&j.out);
                        result = (r, j.name);
                        found = true;
                        break;
                    }
                    if s.contains("(error") && std::env::var("SYMEX_DEBUG").is_ok() {
                        eprintln!("solver {}: {}", j.name, s.lines().next().unwrap_or(""));
                    }
                    let _ = std::fs::remove_file(&j.out);
                    if std::env::var("SYMEX_KEEP").is_err() { let _ = std::fs::remove_file(&j.inp); }
                }
                _ => i += 1,
            }
        }
        if found { break; }
        if t0.elapsed() > Duration::from_secs(timeout + 5) { break; }
        std::thread::sleep(Duration::from_millis(sleep));
        sleep = (sleep * 2).min(20);
    }
    for mut j in jobs {
        let _ = j.child.kill();
        let _ = j.child.wait();
        let _ = std::fs::remove_file(&j.out);
        if std::env::var("SYMEX_KEEP").is_err() { let _ = std::fs::remove_file(&j.inp); }
    }
    result
}

/// Is the conjunction satisfiable?
pub fn check(roots: &[T], timeout: u64, want_model: bool) -> Res {
    if roots.iter().any(|&r| as_const(r) == Some(0)) { return Res::Unsat; }
    let rs: Vec<T> = roots.iter().copied().filter(|&r| as_const(r).is_none()).collect();
    if rs.is_empty() { return Res::Sat(HashMap::new()); }
    let t0 = Instant::now();
    let sc = script(&rs);
    let first = timeout.min(4);
    let (mut r, mut by) = run_portfolio(&["z3-som"], &sc, timeout.min(1), want_model);
    let mut sc = sc;
    if matches!(r, Res::Unknown) {
        let low = with_poly(|| lower(&rs));
        if low.iter().any(|&x| as_const(x) == Some(0)) { r = Res::Unsat; by = "normal-form".into(); }
        else {
            let low: Vec<T> = low.into_iter().filter(|&x| as_const(x).is_none()).collect();
            if low.is_empty() { r = Res::Sat(HashMap::new()); by = "normal-form".into(); }
            else {
                sc = script(&low);
                let (r1, b1) = run_portfolio(&["z3-som"], &sc, first, want_model);
                r = r1; by = b1;
            }
        }
    }
    if matches!(r, Res::Unknown) && timeout > first {
        let (r2, by2) = run_portfolio(&["z3-som", "z3", "z3-sat", "cvc5"], &sc, timeout, want_model);
        r = r2; by = by2;
    }
    let dt = t0.elapsed().as_secs_f64();
    let s = stats();
    s.queries += 1;
    s.time += dt;
    if dt > s.max_query_s { s.max_query_s = dt; }
    match r { Res::Unsat => s.unsat += 1, Res::Sat(_) => s.sat += 1, Res::Unknown => s.unknown += 1 }
    *s.by.entry(by).or_default() += 1;
    r
}

/// many products of unknowns: normal forms first
fn hard(roots: &[T]) -> bool {
    let mut seen = std::collections::HashSet::new();
    let mut st = roots.to_vec();
    let mut n = 0;
    while let Some(t) = st.pop() {
        if !seen.insert(t) { continue; }
        if let N::Bin(Op::Mul, _, b) = *node(t) { if !is_konst(b) { n += 1; if n > 8 { return true; } } }
        children(t, &mut |c| st.push(c));
    }
    false
}
extern "C" { fn prctl(a: i32, b: u64, c: u64, d: u64, e: u64) -> i32; }
/// the solver goes when the engine goes
fn bound(c: &mut Command) -> &mut Command {
    use std::os::unix::process::CommandExt;
    unsafe { c.pre_exec(|| { prctl(1, 9, 0, 0, 0); Ok(()) }) }
}

/// One long-lived z3 process used for cheap path-feasibility questions.
pub struct Inc {
    child: Option<Child>,
    rd: Option<std::sync::mpsc::Receiver<String>>,
    done: std::collections::HashSet<T>,
    lowered: HashMap<T, T>,
    sent: usize,
    pub queries: u64,
    pub time: f64,
}
impl Inc {
    pub fn new() -> Inc { Inc { child: None, rd: None, done: Default::default(), lowered: Default::default(), sent: 0, queries: 0, time: 0.0 } }
    fn start(&mut self) {
        self.stop();
        let bin = if have("z3-new") { "z3-new" } else { "z3" };
        let mut c = bound(Command::new(bin).args(["-in", "-memory:4000"])).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("start z3");
        let out = c.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            use std::io::BufRead;
            for l in std::io::BufReader::new(out).lines() { match l { Ok(l) => if tx.send(l).is_err() { break }, Err(_) => break } }
        });
        self.rd = Some(rx);
        let _ = c.stdin.as_mut().unwrap().write_all(b"(set-option :timeout 400)\n");
        self.child = Some(c);
        self.done.clear();
        self.sent = 0;
    }
    pub fn stop(&mut self) {
        if let Some(mut c) = self.child.take() { let _ = c.kill(); let _ = c.wait(); }
        self.rd = None;
    }
    /// Some(true)=sat, Some(false)=unsat, None=unknown
    pub fn check(&mut self, roots: &[T]) -> Option<bool> {
        if roots.iter().any(|&r| as_const(r) == Some(0)) { return Some(false); }
        let rs: Vec<T> = roots.iter().copied().filter(|&r| as_const(r).is_none()).collect();
        if rs.is_empty() { return Some(true); }
        let t0 = Instant::now();
        self.queries += 1;
        if self.child.is_none() || self.sent > 60_000_000 { self.start(); }
        let low: Vec<T> = rs.iter().map(|&r| { if let Some(&l) = self.lowered.get(&r) { l } else { let l = lower(&[r])[0]; self.lowered.insert(r, l); l } }).collect();
        if low.iter().any(|&r| as_const(r) == Some(0)) { return Some(false); }
        let low: Vec<T> = low.into_iter().filter(|&r| as_const(r).is_none()).collect();
        if low.is_empty() { return Some(true); }
        if hard(&low) {
            let l2 = with_poly(|| lower(&low));
            if l2.iter().any(|&x| as_const(x) == Some(0)) { *stats().by.entry("normal-form".into()).or_default() += 1; return Some(false); }
            if l2.iter().all(|&x| as_const(x) == Some(1)) { *stats().by.entry("normal-form".into()).or_default() += 1; return Some(true); }
        }
        let mut o = String::new();
        let mut vs = vec![];
        emit(&low, &mut o, &mut vs, &mut self.done);
        // assumptions must be literals: name every root
        o.push_str("(push)\n");
        for &r in &low { o.push_str("(assert "); lit(r, &mut o); o.push_str(")\n"); }
        o.push_str("(check-sat)\n(pop)\n");
        self.sent += o.len();
        let c = self.child.as_mut().unwrap();
        let ok = c.stdin.as_mut().unwrap().write_all(o.as_bytes()).is_ok() && c.stdin.as_mut().unwrap().flush().is_ok();
        let mut r = None;
        if ok {
            match self.rd.as_ref().unwrap().recv_timeout(Duration::from_millis(1200)) {
                Ok(line) => { r = match line.trim() { "sat" => Some(true), "unsat" => Some(false), _ => None }; if line.contains("error") { self.stop(); } }
                Err(_) => self.stop(),
            }
        } else { self.stop(); }
        let dt = t0.elapsed().as_secs_f64();
        if r.is_none() {
            let l2 = with_poly(|| lower(&low));
            if l2.iter().any(|&x| as_const(x) == Some(0)) { r = Some(false); }
            else if l2.iter().all(|&x| as_const(x) == Some(1)) { r = Some(true); }
        }
        self.time += dt;
        let s = stats();
        s.queries += 1; s.time += dt;
        match r { Some(true) => s.sat += 1, Some(false) => s.unsat += 1, None => s.unknown += 1 }
        *s.by.entry("z3-inc".into()).or_default() += 1;
        r
    }
}
