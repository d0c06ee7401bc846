mod exec;
mod ir;
mod mem;
mod poly;
mod solver;
mod term;
use std::time::{Duration, Instant};

fn main() {
    // deep recursion in term construction: run on a big stack
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => {} c => o.push(c) } }
    o.push('"');
    o
}

fn real() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let ll = get("--ll").expect("--ll FILE");
    let entry = get("--entry").expect("--entry NAME");
    let timeout: u64 = get("--timeout").map(|x| x.parse().unwrap()).unwrap_or(60);
    let wall: u64 = get("--wall").map(|x| x.parse().unwrap()).unwrap_or(3600);
    let t0 = Instant::now();
    term::set_heavy(a.iter().any(|x| x == "--cancel"));
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&ll)));
    let mut ex = exec::Exec::new(m);
    ex.timeout = timeout;
    std::thread::spawn(move || { std::thread::sleep(Duration::from_secs(wall + 10)); eprintln!("wall limit"); std::process::exit(3); });
    ex.deadline = t0 + Duration::from_secs(wall);
    if let Some(s) = get("--concrete") { let v: u64 = s.parse().unwrap(); ex.concrete = Some(v.to_le_bytes().to_vec()); }
    if let Some(f) = get("--replay") { ex.set_replay(&std::fs::read_to_string(f).unwrap()); }
    if let Some(n) = get("--max-viol") { ex.max_viol = n.parse().unwrap(); }
    let st = ex.init_state(&entry);
    let mut budget = u64::MAX / 2;
    ex.explore(st, None, &mut budget, &mut vec![]);
    ex.inc.stop();
    solver::cleanup();
    let r = &ex.rep;
    let s = solver::stats();
    let code = if !r.violations.is_empty() { 1 } else if !r.unknown.is_empty() || !r.unsupported.is_empty() { 2 } else { 0 };
    let mut o = String::from("{");
    let mut kv = |k: &str, v: String| { if o.len() > 1 { o.push(','); } o.push_str(&format!("\n\"{}\": {}", k, v)); };
    kv("entry", js(&entry));
    kv("code", code.to_string());
    kv("paths", r.paths.to_string());
    kv("insts", r.insts.to_string());
    kv("forks", r.forks.to_string());
    kv("merges", r.merges.to_string());
    kv("cuts", r.cuts.to_string());
    kv("asserts", r.asserts_total.to_string());
    kv("asserts_by_rewriting", r.asserts_folded.to_string());
    kv("asserts_by_solver", r.asserts_solver.to_string());
    kv("panics_refuted", r.panics_refuted.to_string());
    kv("assert_ids", format!("{{{}}}", r.assert_ids.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")));
    kv("reach", format!("{{{}}}", r.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")));
    kv("queries", s.queries.to_string());
    kv("unsat", s.unsat.to_string());
    kv("sat", s.sat.to_string());
    kv("unknown_q", s.unknown.to_string());
    kv("solver_s", format!("{:.3}", s.time));
    kv("max_query_s", format!("{:.3}", s.max_query_s));
    kv("by", format!("{{{}}}", s.by.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
    kv("unknown", format!("[{}]", r.unknown.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")));
    kv("unsupported", format!("[{}]", r.unsupported.iter().take(5).map(|x| js(x)).collect::<Vec<_>>().join(",")));
    kv("violations", format!("[{}]", r.violations.iter().map(|v| format!("{{\"what\":{},\"id\":{},\"model\":{}}}", js(&v.what), v.id.map(|x| x.to_string()).unwrap_or("null".into()), js(&v.model))).collect::<Vec<_>>().join(",")));
    let mut fs: Vec<_> = r.funcs.iter().filter(|(n, _)| n.contains("iris_mpc") || n.contains("plain_reference") || n.contains("mpc_net")).map(|(n, c)| format!("{}:{}", js(n), c)).collect();
    fs.sort();
    kv("functions", format!("{{{}}}", fs.join(",")));
    kv("nfuncs", r.funcs.len().to_string());
    kv("notes", js(&r.notes.iter().map(|b| format!("{:02x}", b)).collect::<String>()));
    kv("wall_s", format!("{:.3}", t0.elapsed().as_secs_f64()));
    o.push_str("\n}\n");
    match get("--out") { Some(f) => std::fs::write(f, o).unwrap(), None => print!("{}", o) }
    code
}
