//! sevm: bounded symbolic execution of rustc's LLVM IR, decided with z3.
//!
//!   sevm IR.ll OUT.json [options] entry:param [entry:param ...]
mod exec;
mod expr;
mod ir;
mod out;
mod solver;
use std::time::Instant;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut time_limit = 60.0;
    let mut jobs = 1usize;
    let mut samples = 4usize;
    let mut query_ms = 20000u32;
    let mut max_viol = 4usize;
    let mut slow_ms = None;
    let mut max_steps = 200_000_000u64;
    let mut cross = 0.0;
    let mut seed = 1u64;
    let mut total = 1e9;
    let mut grace = 1e9;
    let mut known: Vec<String> = vec![];
    let mut list = vec![];
    let mut i = 3;
    while i < a.len() {
        let n = |i: usize| a[i + 1].parse::<f64>().expect("number");
        match a[i].as_str() {
            "--time" => { time_limit = n(i); i += 1 }
            "--jobs" => { jobs = n(i) as usize; i += 1 }
            "--samples" => { samples = n(i) as usize; i += 1 }
            "--grace" => { grace = n(i); i += 1 }
            "--known" => { known.push(a[i + 1].clone()); i += 1 }
            "--total" => { total = n(i); i += 1 }
            "--query-ms" => { query_ms = n(i) as u32; i += 1 }
            "--max-viol" => { max_viol = n(i) as usize; i += 1 }
            "--max-steps" => { max_steps = n(i) as u64; i += 1 }
            "--slow-ms" => { slow_ms = Some(n(i) as u64); i += 1 }
            "--seed" => { seed = n(i) as u64; i += 1 }
            "--cross-check" => { cross = n(i); i += 1 }
            s => list.push(s.to_string()),
        }
        i += 1;
    }
    let t = Instant::now();
    let t_all = t;
    let l = exec::load(&a[1]);
    eprintln!("loaded {} functions, {} globals in {:.2}s", l.m.func_lines.len(), l.m.globals.len(), t.elapsed().as_secs_f64());
    let mut outs = vec![];
    for s in &list {
        let (name, p) = s.split_once(':').map(|(n, p)| (n, p.parse().expect("param"))).unwrap_or((s, 0u32));
        let t = Instant::now();
        let left = total - t_all.elapsed().as_secs_f64();
        if left < 1.0 { eprintln!("no time left for {s}"); continue }
        let time_limit = f64::min(time_limit, left);
        let ex = exec::Exec::new(&l, exec::Opts {
            time_limit, max_steps, alloc_limit: 1 << 20, jobs, samples, query_ms, max_viol, cross_check: cross, shuffle: seed, slow_ms,
            grace: if known.iter().any(|k| k == name) { 1e9 } else { grace },
        });
        let r = ex.run(name, p);
        let w = t.elapsed().as_secs_f64();
        eprintln!("{name}:{p}: complete={} paths={} killed={} steps={} z3={} ({:.1}s) dom={} viol={} errs={} wall={:.2}s",
            r.complete && r.errors.is_empty(), r.paths, r.killed, r.steps, r.stats.z3_queries, r.stats.z3_time, r.stats.domain_decided, r.violations.len(), r.errors.len(), w);
        for (k, v) in r.errors.iter().take(5) { eprintln!("   error x{v}: {k}"); }
        for v in r.violations.iter().take(12) { eprintln!("   violation {} {} input={}  {:?}", v.kind, v.detail, out::hex(&v.input), String::from_utf8_lossy(&v.input)); }
        outs.push(out::json(name, p, w, &r));
        if grace < 1e6 && !r.violations.is_empty() && !known.iter().any(|k| k == name) { eprintln!("stopping: there is a counterexample"); break }
    }
    std::fs::write(&a[2], format!("[{}]\n", outs.join(",\n"))).expect("write output");
}
