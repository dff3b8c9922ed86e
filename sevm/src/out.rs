//! Serialisation of results: a line format between worker processes, JSON for the driver.
use crate::exec::*;
use std::fmt::Write;

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn esc(s: &str) -> String { hex(s.as_bytes()) }
fn unesc(s: &str) -> String { String::from_utf8(unhex(s)).unwrap() }

pub fn ser(r: &JobResult) -> Vec<u8> {
    let mut o = String::new();
    let s = &r.stats;
    writeln!(o, "N {} {} {} {} {} {} {} {}", r.paths, r.killed, r.forks, r.steps, r.asserts_checked, r.assert_queries, r.complete as u8, r.max_inputs).unwrap();
    writeln!(o, "Q {} {} {} {} {} {} {} {} {} {}", s.z3_queries, s.z3_sat, s.z3_unsat, s.z3_unknown, s.z3_time, s.domain_decided, s.model_hits, s.cache_hits, s.cross_checked, s.max_query_s).unwrap();
    for (k, v) in &r.covers { writeln!(o, "C {k} {v}").unwrap(); }
    for f in &r.funcs { writeln!(o, "F {}", esc(f)).unwrap(); }
    for v in &r.violations { writeln!(o, "V {} {} x{}", esc(&v.kind), esc(&v.detail) + "x", hex(&v.input)).unwrap(); }
    for (k, v) in &r.errors { writeln!(o, "E {} {v}", esc(k)).unwrap(); }
    for p in &r.samples {
        let obs: Vec<String> = p.obs.iter().map(|x| format!("o{}", hex(x))).collect();
        let cov: Vec<String> = p.covers.iter().map(|x| x.to_string()).collect();
        writeln!(o, "S x{} c{} {}", hex(&p.input), cov.join(","), obs.join(" ")).unwrap();
    }
    o.into_bytes()
}
pub fn de(b: &[u8]) -> JobResult {
    let mut r = JobResult::default();
    for l in std::str::from_utf8(b).unwrap().lines() {
        let t: Vec<&str> = l.split(' ').collect();
        let n = |i: usize| t[i].parse::<u64>().unwrap();
        match t[0] {
            "N" => {
                r.paths = n(1); r.killed = n(2); r.forks = n(3); r.steps = n(4); r.asserts_checked = n(5); r.assert_queries = n(6);
                r.complete = n(7) == 1; r.max_inputs = n(8) as u32;
            }
            "Q" => {
                let s = &mut r.stats;
                s.z3_queries = n(1); s.z3_sat = n(2); s.z3_unsat = n(3); s.z3_unknown = n(4); s.z3_time = t[5].parse().unwrap();
                s.domain_decided = n(6); s.model_hits = n(7); s.cache_hits = n(8); s.cross_checked = n(9); s.max_query_s = t[10].parse().unwrap();
            }
            "C" => { r.covers.insert(n(1) as u32, n(2)); }
            "F" => { r.funcs.insert(unesc(t[1])); }
            "V" => r.violations.push(Violation { kind: unesc(t[1]), detail: unesc(t[2].trim_end_matches('x')), input: unhex(&t[3][1..]) }),
            "E" => { r.errors.insert(unesc(t[1]), n(2)); }
            "S" => r.samples.push(PathSample {
                input: unhex(&t[1][1..]),
                covers: t[2][1..].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
                obs: t[3..].iter().filter(|x| !x.is_empty()).map(|x| unhex(&x[1..])).collect(),
            }),
            _ => {}
        }
    }
    r
}
pub fn merge(a: &mut JobResult, b: JobResult, samples: usize) {
    a.paths += b.paths; a.killed += b.killed; a.forks += b.forks; a.steps += b.steps;
    a.asserts_checked += b.asserts_checked; a.assert_queries += b.assert_queries;
    a.max_inputs = a.max_inputs.max(b.max_inputs);
    for (k, v) in b.covers { *a.covers.entry(k).or_insert(0) += v }
    a.funcs.extend(b.funcs);
    a.violations.extend(b.violations);
    for (k, v) in b.errors { *a.errors.entry(k).or_insert(0) += v }
    a.samples.extend(b.samples);
    if a.samples.len() > samples * 8 { a.samples.truncate(samples * 8) }
    let (s, o) = (&mut a.stats, b.stats);
    s.z3_queries += o.z3_queries; s.z3_sat += o.z3_sat; s.z3_unsat += o.z3_unsat; s.z3_unknown += o.z3_unknown; s.z3_time += o.z3_time;
    s.domain_decided += o.domain_decided; s.model_hits += o.model_hits; s.cache_hits += o.cache_hits; s.cross_checked += o.cross_checked;
    if o.max_query_s > s.max_query_s { s.max_query_s = o.max_query_s }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn json(name: &str, param: u32, wall: f64, r: &JobResult) -> String {
    let mut o = String::new();
    let s = &r.stats;
    write!(o, "{{\"harness\":{},\"param\":{param},\"wall_s\":{wall:.3},\"complete\":{},\"paths\":{},\"killed\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"assert_queries\":{},\"max_inputs\":{}",
        js(name), r.complete && r.errors.is_empty(), r.paths, r.killed, r.forks, r.steps, r.asserts_checked, r.assert_queries, r.max_inputs).unwrap();
    write!(o, ",\"z3_queries\":{},\"z3_sat\":{},\"z3_unsat\":{},\"z3_unknown\":{},\"z3_time_s\":{:.3},\"domain_decided\":{},\"model_hits\":{},\"cache_hits\":{},\"cross_checked\":{},\"max_query_s\":{:.3}",
        s.z3_queries, s.z3_sat, s.z3_unsat, s.z3_unknown, s.z3_time, s.domain_decided, s.model_hits, s.cache_hits, s.cross_checked, s.max_query_s).unwrap();
    let c: Vec<String> = r.covers.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    write!(o, ",\"covers\":{{{}}}", c.join(",")).unwrap();
    let e: Vec<String> = r.errors.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect();
    write!(o, ",\"errors\":{{{}}}", e.join(",")).unwrap();
    let v: Vec<String> = r.violations.iter().map(|v| format!("{{\"kind\":{},\"detail\":{},\"input\":\"{}\"}}", js(&v.kind), js(&v.detail), hex(&v.input))).collect();
    write!(o, ",\"violations\":[{}]", v.join(",")).unwrap();
    let p: Vec<String> = r.samples.iter().map(|p| {
        let ob: Vec<String> = p.obs.iter().map(|x| format!("\"{}\"", hex(x))).collect();
        let mut cv = p.covers.clone();
        cv.sort();
        let cv: Vec<String> = cv.iter().map(|x| x.to_string()).collect();
        format!("{{\"input\":\"{}\",\"obs\":[{}],\"covers\":[{}]}}", hex(&p.input), ob.join(","), cv.join(","))
    }).collect();
    write!(o, ",\"samples\":[{}]", p.join(",")).unwrap();
    let f: Vec<String> = r.funcs.iter().map(|f| js(f)).collect();
    write!(o, ",\"funcs\":[{}]}}", f.join(",")).unwrap();
    o
}
