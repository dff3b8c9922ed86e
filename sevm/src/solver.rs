//! Minimal FFI to libz3 and the feasibility layer (slicing, model reuse, query cache).
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error: {:?}", m);
    }
    std::process::exit(3);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat { Sat, Unsat, Unknown }

#[derive(Default, Clone)]
pub struct Stats {
    pub z3_queries: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_unknown: u64,
    pub z3_time: f64,
    pub domain_decided: u64,
    pub model_hits: u64,
    pub cache_hits: u64,
    pub cross_checked: u64,
    pub max_query_s: f64,
}

pub struct Solver {
    c: P,
    s: P,
    cache: HashMap<E, P>,
    pub stats: Stats,
    qcache: HashMap<Vec<E>, Option<Vec<(u32, u8)>>>,
    vars: Vec<P>,
    pub cross_check: f64,
    xtime: f64,
    t0: Instant,
}

/// What is known about one path: its constraints, the per-byte domains they imply,
/// and a concrete assignment satisfying all of them.
#[derive(Clone)]
pub struct Path {
    pub cons: Vec<E>,
    pub dom: Vec<[u64; 4]>,
    pub multi: Vec<bool>,
    pub model: Vec<u8>,
}

pub const FULL: [u64; 4] = [u64::MAX; 4];
impl Path {
    pub fn new() -> Path { Path { cons: vec![], dom: vec![], multi: vec![], model: vec![] } }
    pub fn ensure(&mut self, n: u32) {
        while self.dom.len() < n as usize { self.dom.push(FULL); self.multi.push(false); self.model.push(0); }
    }
    /// Adds a constraint known to be consistent with `model`.
    pub fn add(&mut self, cx: &mut Ctx, e: E) {
        if cx.cv(e).is_some() { return }
        let n = cx.n(e);
        if n.k == K::And && n.w == 1 { self.add(cx, n.a); self.add(cx, n.b); return }
        let s = cx.sup[e as usize];
        if s == MULTI {
            if self.cons.contains(&e) { return }
            for &v in cx.support(e).iter() { self.ensure(v + 1); self.multi[v as usize] = true; }
            self.cons.push(e);
        } else {
            self.ensure(s);
            let m = cx.mask_of(e);
            let d = &mut self.dom[s as usize - 1];
            let mut ch = false;
            for i in 0..4 { let x = d[i] & m[i]; if x != d[i] { ch = true; d[i] = x } }
            if ch { self.cons.push(e); }
        }
    }
}

fn pick(d: &[u64; 4]) -> Option<u8> {
    // prefer printable values: they make readable counterexamples
    for r in [(0x61u32, 0x7bu32), (0x30, 0x3a), (0x20, 0x7f), (0, 256)] {
        for x in r.0..r.1 { if d[(x / 64) as usize] >> (x % 64) & 1 == 1 { return Some(x as u8) } }
    }
    None
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let c = Z3_mk_context_rc(Z3_mk_config());
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, b"QF_BV\0".as_ptr() as _));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            if std::env::var("NOTO").is_err() { Z3_solver_set_params(c, s, p); }
            Solver { c, s, cache: HashMap::new(), stats: Stats::default(), qcache: HashMap::new(), vars: vec![], cross_check: 0.0, xtime: 0.0, t0: Instant::now() }
        }
    }
    fn var(&mut self, i: u32) -> P {
        while self.vars.len() <= i as usize {
            let n = CString::new(format!("b{}", self.vars.len())).unwrap();
            unsafe {
                let a = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bv_sort(self.c, 8));
                Z3_inc_ref(self.c, a);
                self.vars.push(a);
            }
        }
        self.vars[i as usize]
    }
    fn bv(&mut self, cx: &Ctx, e: E) -> P {
        let a = self.cache[&e];
        if cx.w(e) == 1 {
            unsafe {
                let s = Z3_mk_bv_sort(self.c, 1);
                let one = Z3_mk_numeral(self.c, b"1\0".as_ptr() as _, s);
                Z3_inc_ref(self.c, one);
                let zero = Z3_mk_numeral(self.c, b"0\0".as_ptr() as _, s);
                Z3_inc_ref(self.c, zero);
                let r = Z3_mk_ite(self.c, a, one, zero);
                Z3_inc_ref(self.c, r);
                r
            }
        } else { a }
    }
    fn tr(&mut self, cx: &Ctx, root: E) -> P {
        let mut st = vec![(root, false)];
        while let Some((e, ready)) = st.pop() {
            if self.cache.contains_key(&e) { continue }
            let n = cx.n(e);
            if !ready {
                st.push((e, true));
                match n.k {
                    K::Const | K::Var => {}
                    K::Extract | K::ZExt | K::SExt | K::Not => st.push((n.a, false)),
                    K::Ite => { st.push((n.a, false)); st.push((n.b, false)); st.push((n.c, false)) }
                    _ => { st.push((n.a, false)); st.push((n.b, false)) }
                }
                continue;
            }
            let c = self.c;
            let w = n.w as u32;
            let r = unsafe {
                match n.k {
                    K::Const => {
                        if w == 1 { if n.v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } }
                        else {
                            let t = CString::new(n.v.to_string()).unwrap();
                            Z3_mk_numeral(c, t.as_ptr(), Z3_mk_bv_sort(c, w))
                        }
                    }
                    K::Var => self.var(n.a),
                    _ => {
                        let ra = self.cache[&n.a];
                        let rb = match n.k { K::Extract | K::ZExt | K::SExt | K::Not => ra, _ => self.cache[&n.b] };
                        let bool_ops = w == 1;
                        match n.k {
                            K::Not => if bool_ops { Z3_mk_not(c, ra) } else { Z3_mk_bvnot(c, ra) },
                            K::And => if bool_ops { Z3_mk_and(c, 2, [ra, rb].as_ptr()) } else { Z3_mk_bvand(c, ra, rb) },
                            K::Or => if bool_ops { Z3_mk_or(c, 2, [ra, rb].as_ptr()) } else { Z3_mk_bvor(c, ra, rb) },
                            K::Xor => if bool_ops { Z3_mk_xor(c, ra, rb) } else { Z3_mk_bvxor(c, ra, rb) },
                            K::Add => Z3_mk_bvadd(c, ra, rb),
                            K::Sub => Z3_mk_bvsub(c, ra, rb),
                            K::Mul => { let (x, y) = (self.bv(cx, n.a), self.bv(cx, n.b)); Z3_mk_bvmul(c, x, y) }
                            K::UDiv => Z3_mk_bvudiv(c, ra, rb),
                            K::SDiv => Z3_mk_bvsdiv(c, ra, rb),
                            K::URem => Z3_mk_bvurem(c, ra, rb),
                            K::SRem => Z3_mk_bvsrem(c, ra, rb),
                            K::Shl => Z3_mk_bvshl(c, ra, rb),
                            K::LShr => Z3_mk_bvlshr(c, ra, rb),
                            K::AShr => Z3_mk_bvashr(c, ra, rb),
                            K::Eq => Z3_mk_eq(c, ra, rb),
                            K::Ult => Z3_mk_bvult(c, ra, rb),
                            K::Ule => Z3_mk_bvule(c, ra, rb),
                            K::Slt => Z3_mk_bvslt(c, ra, rb),
                            K::Sle => Z3_mk_bvsle(c, ra, rb),
                            K::Ite => { let rc = self.cache[&n.c]; Z3_mk_ite(c, ra, rb, rc) }
                            K::Concat => { let (x, y) = (self.bv(cx, n.a), self.bv(cx, n.b)); Z3_mk_concat(c, x, y) }
                            K::Extract => {
                                let x = Z3_mk_extract(c, n.b + w - 1, n.b, ra);
                                if w == 1 {
                                    Z3_inc_ref(c, x);
                                    let one = Z3_mk_numeral(c, b"1\0".as_ptr() as _, Z3_mk_bv_sort(c, 1));
                                    Z3_inc_ref(c, one);
                                    Z3_mk_eq(c, x, one)
                                } else { x }
                            }
                            K::ZExt => { let x = self.bv(cx, n.a); Z3_mk_zero_ext(c, w - cx.w(n.a), x) }
                            K::SExt => { let x = self.bv(cx, n.a); Z3_mk_sign_ext(c, w - cx.w(n.a), x) }
                            K::Const | K::Var => unreachable!(),
                        }
                    }
                }
            };
            unsafe { Z3_inc_ref(self.c, r) };
            self.cache.insert(e, r);
        }
        self.cache[&root]
    }

    /// Is the conjunction satisfiable? On sat, the values of the bytes in `vars`.
    fn z3(&mut self, cx: &Ctx, cons: &[E], vars: &[u32]) -> (Sat, Vec<(u32, u8)>) {
        let t = Instant::now();
        self.stats.z3_queries += 1;
        let asts: Vec<P> = cons.iter().map(|&e| self.tr(cx, e)).collect();
        let mut out = vec![];
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for a in asts { Z3_solver_assert(self.c, self.s, a) }
            let r = Z3_solver_check(self.c, self.s);
            if r == 1 {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                for &v in vars {
                    let a = self.var(v);
                    let mut o: P = std::ptr::null_mut();
                    Z3_model_eval(self.c, m, a, true, &mut o);
                    Z3_inc_ref(self.c, o);
                    let mut x = 0u64;
                    Z3_get_numeral_uint64(self.c, o, &mut x);
                    out.push((v, x as u8));
                }
                Z3_model_dec_ref(self.c, m);
            }
            if t.elapsed().as_secs_f64() > 0.3 { if let Ok(d) = std::env::var("SEVM_SMT2") {
                let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                std::fs::write(format!("{d}/q{}.smt2", self.stats.z3_queries), format!("(set-logic QF_BV)\n{s}\n(check-sat)\n")).unwrap();
            } }
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        let dt = t.elapsed().as_secs_f64();
        if dt > std::env::var("SEVM_DUMP").ok().and_then(|s| s.parse().ok()).unwrap_or(2.0) && std::env::var("SEVM_DUMP").is_ok() {
            eprintln!("slow query {dt:.1}s: {} constraints", cons.len());
            for &c in cons { eprintln!("   {}", crate::exec::show(cx, c, 6)); }
        }
        self.stats.z3_time += dt;
        if dt > self.stats.max_query_s { self.stats.max_query_s = dt }
        match r {
            1 => { self.stats.z3_sat += 1; (Sat::Sat, out) }
            -1 => { self.stats.z3_unsat += 1; (Sat::Unsat, out) }
            _ => { self.stats.z3_unknown += 1; (Sat::Unknown, out) }
        }
    }

    /// Is `path /\ e` satisfiable? On sat returns a model.
    pub fn feasible(&mut self, cx: &mut Ctx, path: &Path, e: E) -> (Sat, Option<Vec<u8>>) {
        if let Some(v) = cx.cv(e) { return if v == 1 { (Sat::Sat, Some(path.model.clone())) } else { (Sat::Unsat, None) } }
        if cx.eval(e, &path.model) == 1 { self.stats.model_hits += 1; return (Sat::Sat, Some(path.model.clone())) }
        let s = cx.sup[e as usize];
        if s != MULTI {
            let v = s as usize - 1;
            let m = cx.mask_of(e);
            let d = path.dom.get(v).copied().unwrap_or(FULL);
            let r = [d[0] & m[0], d[1] & m[1], d[2] & m[2], d[3] & m[3]];
            if r == [0; 4] {
                self.stats.domain_decided += 1;
                self.xcheck(cx, path, e);
                return (Sat::Unsat, None);
            }
            if !path.multi.get(v).copied().unwrap_or(false) {
                self.stats.domain_decided += 1;
                let mut model = path.model.clone();
                while model.len() <= v { model.push(0) }
                model[v] = pick(&r).unwrap();
                return (Sat::Sat, Some(model));
            }
        }
        // slice
        let mut vars: HashSet<u32> = cx.support(e).iter().copied().collect();
        let mut used = vec![false; path.cons.len()];
        let sups: Vec<_> = path.cons.iter().map(|&c| cx.support(c)).collect();
        loop {
            let mut ch = false;
            for (i, s) in sups.iter().enumerate() {
                if !used[i] && s.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    for &v in s.iter() { if vars.insert(v) { ch = true } }
                }
            }
            if !ch { break }
        }
        let mut cons: Vec<E> = path.cons.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, &c)| c).collect();
        cons.push(e);
        let mut key = cons.clone();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.qcache.get(&key) {
            self.stats.cache_hits += 1;
            return match r {
                None => (Sat::Unsat, None),
                Some(a) => {
                    let mut model = path.model.clone();
                    for &(v, x) in a { while model.len() <= v as usize { model.push(0) } model[v as usize] = x; }
                    (Sat::Sat, Some(model))
                }
            };
        }
        let mut vs: Vec<u32> = vars.into_iter().collect();
        vs.sort_unstable();
        // often the current assignment with one byte changed will do
        let near: Vec<u32> = cx.support(e).iter().copied().collect();
        if near.len() <= 4 {
            let mut model = path.model.clone();
            for &v in near.iter().rev() {
                while model.len() <= v as usize { model.push(0) }
                let d = path.dom.get(v as usize).copied().unwrap_or(FULL);
                let old = model[v as usize];
                for x in 0..=255u8 {
                    if d[(x / 64) as usize] >> (x % 64) & 1 == 0 || x == old { continue }
                    model[v as usize] = x;
                    if cx.eval(e, &model) == 1 && cons.iter().all(|&c| cx.eval(c, &model) == 1) {
                        self.stats.model_hits += 1;
                        return (Sat::Sat, Some(model));
                    }
                }
                model[v as usize] = old;
            }
        }
        let (r, asg) = self.z3(cx, &cons, &vs);
        match r {
            Sat::Sat => {
                let mut model = path.model.clone();
                for &(v, x) in &asg { while model.len() <= v as usize { model.push(0) } model[v as usize] = x; }
                // a wrong model would make every later decision wrong: check it
                for &c in &cons { assert_eq!(cx.eval(c, &model), 1, "z3 model does not satisfy {}", crate::exec::show(cx, c, 8)); }
                self.qcache.insert(key, Some(asg));
                (Sat::Sat, Some(model))
            }
            Sat::Unsat => { self.qcache.insert(key, None); (Sat::Unsat, None) }
            Sat::Unknown => (Sat::Unknown, None),
        }
    }

    /// Re-decides with z3 what the byte-domain layer found impossible, each distinct question once,
    /// within the given share of the running time.
    fn xcheck(&mut self, cx: &mut Ctx, path: &Path, e: E) {
        if self.cross_check <= 0.0 || self.xtime > self.cross_check * self.t0.elapsed().as_secs_f64() + 0.5 { return }
        let v = cx.sup[e as usize];
        let mut cons: Vec<E> = path.cons.iter().copied().filter(|&c| cx.sup[c as usize] == v).collect();
        cons.push(e);
        let mut key = cons.clone();
        key.sort_unstable();
        key.dedup();
        if self.qcache.contains_key(&key) { return }
        let t = Instant::now();
        let (r, _) = self.z3(cx, &cons, &[v - 1]);
        self.xtime += t.elapsed().as_secs_f64();
        self.stats.cross_checked += 1;
        assert!(r != Sat::Sat, "byte-domain layer disagrees with z3 on {}", crate::exec::show(cx, e, 8));
        self.qcache.insert(key, None);
    }
}
