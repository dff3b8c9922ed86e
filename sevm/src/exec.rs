//! Path-based symbolic execution of LLVM IR functions.
use crate::expr::*;
use crate::ir::{self, *};
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

pub fn show(cx: &Ctx, e: E, d: u32) -> String {
    let n = cx.n(e);
    match n.k {
        K::Const => format!("{}:{}", n.v, n.w),
        K::Var => format!("b{}", n.a),
        _ if d == 0 => "…".into(),
        K::Extract => format!("{}[{}+:{}]", show(cx, n.a, d - 1), n.b, n.w),
        K::ZExt | K::SExt | K::Not => format!("{:?}{}({})", n.k, n.w, show(cx, n.a, d - 1)),
        K::Ite => format!("Ite({}, {}, {})", show(cx, n.a, d - 1), show(cx, n.b, d - 1), show(cx, n.c, d - 1)),
        _ => format!("{:?}({}, {})", n.k, show(cx, n.a, d - 1), show(cx, n.b, d - 1)),
    }
}

#[derive(Clone, Debug)]
pub enum V { C(u128), E(E), U, A(Rc<Vec<V>>) }

pub const SYM_CONC: u32 = 0;
pub const SYM_UNDEF: u32 = u32::MAX;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Vec<u32>>, pub ro: bool }

/// Expressions over one byte deeper than this are replaced by tables.
const DEEP: u16 = 32;
const BASE_OFF: u64 = 0x1_0000;
const HEAP_ID0: u32 = 1 << 24;
const FN_BIT: u64 = 1 << 62;

/// The size of the number that the function formats.
fn number_fmt(name: &str) -> Option<u64> {
    let s = name.strip_suffix("7Display3fmt").or_else(|| name.strip_suffix("5Debug3fmt"))?;
    let s = &s[s.find("4core3fmt3num")? + 13..];
    match s.strip_prefix("3imp").unwrap_or(s).as_bytes()[0] { b't' | b's' => Some(2), b'm' | b'l' => Some(4), b'y' | b'j' | b'x' | b'i' => Some(8), b'o' | b'n' => Some(16), _ => None }
}
fn obj_addr(id: u32) -> u64 { ((id as u64) << 32) | BASE_OFF }

#[derive(Clone)]
pub struct Frame {
    func: Rc<Func>,
    regs: Vec<V>,
    block: u32,
    ip: usize,
    allocas: Vec<u32>,
    dst: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    objs: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    gmod: Vec<(u32, Rc<Obj>)>,
    pub path: Path,
    nin: u32,
    steps: u64,
    forks: u32,
    covers: Vec<u32>,
    obs: Vec<Vec<(u8, u32)>>,
    heap: u64,
    heap_total: u64,
    alloc_limit: u64,
    /// numbers print as arbitrary digits (a single one), where nothing depends on the text
    opaque_numbers: bool,
    asserts: u32,
}

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub detail: String, pub input: Vec<u8> }

#[derive(Clone, Debug)]
pub struct PathSample { pub input: Vec<u8>, pub obs: Vec<Vec<u8>>, pub covers: Vec<u32> }

#[derive(Default, Clone)]
pub struct JobResult {
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts_checked: u64,
    pub assert_queries: u64,
    pub covers: BTreeMap<u32, u64>,
    pub funcs: BTreeSet<String>,
    pub violations: Vec<Violation>,
    pub errors: BTreeMap<String, u64>,
    pub samples: Vec<PathSample>,
    pub stats: Stats,
    pub complete: bool,
    pub max_inputs: u32,
}

pub struct Opts {
    pub time_limit: f64,
    pub max_steps: u64,
    pub alloc_limit: u64,
    pub jobs: usize,
    pub samples: usize,
    pub query_ms: u32,
    pub max_viol: usize,
    pub slow_ms: Option<u64>,
    pub cross_check: f64,
    /// Seconds to go on for after a first counterexample.
    pub grace: f64,
    pub shuffle: u64,
}

enum Flow { Go, Done, Kill }
type R<T> = Result<T, Stop>;
enum Stop {
    /// the path ends here without judgement (assumption failed)
    Kill,
    /// something the engine cannot do: the job is incomplete
    Err(String),
    Viol(String, String),
}

pub struct Exec {
    pub m: Rc<Module>,
    fns: HashMap<Rc<str>, Rc<Func>>,
    addr_fn: Rc<HashMap<u64, Rc<str>>>,
    globals: Rc<Vec<Rc<Obj>>>,
    pub cx: Ctx,
    pub sol: Solver,
    work: Vec<State>,
    pub res: JobResult,
    opts: Opts,
    t0: Instant,
    targets: HashMap<Rc<str>, Target>,
    viol_keys: BTreeMap<String, u32>,
    /// When to stop, in ms since t0, shared among workers.
    deadline: &'static std::sync::atomic::AtomicU64,
    rng: u64,
    maxes: HashMap<(E, [u64; 4]), u128>,
    tables: HashMap<(E, [u64; 4]), V>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Target { Def, Panic, Builtin(B), Unknown }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum B {
    Nop, Memcpy, Memset, Bcmp, Memcmp, Malloc, Calloc, Realloc, Free, PosixMemalign, Abort, SymBytes, SymAssume, SymAssert,
    SymCover, SymObserve, SymAllocLimit, SymFork, SymOpaque, Fshl, Fshr, UMax, UMin, SMax, SMin, AddO, SubO, MulO, SAddO, SSubO, SMulO, USubSat, UAddSat,
    SSubSat, SAddSat, Ctpop, Cttz, Ctlz, Bswap, BitRev, Abs, UCmp, SCmp, IsConst, Ident, RetZero, Strlen,
}

fn is_panic_name(n: &str) -> bool {
    if n.contains("16slice_error_fail") { return true }
    for key in ["4core9panicking", "5alloc5alloc18handle_alloc_error"] {
        if let Some(p) = n.find(key) {
            let pre = &n[..p];
            if pre.starts_with("_ZN") && pre.len() <= 4 { return true }
            if let Some(r) = pre.strip_prefix("_R") {
                // (I)?N[vt]...C<crate-disambiguator>_
                if let Some(c) = r.find('C') {
                    if r[..c].bytes().all(|b| matches!(b, b'I' | b'N' | b'v' | b't')) && !r[c + 1..].contains('N') || (r[..c].bytes().all(|b| matches!(b, b'I' | b'N' | b'v' | b't')) && r[c..].matches('_').count() == 1) { return true }
                }
            }
        }
    }
    false
}

fn builtin(n: &str) -> Option<B> {
    if let Some(r) = n.strip_prefix("llvm.") {
        let pre = |p: &str| r.starts_with(p);
        return Some(
            if pre("lifetime") || pre("experimental.noalias") || pre("assume") || pre("x86.sse2.pause") || pre("dbg") || pre("donothing") || pre("prefetch") || pre("sideeffect") || pre("fake.use") { B::Nop }
            else if pre("memcpy") || pre("memmove") { B::Memcpy }
            else if pre("memset") { B::Memset }
            else if pre("trap") || pre("ubsantrap") { B::Abort }
            else if pre("fshl") { B::Fshl } else if pre("fshr") { B::Fshr }
            else if pre("umax") { B::UMax } else if pre("umin") { B::UMin } else if pre("smax") { B::SMax } else if pre("smin") { B::SMin }
            else if pre("uadd.with") { B::AddO } else if pre("usub.with") { B::SubO } else if pre("umul.with") { B::MulO }
            else if pre("sadd.with") { B::SAddO } else if pre("ssub.with") { B::SSubO } else if pre("smul.with") { B::SMulO }
            else if pre("usub.sat") { B::USubSat } else if pre("uadd.sat") { B::UAddSat }
            else if pre("ssub.sat") { B::SSubSat } else if pre("sadd.sat") { B::SAddSat }
            else if pre("ctpop") { B::Ctpop } else if pre("cttz") { B::Cttz } else if pre("ctlz") { B::Ctlz }
            else if pre("bswap") { B::Bswap } else if pre("bitreverse") { B::BitRev } else if pre("abs") { B::Abs }
            else if pre("ucmp") { B::UCmp } else if pre("scmp") { B::SCmp }
            else if pre("is.constant") { B::IsConst }
            else if pre("threadlocal.address") || pre("expect") || pre("launder") || pre("strip") || pre("ssa.copy") { B::Ident }
            else { return None },
        );
    }
    Some(match n {
        "memcpy" | "memmove" => B::Memcpy,
        "memset" => B::Memset,
        "bcmp" => B::Bcmp,
        "memcmp" => B::Memcmp,
        "malloc" => B::Malloc,
        "calloc" => B::Calloc,
        "realloc" => B::Realloc,
        "free" => B::Free,
        "posix_memalign" => B::PosixMemalign,
        "abort" => B::Abort,
        "strlen" => B::Strlen,
        "sym_bytes" => B::SymBytes,
        "sym_assume" => B::SymAssume,
        "sym_assert" => B::SymAssert,
        "sym_cover" => B::SymCover,
        "sym_observe" => B::SymObserve,
        "sym_alloc_limit" => B::SymAllocLimit,
        "sym_fork" => B::SymFork,
        "sym_opaque_numbers" => B::SymOpaque,
        _ => return None,
    })
}

pub struct Loaded { pub m: Rc<Module>, globals: Rc<Vec<Rc<Obj>>>, addr_fn: Rc<HashMap<u64, Rc<str>>> }

pub fn load(path: &str) -> Loaded {
    let mut m = Module::load(path);
    let mut addr_fn = HashMap::new();
    let mut k = 1u64;
    let mut names: Vec<String> = m.func_lines.keys().cloned().collect();
    names.extend(m.declared.iter().cloned());
    names.sort();
    for n in names {
        let a = FN_BIT | (k * 16);
        k += 1;
        m.addr.insert(n.clone(), a);
        addr_fn.insert(a, n.as_str().into());
    }
    for l in &m.lines { if l.starts_with("declare extern_weak") { /* weak symbols are absent */
        let at = l.find('@').unwrap(); let e = l[at..].find('(').unwrap() + at; m.addr.insert(l[at + 1..e].to_string(), 0); } }
    for (i, g) in m.globals.iter().enumerate() { m.addr.insert(g.name.clone(), obj_addr(i as u32 + 1)); }
    let al = m.aliases.clone();
    for (n, c) in al {
        if let Const::Global(g, o) = c { let a = m.addr[&g].wrapping_add(o as u64); m.addr.insert(n, a); }
    }
    let mut globals = vec![];
    for g in &m.globals {
        let sz = g.ty.size() as usize;
        let mut data = vec![0u8; sz];
        if let Some(c) = &g.init { fill(&m, &mut data, 0, &g.ty, c); }
        globals.push(Rc::new(Obj { data, sym: None, ro: g.constant }));
    }
    Loaded { m: Rc::new(m), globals: Rc::new(globals), addr_fn: Rc::new(addr_fn) }
}

fn fill(m: &Module, d: &mut [u8], off: usize, ty: &Ty, c: &Const) {
    match c {
        Const::Int(w, v) => { let n = ((*w as usize) + 7) / 8; for i in 0..n { d[off + i] = if i < 16 { (v >> (8 * i)) as u8 } else { 0 } } }
        Const::Undef(_) | Const::Zero(_) => {}
        Const::Global(g, o) => {
            let a = m.addr.get(g).copied().unwrap_or(0).wrapping_add(*o as u64);
            d[off..off + 8].copy_from_slice(&a.to_le_bytes());
        }
        Const::Bytes(b) => d[off..off + b.len()].copy_from_slice(b),
        Const::Agg(v) => for (i, (t, c)) in v.iter().enumerate() {
            let (o, _) = ty.field(i);
            fill(m, d, off + o as usize, t, c);
        },
    }
}

impl Exec {
    pub fn new(l: &Loaded, opts: Opts) -> Exec {
        let mut sol = Solver::new(opts.query_ms);
        sol.cross_check = opts.cross_check;
        let rng = opts.shuffle;
        Exec {
            m: l.m.clone(), fns: HashMap::new(), addr_fn: l.addr_fn.clone(), globals: l.globals.clone(), cx: Ctx::new(),
            sol, work: vec![], res: JobResult::default(), opts, t0: Instant::now(), targets: HashMap::new(),
            viol_keys: BTreeMap::new(), deadline: shared_u64(), rng, maxes: HashMap::new(), tables: HashMap::new(),
        }
    }

    fn func(&mut self, n: &Rc<str>) -> Rc<Func> {
        if let Some(f) = self.fns.get(n) { return f.clone() }
        let f = Rc::new(self.m.parse_func(n));
        self.res.funcs.insert(f.demangled.clone());
        self.fns.insert(n.clone(), f.clone());
        f
    }
    fn target(&mut self, n: &Rc<str>) -> Target {
        if let Some(t) = self.targets.get(n) { return *t }
        let t = if let Some(b) = builtin(n) { Target::Builtin(b) }
            else if is_panic_name(n) { Target::Panic }
            else if self.m.func_lines.contains_key(&**n) { Target::Def }
            else { Target::Unknown };
        self.targets.insert(n.clone(), t);
        t
    }

    /// Runs the entry `name(param)`. Returns the merged result.
    pub fn run(mut self, name: &str, param: u32) -> JobResult {
        let n: Rc<str> = name.into();
        if !self.m.func_lines.contains_key(name) {
            self.res.errors.insert(format!("no such entry {name}"), 1);
            return self.res;
        }
        let f = self.func(&n);
        let mut st = State {
            frames: vec![], objs: vec![], free: vec![], gmod: vec![], path: Path::new(), nin: 0, steps: 0, forks: 0,
            covers: vec![], obs: vec![], heap: 0, heap_total: 0, alloc_limit: self.opts.alloc_limit, opaque_numbers: false, asserts: 0,
        };
        let mut regs = vec![V::U; f.nregs as usize];
        if let Some(&p) = f.params.first() { regs[p as usize] = V::C(param as u128); }
        st.frames.push(Rc::new(Frame { func: f, regs, block: 0, ip: 0, allocas: vec![], dst: None }));
        self.work.push(st);
        self.t0 = Instant::now();
        // Phase 1: breadth first in this process, to get enough states to share out.
        let want = if self.opts.jobs > 1 { self.opts.jobs * 12 } else { usize::MAX };
        let t_seq = Instant::now();
        while !self.work.is_empty() {
            if self.stop() { break }
            // stay sequential while it is cheap
            if self.opts.jobs > 1 && self.work.len() >= 2 && t_seq.elapsed().as_secs_f64() > 0.4 && self.work.len() >= want.min(2 + (t_seq.elapsed().as_secs_f64() * 24.0) as usize) { break }
            let seq = t_seq.elapsed().as_secs_f64() <= 0.4 || self.opts.jobs <= 1;
            let st = if seq && self.opts.jobs <= 1 { self.work.pop().unwrap() } else { self.work.remove(0) };
            self.run_state(st, !seq || self.opts.jobs > 1);
        }
        if !self.work.is_empty() && !self.stop() {
            self.parallel();
        } else {
            self.res.complete = self.work.is_empty();
        }
        self.res.stats = self.sol_stats();
        self.res
    }
    fn sol_stats(&self) -> Stats {
        let mut s = self.res.stats.clone();
        let o = &self.sol.stats;
        s.z3_queries += o.z3_queries; s.z3_sat += o.z3_sat; s.z3_unsat += o.z3_unsat; s.z3_unknown += o.z3_unknown; s.z3_time += o.z3_time;
        s.domain_decided += o.domain_decided; s.model_hits += o.model_hits; s.cache_hits += o.cache_hits; s.cross_checked += o.cross_checked;
        if o.max_query_s > s.max_query_s { s.max_query_s = o.max_query_s }
        s
    }
    fn stop(&self) -> bool {
        self.late() || self.viol_keys.len() >= self.opts.max_viol
    }
    fn late(&self) -> bool {
        let t = self.t0.elapsed();
        t.as_secs_f64() > self.opts.time_limit || t.as_millis() as u64 > self.deadline.load(std::sync::atomic::Ordering::SeqCst)
    }

    fn parallel(&mut self) {
        use std::sync::atomic::{AtomicU64, Ordering};
        extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; fn getpid() -> i32; }
        let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const AtomicU64;
        let next = unsafe { &*shared };
        let stop = unsafe { &*shared.add(1) };
        let dir = std::env::temp_dir().join(format!("sevm.{}.{:?}", unsafe { getpid() }, self.t0.elapsed().as_nanos()));
        std::fs::create_dir_all(&dir).unwrap();
        let states: Vec<State> = std::mem::take(&mut self.work);
        let base = self.res.clone();
        let mut kids = vec![];
        for j in 0..self.opts.jobs {
            let pid = unsafe { fork() };
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    self.res = JobResult::default();
                    self.sol.stats = Stats::default();
                    let mut complete = true;
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst) as usize;
                        if i >= states.len() { break }
                        if self.stop() || stop.load(Ordering::SeqCst) != 0 { complete = false; break }
                        self.work.push(states[i].clone());
                        while let Some(st) = self.work.pop() {
                            if self.stop() || stop.load(Ordering::SeqCst) != 0 { complete = false; break }
                            self.run_state(st, false);
                        }
                        self.work.clear();
                        if self.viol_keys.len() >= self.opts.max_viol { stop.store(1, Ordering::SeqCst); }
                    }
                    self.res.complete = complete;
                    self.res.stats = self.sol.stats.clone();
                    std::fs::write(dir.join(format!("{j}")), crate::out::ser(&self.res)).unwrap();
                }));
                unsafe { _exit(if r.is_ok() { 0 } else { 101 }) }
            }
            kids.push(pid);
        }
        let mut ok = true;
        for (j, pid) in kids.into_iter().enumerate() {
            let mut s = 0;
            unsafe { waitpid(pid, &mut s, 0); }
            if s != 0 { self.res.errors.insert(format!("worker {j} ended with status {s}"), 1); ok = false; continue }
            let r = crate::out::de(&std::fs::read(dir.join(format!("{j}"))).unwrap());
            ok &= r.complete;
            crate::out::merge(&mut self.res, r, self.opts.samples);
        }
        let _ = std::fs::remove_dir_all(&dir);
        let _ = base;
        self.res.complete = ok;
    }

    fn input_of(&self, st: &State) -> Vec<u8> {
        let mut v = st.path.model.clone();
        v.resize(st.nin as usize, 0);
        v
    }

    fn run_state(&mut self, mut st: State, _bfs: bool) {
        let lim = self.work.len();
        let _ = lim;
        loop {
            // A quantum, so that time limits are honoured.
            match self.run_quantum(&mut st) {
                Ok(Flow::Go) => {
                    if self.late() { self.work.push(st); return }
                    continue;
                }
                Ok(Flow::Done) => {
                    self.res.paths += 1;
                    self.res.steps += st.steps;
                    self.res.max_inputs = self.res.max_inputs.max(st.nin);
                    for c in &st.covers { *self.res.covers.entry(*c).or_insert(0) += 1; }
                    self.sample(&st);
                }
                Ok(Flow::Kill) | Err(Stop::Kill) => { self.res.killed += 1; self.res.steps += st.steps; }
                Err(Stop::Err(e)) => { 
                    let e = format!("{e} [in {}]", self.whereami(&st));
                    *self.res.errors.entry(e).or_insert(0) += 1; }
                Err(Stop::Viol(k, d)) => {
                    self.res.paths += 1;
                    self.res.steps += st.steps;
                    for c in &st.covers { *self.res.covers.entry(*c).or_insert(0) += 1; }
                    let stack = self.whereami(&st);
                    self.violation(&st, k, format!("{d} [{stack}]"), None);
                }
            }
            return;
        }
    }
    fn sample(&mut self, st: &State) {
        // reservoir sampling keeps the sample spread over the whole exploration
        let n = self.opts.samples;
        if n == 0 { return }
        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let slot = if self.res.samples.len() < n { self.res.samples.len() } else {
            let r = (self.rng >> 33) % self.res.paths.max(1);
            if r as usize >= n { return }
            r as usize
        };
        let input = self.input_of(st);
        let mut obs = vec![];
        for o in &st.obs {
            let v: Vec<u8> = o.iter().map(|&(c, s)| if s == SYM_CONC { c } else if s == SYM_UNDEF { 0 } else { self.cx.eval(s, &input) as u8 }).collect();
            obs.push(v);
        }
        let s = PathSample { input, obs, covers: st.covers.clone() };
        if slot == self.res.samples.len() { self.res.samples.push(s) } else { self.res.samples[slot] = s }
    }
    fn violation(&mut self, st: &State, kind: String, detail: String, model: Option<Vec<u8>>) {
        if self.opts.grace < 1e6 {
            let d = self.t0.elapsed().as_millis() as u64 + (self.opts.grace * 1000.0) as u64;
            self.deadline.fetch_min(d, std::sync::atomic::Ordering::SeqCst);
        }
        let key = format!("{kind}");
        let n = self.viol_keys.entry(key).or_insert(0);
        *n += 1;
        if *n > 4 { return }
        let mut input = model.unwrap_or_else(|| st.path.model.clone());
        input.resize(st.nin as usize, 0);
        self.res.violations.push(Violation { kind, detail, input });
    }
    fn whereami(&self, st: &State) -> String {
        let v: Vec<&str> = st.frames.iter().rev().map(|f| f.func.demangled.as_str()).take(6).collect();
        v.join(" < ")
    }

    // ------------------------------------------------------------ memory
    fn alloc(&mut self, st: &mut State, size: u64, undef: bool) -> u64 {
        let o = Obj { data: vec![0; size as usize], sym: if undef { Some(vec![SYM_UNDEF; size as usize]) } else { None }, ro: false };
        let id = match st.free.pop() {
            Some(i) => { st.objs[i as usize] = Some(Rc::new(o)); i }
            None => { st.objs.push(Some(Rc::new(o))); st.objs.len() as u32 - 1 }
        };
        obj_addr(HEAP_ID0 + id)
    }
    fn dealloc(&mut self, st: &mut State, id: u32) {
        st.objs[id as usize] = None;
        st.free.push(id);
    }
    fn obj<'a>(&'a self, st: &'a State, addr: u64) -> Option<(u32, &'a Rc<Obj>)> {
        let id = (addr >> 32) as u32;
        if id >= HEAP_ID0 {
            st.objs.get((id - HEAP_ID0) as usize)?.as_ref().map(|o| (id, o))
        } else if id >= 1 {
            for (g, o) in &st.gmod { if *g == id { return Some((id, o)) } }
            self.globals.get(id as usize - 1).map(|o| (id, o))
        } else { None }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, addr: u64) -> Option<&'a mut Obj> {
        let id = (addr >> 32) as u32;
        if id >= HEAP_ID0 {
            st.objs.get_mut((id - HEAP_ID0) as usize)?.as_mut().map(Rc::make_mut)
        } else if id >= 1 {
            let p = match st.gmod.iter().position(|(g, _)| *g == id) {
                Some(p) => p,
                None => {
                    let o = self.globals.get(id as usize - 1)?.clone();
                    st.gmod.push((id, o));
                    st.gmod.len() - 1
                }
            };
            Some(Rc::make_mut(&mut st.gmod[p].1))
        } else { None }
    }
    /// bounds-checked range; offset within the object
    fn range(&self, st: &State, addr: u64, n: u64) -> R<usize> {
        match self.obj(st, addr) {
            Some((_, o)) => {
                let off = (addr & 0xffff_ffff).wrapping_sub(BASE_OFF);
                if off <= o.data.len() as u64 && n <= o.data.len() as u64 - off { return Ok(off as usize) }
                Err(Stop::Viol("memory".into(), format!("access of {n} bytes at offset {} of an object of {} bytes", off as i64, o.data.len())))
            }
            None => Err(Stop::Viol("memory".into(), format!("access of {n} bytes at invalid address {addr:#x}"))),
        }
    }
    fn load_bytes(&self, st: &State, addr: u64, n: u64) -> R<Vec<(u8, u32)>> {
        if n == 0 { return Ok(vec![]) }
        let off = self.range(st, addr, n)?;
        let (_, o) = self.obj(st, addr).unwrap();
        Ok((off..off + n as usize).map(|i| (o.data[i], o.sym.as_ref().map_or(SYM_CONC, |s| s[i]))).collect())
    }
    fn store_bytes(&mut self, st: &mut State, addr: u64, b: &[(u8, u32)]) -> R<()> {
        if b.is_empty() { return Ok(()) }
        let off = self.range(st, addr, b.len() as u64)?;
        let o = self.obj_mut(st, addr).unwrap();
        if o.ro { return Err(Stop::Viol("memory".into(), "write to constant".into())) }
        let anysym = b.iter().any(|x| x.1 != SYM_CONC);
        if anysym && o.sym.is_none() { o.sym = Some(vec![SYM_CONC; o.data.len()]) }
        for (i, &(c, s)) in b.iter().enumerate() { o.data[off + i] = c; if let Some(v) = &mut o.sym { v[off + i] = s } }
        Ok(())
    }
    fn load_int(&mut self, st: &State, addr: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        let off = self.range(st, addr, n as u64)?;
        let (_, o) = self.obj(st, addr).unwrap();
        let conc = match &o.sym { None => true, Some(s) => s[off..off + n].iter().all(|&x| x == SYM_CONC) };
        if conc && n <= 16 {
            let mut v = 0u128;
            for i in (0..n).rev() { v = (v << 8) | o.data[off + i] as u128; }
            return Ok(V::C(v & m128(w)));
        }
        if let Some(s) = &o.sym { if s[off..off + n].iter().all(|&x| x == SYM_UNDEF) { return Ok(V::U) } }
        let bytes: Vec<(u8, u32)> = (off..off + n).map(|i| (o.data[i], o.sym.as_ref().map_or(0, |s| s[i]))).collect();
        Ok(self.join_bytes(&bytes, w))
    }
    fn join_bytes(&mut self, b: &[(u8, u32)], w: u32) -> V {
        let mut acc: Option<E> = None;
        for &(c, s) in b.iter() {
            let e = if s == SYM_CONC { self.cx.konst(8, c as u128) } else if s == SYM_UNDEF { self.cx.konst(8, 0) } else { s };
            acc = Some(match acc { None => e, Some(a) => self.cx.concat(e, a) });
        }
        let mut e = acc.unwrap();
        let ew = self.cx.w(e);
        if ew > w { e = self.cx.extract(e, w, 0); }
        self.norm(e)
    }
    fn norm(&mut self, e: E) -> V {
        if let Some(v) = self.cx.cv(e) { if self.cx.w(e) <= 128 { return V::C(v) } }
        if self.cx.sup[e as usize] == 0 && self.cx.w(e) <= 128 { let v = self.cx.eval(e, &[]); return V::C(v) }
        V::E(e)
    }
    fn split_int(&mut self, v: &V, w: u32) -> Vec<(u8, u32)> {
        let n = ((w + 7) / 8) as usize;
        match v {
            V::C(c) => (0..n).map(|i| (if i < 16 { (c >> (8 * i)) as u8 } else { 0 }, SYM_CONC)).collect(),
            V::U => vec![(0, SYM_UNDEF); n],
            V::E(e) => {
                let e = if w as usize != n * 8 { self.cx.zext(*e, n as u32 * 8) } else { *e };
                (0..n).map(|i| {
                    let x = self.cx.extract(e, 8, i as u32 * 8);
                    match self.cx.cv(x) { Some(c) => (c as u8, SYM_CONC), None => (0, x) }
                }).collect()
            }
            V::A(_) => panic!("split aggregate"),
        }
    }
    fn load_ty(&mut self, st: &State, addr: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(w) => self.load_int(st, addr, *w),
            Ty::Ptr | Ty::Double => self.load_int(st, addr, 64),
            Ty::Float => self.load_int(st, addr, 32),
            Ty::Vec(n, t) => {
                if t.bits() % 8 != 0 { return Err(Stop::Err("load of sub-byte vector".into())) }
                let mut v = vec![];
                for i in 0..*n { v.push(self.load_ty(st, addr + i * t.store_size(), t)?); }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() { let (o, t) = ty.field(i); v.push(self.load_ty(st, addr + o, &t)?); }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(n, t) => {
                let mut v = vec![];
                for i in 0..*n { v.push(self.load_ty(st, addr + i * t.size(), t)?); }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Stop::Err(format!("load of {ty:?}"))),
        }
    }
    fn store_ty(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => {
                let w = ty.bits();
                if let V::C(c) = v {
                    // fast path
                    let n = ((w + 7) / 8) as usize;
                    if n <= 16 {
                        let off = self.range(st, addr, n as u64)?;
                        let o = self.obj_mut(st, addr).unwrap();
                        if o.ro { return Err(Stop::Viol("memory".into(), "write to constant".into())) }
                        let b = c.to_le_bytes();
                        o.data[off..off + n].copy_from_slice(&b[..n]);
                        if let Some(s) = &mut o.sym { for x in &mut s[off..off + n] { *x = SYM_CONC } }
                        return Ok(());
                    }
                }
                let b = self.split_int(v, w);
                self.store_bytes(st, addr, &b)
            }
            Ty::Vec(n, t) => {
                if t.bits() % 8 != 0 { return Err(Stop::Err("store of sub-byte vector".into())) }
                for i in 0..*n { let x = elem(v, i as usize); self.store_ty(st, addr + i * t.store_size(), t, &x)?; }
                Ok(())
            }
            Ty::Struct(f, _) => {
                for i in 0..f.len() { let (o, t) = ty.field(i); let x = elem(v, i); self.store_ty(st, addr + o, &t, &x)?; }
                Ok(())
            }
            Ty::Arr(n, t) => {
                for i in 0..*n { let x = elem(v, i as usize); self.store_ty(st, addr + i * t.size(), t, &x)?; }
                Ok(())
            }
            _ => Err(Stop::Err(format!("store of {ty:?}"))),
        }
    }

    // ------------------------------------------------------------ forking
    fn feasible(&mut self, st: &State, e: E) -> R<Option<Vec<u8>>> {
        let start = std::time::Instant::now();
        let r = self.sol.feasible(&mut self.cx, &st.path, e);
        if self.opts.slow_ms.is_some_and(|ms| start.elapsed().as_millis() as u64 >= ms) { eprintln!("slow query {:?} in {}", start.elapsed(), self.whereami(st)) }
        match r {
            (Sat::Sat, m) => Ok(m),
            (Sat::Unsat, _) => Ok(None),
            (Sat::Unknown, _) => Err(Stop::Err("solver gave no answer within its limit".into())),
        }
    }
    /// Decides a symbolic condition: returns the side this state takes; the other side, when
    /// feasible, is queued. `retarget` positions the queued state.
    fn branch(&mut self, st: &mut State, e: E, retarget: &mut dyn FnMut(&mut State, bool)) -> R<bool> {
        let cur = self.cx.eval(e, &st.path.model) == 1;
        let other = if cur { self.cx.not(e) } else { e };
        if let Some(model) = self.feasible(st, other)? {
            let mut s2 = st.clone();
            s2.path.model = model;
            s2.path.add(&mut self.cx, other);
            s2.forks += 1;
            retarget(&mut s2, !cur);
            self.work.push(s2);
            self.res.forks += 1;
            let mine = self.cx.not(other);
            st.path.add(&mut self.cx, mine);
            st.forks += 1;
        }
        Ok(cur)
    }
    /// Forces a value to be concrete; other feasible values re-execute this instruction.
    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> R<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::U => Ok(0),
            V::A(_) => Err(Stop::Err("aggregate where scalar expected".into())),
            V::E(e) => {
                let x = self.cx.eval(*e, &st.path.model);
                let k = self.cx.konst(w, x);
                let c = self.cx.eq(*e, k);
                let taken = self.branch(st, c, &mut |_s, _| {})?;
                debug_assert!(taken);
                Ok(x)
            }
        }
    }
    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(c) => self.cx.konst(w, *c),
            V::U => self.cx.konst(w, 0),
            V::E(e) => { debug_assert_eq!(self.cx.w(*e), w); *e }
            V::A(_) => panic!("aggregate as scalar"),
        }
    }

    fn cst(&self, ty: &Ty, c: &Const) -> V {
        match c {
            Const::Int(_, v) => V::C(*v),
            Const::Undef(Ty::Int(_)) | Const::Undef(Ty::Ptr) => V::U,
            Const::Zero(t) | Const::Undef(t) => {
                let z = |t: &Ty| match c { Const::Zero(_) => Const::Zero(t.clone()), _ => Const::Undef(t.clone()) };
                match t {
                    Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|t| self.cst(t, &z(t))).collect())),
                    Ty::Arr(n, t) | Ty::Vec(n, t) => V::A(Rc::new((0..*n).map(|_| self.cst(t, &z(t))).collect())),
                    _ => V::C(0),
                }
            }
            Const::Global(g, o) => V::C(self.m.addr[g].wrapping_add(*o as u64) as u128),
            Const::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
            Const::Agg(v) => { let _ = ty; V::A(Rc::new(v.iter().map(|(t, c)| self.cst(t, c)).collect())) }
        }
    }
    #[inline]
    fn op(&self, fr: &Frame, o: &Op) -> V {
        match o {
            Op::Reg(r) => fr.regs[*r as usize].clone(),
            Op::Int(v) => V::C(*v),
            Op::Undef => V::U,
            Op::Addr(a) => V::C(*a as u128),
            Op::Cst(c) => self.cst(&c.0, &c.1),
        }
    }

    fn bin(&mut self, b: Bin, w: u32, x: &V, y: &V) -> R<V> {
        if w <= 128 {
            let (p, q) = match (x, y) {
                (V::C(p), V::C(q)) => (*p, *q),
                (V::U, V::C(q)) => (0, *q),
                (V::C(p), V::U) => (*p, 0),
                (V::U, V::U) => return Ok(V::U),
                _ => { return self.bin_sym(b, w, x, y) }
            };
            let m = m128(w);
            let r = match b {
                Bin::Add => p.wrapping_add(q), Bin::Sub => p.wrapping_sub(q), Bin::Mul => p.wrapping_mul(q),
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                    if q == 0 { return Err(Stop::Viol("memory".into(), "division by zero".into())) }
                    eval_div(match b { Bin::UDiv => K::UDiv, Bin::URem => K::URem, Bin::SDiv => K::SDiv, _ => K::SRem }, p, q, w)
                }
                Bin::Shl => if q >= w as u128 { 0 } else { p << q },
                Bin::LShr => if q >= w as u128 { 0 } else { p >> q },
                Bin::AShr => (sx(p, w) >> q.min(w as u128 - 1)) as u128,
                Bin::And => p & q, Bin::Or => p | q, Bin::Xor => p ^ q,
            };
            return Ok(V::C(r & m));
        }
        self.bin_sym(b, w, x, y)
    }
    fn bin_sym(&mut self, b: Bin, w: u32, x: &V, y: &V) -> R<V> {
        let (p, q) = (self.e(x, w), self.e(y, w));
        let cx = &mut self.cx;
        let r = match b {
            Bin::Add => cx.add(p, q), Bin::Sub => cx.sub(p, q), Bin::Mul => cx.mul(p, q),
            Bin::UDiv => cx.div(K::UDiv, p, q), Bin::URem => cx.div(K::URem, p, q),
            Bin::SDiv => cx.div(K::SDiv, p, q), Bin::SRem => cx.div(K::SRem, p, q),
            Bin::Shl => cx.shl(p, q), Bin::LShr => cx.lshr(p, q), Bin::AShr => cx.ashr(p, q),
            Bin::And => cx.and(p, q), Bin::Or => cx.or(p, q), Bin::Xor => cx.xor(p, q),
        };
        Ok(self.norm(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, x: &V, y: &V) -> V {
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let r = match p {
                Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b,
                Pred::Sgt => sx(a, w) > sx(b, w), Pred::Sge => sx(a, w) >= sx(b, w), Pred::Slt => sx(a, w) < sx(b, w), Pred::Sle => sx(a, w) <= sx(b, w),
            };
            return V::C(r as u128);
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        let cx = &mut self.cx;
        let r = match p {
            Pred::Eq => cx.eq(a, b),
            Pred::Ne => { let e = cx.eq(a, b); cx.not(e) }
            Pred::Ugt => cx.ult(b, a), Pred::Uge => cx.ule(b, a), Pred::Ult => cx.ult(a, b), Pred::Ule => cx.ule(a, b),
            Pred::Sgt => cx.slt(b, a), Pred::Sge => cx.sle(b, a), Pred::Slt => cx.slt(a, b), Pred::Sle => cx.sle(a, b),
        };
        self.norm(r)
    }
    /// On this path a value that depends on one input byte may fit in fewer bits than its type.
    fn tighten(&mut self, st: &State, v: V, w: u32) -> V {
        let e = match v { V::E(e) if w >= 16 && w <= 128 => e, v => return v };
        let s = self.cx.sup[e as usize];
        if s == 0 || s == MULTI { return v }
        let n = self.cx.n(e);
        if n.k == K::ZExt && self.cx.w(n.a) <= 4 || n.k == K::Ite { return v }
        let var = s as usize - 1;
        let d = st.path.dom.get(var).copied().unwrap_or(FULL);
        if d == FULL { return v }
        let max = match self.maxes.get(&(e, d)) {
            Some(m) => *m,
            None => {
                let mut model = vec![0u8; var + 1];
                let mut max = 0u128;
                for x in 0..256usize { if d[x / 64] >> (x % 64) & 1 == 1 { model[var] = x as u8; max = max.max(self.cx.eval(e, &model)); } }
                self.maxes.insert((e, d), max);
                max
            }
        };
        let need = (128 - max.leading_zeros()).max(1);
        if need > w / 2 || n.k == K::ZExt && self.cx.w(n.a) <= need { return v }
        self.cx.deep = true;
        let x = self.cx.extract(e, need, 0);
        self.cx.deep = false;
        let r = self.cx.zext(x, w);
        self.norm(r)
    }
    /// A deep expression over one input byte, as a table of its values on the path's domain.
    fn slim(&mut self, st: &State, v: V) -> V {
        let e = match v { V::E(e) => e, v => return v };
        let s = self.cx.sup[e as usize];
        if self.cx.dep[e as usize] < DEEP || s == 0 || s == MULTI { return v }
        let w = self.cx.w(e);
        if w > 128 { return v }
        let var = s as usize - 1;
        let d = st.path.dom.get(var).copied().unwrap_or(FULL);
        if let Some(v) = self.tables.get(&(e, d)) { return v.clone() }
        let mut model = vec![0u8; var + 1];
        let mut runs: Vec<(u8, u128)> = vec![]; // (last byte of the run, value)
        for x in 0..256usize {
            if d[x / 64] >> (x % 64) & 1 == 0 { continue }
            model[var] = x as u8;
            let k = self.cx.eval(e, &model);
            match runs.last_mut() { Some(r) if r.1 == k => r.0 = x as u8, _ => runs.push((x as u8, k)) }
        }
        let r = if runs.is_empty() || runs.len() > DEEP as usize - 8 { v } else {
            let b = self.cx.var_at(var as u32);
            let mut acc = self.cx.konst(w, runs.pop().unwrap().1);
            while let Some((last, k)) = runs.pop() {
                let l = self.cx.konst(8, last as u128);
                let c = self.cx.ule(b, l);
                let k = self.cx.konst(w, k);
                acc = self.cx.ite(c, k, acc);
            }
            self.norm(acc)
        };
        self.tables.insert((e, d), r.clone());
        r
    }
    fn cast(&mut self, c: Cast, fw: u32, tw: u32, v: &V) -> V {
        match v {
            V::U => V::U,
            V::C(x) if tw <= 128 && fw <= 128 => V::C(match c {
                Cast::Trunc => x & m128(tw),
                Cast::ZExt | Cast::Bit => *x,
                Cast::SExt => sx(*x, fw) as u128 & m128(tw),
            }),
            _ => {
                let e = self.e(v, fw);
                let r = match c {
                    Cast::Trunc => self.cx.extract(e, tw, 0),
                    Cast::ZExt => self.cx.zext(e, tw),
                    Cast::SExt => self.cx.sext(e, tw),
                    Cast::Bit => e,
                };
                self.norm(r)
            }
        }
    }
    fn bitcast(&mut self, from: &Ty, to: &Ty, v: &V) -> R<V> {
        let fv = matches!(from, Ty::Vec(..));
        let tv = matches!(to, Ty::Vec(..));
        if !fv && !tv { return Ok(v.clone()) }
        // through a bit string
        let total = from.bits();
        let whole = if let Ty::Vec(n, t) = from {
            let w = t.bits();
            let mut acc: Option<E> = None;
            for i in 0..*n as usize {
                let x = elem(v, i);
                let e = self.e(&x, w);
                acc = Some(match acc { None => e, Some(a) => self.cx.concat(e, a) });
            }
            acc.unwrap()
        } else { self.e(v, total) };
        if let Ty::Vec(n, t) = to {
            let w = t.bits();
            let mut out = vec![];
            for i in 0..*n as u32 { let x = self.cx.extract(whole, w, i * w); out.push(self.norm(x)); }
            Ok(V::A(Rc::new(out)))
        } else { Ok(self.norm(whole)) }
    }
    fn select(&mut self, st: &mut State, c: &V, ty: &Ty, a: &V, b: &V) -> R<V> {
        match c {
            V::C(x) => Ok(if *x == 1 { a.clone() } else { b.clone() }),
            V::U => Ok(b.clone()),
            V::E(e) => {
                match ty {
                    Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => {
                        let w = ty.bits();
                        let (x, y) = (self.e(a, w), self.e(b, w));
                        let r = self.cx.ite(*e, x, y);
                        Ok(self.norm(r))
                    }
                    _ => { let v = self.conc(st, c, 1)?; Ok(if v == 1 { a.clone() } else { b.clone() }) }
                }
            }
            V::A(cs) => {
                let et = match ty { Ty::Vec(_, t) => (**t).clone(), _ => return Err(Stop::Err("vector select".into())) };
                let mut out = vec![];
                for (i, c) in cs.iter().enumerate() { let (x, y) = (elem(a, i), elem(b, i)); out.push(self.select(st, c, &et, &x, &y)?); }
                Ok(V::A(Rc::new(out)))
            }
        }
    }

    /// Symbolic-address load: a chain over the feasible offsets of the one object the address
    /// lies in, or a fork per feasible address.
    fn load_sym(&mut self, st: &mut State, e: E, ty: &Ty) -> R<V> {
        let n = ty.store_size();
        let a0 = self.cx.eval(e, &st.path.model) as u64;
        let scalar = matches!(ty, Ty::Int(_) | Ty::Ptr) && ty.bits() % 8 == 0;
        let (base, size) = match self.obj(st, a0) {
            Some((id, o)) => (obj_addr(id), o.data.len() as u64),
            None => {
                let c = self.conc(st, &V::E(e), 64)?;
                return self.load_ty(st, c as u64, ty);
            }
        };
        if !scalar || size < n {
            let c = self.conc(st, &V::E(e), 64)?;
            return self.load_ty(st, c as u64, ty);
        }
        // split off the states whose address lies elsewhere
        let kb = self.cx.konst(64, base as u128);
        let off = self.cx.sub(e, kb);
        let kl = self.cx.konst(64, (size - n) as u128);
        let inb = self.cx.ule(off, kl);
        if self.cx.cv(inb).is_none() && self.cx.eval(inb, &st.path.model) == 1 {
            self.branch(st, inb, &mut |_s, _| {})?;
        } else if self.cx.eval(inb, &st.path.model) != 1 {
            let c = self.conc(st, &V::E(e), 64)?;
            return self.load_ty(st, c as u64, ty);
        }
        // candidate offsets
        let mut cands: Vec<u64> = vec![];
        let s = self.cx.sup[off as usize];
        if s != MULTI {
            let v = s as usize - 1;
            let d = st.path.dom.get(v).copied().unwrap_or(FULL);
            let mut model = st.path.model.clone();
            if model.len() <= v { model.resize(v + 1, 0) }
            let mut set = BTreeSet::new();
            for x in 0..256usize {
                if d[x / 64] >> (x % 64) & 1 == 1 { model[v] = x as u8; set.insert(self.cx.eval(off, &model) as u64); }
            }
            cands.extend(set.into_iter().filter(|&o| o <= size - n));
        } else {
            let tz = self.known_zeros(off);
            let step = 1u64 << tz.min(6);
            if (size - n) / step > 600 {
                let c = self.conc(st, &V::E(e), 64)?;
                return self.load_ty(st, c as u64, ty);
            }
            let mut o = 0;
            while o <= size - n { cands.push(o); o += step; }
        }
        if cands.is_empty() { return Err(Stop::Err("no candidate offset".into())) }
        // runs of equal values
        let w = ty.bits();
        let mut runs: Vec<(u64, E)> = vec![]; // (last offset of the run, value)
        for o in cands {
            let v = self.load_ty(st, base + o, ty)?;
            let ve = self.e(&v, w);
            match runs.last_mut() { Some(r) if r.1 == ve => r.0 = o, _ => runs.push((o, ve)) }
        }
        let mut acc = runs.pop().unwrap().1;
        while let Some((last, v)) = runs.pop() {
            let k = self.cx.konst(64, last as u128);
            let c = self.cx.ule(off, k);
            acc = self.cx.ite(c, v, acc);
        }
        Ok(self.norm(acc))
    }
    fn known_zeros(&self, e: E) -> u32 {
        let n = self.cx.n(e);
        match n.k {
            K::Const => if n.v == 0 { 64 } else { n.v.trailing_zeros() },
            K::Concat => { let z = self.known_zeros(n.b); if z >= self.cx.w(n.b) { self.cx.w(n.b) + self.known_zeros(n.a) } else { z } }
            K::ZExt | K::SExt => self.known_zeros(n.a),
            K::Add | K::Sub => self.known_zeros(n.a).min(self.known_zeros(n.b)),
            K::Mul => self.known_zeros(n.a) + self.known_zeros(n.b),
            K::Ite => self.known_zeros(n.b).min(self.known_zeros(n.c)),
            _ => 0,
        }
    }

    // ------------------------------------------------------------ main loop
    fn goto(&mut self, st: &mut State, target: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let func = fr.func.clone();
        let from = fr.block;
        let blk = &func.blocks[target as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (d, inc) in &blk.phis {
                let o = &inc.iter().find(|(b, _)| *b == from).expect("phi predecessor").1;
                vals.push((*d, self.op(fr, o)));
            }
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        fr.block = target;
        fr.ip = 0;
    }

    fn run_quantum(&mut self, st: &mut State) -> R<Flow> {
        for _ in 0..20000 {
            let fr = st.frames.last().unwrap();
            let func = fr.func.clone();
            let ins = &func.blocks[fr.block as usize].ins[fr.ip];
            st.steps += 1;
            match self.step(st, ins)? {
                Flow::Go => {}
                x => return Ok(x),
            }
        }
        if st.steps > self.opts.max_steps {
            return Err(Stop::Viol("steps".into(), format!("more than {} instructions on one path", self.opts.max_steps)));
        }
        Ok(Flow::Go)
    }

    #[inline]
    fn set(&self, st: &mut State, d: u32, v: V) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.regs[d as usize] = v;
        fr.ip += 1;
    }
    fn vecmap2(&mut self, ty: &Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, u32, &V, &V) -> R<V>) -> R<V> {
        if let Ty::Vec(n, t) = ty {
            let w = t.bits();
            let mut out = vec![];
            for i in 0..*n as usize { let (x, y) = (elem(a, i), elem(b, i)); out.push(f(self, w, &x, &y)?); }
            Ok(V::A(Rc::new(out)))
        } else { f(self, ty.bits(), a, b) }
    }

    fn step(&mut self, st: &mut State, ins: &I) -> R<Flow> {
        macro_rules! op { ($o:expr) => { self.op(st.frames.last().unwrap(), $o) } }
        match ins {
            I::Bin(d, b, ty, x, y) => {
                let (mut x, mut y) = (op!(x), op!(y));
                if let (Ty::Int(w), Bin::Mul | Bin::Add | Bin::Sub | Bin::UDiv | Bin::URem) = (ty, b) {
                    if let V::E(_) = x { x = self.tighten(st, x, *w); }
                    if let V::E(_) = y { y = self.tighten(st, y, *w); }
                }
                let r = self.vecmap2(ty, &x, &y, &mut |s, w, p, q| s.bin(*b, w, p, q))?;
                let r = self.slim(st, r);
                self.set(st, *d, r);
            }
            I::Icmp(d, p, ty, x, y) => {
                let (x, y) = (op!(x), op!(y));
                let r = self.vecmap2(ty, &x, &y, &mut |s, w, a, b| Ok(s.icmp(*p, w, a, b)))?;
                let r = self.slim(st, r);
                self.set(st, *d, r);
            }
            I::Cast(d, c, from, x, to) => {
                let v = op!(x);
                let v = if matches!(c, Cast::ZExt | Cast::SExt) { if let Ty::Int(w) = from { self.tighten(st, v, *w) } else { v } } else { v };
                let r = if *c == Cast::Bit { self.bitcast(from, to, &v)? }
                    else if let (Ty::Vec(n, f), Ty::Vec(_, t)) = (from, to) {
                        let mut out = vec![];
                        for i in 0..*n as usize { let x = elem(&v, i); out.push(self.cast(*c, f.bits(), t.bits(), &x)); }
                        V::A(Rc::new(out))
                    } else { self.cast(*c, from.bits(), to.bits(), &v) };
                self.set(st, *d, r);
            }
            I::Select(d, c, ty, a, b) => {
                let (c, a, b) = (op!(c), op!(a), op!(b));
                let r = self.select(st, &c, ty, &a, &b)?;
                let r = self.slim(st, r);
                self.set(st, *d, r);
            }
            I::Freeze(d, x) => {
                let v = op!(x);
                self.set(st, *d, if let V::U = v { V::C(0) } else { v });
            }
            I::Load(d, ty, a) => {
                let a = op!(a);
                let v = match a {
                    V::C(a) => self.load_ty(st, a as u64, ty)?,
                    V::E(e) => { let v = self.load_sym(st, e, ty)?; self.slim(st, v) }
                    _ => return Err(Stop::Err("load from undefined address".into())),
                };
                self.set(st, *d, v);
            }
            I::Store(ty, v, a) => {
                let (v, a) = (op!(v), op!(a));
                let a = self.conc(st, &a, 64)? as u64;
                self.store_ty(st, a, ty, &v)?;
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
            }
            I::Alloca(d, size, n) => {
                let n = op!(n);
                let n = self.conc(st, &n, 64)? as u64;
                let a = self.alloc(st, size * n, true);
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.allocas.push((a >> 32) as u32 - HEAP_ID0);
                fr.regs[*d as usize] = V::C(a as u128);
                fr.ip += 1;
            }
            I::Gep(d, b, idx) => {
                let mut acc = op!(b);
                for g in idx {
                    match g {
                        GepIdx::Const(k) => {
                            acc = match acc {
                                V::C(x) => V::C((x as u64).wrapping_add(*k as u64) as u128),
                                V::E(_) => self.bin(Bin::Add, 64, &acc, &V::C(*k as u64 as u128))?,
                                x => x,
                            }
                        }
                        GepIdx::Scaled(o, w, sc) => {
                            let i = op!(o);
                            let i = if *w < 64 { self.cast(Cast::SExt, *w, 64, &i) } else if *w > 64 { self.cast(Cast::Trunc, *w, 64, &i) } else { i };
                            let i = if *sc == 1 { i } else { self.bin(Bin::Mul, 64, &i, &V::C(*sc as u64 as u128))? };
                            acc = self.bin(Bin::Add, 64, &acc, &i)?;
                        }
                    }
                }
                self.set(st, *d, acc);
            }
            I::Extract(d, a, ix) => {
                let mut v = op!(a);
                for &i in ix { v = elem(&v, i as usize); }
                self.set(st, *d, v);
            }
            I::Insert(d, ty, a, b, ix) => {
                let (a, b) = (op!(a), op!(b));
                let r = insert(ty, &a, &b, ix);
                self.set(st, *d, r);
            }
            I::ExtractEl(d, a, i) => {
                let (a, i) = (op!(a), op!(i));
                let i = self.conc(st, &i, 64)?;
                self.set(st, *d, elem(&a, i as usize));
            }
            I::InsertEl(d, ty, a, b, i) => {
                let (a, b, i) = (op!(a), op!(b), op!(i));
                let i = self.conc(st, &i, 64)?;
                let r = insert(ty, &a, &b, &[i as u32]);
                self.set(st, *d, r);
            }
            I::Shuffle(d, ty, a, b, m) => {
                let (a, b) = (op!(a), op!(b));
                let n = match ty { Ty::Vec(n, _) => *n as u32, _ => 0 };
                let out = m.iter().map(|k| match k { None => V::U, Some(k) if *k < n => elem(&a, *k as usize), Some(k) => elem(&b, (*k - n) as usize) }).collect();
                self.set(st, *d, V::A(Rc::new(out)));
            }
            I::AtomicRmw(d, o, ty, a, v) => {
                let (a, v) = (op!(a), op!(v));
                let a = self.conc(st, &a, 64)? as u64;
                let w = ty.bits();
                let old = self.load_ty(st, a, ty)?;
                let new = match o.as_str() {
                    "xchg" => v,
                    "add" => self.bin(Bin::Add, w, &old, &v)?,
                    "sub" => self.bin(Bin::Sub, w, &old, &v)?,
                    "and" => self.bin(Bin::And, w, &old, &v)?,
                    "or" => self.bin(Bin::Or, w, &old, &v)?,
                    "xor" => self.bin(Bin::Xor, w, &old, &v)?,
                    _ => return Err(Stop::Err(format!("atomicrmw {o}"))),
                };
                self.store_ty(st, a, ty, &new)?;
                self.set(st, *d, old);
            }
            I::CmpXchg(d, ty, a, c, n) => {
                let (a, c, n) = (op!(a), op!(c), op!(n));
                let a = self.conc(st, &a, 64)? as u64;
                let old = self.load_ty(st, a, ty)?;
                let eq = self.icmp(Pred::Eq, ty.bits(), &old, &c);
                let eq = self.conc(st, &eq, 1)?;
                if eq == 1 { self.store_ty(st, a, ty, &n)?; }
                self.set(st, *d, V::A(Rc::new(vec![old, V::C(eq)])));
            }
            I::Fence => { Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1; }
            I::Br(t) => self.goto(st, *t),
            I::CondBr(c, a, b) => {
                match op!(c) {
                    V::C(x) => self.goto(st, if x == 1 { *a } else { *b }),
                    V::E(e) => {
                        let (a, b) = (*a, *b);
                        let mut queued = false;
                        let side = self.branch(st, e, &mut |_s, _| queued = true)?;
                        if queued {
                            let mut s2 = self.work.pop().unwrap();
                            self.goto(&mut s2, if side { b } else { a });
                            self.work.push(s2);
                        }
                        self.goto(st, if side { a } else { b });
                    }
                    _ => return Err(Stop::Err("branch on undefined value".into())),
                }
            }
            I::Switch(ty, c, def, cases) => {
                match op!(c) {
                    V::C(x) => { let t = cases.iter().find(|(k, _)| *k == x).map_or(*def, |(_, l)| *l); self.goto(st, t) }
                    V::E(e) => {
                        let w = ty.bits();
                        // group by target
                        let mut groups: Vec<(u32, E)> = vec![];
                        let mut none = self.cx.tru;
                        for (k, l) in cases {
                            let kk = self.cx.konst(w, *k);
                            let q = self.cx.eq(e, kk);
                            let nq = self.cx.not(q);
                            none = self.cx.and(none, nq);
                            match groups.iter_mut().find(|g| g.0 == *l) { Some(g) => g.1 = self.cx.or(g.1, q), None => groups.push((*l, q)) }
                        }
                        match groups.iter_mut().find(|g| g.0 == *def) { Some(g) => g.1 = self.cx.or(g.1, none), None => groups.push((*def, none)) }
                        let mine = groups.iter().position(|g| self.cx.eval(g.1, &st.path.model) == 1).expect("switch");
                        let mut forked = false;
                        for (i, (l, q)) in groups.iter().enumerate() {
                            if i == mine { continue }
                            if let Some(model) = self.feasible(st, *q)? {
                                let mut s2 = st.clone();
                                s2.path.model = model;
                                s2.path.add(&mut self.cx, *q);
                                s2.forks += 1;
                                self.goto(&mut s2, *l);
                                self.work.push(s2);
                                self.res.forks += 1;
                                forked = true;
                            }
                        }
                        if forked { st.path.add(&mut self.cx, groups[mine].1); st.forks += 1; }
                        self.goto(st, groups[mine].0);
                    }
                    _ => return Err(Stop::Err("switch on undefined value".into())),
                }
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|(_, o)| op!(o));
                let fr = st.frames.pop().unwrap();
                for &i in &fr.allocas { self.dealloc(st, i); }
                if st.frames.is_empty() { return Ok(Flow::Done) }
                if let Some(d) = fr.dst {
                    let f = Rc::make_mut(st.frames.last_mut().unwrap());
                    f.regs[d as usize] = v.unwrap_or(V::U);
                }
                self.advance(st);
            }
            I::Unreachable => return Err(Stop::Viol("unreachable".into(), "reached unreachable code".into())),
            I::Call { dst, ret, callee, args, normal } => {
                let name: Rc<str> = match callee {
                    Callee::Direct(n) => n.clone(),
                    Callee::Indirect(o) => {
                        let v = op!(o);
                        let a = self.conc(st, &v, 64)? as u64;
                        match self.addr_fn.get(&a) { Some(n) => n.clone(), None => return Err(Stop::Viol("memory".into(), format!("call to invalid address {a:#x}"))) }
                    }
                };
                let _ = normal;
                match self.target(&name) {
                    // <u128>::_fmt_inner(n, buffer, length) -> start of the digits written to the buffer's end
                    Target::Def if st.opaque_numbers && name.ends_with("10__fmt_inner") && name.contains("3num") && matches!(&args[..], [(Ty::Int(128), _), (Ty::Ptr, _), (Ty::Int(64), _)])
                        && !matches!(op!(&args[0].1), V::C(_)) => {
                        let (p, n) = (op!(&args[1].1), op!(&args[2].1));
                        let p = self.conc(st, &p, 64)? as u64;
                        let n = self.conc(st, &n, 64)? as u64;
                        let z = self.split_int(&V::C(b'0' as u128), 8)[0];
                        self.store_bytes(st, p + n - 1, &[z])?;
                        if let Some(d) = dst { Rc::make_mut(st.frames.last_mut().unwrap()).regs[*d as usize] = V::C((n - 1) as u128); }
                        self.advance(st);
                    }
                    Target::Def => {
                        if st.frames.len() > 3000 { return Err(Stop::Viol("recursion".into(), "call depth above 3000".into())) }
                        let f = self.func(&name);
                        let mut regs = vec![V::U; f.nregs as usize];
                        for (i, (_, o)) in args.iter().enumerate() {
                            if i < f.params.len() { regs[f.params[i] as usize] = op!(o); }
                        }
                        // <number>::fmt(&self, formatter): print 0 instead of a symbolic number
                        if let Some(n) = st.opaque_numbers.then(|| number_fmt(&name)).flatten() {
                            let p = &mut regs[f.params[0] as usize];
                            let a = self.conc(st, p, 64)? as u64;
                            if self.load_bytes(st, a, n)?.iter().any(|b| b.1 != SYM_CONC) { *p = V::C(self.alloc(st, n, false) as u128) }
                        }
                        // <number>::_fmt(number, buffer), which their to_string uses: the same
                        if st.opaque_numbers && name.ends_with("4__fmt") && name.contains("4core3fmt3num") && matches!(args.first(), Some((Ty::Int(_), _))) && !matches!(regs[f.params[0] as usize], V::C(_)) {
                            regs[f.params[0] as usize] = V::C(0);
                        }
                        // debug formats of texts: print nothing and '\0'
                        if st.opaque_numbers && f.demangled == "<str as core::fmt::Debug>::fmt" {
                            let (p, n) = (regs[f.params[0] as usize].clone(), regs[f.params[1] as usize].clone());
                            let (a, n) = (self.conc(st, &p, 64)? as u64, self.conc(st, &n, 64)? as u64);
                            if self.load_bytes(st, a, n)?.iter().any(|b| b.1 != SYM_CONC) { regs[f.params[1] as usize] = V::C(0) }
                        }
                        if st.opaque_numbers && f.demangled == "<char as core::fmt::Debug>::fmt" {
                            let a = self.conc(st, &regs[f.params[0] as usize].clone(), 64)? as u64;
                            if self.load_bytes(st, a, 4)?.iter().any(|b| b.1 != SYM_CONC) { regs[f.params[0] as usize] = V::C(self.alloc(st, 4, false) as u128) }
                        }
                        st.frames.push(Rc::new(Frame { func: f, regs, block: 0, ip: 0, allocas: vec![], dst: *dst }));
                    }
                    Target::Panic => {
                        let mut loc = String::new();
                        for (_, o) in args.iter().rev() {
                            if let V::C(a) = op!(o) { if let Some(l) = self.location(st, a as u64) { loc = l; break } }
                        }
                        let what = args.first().and_then(|(_, o)| if let V::C(a) = op!(o) { self.text(st, a as u64, 200) } else { None }).unwrap_or_default();
                        return Err(Stop::Viol(format!("panic@{loc}"), format!("{what}")));
                    }
                    Target::Builtin(b) => {
                        let av: Vec<V> = args.iter().map(|(_, o)| op!(o)).collect();
                        let r = self.call_builtin(st, b, ret, args, av)?;
                        if let (Some(d), Some(v)) = (dst, r) { Rc::make_mut(st.frames.last_mut().unwrap()).regs[*d as usize] = v; }
                        self.advance(st);
                    }
                    Target::Unknown => return Err(Stop::Err(format!("call to external {name}"))),
                }
            }
            I::Unsupported(s) => return Err(Stop::Err(format!("unsupported instruction {s}"))),
        }
        Ok(Flow::Go)
    }
    /// After a call returns: continue behind it (an `invoke` continues at its normal label).
    fn advance(&mut self, st: &mut State) {
        let fr = st.frames.last().unwrap();
        let func = fr.func.clone();
        if let I::Call { normal: Some(l), .. } = &func.blocks[fr.block as usize].ins[fr.ip] { self.goto(st, *l); }
        else { Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1; }
    }
    fn location(&self, st: &State, a: u64) -> Option<String> {
        let b = self.load_bytes(st, a, 24).ok()?;
        if b.iter().any(|x| x.1 != SYM_CONC) { return None }
        let g = |o: usize, n: usize| (0..n).rev().fold(0u64, |x, i| (x << 8) | b[o + i].0 as u64);
        let (p, l, line) = (g(0, 8), g(8, 8), g(16, 4));
        if l > 300 || l == 0 { return None }
        let s = self.load_bytes(st, p, l).ok()?;
        let s = String::from_utf8(s.iter().map(|x| x.0).collect()).ok()?;
        if s.contains(".rs") { Some(format!("{s}:{line}")) } else { None }
    }
    fn text(&self, st: &State, a: u64, max: usize) -> Option<String> {
        let off = ((a & 0xffff_ffff).wrapping_sub(BASE_OFF)) as usize;
        let (_, o) = self.obj(st, a)?;
        let d = o.data.get(off..)?;
        let v: Vec<u8> = d.iter().copied().take(max).take_while(|c| (0x20..0x7f).contains(c)).collect();
        if v.len() < 4 { return None }
        String::from_utf8(v).ok()
    }

    fn heap_check(&mut self, st: &mut State, v: &V) -> R<u64> {
        let lim = st.alloc_limit;
        if let V::E(e) = v {
            let k = self.cx.konst(64, lim as u128);
            let big = self.cx.ult(k, *e);
            if let Some(model) = self.feasible(st, big)? {
                let sz = self.cx.eval(*e, &model);
                let stack = self.whereami(st);
                self.violation(st, "alloc".into(), format!("allocation of {sz} bytes (limit {lim}) [{stack}]"), Some(model));
                let ok = self.cx.not(big);
                match self.feasible(st, ok)? {
                    None => return Err(Stop::Kill),
                    Some(model) => { st.path.model = model; st.path.add(&mut self.cx, ok); }
                }
            }
        }
        let n = self.conc(st, v, 64)? as u64;
        if n > lim || n.saturating_add(st.heap) > lim.saturating_mul(2) { return Err(Stop::Viol("alloc".into(), format!("allocation of {n} bytes (limit {lim})"))) }
        st.heap_total += n;
        Ok(n)
    }

    fn call_builtin(&mut self, st: &mut State, b: B, ret: &Ty, args: &[(Ty, Op)], av: Vec<V>) -> R<Option<V>> {
        if let Ty::Vec(n, t) = ret {
            // element-wise intrinsics
            let mut out = vec![];
            for i in 0..*n as usize {
                let ev: Vec<V> = av.iter().map(|v| if let V::A(_) = v { elem(v, i) } else { v.clone() }).collect();
                let ea: Vec<(Ty, Op)> = args.iter().map(|(ty, o)| (if let Ty::Vec(_, t) = ty { (**t).clone() } else { ty.clone() }, o.clone())).collect();
                out.push(self.call_builtin(st, b, t, &ea, ev)?.unwrap_or(V::U));
            }
            return Ok(Some(V::A(Rc::new(out))));
        }
        let w0 = args.first().map_or(0, |a| match &a.0 { Ty::Int(w) => *w, Ty::Ptr => 64, _ => 0 });
        Ok(match b {
            B::Nop => None,
            B::RetZero => Some(V::C(0)),
            B::Ident => Some(av[0].clone()),
            B::IsConst => Some(V::C(0)),
            B::Abort => return Err(Stop::Viol("abort".into(), "process abort".into())),
            B::Memcpy => {
                let d = self.conc(st, &av[0], 64)? as u64;
                let s = self.conc(st, &av[1], 64)? as u64;
                let n = self.conc(st, &av[2], 64)? as u64;
                let bytes = self.load_bytes(st, s, n)?;
                self.store_bytes(st, d, &bytes)?;
                Some(V::C(d as u128))
            }
            B::Memset => {
                let d = self.conc(st, &av[0], 64)? as u64;
                let n = self.conc(st, &av[2], 64)? as u64;
                let x = self.cast(Cast::Trunc, args[1].0.bits(), 8, &av[1]);
                let one = self.split_int(&x, 8)[0];
                let bytes = vec![one; n as usize];
                self.store_bytes(st, d, &bytes)?;
                Some(V::C(d as u128))
            }
            B::Strlen => {
                let mut a = self.conc(st, &av[0], 64)? as u64;
                let mut n = 0u128;
                loop {
                    let v = self.load_int(st, a, 8)?;
                    if self.conc(st, &v, 8)? == 0 { break }
                    n += 1;
                    a += 1;
                }
                Some(V::C(n))
            }
            B::Bcmp | B::Memcmp => {
                let p = self.conc(st, &av[0], 64)? as u64;
                let q = self.conc(st, &av[1], 64)? as u64;
                let n = self.conc(st, &av[2], 64)? as u64;
                let x = self.load_bytes(st, p, n)?;
                let y = self.load_bytes(st, q, n)?;
                let mut acc = self.cx.konst(32, 0);
                if b == B::Bcmp {
                    let mut all = self.cx.tru;
                    for i in 0..x.len() {
                        let (a, c) = (self.byte(x[i]), self.byte(y[i]));
                        let q = self.cx.eq(a, c);
                        all = self.cx.and(all, q);
                    }
                    let one = self.cx.konst(32, 1);
                    acc = self.cx.ite(all, acc, one);
                } else {
                    let one = self.cx.konst(32, 1);
                    let neg = self.cx.konst(32, 0xffff_ffff);
                    for i in (0..x.len()).rev() {
                        let (a, c) = (self.byte(x[i]), self.byte(y[i]));
                        let q = self.cx.eq(a, c);
                        let l = self.cx.ult(a, c);
                        let d = self.cx.ite(l, neg, one);
                        acc = self.cx.ite(q, acc, d);
                    }
                }
                Some(self.norm(acc))
            }
            B::Malloc => {
                let n = self.heap_check(st, &av[0])?;
                st.heap += n;
                Some(V::C(self.alloc(st, n, true) as u128))
            }
            B::Calloc => {
                let t = self.bin(Bin::Mul, 64, &av[0], &av[1])?;
                let n = self.heap_check(st, &t)?;
                st.heap += n;
                Some(V::C(self.alloc(st, n, false) as u128))
            }
            B::PosixMemalign => {
                let n = self.heap_check(st, &av[2])?;
                let p = self.conc(st, &av[0], 64)? as u64;
                st.heap += n;
                let a = self.alloc(st, n, true);
                self.store_ty(st, p, &Ty::Ptr, &V::C(a as u128))?;
                Some(V::C(0))
            }
            B::Realloc => {
                let p = self.conc(st, &av[0], 64)? as u64;
                let n = self.heap_check(st, &av[1])?;
                let a = self.alloc(st, n, true);
                if p != 0 {
                    self.range(st, p, 0)?;
                    let old = self.obj(st, p).unwrap().1.data.len() as u64;
                    let bytes = self.load_bytes(st, p, old.min(n))?;
                    self.store_bytes(st, a, &bytes)?;
                    self.free(st, p)?;
                }
                st.heap += n;
                Some(V::C(a as u128))
            }
            B::Free => {
                let p = self.conc(st, &av[0], 64)? as u64;
                if p != 0 { self.free(st, p)?; }
                None
            }
            B::SymBytes => {
                let p = self.conc(st, &av[0], 64)? as u64;
                let n = self.conc(st, &av[1], 64)? as u64;
                let mut bytes = vec![];
                for _ in 0..n {
                    let v = self.cx.var_at(st.nin);
                    st.nin += 1;
                    st.path.ensure(st.nin);
                    bytes.push((0, v));
                }
                self.store_bytes(st, p, &bytes)?;
                None
            }
            B::SymAssume => {
                match &av[0] {
                    V::C(1) => {}
                    V::E(e) => {
                        match self.feasible(st, *e)? {
                            None => return Err(Stop::Kill),
                            Some(m) => { st.path.model = m; st.path.add(&mut self.cx, *e); }
                        }
                    }
                    _ => return Err(Stop::Kill),
                }
                None
            }
            B::SymAssert => {
                let id = self.conc(st, &av[1], 32)?;
                st.asserts += 1;
                self.res.asserts_checked += 1;
                match &av[0] {
                    V::C(1) => {}
                    V::E(e) => {
                        self.res.assert_queries += 1;
                        let ne = self.cx.not(*e);
                        if let Some(m) = self.feasible(st, ne)? {
                            self.violation(st, format!("assert {id}"), String::new(), Some(m));
                        }
                        match self.feasible(st, *e)? {
                            None => return Err(Stop::Kill),
                            Some(m) => { st.path.model = m; st.path.add(&mut self.cx, *e); }
                        }
                    }
                    _ => return Err(Stop::Viol(format!("assert {id}"), String::new())),
                }
                None
            }
            B::SymCover => {
                let id = self.conc(st, &av[0], 32)? as u32;
                if !st.covers.contains(&id) { st.covers.push(id) }
                None
            }
            B::SymObserve => {
                let p = self.conc(st, &av[0], 64)? as u64;
                let n = self.conc(st, &av[1], 64)? as u64;
                let v = self.load_bytes(st, p, n)?;
                st.obs.push(v);
                None
            }
            B::SymOpaque => { st.opaque_numbers = self.conc(st, &av[0], 1)? & 1 == 1; None }
            B::SymAllocLimit => { st.alloc_limit = self.conc(st, &av[0], 64)? as u64; None }
            B::SymFork => { let v = self.conc(st, &av[0], 64)?; Some(V::C(v)) }
            B::UMax | B::UMin | B::SMax | B::SMin => {
                let p = match b { B::UMax => Pred::Ugt, B::UMin => Pred::Ult, B::SMax => Pred::Sgt, _ => Pred::Slt };
                let c = self.icmp(p, w0, &av[0], &av[1]);
                Some(self.select(st, &c, &Ty::Int(w0), &av[0], &av[1])?)
            }
            B::AddO | B::SubO | B::MulO | B::SAddO | B::SSubO | B::SMulO => {
                let w = w0;
                let signed = matches!(b, B::SAddO | B::SSubO | B::SMulO);
                let o = match b { B::AddO | B::SAddO => Bin::Add, B::SubO | B::SSubO => Bin::Sub, _ => Bin::Mul };
                let r = self.bin(o, w, &av[0], &av[1])?;
                let (p, q) = (self.e(&av[0], w), self.e(&av[1], w));
                let re = self.e(&r, w);
                let ov = match (o, signed) {
                    (Bin::Add, false) => self.cx.ult(re, p),
                    (Bin::Sub, false) => self.cx.ult(p, q),
                    (Bin::Add, true) => {
                        let (sp, sq, sr) = (self.cx.extract(p, 1, w - 1), self.cx.extract(q, 1, w - 1), self.cx.extract(re, 1, w - 1));
                        let x = self.cx.eq(sp, sq);
                        let y = self.cx.eq(sp, sr);
                        let ny = self.cx.not(y);
                        self.cx.and(x, ny)
                    }
                    (Bin::Sub, true) => {
                        let (sp, sq, sr) = (self.cx.extract(p, 1, w - 1), self.cx.extract(q, 1, w - 1), self.cx.extract(re, 1, w - 1));
                        let x = self.cx.eq(sp, sq);
                        let nx = self.cx.not(x);
                        let y = self.cx.eq(sp, sr);
                        let ny = self.cx.not(y);
                        self.cx.and(nx, ny)
                    }
                    (_, sg) => {
                        if let (Some(a), Some(c)) = (self.cx.cv(p), self.cx.cv(q)) {
                            let over = if sg {
                                match sx(a, w).checked_mul(sx(c, w)) { None => true, Some(v) => sx(v as u128 & m128(w), w) != v }
                            } else {
                                match a.checked_mul(c) { None => true, Some(v) => v > m128(w) }
                            };
                            if over { self.cx.tru } else { self.cx.fls }
                        } else if !sg && (self.cx.cv(p).is_some() || self.cx.cv(q).is_some()) {
                            // x * c overflows iff x > max / c
                            let (x, c) = if let Some(c) = self.cx.cv(q) { (p, c) } else { (q, self.cx.cv(p).unwrap()) };
                            if c == 0 { self.cx.fls } else { let k = self.cx.konst(w, m128(w) / c); self.cx.ult(k, x) }
                        } else if sg && w <= 127 && (self.cx.cv(p).is_some() || self.cx.cv(q).is_some()) || sg && (self.cx.cv(p).map_or(false, |c| sx(c, w) > 0) || self.cx.cv(q).map_or(false, |c| sx(c, w) > 0)) {
                            let (x, c) = if let Some(c) = self.cx.cv(q) { (p, sx(c, w)) } else { (q, sx(self.cx.cv(p).unwrap(), w)) };
                            let (mx, mn) = ((m128(w) >> 1) as i128, sx(1u128 << (w - 1), w));
                            if c == 0 { self.cx.fls }
                            else if c == -1 { let k = self.cx.konst(w, mn as u128); self.cx.eq(x, k) }
                            else {
                                let (hi, lo) = if c > 0 { (mx / c, mn / c) } else { (mn / c, mx / c) };
                                let kh = self.cx.konst(w, hi as u128);
                                let kl = self.cx.konst(w, lo as u128);
                                let a = self.cx.slt(kh, x);
                                let d = self.cx.slt(x, kl);
                                self.cx.or(a, d)
                            }
                        } else {
                            if w > 64 { return Err(Stop::Err("symbolic*symbolic 128-bit overflow check".into())) }
                            let (x, y) = if sg { (self.cx.sext(p, 2 * w), self.cx.sext(q, 2 * w)) } else { (self.cx.zext(p, 2 * w), self.cx.zext(q, 2 * w)) };
                            let m = self.cx.mul(x, y);
                            let lo = self.cx.extract(m, w, 0);
                            let back = if sg { self.cx.sext(lo, 2 * w) } else { self.cx.zext(lo, 2 * w) };
                            let q = self.cx.eq(m, back);
                            self.cx.not(q)
                        }
                    }
                };
                let ov = self.norm(ov);
                Some(V::A(Rc::new(vec![r, ov])))
            }
            B::USubSat => {
                let r = self.bin(Bin::Sub, w0, &av[0], &av[1])?;
                let c = self.icmp(Pred::Ult, w0, &av[0], &av[1]);
                Some(self.select(st, &c, &Ty::Int(w0), &V::C(0), &r)?)
            }
            B::UAddSat => {
                let r = self.bin(Bin::Add, w0, &av[0], &av[1])?;
                let c = self.icmp(Pred::Ult, w0, &r, &av[0]);
                Some(self.select(st, &c, &Ty::Int(w0), &V::C(m128(w0)), &r)?)
            }
            B::SSubSat | B::SAddSat => return Err(Stop::Err("signed saturating intrinsic".into())),
            B::Ctpop => {
                if let V::C(x) = av[0] { Some(V::C(x.count_ones() as u128)) } else {
                    let e = self.e(&av[0], w0);
                    let mut acc = self.cx.konst(w0, 0);
                    for i in 0..w0 { let bit = self.cx.extract(e, 1, i); let z = self.cx.zext(bit, w0); acc = self.cx.add(acc, z); }
                    Some(self.norm(acc))
                }
            }
            B::Cttz | B::Ctlz => {
                if let V::C(x) = av[0] {
                    let r = if b == B::Cttz { (x.trailing_zeros()).min(w0) } else { (x << (128 - w0)).leading_zeros().min(w0) };
                    Some(V::C(r as u128))
                } else {
                    let e = self.e(&av[0], w0);
                    let mut acc = self.cx.konst(w0, w0 as u128);
                    for i in (0..w0).rev() {
                        let pos = if b == B::Cttz { i } else { w0 - 1 - i };
                        let bit = self.cx.extract(e, 1, pos);
                        let k = self.cx.konst(w0, i as u128);
                        acc = self.cx.ite(bit, k, acc);
                    }
                    Some(self.norm(acc))
                }
            }
            B::Bswap => {
                let by = self.split_int(&av[0], w0);
                let rev: Vec<_> = by.into_iter().rev().collect();
                Some(self.join_any(&rev, w0))
            }
            B::BitRev => {
                if let V::C(x) = av[0] { Some(V::C(x.reverse_bits() >> (128 - w0))) } else {
                    let e = self.e(&av[0], w0);
                    let mut acc: Option<E> = None;
                    for i in 0..w0 { let bit = self.cx.extract(e, 1, i); acc = Some(match acc { None => bit, Some(a) => self.cx.concat(a, bit) }); }
                    Some(self.norm(acc.unwrap()))
                }
            }
            B::Abs => {
                let neg = self.bin(Bin::Sub, w0, &V::C(0), &av[0])?;
                let c = self.icmp(Pred::Slt, w0, &av[0], &V::C(0));
                Some(self.select(st, &c, &Ty::Int(w0), &neg, &av[0])?)
            }
            B::UCmp | B::SCmp => {
                let rw = ret.bits();
                let lt = self.icmp(if b == B::UCmp { Pred::Ult } else { Pred::Slt }, w0, &av[0], &av[1]);
                let eq = self.icmp(Pred::Eq, w0, &av[0], &av[1]);
                let r = self.select(st, &eq, &Ty::Int(rw), &V::C(0), &V::C(1))?;
                Some(self.select(st, &lt, &Ty::Int(rw), &V::C(m128(rw)), &r)?)
            }
            B::Fshl | B::Fshr => {
                let s = match av[2] { V::C(s) => (s % w0 as u128) as u32, _ => return Err(Stop::Err("funnel shift by symbolic amount".into())) };
                if s == 0 { return Ok(Some(if b == B::Fshl { av[0].clone() } else { av[1].clone() })) }
                if let (V::C(x), V::C(y)) = (&av[0], &av[1]) {
                    let (l, r) = if b == B::Fshl { (s, w0 - s) } else { (w0 - s, s) };
                    return Ok(Some(V::C(((x << l) | (y >> r)) & m128(w0))));
                }
                let (x, y) = (self.e(&av[0], w0), self.e(&av[1], w0));
                // concat(x, y) shifted
                let keep = if b == B::Fshl { w0 - s } else { s }; // bits kept of x (low part)
                let hi = self.cx.extract(x, keep, 0);
                let lo = self.cx.extract(y, w0 - keep, keep);
                let r = self.cx.concat(hi, lo);
                Some(self.norm(r))
            }
        })
    }
    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        let id = (p >> 32) as u32;
        if id < HEAP_ID0 || p & 0xffff_ffff != BASE_OFF || self.obj(st, p).is_none() { return Err(Stop::Viol("memory".into(), format!("invalid free {p:#x}"))) }
        let n = self.obj(st, p).unwrap().1.data.len() as u64;
        st.heap = st.heap.saturating_sub(n);
        self.dealloc(st, id - HEAP_ID0);
        Ok(())
    }
    fn byte(&mut self, x: (u8, u32)) -> E {
        if x.1 == SYM_CONC { self.cx.konst(8, x.0 as u128) } else if x.1 == SYM_UNDEF { self.cx.konst(8, 0) } else { x.1 }
    }
    fn join_any(&mut self, b: &[(u8, u32)], w: u32) -> V {
        if b.iter().all(|x| x.1 == SYM_CONC) {
            let mut v = 0u128;
            for x in b.iter().rev() { v = (v << 8) | x.0 as u128 }
            return V::C(v & m128(w));
        }
        self.join_bytes(b, w)
    }
}

fn elem(v: &V, i: usize) -> V {
    match v {
        V::A(x) => x.get(i).cloned().unwrap_or(V::U),
        V::U => V::U,
        x => panic!("elem of {x:?}"),
    }
}
fn insert(ty: &Ty, a: &V, b: &V, ix: &[u32]) -> V {
    if ix.is_empty() { return b.clone() }
    let n = match ty { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize, _ => panic!("insert into {ty:?}") };
    let mut v: Vec<V> = (0..n).map(|i| elem(a, i)).collect();
    let (_, ft) = ty.field(ix[0] as usize);
    v[ix[0] as usize] = insert(&ft, &v[ix[0] as usize], b, &ix[1..]);
    V::A(Rc::new(v))
}

#[allow(unused)]
fn _unused() { let _ = ir::up; }

/// A number shared with processes forked later.
fn shared_u64() -> &'static std::sync::atomic::AtomicU64 {
    extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }
    let p = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const std::sync::atomic::AtomicU64) };
    p.store(u64::MAX, std::sync::atomic::Ordering::SeqCst);
    p
}
