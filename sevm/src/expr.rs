//! Hash-consed bit-vector expressions with local simplification and evaluation.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K { Const, Var, Not, And, Or, Xor, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub k: K, pub w: u16, pub a: u32, pub b: u32, pub c: u32, pub v: u128 }

pub const MULTI: u32 = u32::MAX;

pub struct Ctx {
    pub nodes: Vec<Node>,
    /// 0: constant, v+1: depends on that byte only, MULTI: several bytes
    pub sup: Vec<u32>,
    /// Depth of the expression.
    pub dep: Vec<u16>,
    supset: HashMap<E, Rc<Vec<u32>>>,
    map: HashMap<Node, E>,
    /// signed interval every value of the node lies in
    pub rng: Vec<(i128, i128)>,
    pub nvars: u32,
    /// push extractions through arithmetic (only while narrowing)
    pub deep: bool,
    memo_gen: Vec<u32>,
    memo_val: Vec<u128>,
    memo_hi: Vec<u128>,
    gen: u32,
    masks: HashMap<E, Rc<[u64; 4]>>,
    parts: HashMap<(E, u16, u16, bool), E>,
    pub tru: E,
    pub fls: E,
}

pub fn m128(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![], sup: vec![], dep: vec![], supset: HashMap::new(), map: HashMap::new(), rng: vec![], nvars: 0, deep: false,
            memo_gen: vec![], memo_val: vec![], memo_hi: vec![], gen: 0, masks: HashMap::new(), parts: HashMap::new(), tru: 0, fls: 0,
        };
        c.fls = c.konst(1, 0);
        c.tru = c.konst(1, 1);
        c
    }
    fn mk(&mut self, k: K, w: u32, a: u32, b: u32, c: u32, v: u128) -> E {
        let n = Node { k, w: w as u16, a, b, c, v };
        if let Some(&e) = self.map.get(&n) { return e }
        let id = self.nodes.len() as u32;
        let sup = match k {
            K::Const => 0,
            K::Var => a + 1,
            K::Extract | K::ZExt | K::SExt | K::Not => self.sup[a as usize],
            K::Ite => join(join(self.sup[a as usize], self.sup[b as usize]), self.sup[c as usize]),
            _ => join(self.sup[a as usize], self.sup[b as usize]),
        };
        let r = self.range_of(&n);
        let d = |e: u32| self.dep[e as usize];
        let dep = match k {
            K::Const | K::Var => 0,
            K::Extract | K::ZExt | K::SExt | K::Not => d(a),
            K::Ite => d(a).max(d(b)).max(d(c)),
            _ => d(a).max(d(b)),
        };
        self.dep.push(dep.saturating_add(1));
        self.nodes.push(n);
        self.rng.push(r);
        self.sup.push(sup);
        self.memo_gen.push(0);
        self.memo_val.push(0);
        self.memo_hi.push(0);
        self.map.insert(n, id);
        id
    }
    fn range_of(&self, n: &Node) -> (i128, i128) {
        let w = n.w as u32;
        let full = if w >= 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) };
        let r = match n.k {
            K::Const if w <= 128 => { let v = sx(n.v, w); (v, v) }
            // bytes are unsigned quantities; as 8-bit signed values they span the full range
            K::ZExt => {
                let iw = self.nodes[n.a as usize].w as u32;
                let a = self.rng[n.a as usize];
                if a.0 >= 0 { a } else if iw < 127 { (0, (1i128 << iw) - 1) } else { return full }
            }
            K::SExt => self.rng[n.a as usize],
            K::Ite => { let (a, b) = (self.rng[n.b as usize], self.rng[n.c as usize]); (a.0.min(b.0), a.1.max(b.1)) }
            K::Add | K::Sub | K::Mul => match arith(n.k, self.rng[n.a as usize], self.rng[n.b as usize]) { Some(r) => r, None => return full },
            K::UDiv | K::URem => {
                let a = self.rng[n.a as usize];
                let b = &self.nodes[n.b as usize];
                if a.0 < 0 || b.k != K::Const || b.v == 0 || b.v > i64::MAX as u128 { return full }
                let c = b.v as i128;
                if n.k == K::UDiv { (a.0 / c, a.1 / c) } else { (0, a.1.min(c - 1)) }
            }
            K::And => {
                let b = self.rng[n.b as usize];
                let a = self.rng[n.a as usize];
                if b.0 >= 0 { (0, b.1) } else if a.0 >= 0 { (0, a.1) } else { return full }
            }
            K::Concat => {
                let lw = self.nodes[n.b as usize].w as u32;
                if w > 127 { return full }
                let a = self.rng[n.a as usize];
                ((a.0 << lw), (a.1 << lw) + ((1i128 << lw) - 1))
            }
            _ => return full,
        };
        if r.0 < full.0 || r.1 > full.1 { full } else { r }
    }
    /// Narrowed form of an arithmetic operation whose exact result needs at most half the width.
    fn narrow(&mut self, k: K, w: u32, a: E, b: E) -> Option<E> {
        if w < 16 || w > 128 { return None }
        let r = arith(k, self.rng[a as usize], self.rng[b as usize])?;
        let need = if r.0 >= 0 { 128 - (r.1 as u128).leading_zeros() } else {
            129 - (r.1.max(0) as u128).leading_zeros().min(((!r.0) as u128).leading_zeros())
        }.max(1);
        if need > w / 2 { return None }
        let d = std::mem::replace(&mut self.deep, true);
        let x = self.extract(a, need, 0);
        let y = self.extract(b, need, 0);
        self.deep = d;
        let z = match k { K::Add => self.add(x, y), K::Sub => self.sub(x, y), _ => self.mul(x, y) };
        Some(if r.0 >= 0 { self.zext(z, w) } else { self.sext(z, w) })
    }
    pub fn konst(&mut self, w: u32, v: u128) -> E { self.mk(K::Const, w, 0, 0, 0, v & m128(w)) }
    pub fn var(&mut self) -> E { let i = self.nvars; self.var_at(i) }
    pub fn var_at(&mut self, i: u32) -> E { if i >= self.nvars { self.nvars = i + 1 } self.mk(K::Var, 8, i, 0, 0, 0) }
    pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w as u32 }
    pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    pub fn cv(&self, e: E) -> Option<u128> { let n = &self.nodes[e as usize]; if n.k == K::Const { Some(n.v) } else { None } }

    pub fn support(&mut self, e: E) -> Rc<Vec<u32>> {
        let s = self.sup[e as usize];
        if s == 0 { return Rc::new(vec![]) }
        if s != MULTI { return Rc::new(vec![s - 1]) }
        if let Some(r) = self.supset.get(&e) { return r.clone() }
        let mut seen = std::collections::HashSet::new();
        let mut vars = std::collections::BTreeSet::new();
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue }
            let s = self.sup[x as usize];
            if s == 0 { continue }
            if s != MULTI { vars.insert(s - 1); continue }
            if x != e { if let Some(r) = self.supset.get(&x) { vars.extend(r.iter().copied()); continue } }
            let n = self.nodes[x as usize];
            match n.k {
                K::Extract | K::ZExt | K::SExt | K::Not => st.push(n.a),
                K::Ite => { st.push(n.a); st.push(n.b); st.push(n.c) }
                _ => { st.push(n.a); st.push(n.b) }
            }
        }
        let r = Rc::new(vars.into_iter().collect::<Vec<_>>());
        self.supset.insert(e, r.clone());
        r
    }

    // ---- constructors with simplification
    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        match n.k {
            K::Const => self.konst(n.w as u32, !n.v),
            K::Not => n.a,
            K::Ult if n.w == 1 => self.ule(n.b, n.a),
            K::Ule if n.w == 1 => self.ult(n.b, n.a),
            K::Slt => self.sle(n.b, n.a),
            K::Sle => self.slt(n.b, n.a),
            K::Ite if n.w == 1 && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) => {
                let b = self.not(n.b);
                let c = self.not(n.c);
                self.ite(n.a, b, c)
            }
            _ => self.mk(K::Not, n.w as u32, a, 0, 0, 0),
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return a }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.konst(w, x & y) }
            if y == 0 { return b }
            if w <= 128 && y == m128(w) { return a }
            let n = self.n(a);
            if w <= 128 {
                // low mask -> zext(extract)
                if (y & (y + 1)) == 0 {
                    let k = 128 - y.leading_zeros();
                    let lo = self.extract(a, k, 0);
                    return self.zext(lo, w);
                }
                if n.k == K::ZExt {
                    let iw = self.w(n.a);
                    if iw > 1 {
                        let kk = self.konst(iw, y);
                        let x = self.and(n.a, kk);
                        return self.zext(x, w);
                    }
                }
                // single contiguous mask
                let tz = y.trailing_zeros();
                let sh = y >> tz;
                if tz > 0 && (sh & (sh + 1)) == 0 {
                    let len = 128 - sh.leading_zeros();
                    let x = self.extract(a, len, tz);
                    let z = self.konst(tz, 0);
                    let c = self.concat(x, z);
                    return self.zext(c, w);
                }
            }
            if n.k == K::And { if let Some(z) = self.cv(n.b) { let kk = self.konst(w, y & z); return self.and(n.a, kk) } }
            if n.k == K::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let x = self.and(n.b, b); let z = self.and(n.c, b);
                return self.ite(n.a, x, z);
            }
        }
        if w == 1 {
            let (na, nb) = (self.n(a), self.n(b));
            if na.k == K::Not && na.a == b || nb.k == K::Not && nb.a == a { return self.fls }
        }
        if w <= 128 {
            // and of disjoint zexts / concats with zero parts
            let (na, nb) = (self.n(a), self.n(b));
            if na.k == K::ZExt && nb.k == K::ZExt && self.w(na.a) == self.w(nb.a) && w > 1 {
                let x = self.and(na.a, nb.a);
                return self.zext(x, w);
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(K::And, w, a, b, 0, 0)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return a }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.konst(w, x | y) }
            if y == 0 { return a }
            if w <= 128 && y == m128(w) { return b }
            let n = self.n(a);
            if n.k == K::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let x = self.or(n.b, b); let z = self.or(n.c, b);
                return self.ite(n.a, x, z);
            }
            // split at zero-extension boundaries so that byte structure survives
            if w <= 128 && n.k == K::ZExt {
                let iw = self.w(n.a);
                let hi = self.konst(w - iw, y >> iw);
                let lk = self.konst(iw, y);
                let lo = self.or(n.a, lk);
                return self.concat(hi, lo);
            }
            if w <= 128 && n.k == K::Concat {
                let lw = self.w(n.b);
                let hk = self.konst(w - lw, y >> lw);
                let lk = self.konst(lw, y);
                let hi = self.or(n.a, hk);
                let lo = self.or(n.b, lk);
                return self.concat(hi, lo);
            }
        }
        if w == 1 {
            let (na, nb) = (self.n(a), self.n(b));
            if na.k == K::Not && na.a == b || nb.k == K::Not && nb.a == a { return self.tru }
        }
        // combine pieces: zext(x) | concat(y, 0)
        if w > 1 {
            for (p, q) in [(a, b), (b, a)] {
                let (np, nq) = (self.n(p), self.n(q));
                if np.k == K::ZExt && nq.k == K::Concat {
                    let pw = self.w(np.a);
                    let lw = self.w(nq.b);
                    if self.cv(nq.b) == Some(0) && lw >= pw {
                        let lo = self.zext(np.a, lw);
                        return self.concat(nq.a, lo);
                    }
                }
                if np.k == K::ZExt && nq.k == K::ZExt {
                    let pw = self.w(np.a);
                    let qw = self.w(nq.a);
                    let m = pw.max(qw);
                    if m < w {
                        let x = self.zext(np.a, m);
                        let y = self.zext(nq.a, m);
                        let o = self.or(x, y);
                        return self.zext(o, w);
                    }
                }
            }
            let (na, nb) = (self.n(a), self.n(b));
            if na.k == K::Concat && nb.k == K::Concat && self.w(na.b) == self.w(nb.b) {
                let hi = self.or(na.a, nb.a);
                let lo = self.or(na.b, nb.b);
                return self.concat(hi, lo);
            }
            for (p, q) in [(a, b), (b, a)] {
                let (np, nq) = (self.n(p), self.n(q));
                // concat(hi, zero-extendable low) | concat(hi2, 0) with different split
                if np.k == K::Concat && nq.k == K::Concat {
                    let lp = self.w(np.b);
                    let lq = self.w(nq.b);
                    if lp < lq && self.cv(np.a) == Some(0) { let _ = lq; }
                    if self.cv(nq.b) == Some(0) && lp < lq {
                        // low part of p (lq bits) is untouched
                        let lo = self.extract(p, lq, 0);
                        let hp = self.extract(p, w - lq, lq);
                        let hi = self.or(hp, nq.a);
                        return self.concat(hi, lo);
                    }
                }
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(K::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.konst(w, 0) }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.konst(w, x ^ y) }
            if y == 0 { return a }
            if w <= 128 && y == m128(w) { return self.not(a) }
            let n = self.n(a);
            if n.k == K::Xor { if let Some(z) = self.cv(n.b) { let kk = self.konst(w, y ^ z); return self.xor(n.a, kk) } }
            if w <= 128 && n.k == K::ZExt {
                let iw = self.w(n.a);
                let hi = self.konst(w - iw, y >> iw);
                let lk = self.konst(iw, y);
                let lo = self.xor(n.a, lk);
                return self.concat(hi, lo);
            }
            if n.k == K::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let x = self.xor(n.b, b); let z = self.xor(n.c, b);
                return self.ite(n.a, x, z);
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(K::Xor, w, a, b, 0, 0)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 { return self.xor(a, b) }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cv(b) {
            if w <= 128 {
                if let Some(x) = self.cv(a) { return self.konst(w, x.wrapping_add(y)) }
                let n = self.n(a);
                if n.k == K::Add { if let Some(z) = self.cv(n.b) { let kk = self.konst(w, y.wrapping_add(z)); return self.add(n.a, kk) } }
                if n.k == K::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                    let x = self.add(n.b, b); let z = self.add(n.c, b);
                    return self.ite(n.a, x, z);
                }
            }
            if y == 0 { return a }
        }
        // (x + c) + y  ->  (x + y) + c
        if w <= 128 {
            let (na, nb) = (self.n(a), self.n(b));
            if na.k == K::Add && self.cv(b).is_none() { if let Some(z) = self.cv(na.b) {
                let s = self.add(na.a, b); let kk = self.konst(w, z); return self.add(s, kk) } }
            if nb.k == K::Add { if let Some(z) = self.cv(nb.b) {
                let s = self.add(a, nb.a); let kk = self.konst(w, z); return self.add(s, kk) } }
            // x + (0 - y) with x == y ; (p - x) + x
            if na.k == K::Sub && na.b == b { return na.a }
            if nb.k == K::Sub && nb.b == a { return nb.a }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        if let Some(e) = self.narrow(K::Add, w, a, b) { return e }
        self.mk(K::Add, w, a, b, 0, 0)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 { return self.xor(a, b) }
        if a == b { return self.konst(w, 0) }
        if w <= 128 {
            if let Some(y) = self.cv(b) { let k = self.konst(w, y.wrapping_neg()); return self.add(a, k) }
            let (na, nb) = (self.n(a), self.n(b));
            // (x + c) - x, (x+c) - (x+d), (x+y)-y
            if na.k == K::Add {
                if na.a == b { return na.b }
                if na.b == b { return na.a }
                if let Some(c) = self.cv(na.b) {
                    let s = self.sub(na.a, b);
                    let kk = self.konst(w, c);
                    return self.add(s, kk);
                }
            }
            if nb.k == K::Add {
                if let Some(c) = self.cv(nb.b) {
                    let s = self.sub(a, nb.a);
                    let kk = self.konst(w, c.wrapping_neg());
                    return self.add(s, kk);
                }
                if nb.a == a { let z = self.konst(w, 0); return self.sub(z, nb.b) }
                if nb.b == a { let z = self.konst(w, 0); return self.sub(z, nb.a) }
            }
        }
        if let Some(e) = self.narrow(K::Sub, w, a, b) { return e }
        self.mk(K::Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cv(b) {
            if w <= 128 { if let Some(x) = self.cv(a) { return self.konst(w, x.wrapping_mul(y)) } }
            if y == 0 { return b }
            if y == 1 { return a }
            if w <= 128 && y.is_power_of_two() { let k = self.konst(w, y.trailing_zeros() as u128); return self.shl(a, k) }
            let n = self.n(a);
            if w <= 128 && n.k == K::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let x = self.mul(n.b, b); let z = self.mul(n.c, b);
                return self.ite(n.a, x, z);
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        if let Some(e) = self.narrow(K::Mul, w, a, b) { return e }
        self.mk(K::Mul, w, a, b, 0, 0)
    }
    pub fn div(&mut self, k: K, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if w <= 128 { return self.konst(w, eval_div(k, x, y, w)) }
        }
        if let Some(y) = self.cv(b) {
            if w <= 128 && y.is_power_of_two() {
                if k == K::UDiv { let s = self.konst(w, y.trailing_zeros() as u128); return self.lshr(a, s) }
                if k == K::URem { let s = self.konst(w, y - 1); return self.and(a, s) }
            }
            // narrow: dividend is a zero extension
            if (k == K::UDiv || k == K::URem) && w <= 128 {
                let n = self.n(a);
                if n.k == K::ZExt {
                    let iw = self.w(n.a);
                    if y <= m128(iw) {
                        let kb = self.konst(iw, y);
                        let d = self.div(k, n.a, kb);
                        return self.zext(d, w);
                    }
                }
                if n.k == K::Concat && self.cv(n.a) == Some(0) {
                    let iw = self.w(n.b);
                    if y <= m128(iw) {
                        let kb = self.konst(iw, y);
                        let d = self.div(k, n.b, kb);
                        return self.zext(d, w);
                    }
                }
            }
        }
        self.mk(k, w, a, b, 0, 0)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 0 { return a }
            if y >= w as u128 { return self.konst(w, 0) }
            let y = y as u32;
            let x = self.extract(a, w - y, 0);
            let z = self.konst(y, 0);
            return self.concat(x, z);
        }
        self.mk(K::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 0 { return a }
            if y >= w as u128 { return self.konst(w, 0) }
            let x = self.extract(a, w - y as u32, y as u32);
            return self.zext(x, w);
        }
        self.mk(K::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 0 { return a }
            let y = (y.min(w as u128 - 1)) as u32;
            let x = self.extract(a, w - y, y);
            return self.sext(x, w);
        }
        self.mk(K::AShr, w, a, b, 0, 0)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        let (nh, nl) = (self.n(hi), self.n(lo));
        if nh.k == K::Const && nl.k == K::Const && w <= 128 { return self.konst(w, (nh.v << wl) | nl.v) }
        if nh.k == K::Const && nh.v == 0 { return self.zext(lo, w) }
        if nh.k == K::Extract && nl.k == K::Extract && nh.a == nl.a && nh.b == nl.b + wl {
            return self.extract(nh.a, w, nl.b);
        }
        // concat(extract(x, hi..), x-low part full)  where lo == extract base zero-lo of x itself
        if nh.k == K::Extract && nh.a == lo && false { unreachable!() }
        // concat(concat(a, b), c): try to merge b and c
        if nh.k == K::Concat {
            let nb = self.n(nh.b);
            if (nb.k == K::Extract && nl.k == K::Extract && nb.a == nl.a && nb.b == nl.b + wl)
                || (nb.k == K::Const && nl.k == K::Const && self.w(nh.b) + wl <= 128) {
                let m = self.concat(nh.b, lo);
                return self.concat(nh.a, m);
            }
        }
        if nl.k == K::Concat {
            let na = self.n(nl.a);
            if (nh.k == K::Extract && na.k == K::Extract && nh.a == na.a && nh.b == na.b + na.w as u32)
                || (nh.k == K::Const && na.k == K::Const && wh + self.w(nl.a) <= 128) {
                let m = self.concat(hi, nl.a);
                return self.concat(m, nl.b);
            }
        }
        if nh.k == K::ZExt {
            // concat(zext(x), lo) = zext(concat(x, lo))
            let c = self.concat(nh.a, lo);
            return self.zext(c, w);
        }
        self.mk(K::Concat, w, hi, lo, 0, 0)
    }
    /// Bits [lo, lo+w).
    pub fn extract(&mut self, a: E, w: u32, lo: u32) -> E {
        let n = self.n(a);
        let aw = n.w as u32;
        debug_assert!(lo + w <= aw);
        if w == aw { return a }
        match n.k {
            K::Const => { let v = if lo >= 128 { 0 } else { n.v >> lo }; self.konst(w, v) }
            K::Extract => self.extract(n.a, w, n.b + lo),
            K::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { self.konst(w, 0) }
                else if lo + w <= iw { self.extract(n.a, w, lo) }
                else { let x = self.extract(n.a, iw - lo, lo); self.zext(x, w) }
            }
            K::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { self.extract(n.a, w, lo) }
                else if lo < iw { let x = self.extract(n.a, iw - lo, lo); self.sext(x, w) }
                else { let x = self.extract(n.a, 1, iw - 1); self.sext(x, w) }
            }
            K::Concat => {
                let lw = self.w(n.b);
                if lo >= lw { self.extract(n.a, w, lo - lw) }
                else if lo + w <= lw { self.extract(n.b, w, lo) }
                else {
                    let h = self.extract(n.a, lo + w - lw, 0);
                    let l = self.extract(n.b, lw - lo, lo);
                    self.concat(h, l)
                }
            }
            K::And | K::Or | K::Xor | K::Not | K::Ite => self.extract_memo(n, a, w, lo),
            K::Add | K::Sub | K::Mul if lo == 0 && self.deep => self.extract_memo(n, a, w, lo),
            _ => self.mk(K::Extract, w, a, lo, 0, 0),
        }
    }
    /// Parts of operations, each once however often it is shared.
    fn extract_memo(&mut self, n: Node, a: E, w: u32, lo: u32) -> E {
        let key = (a, w as u16, lo as u16, self.deep);
        if let Some(&e) = self.parts.get(&key) { return e }
        let e = match n.k {
            K::Not => { let x = self.extract(n.a, w, lo); self.not(x) }
            K::Ite => {
                let x = self.extract(n.b, w, lo);
                let y = self.extract(n.c, w, lo);
                self.ite(n.a, x, y)
            }
            k => {
                let x = self.extract(n.a, w, lo);
                let y = self.extract(n.b, w, lo);
                match k { K::And => self.and(x, y), K::Or => self.or(x, y), K::Xor => self.xor(x, y), K::Add => self.add(x, y), K::Sub => self.sub(x, y), _ => self.mul(x, y) }
            }
        };
        self.parts.insert(key, e);
        e
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        let aw = n.w as u32;
        if aw == w { return a }
        match n.k {
            K::Const => self.mk(K::Const, w, 0, 0, 0, n.v),
            K::ZExt => self.zext(n.a, w),
            K::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.mk(K::ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        let aw = n.w as u32;
        if aw == w { return a }
        match n.k {
            K::Const if w <= 128 => self.konst(w, sx(n.v, aw) as u128),
            K::ZExt => self.zext(n.a, w),
            K::Concat if self.cv(n.a).map_or(false, |v| v >> (self.w(n.a) - 1) == 0) => self.zext(a, w),
            K::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() && w <= 128 => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.mk(K::SExt, w, a, 0, 0, 0),
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cv(c) { return if v == 1 { a } else { b } }
        if a == b { return a }
        let nc = self.n(c);
        if nc.k == K::Not { return self.ite(nc.a, b, a) }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b) }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a) }
                _ => {}
            }
        }
        let na = self.n(a);
        if na.k == K::Ite && na.a == c { return self.ite(c, na.b, b) }
        let nb = self.n(b);
        if nb.k == K::Ite && nb.a == c { return self.ite(c, a, nb.c) }
        if w > 8 && w <= 128 {
            // common extensions move outwards
            let (na, nb) = (self.n(a), self.n(b));
            let iw = |s: &Self, n: &Node| match n.k { K::ZExt => Some((s.w(n.a), false)), K::SExt => Some((s.w(n.a), true)), _ => None };
            // |x|: ite(x < 0, 0 - x, x)
            if let Some((n, true)) = iw(self, &nb) {
                let sign = self.extract(nb.a, 1, n - 1);
                if sign == c {
                    let z = self.konst(w, 0);
                    if self.sub(z, b) == a {
                        let zn = self.konst(n, 0);
                        let neg = self.sub(zn, nb.a);
                        let r = self.ite(c, neg, nb.a);
                        return self.zext(r, w);
                    }
                }
            }
            if na.k == K::ZExt && nb.k == K::ZExt {
                let m = self.w(na.a).max(self.w(nb.a));
                if m < w { let x = self.zext(na.a, m); let y = self.zext(nb.a, m); let r = self.ite(c, x, y); return self.zext(r, w); }
            }
            let kk = |s: &Self, n: &Node, e: E| -> Option<u32> {
                match n.k {
                    K::ZExt => Some(s.w(n.a) + 1),
                    K::SExt => Some(s.w(n.a)),
                    K::Const => { let r = s.rng[e as usize]; Some(if r.0 >= 0 { 129 - (r.1 as u128).leading_zeros() } else { 129 - ((!r.0) as u128).leading_zeros() }) }
                    _ => None,
                }
            };
            if let (Some(p), Some(q)) = (kk(self, &na, a), kk(self, &nb, b)) {
                let m = p.max(q);
                if m <= w / 2 && !(na.k == K::Const && nb.k == K::Const) {
                    let x = self.extract(a, m, 0);
                    let y = self.extract(b, m, 0);
                    let r = self.ite(c, x, y);
                    return self.sext(r, w);
                }
            }
        }
        self.mk(K::Ite, w, c, a, b, 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return self.tru }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        let w = self.w(a);
        let n = self.n(a);
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return if x == y { self.tru } else { self.fls } }
            if w == 1 { return if y == 1 { a } else { self.not(a) } }
            match n.k {
                K::ZExt => {
                    let iw = self.w(n.a);
                    if iw < 128 && y >> iw != 0 { return self.fls }
                    let k = self.konst(iw, y);
                    return self.eq(n.a, k);
                }
                K::SExt if w <= 128 => {
                    let iw = self.w(n.a);
                    if sx(y & m128(iw), iw) as u128 & m128(w) != y { return self.fls }
                    let k = self.konst(iw, y);
                    return self.eq(n.a, k);
                }
                K::Concat => {
                    let lw = self.w(n.b);
                    let yh = if lw >= 128 { 0 } else { y >> lw };
                    let kl = self.konst(lw, y);
                    let kh = self.konst(w - lw, yh);
                    let x = self.eq(n.a, kh);
                    if self.cv(x) == Some(0) { return x }
                    let z = self.eq(n.b, kl);
                    return self.and(x, z);
                }
                K::Add if w <= 128 => if let Some(c) = self.cv(n.b) {
                    let k = self.konst(w, y.wrapping_sub(c));
                    return self.eq(n.a, k);
                },
                K::Sub if w <= 128 => if let Some(c) = self.cv(n.a) {
                    let k = self.konst(w, c.wrapping_sub(y));
                    return self.eq(n.b, k);
                } else if y == 0 {
                    return self.eq(n.a, n.b);
                },
                K::Xor => if let Some(c) = self.cv(n.b) {
                    let k = self.konst(w, y ^ c);
                    return self.eq(n.a, k);
                } else if y == 0 {
                    return self.eq(n.a, n.b);
                },
                K::Or if y == 0 => {
                    let z = self.konst(w, 0);
                    let p = self.eq(n.a, z);
                    let q = self.eq(n.b, z);
                    return self.and(p, q);
                }
                K::Not => { let k = self.konst(w, !y); return self.eq(n.a, k) }
                K::Ite => {
                    if self.cv(n.b).is_some() || self.cv(n.c).is_some() {
                        let p = self.eq(n.b, b);
                        let q = self.eq(n.c, b);
                        return self.ite(n.a, p, q);
                    }
                }
                _ => {}
            }
        } else {
            let nb = self.n(b);
            if w == 1 {
                let x = self.xor(a, b);
                return self.not(x);
            }
            if n.k == K::ZExt && nb.k == K::ZExt {
                let m = self.w(n.a).max(self.w(nb.a));
                if m < w {
                    let x = self.zext(n.a, m);
                    let y = self.zext(nb.a, m);
                    return self.eq(x, y);
                }
            }
            if n.k == K::SExt && nb.k == K::SExt && self.w(n.a) == self.w(nb.a) { return self.eq(n.a, nb.a) }
            if n.k == K::Concat && nb.k == K::Concat && self.w(n.b) == self.w(nb.b) {
                let x = self.eq(n.a, nb.a);
                let y = self.eq(n.b, nb.b);
                return self.and(x, y);
            }
            if n.k == K::Add && nb.k == K::Add && n.b == nb.b { return self.eq(n.a, nb.a) }
            if n.k == K::Add && n.a == b { let z = self.konst(w, 0); return self.eq(n.b, z) }
            if n.k == K::Add && n.b == b { let z = self.konst(w, 0); return self.eq(n.a, z) }
            if nb.k == K::Add && nb.a == a { let z = self.konst(w, 0); return self.eq(nb.b, z) }
            if nb.k == K::Add && nb.b == a { let z = self.konst(w, 0); return self.eq(nb.a, z) }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(K::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return self.fls }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return if x < y { self.tru } else { self.fls } }
        if w == 1 { let n = self.not(a); return self.and(n, b) }
        if let Some(y) = self.cv(b) {
            if y == 0 { return self.fls }
            if y == 1 { let z = self.konst(w, 0); return self.eq(a, z) }
            let n = self.n(a);
            if n.k == K::ZExt {
                let iw = self.w(n.a);
                if y > m128(iw) { return self.tru }
                let k = self.konst(iw, y);
                return self.ult(n.a, k);
            }
            if n.k == K::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let p = self.ult(n.b, b); let q = self.ult(n.c, b);
                return self.ite(n.a, p, q);
            }
            if n.k == K::Concat && w <= 128 {
                let lw = self.w(n.b);
                if y & m128(lw) == 0 {
                    let k = self.konst(w - lw, y >> lw);
                    return self.ult(n.a, k);
                }
            }
        }
        if let Some(x) = self.cv(a) {
            if w <= 128 && x == m128(w) { return self.fls }
            if x == 0 { let z = self.konst(w, 0); let q = self.eq(b, z); return self.not(q) }
            let n = self.n(b);
            if n.k == K::ZExt {
                let iw = self.w(n.a);
                if x >= m128(iw) { return self.fls }
                let k = self.konst(iw, x);
                return self.ult(k, n.a);
            }
            if n.k == K::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let p = self.ult(a, n.b); let q = self.ult(a, n.c);
                return self.ite(n.a, p, q);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.k == K::ZExt && nb.k == K::ZExt {
            let m = self.w(na.a).max(self.w(nb.a));
            if m < w {
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                return self.ult(x, y);
            }
        }
        self.mk(K::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b { return self.tru }
        let w = self.w(a);
        if w <= 128 {
            // canonicalise on strict comparison when a constant is present
            if let Some(y) = self.cv(b) { if y == m128(w) { return self.tru } let k = self.konst(w, y + 1); return self.ult(a, k) }
            if let Some(x) = self.cv(a) { if x == 0 { return self.tru } let k = self.konst(w, x - 1); return self.ult(k, b) }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.k == K::ZExt && nb.k == K::ZExt {
            let m = self.w(na.a).max(self.w(nb.a));
            if m < w {
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                return self.ule(x, y);
            }
        }
        self.mk(K::Ule, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b { return self.fls }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return if sx(x, w) < sx(y, w) { self.tru } else { self.fls } }
        if self.nonneg(a) && self.nonneg(b) { return self.ult(a, b) }
        if w <= 128 && self.cv(b) == Some(0) { return self.extract(a, 1, w - 1) }
        if w <= 128 && self.cv(a) == Some(m128(w)) { let s = self.extract(b, 1, w - 1); return self.not(s) }
        if w <= 128 {
            let (na, nb) = (self.n(a), self.n(b));
            if na.k == K::SExt {
                let iw = self.w(na.a);
                if let Some(y) = self.cv(b) {
                    let s = sx(y, w);
                    if sx(y & m128(iw), iw) == s { let k = self.konst(iw, y); return self.slt(na.a, k) }
                    return if s > 0 { self.tru } else { self.fls };
                }
            }
            if nb.k == K::SExt {
                let iw = self.w(nb.a);
                if let Some(x) = self.cv(a) {
                    let s = sx(x, w);
                    if sx(x & m128(iw), iw) == s { let k = self.konst(iw, x); return self.slt(k, nb.a) }
                    return if s < 0 { self.tru } else { self.fls };
                }
            }
        }
        self.mk(K::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        if a == b { return self.tru }
        let w = self.w(a);
        if w <= 128 {
            if let Some(y) = self.cv(b) { if sx(y, w) == (m128(w) >> 1) as i128 { return self.tru } let k = self.konst(w, y.wrapping_add(1)); return self.slt(a, k) }
            if let Some(x) = self.cv(a) { if x == 1u128 << (w - 1) { return self.tru } let k = self.konst(w, x.wrapping_sub(1)); return self.slt(k, b) }
        }
        if self.nonneg(a) && self.nonneg(b) { return self.ule(a, b) }
        self.mk(K::Sle, 1, a, b, 0, 0)
    }
    fn nonneg(&self, a: E) -> bool {
        let n = &self.nodes[a as usize];
        match n.k {
            K::Const => n.w <= 128 && n.v >> (n.w - 1) == 0,
            K::ZExt => true,
            K::Ite => self.nonneg(n.b) && self.nonneg(n.c),
            _ => false,
        }
    }

    // ---- evaluation
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 { self.eval2(e, model).0 }
    fn eval2(&mut self, e: E, model: &[u8]) -> (u128, u128) {
        if let Some(v) = self.cv(e) { return (v, 0) }
        self.gen += 1;
        let g = self.gen;
        let mut st: Vec<(E, bool)> = vec![(e, false)];
        while let Some((x, ready)) = st.pop() {
            let xi = x as usize;
            if self.memo_gen[xi] == g { continue }
            let n = self.nodes[xi];
            match n.k {
                K::Const => { self.memo_gen[xi] = g; self.memo_val[xi] = n.v; self.memo_hi[xi] = 0; continue }
                K::Var => {
                    self.memo_gen[xi] = g;
                    self.memo_val[xi] = model.get(n.a as usize).copied().unwrap_or(0) as u128;
                    self.memo_hi[xi] = 0;
                    continue;
                }
                _ => {}
            }
            if !ready {
                st.push((x, true));
                match n.k {
                    K::Extract | K::ZExt | K::SExt | K::Not => st.push((n.a, false)),
                    K::Ite => { st.push((n.a, false)); st.push((n.b, false)); st.push((n.c, false)) }
                    _ => { st.push((n.a, false)); st.push((n.b, false)) }
                }
                continue;
            }
            let (a, ah) = (self.memo_val[n.a as usize], self.memo_hi[n.a as usize]);
            let aw = self.nodes[n.a as usize].w as u32;
            let (b, bh, bw) = match n.k {
                K::Extract | K::ZExt | K::SExt | K::Not => (0, 0, 0),
                _ => (self.memo_val[n.b as usize], self.memo_hi[n.b as usize], self.nodes[n.b as usize].w as u32),
            };
            let w = n.w as u32;
            let mut hi = 0u128;
            let v = if w > 128 || aw > 128 {
                let r = wide(n.k, w, (a, ah), (b, bh), aw, bw, n.b,
                    if n.k == K::Ite { (self.memo_val[n.c as usize], self.memo_hi[n.c as usize]) } else { (0, 0) });
                hi = r.1;
                r.0
            } else {
                match n.k {
                    K::Not => !a,
                    K::And => a & b, K::Or => a | b, K::Xor => a ^ b,
                    K::Add => a.wrapping_add(b), K::Sub => a.wrapping_sub(b), K::Mul => a.wrapping_mul(b),
                    K::UDiv | K::SDiv | K::URem | K::SRem => eval_div(n.k, a, b, w),
                    K::Shl => if b >= w as u128 { 0 } else { a << b },
                    K::LShr => if b >= w as u128 { 0 } else { a >> b },
                    K::AShr => (sx(a, w) >> b.min(w as u128 - 1)) as u128,
                    K::Eq => (a == b) as u128,
                    K::Ult => (a < b) as u128, K::Ule => (a <= b) as u128,
                    K::Slt => (sx(a, aw) < sx(b, aw)) as u128, K::Sle => (sx(a, aw) <= sx(b, aw)) as u128,
                    K::Ite => if a == 1 { b } else { self.memo_val[n.c as usize] },
                    K::Concat => (a << bw) | b,
                    K::Extract => a >> n.b,
                    K::ZExt => a,
                    K::SExt => sx(a, aw) as u128,
                    K::Const | K::Var => unreachable!(),
                }
            };
            self.memo_val[xi] = v & m128(w);
            self.memo_hi[xi] = hi;
            self.memo_gen[xi] = g;
        }
        (self.memo_val[e as usize], self.memo_hi[e as usize])
    }

    /// For a boolean expression over one input byte: the set of byte values that satisfy it.
    pub fn mask_of(&mut self, e: E) -> Rc<[u64; 4]> {
        if let Some(m) = self.masks.get(&e) { return m.clone() }
        let v = self.sup[e as usize] - 1;
        let mut model = vec![0u8; v as usize + 1];
        let mut m = [0u64; 4];
        for x in 0..256usize {
            model[v as usize] = x as u8;
            if self.eval(e, &model) == 1 { m[x / 64] |= 1 << (x % 64) }
        }
        let r = Rc::new(m);
        self.masks.insert(e, r.clone());
        r
    }
}

fn arith(k: K, a: (i128, i128), b: (i128, i128)) -> Option<(i128, i128)> {
    Some(match k {
        K::Add => (a.0.checked_add(b.0)?, a.1.checked_add(b.1)?),
        K::Sub => (a.0.checked_sub(b.1)?, a.1.checked_sub(b.0)?),
        _ => {
            let p = [a.0.checked_mul(b.0)?, a.0.checked_mul(b.1)?, a.1.checked_mul(b.0)?, a.1.checked_mul(b.1)?];
            (*p.iter().min().unwrap(), *p.iter().max().unwrap())
        }
    })
}

fn join(a: u32, b: u32) -> u32 { if a == 0 || a == b { b } else if b == 0 { a } else { MULTI } }

pub fn eval_div(k: K, x: u128, y: u128, w: u32) -> u128 {
    match k {
        // SMT-LIB semantics for division by zero; the executor reports it before getting here
        K::UDiv => if y == 0 { m128(w) } else { x / y },
        K::URem => if y == 0 { x } else { x % y },
        K::SDiv => if y == 0 { 0 } else { sx(x, w).wrapping_div(sx(y, w)) as u128 & m128(w) },
        K::SRem => if y == 0 { x } else { sx(x, w).wrapping_rem(sx(y, w)) as u128 & m128(w) },
        _ => unreachable!(),
    }
}

/// 256-bit arithmetic: only what division-by-constant expansions need.
fn wide(k: K, w: u32, a: (u128, u128), b: (u128, u128), aw: u32, bw: u32, lo: u32, c: (u128, u128)) -> (u128, u128) {
    let shr = |x: (u128, u128), s: u32| -> (u128, u128) {
        if s == 0 { x } else if s >= 256 { (0, 0) } else if s >= 128 { (if s == 128 { x.1 } else { x.1 >> (s - 128) }, 0) } else { ((x.0 >> s) | (x.1 << (128 - s)), x.1 >> s) }
    };
    let shl = |x: (u128, u128), s: u32| -> (u128, u128) {
        if s == 0 { x } else if s >= 256 { (0, 0) } else if s >= 128 { (0, if s == 128 { x.0 } else { x.0 << (s - 128) }) } else { (x.0 << s, (x.1 << s) | (x.0 >> (128 - s))) }
    };
    let r = match k {
        K::And => (a.0 & b.0, a.1 & b.1),
        K::Or => (a.0 | b.0, a.1 | b.1),
        K::Xor => (a.0 ^ b.0, a.1 ^ b.1),
        K::Not => (!a.0, !a.1),
        K::Add => { let (l, o) = a.0.overflowing_add(b.0); (l, a.1.wrapping_add(b.1).wrapping_add(o as u128)) }
        K::Sub => { let (l, o) = a.0.overflowing_sub(b.0); (l, a.1.wrapping_sub(b.1).wrapping_sub(o as u128)) }
        K::Mul => {
            let (l, h) = mul128(a.0, b.0);
            (l, h.wrapping_add(a.0.wrapping_mul(b.1)).wrapping_add(a.1.wrapping_mul(b.0)))
        }
        K::Shl => shl(a, b.0.min(256) as u32),
        K::LShr => shr(a, b.0.min(256) as u32),
        K::Eq => ((a == b) as u128, 0),
        K::Ult => (((a.1, a.0) < (b.1, b.0)) as u128, 0),
        K::Ule => (((a.1, a.0) <= (b.1, b.0)) as u128, 0),
        K::ZExt => a,
        K::Extract => shr(a, lo),
        K::Concat => { let x = shl(a, bw); (x.0 | b.0, x.1 | b.1) }
        K::Ite => if a.0 == 1 { b } else { c },
        _ => panic!("wide op {k:?} w={w} aw={aw}"),
    };
    if w <= 128 { (r.0 & m128(w), 0) } else { (r.0, r.1 & m128(w - 128)) }
}
fn mul128(a: u128, b: u128) -> (u128, u128) {
    let m = u64::MAX as u128;
    let (a0, a1, b0, b1) = (a & m, a >> 64, b & m, b >> 64);
    let p00 = a0 * b0;
    let p01 = a0 * b1;
    let p10 = a1 * b0;
    let p11 = a1 * b1;
    let mid = (p00 >> 64) + (p01 & m) + (p10 & m);
    ((p00 & m) | (mid << 64), p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64))
}
