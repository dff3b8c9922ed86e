//! A small type registry with its own resolver, filled in by choices of the symbolic input.
use crate::sym::*;
use scale_type_resolver::{BitsOrderFormat, BitsStoreFormat, Field, Primitive as P, ResolvedTypeVisitor, TypeResolver, Variant};

pub type Fields = Vec<(Option<&'static str>, u32)>;
#[derive(Clone, Debug)]
pub enum Ty {
    Prim(P),
    Compact(u32),
    Seq(u32),
    Arr(u32, usize),
    Tup(Vec<u32>),
    Comp(Fields),
    Var(Vec<(u8, &'static str, Fields)>),
    Bits(BitsStoreFormat, BitsOrderFormat),
}
#[derive(Default, Debug)]
pub struct Reg(pub Vec<Ty>);
#[derive(Debug)]
pub struct NoType;
impl core::fmt::Display for NoType {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("no type") }
}
impl core::error::Error for NoType {}

pub const BASE: u32 = 100;
impl Reg {
    pub fn new() -> Self { Reg(Vec::new()) }
    /// Every node gets an id of its own, so a wrong id cannot go unnoticed.
    pub fn add(&mut self, t: Ty) -> u32 { self.0.push(t); BASE + self.0.len() as u32 - 1 }
    pub fn get(&self, id: u32) -> &Ty { &self.0[(id - BASE) as usize] }
    pub fn prim(&mut self, p: P) -> u32 { self.add(Ty::Prim(p)) }
}
fn fields<'a>(fs: &'a Fields) -> impl ExactSizeIterator<Item = Field<'a, u32>> + Clone {
    fs.iter().map(|(n, i)| Field { name: *n, id: *i })
}
pub fn field_vec(fs: &Fields) -> Vec<Field<'_, u32>> { fields(fs).collect() }
impl TypeResolver for Reg {
    type TypeId = u32;
    type Error = NoType;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = u32>>(&'this self, id: u32, v: V) -> Result<V::Value, NoType> {
        let Some(t) = id.checked_sub(BASE).and_then(|i| self.0.get(i as usize)) else { return Ok(v.visit_not_found()) };
        let none = core::iter::empty::<&'this str>();
        Ok(match t {
            Ty::Prim(p) => v.visit_primitive(*p),
            Ty::Compact(i) => v.visit_compact(*i),
            Ty::Seq(i) => v.visit_sequence(none, *i),
            Ty::Arr(i, n) => v.visit_array(*i, *n),
            Ty::Tup(is) => v.visit_tuple(is.iter().copied()),
            Ty::Comp(fs) => v.visit_composite(none, fields(fs)),
            Ty::Var(vs) => v.visit_variant(none, vs.iter().map(|(i, n, fs)| Variant { index: *i, name: n, fields: fields(fs) })),
            Ty::Bits(s, o) => v.visit_bit_sequence(*s, *o),
        })
    }
}

pub const UINTS: [P; 5] = [P::U8, P::U16, P::U32, P::U64, P::U128];
pub const SINTS: [P; 5] = [P::I8, P::I16, P::I32, P::I64, P::I128];
pub const STORES: [BitsStoreFormat; 4] = [BitsStoreFormat::U8, BitsStoreFormat::U16, BitsStoreFormat::U32, BitsStoreFormat::U64];
pub const ORDERS: [BitsOrderFormat; 2] = [BitsOrderFormat::Lsb0, BitsOrderFormat::Msb0];

/// Width in bytes and signedness of an integer type of at most 128 bits.
pub fn int_of(p: P) -> Option<(usize, bool)> {
    Some(match p {
        P::U8 => (1, false), P::U16 => (2, false), P::U32 => (4, false), P::U64 => (8, false), P::U128 => (16, false),
        P::I8 => (1, true), P::I16 => (2, true), P::I32 => (4, true), P::I64 => (8, true), P::I128 => (16, true),
        _ => return None,
    })
}

/// Any leaf type: primitives up to 128 bits, compacts, bit sequences.
pub fn any_leaf(r: &mut Reg) -> u32 {
    match pick(7) {
        0 => r.prim(P::Bool),
        1 => r.prim(P::Char),
        2 => r.prim(P::Str),
        3 => { let p = one_of(&UINTS); r.prim(p) }
        4 => { let p = one_of(&SINTS); r.prim(p) }
        5 => any_compact(r),
        _ => { let (s, o) = (one_of(&STORES), one_of(&ORDERS)); r.add(Ty::Bits(s, o)) }
    }
}
/// A compact of an unsigned integer, possibly through single-field wrappers.
pub fn any_compact(r: &mut Reg) -> u32 {
    let p = one_of(&UINTS);
    let i = r.prim(p);
    let i = match pick(4) {
        0 => i,
        1 => r.add(Ty::Tup(vec![i])),
        2 => r.add(Ty::Comp(vec![(None, i)])),
        _ => r.add(Ty::Comp(vec![(Some("inner"), i)])),
    };
    r.add(Ty::Compact(i))
}
/// A few leaf types, one per family.
pub fn few_leaf(r: &mut Reg) -> u32 {
    match pick(4) {
        0 => r.prim(P::Bool),
        1 => r.prim(P::U16),
        2 => r.prim(P::Str),
        _ => { let i = r.prim(P::U32); r.add(Ty::Compact(i)) }
    }
}
pub const NAMES: [&str; 4] = ["a", "bb", "Ccc", "d_4"];
pub const VNAMES: [&str; 4] = ["A", "Bb", "None", "Some"];
/// Fields with children made by `child`, all named, all unnamed, or mixed.
pub fn any_fields(r: &mut Reg, max: usize, child: &mut dyn FnMut(&mut Reg, usize) -> u32) -> Fields {
    let n = pick(max + 1);
    let k = match n { 0 => 0, 1 => pick(2), _ => pick(4) };
    let named = |i: usize| match k { 0 => false, 1 => true, 2 => i == 0, _ => i > 0 };
    (0..n).map(|i| (if named(i) { Some(NAMES[i]) } else { None }, child(r, i))).collect()
}
pub fn bit_fork() -> bool { pick(2) == 1 }
/// One of the first two children of a container.
pub struct One(bool);
impl One {
    pub fn new() -> Self { One(false) }
    pub fn here(&mut self, i: usize) -> bool {
        let x = match i { 0 => pick(2) == 0, 1 => !self.0, _ => false };
        self.0 |= x;
        x
    }
}
/// Any container type with children made by `child`.
pub fn any_container(r: &mut Reg, max: usize, child: &mut dyn FnMut(&mut Reg, usize) -> u32) -> u32 {
    match pick(5) {
        0 => { let c = child(r, 0); r.add(Ty::Seq(c)) }
        1 => { let n = pick(max + 1); let c = child(r, 0); r.add(Ty::Arr(c, n)) }
        2 => { let n = pick(max + 1); let cs = (0..n).map(|i| child(r, i)).collect(); r.add(Ty::Tup(cs)) }
        3 => { let fs = any_fields(r, max, child); r.add(Ty::Comp(fs)) }
        _ => {
            // variants with non-consecutive indexes
            let fs = any_fields(r, max, child);
            let vs = match pick(3) {
                0 => vec![(0, VNAMES[0], fs)],
                1 => vec![(7, VNAMES[1], vec![]), (3, VNAMES[0], fs)],
                _ => { let b = r.prim(P::Bool); vec![(255, VNAMES[3], fs), (0, VNAMES[2], vec![(None, b)])] }
            };
            r.add(Ty::Var(vs))
        }
    }
}
/// A type of the given depth: `level` 0 any leaf; 1 a container of leaves (first child any leaf, others few);
/// 2 a container of which one child, anywhere, is a container of few leaves, others few leaves; ...
pub fn any_type(r: &mut Reg, level: u32) -> u32 {
    match level {
        0 => any_leaf(r),
        1 => any_container(r, 2, &mut |r, i| if i == 0 { any_leaf(r) } else { few_leaf(r) }),
        2 => { let mut one = One::new(); any_container(r, 2, &mut |r, i| if one.here(i) { any_container(r, 2, &mut |r, j| if j == 0 { few_leaf(r) } else { r.prim(P::U8) }) } else { r.prim(P::Bool) }) }
        _ => any_container(r, 1, &mut |r, _| any_container(r, 1, &mut |r, _| any_container(r, 1, &mut |r, _| r.prim(P::U8)))),
    }
}
/// Types that contain themselves: a tree, a list, an alternation.
pub fn any_recursive(r: &mut Reg) -> u32 {
    let n = BASE + r.0.len() as u32;
    match pick(3) {
        0 => { r.add(Ty::Comp(vec![(Some("kids"), n + 1)])); r.add(Ty::Seq(n)); }
        1 => { r.add(Ty::Var(vec![(0, "Nil", vec![]), (1, "Cons", vec![(None, n + 1), (None, n)])])); r.prim(P::U8); }
        _ => { r.add(Ty::Var(vec![(0, "Leaf", vec![]), (2, "Two", vec![(Some("l"), n), (Some("r"), n + 1)]), (3, "Many", vec![(None, n + 2)])])); r.add(Ty::Tup(vec![n])); r.add(Ty::Seq(n)); }
    }
    n
}
