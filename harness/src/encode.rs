use crate::{sym::*, ty::*, val::*};
use scale_type_resolver::{Primitive as P, ResolvedTypeVisitor, TypeResolver};
use scale_value::{scale::encode_as_type, Composite, Primitive, Value, ValueDef};

/// Layers around a type that take no bytes.
pub fn wrap_type(r: &mut Reg, id: u32, k: usize) -> u32 {
    match k {
        0 => id,
        1 => r.add(Ty::Tup(vec![id])),
        2 => r.add(Ty::Comp(vec![(None, id)])),
        3 => r.add(Ty::Comp(vec![(Some("x"), id)])),
        4 => { let i = wrap_type(r, id, 3); wrap_type(r, i, 1) }
        5 => { let i = wrap_type(r, id, 1); wrap_type(r, i, 3) }
        _ => { let i = wrap_type(r, id, 5); let i = wrap_type(r, i, 2); wrap_type(r, i, 3) }
    }
}
fn wrap_value(v: Value<()>, k: usize) -> Value<()> {
    match k {
        0 => v,
        1 => unnamed(vec![v], ()),
        2 => comp(Composite::Named(vec![("x".into(), v)]), ()),
        3 => comp(Composite::Named(vec![("y".into(), v)]), ()),
        4 => wrap_value(wrap_value(v, 2), 1),
        _ => wrap_value(wrap_value(v, 1), 3),
    }
}
pub fn fits(n: u128, neg: bool, w: usize, signed: bool) -> bool {
    // the number is n, or n - 2^128 when `neg`
    let b = 8 * w as u32;
    if neg {
        signed && (b == 128 || (n as i128) >= -(1i128 << (b - 1)))
    } else if signed {
        n < 1u128 << (b - 1)
    } else {
        b == 128 || n >> b == 0
    }
}
/// C09: integers.
#[no_mangle]
pub extern "C" fn h_c09(level: u32) {
    opaque_numbers();
    let mut r = Reg::new();
    let (w, s, c, id) = match pick(3) {
        0 => { let p = one_of(&UINTS); (int_of(p).unwrap().0, false, false, r.prim(p)) }
        1 => { let p = one_of(&SINTS); (int_of(p).unwrap().0, true, false, r.prim(p)) }
        _ => { let p = one_of(&UINTS); let i = r.prim(p); let k = pick(if level == 0 { 1 } else { 5 }); let i = wrap_type(&mut r, i, k); (int_of(p).unwrap().0, false, true, r.add(Ty::Compact(i))) }
    };
    let k = pick(if level == 0 { 1 } else { 7 });
    let id = wrap_type(&mut r, id, k);
    let n = u128();
    let signed = pick(2) == 1;
    let v = prim(if signed { Primitive::I128(n as i128) } else { Primitive::U128(n) }, ());
    let k = pick(if level == 0 { 1 } else { 6 });
    let v = wrap_value(v, k);
    let mut out = vec![];
    let e = encode_as_type(&v, id, &r, &mut out);
    let ok = fits(n, signed && (n as i128) < 0, w, s);
    check!(e.is_ok() == ok);
    if e.is_ok() {
        let mut want = vec![];
        if c { compact(n, &mut want) } else { want.extend_from_slice(&n.to_le_bytes()[..w]) }
        check!(out == want);
        cover(1);
        observe(&out);
    } else {
        cover(2);
    }
}
/// The standard encoding of a primitive for a leaf or container type, if it has one.
fn leaf_encoding(r: &Reg, v: &ValueDef<()>, id: u32) -> Option<Vec<u8>> {
    let mut out = vec![];
    let num = |n: u128, neg: bool| match r.get(id) {
        Ty::Prim(p) => {
            let (w, s) = int_of(*p)?;
            if fits(n, neg, w, s) { Some(n.to_le_bytes()[..w].to_vec()) } else { None }
        }
        Ty::Compact(t) => {
            let Ty::Prim(p) = r.get(*t) else { return None };
            let (w, s) = int_of(*p)?;
            if s || !fits(n, neg, w, s) { return None }
            let mut o = vec![];
            compact(n, &mut o);
            Some(o)
        }
        _ => None,
    };
    match (v, r.get(id)) {
        (ValueDef::Primitive(Primitive::Bool(b)), Ty::Prim(P::Bool)) => out.push(*b as u8),
        (ValueDef::Primitive(Primitive::Char(c)), Ty::Prim(P::Char)) => out.extend_from_slice(&(*c as u32).to_le_bytes()),
        (ValueDef::Primitive(Primitive::Char(c)), _) => return num(*c as u128, false),
        (ValueDef::Primitive(Primitive::U128(n)), _) => return num(*n, false),
        (ValueDef::Primitive(Primitive::I128(n)), _) => return num(*n as u128, *n < 0),
        (ValueDef::Primitive(Primitive::String(s)), Ty::Prim(P::Str)) => { compact(s.len() as u128, &mut out); out.extend_from_slice(s.as_bytes()) }
        (ValueDef::Primitive(Primitive::U256(b)), Ty::Prim(P::U256)) | (ValueDef::Primitive(Primitive::I256(b)), Ty::Prim(P::I256)) => out.extend_from_slice(b),
        // 256-bit numbers are arrays of 32 bytes
        (ValueDef::Primitive(Primitive::U256(b) | Primitive::I256(b)), Ty::Arr(t, 32)) if matches!(r.get(*t), Ty::Prim(P::U8)) => out.extend_from_slice(b),
        (ValueDef::Primitive(Primitive::U256(b) | Primitive::I256(b)), Ty::Seq(t)) if matches!(r.get(*t), Ty::Prim(P::U8)) => { out.push(128); out.extend_from_slice(b) }
        (ValueDef::BitSequence(b), Ty::Bits(s, o)) => { let v: Vec<bool> = b.iter().collect(); bits(&v, *s, *o, &mut out) }
        _ => return None,
    }
    Some(out)
}
/// C09: every kind of primitive against every kind of type.
#[no_mangle]
pub extern "C" fn h_c09_kinds(level: u32) {
    opaque_numbers();
    let mut r = Reg::new();
    let target = match pick(16) {
        0 => r.prim(P::Bool),
        1 => r.prim(P::Char),
        2 => r.prim(P::Str),
        3 => { let p = one_of(&UINTS); r.prim(p) }
        4 => { let p = one_of(&SINTS); r.prim(p) }
        5 => r.prim(P::U256),
        6 => r.prim(P::I256),
        7 => { let p = one_of(&UINTS); let i = r.prim(p); r.add(Ty::Compact(i)) }
        8 => { let p = one_of(&[P::Bool, P::Char, P::U256, P::I32, P::Str]); let i = r.prim(p); r.add(Ty::Compact(i)) }
        9 => { let (s, o) = (one_of(&STORES), one_of(&ORDERS)); r.add(Ty::Bits(s, o)) }
        10 => { let i = r.prim(P::U8); r.add(Ty::Seq(i)) }
        11 => { let i = r.prim(P::U8); r.add(Ty::Arr(i, 32)) }
        12 => { let i = r.prim(P::Char); r.add(Ty::Seq(i)) }
        13 => r.add(Ty::Tup(vec![])),
        14 => { let i = r.prim(P::U8); r.add(Ty::Comp(vec![(Some("a"), i), (Some("b"), i)])) }
        _ => { let i = r.prim(P::U8); r.add(Ty::Var(vec![(0, "A", vec![(None, i)])])) }
    };
    let k = pick(if level == 0 { 1 } else { 7 });
    let id = wrap_type(&mut r, target, k);
    let d = match pick(8) {
        0 => ValueDef::Primitive(Primitive::Bool(bit())),
        1 => ValueDef::Primitive(Primitive::Char(any_char())),
        2 => ValueDef::Primitive(Primitive::String(any_str(2 + level as usize))),
        3 => ValueDef::Primitive(Primitive::U128(u128())),
        4 => ValueDef::Primitive(Primitive::I128(u128() as i128)),
        5 => ValueDef::Primitive(Primitive::U256(bytes())),
        6 => ValueDef::Primitive(Primitive::I256(bytes())),
        _ => ValueDef::BitSequence(to_bits(&any_bits(10))),
    };
    let v = Value { value: d.clone(), context: () };
    let mut out = vec![];
    let e = encode_as_type(&v, id, &r, &mut out);
    match leaf_encoding(&r, &d, target) {
        Some(want) => { check!(e.is_ok() && out == want); cover(1); observe(&out) }
        None => { check!(e.is_err()); cover(2) }
    }
}

/// The field list of a value, with names.
fn fields_of<T>(c: &Composite<T>) -> Vec<(Option<&str>, &Value<T>)> {
    match c {
        Composite::Named(v) => v.iter().map(|(n, v)| (Some(n.as_str()), v)).collect(),
        Composite::Unnamed(v) => v.iter().map(|v| (None, v)).collect(),
    }
}
/// Which value goes to each field of the type: by name if both have names, else by position and count.
fn line_up<'a>(c: &'a Composite<()>, fs: &[(Option<&str>, u32)]) -> Option<Vec<&'a Value<()>>> {
    let vs = fields_of(c);
    if vs.iter().any(|v| v.0.is_some()) && fs.iter().any(|f| f.0.is_some()) {
        fs.iter().map(|f| vs.iter().find(|v| v.0 == f.0).map(|v| v.1)).collect()
    } else if vs.len() == fs.len() {
        Some(vs.iter().map(|v| v.1).collect())
    } else {
        None
    }
}
fn product(parts: Vec<Vec<Vec<u8>>>) -> Vec<Vec<u8>> {
    let mut all = vec![vec![]];
    for p in parts {
        let mut next = vec![];
        for a in &all { for b in &p { let mut c: Vec<u8> = a.clone(); c.extend_from_slice(b); next.push(c) } }
        all = next;
    }
    all
}
fn as_bit(v: &Value<()>) -> Option<bool> {
    match &v.value {
        ValueDef::Primitive(Primitive::Bool(b)) => Some(*b),
        ValueDef::Primitive(Primitive::U128(n)) => if *n > 1 { None } else { Some(*n == 1) },
        ValueDef::Primitive(Primitive::I128(n)) => if *n > 1 || *n < 0 { None } else { Some(*n == 1) },
        _ => None,
    }
}
fn inner_type(r: &Reg, id: u32) -> Option<u32> {
    match r.get(id) {
        Ty::Tup(t) if t.len() == 1 => Some(t[0]),
        Ty::Comp(f) if f.len() == 1 => Some(f[0].1),
        Ty::Arr(t, 1) => Some(*t),
        _ => None,
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Skip {
    /// no layers
    No,
    /// wrapper layers of either side
    Any,
    /// as `Any`, but not counting that extra fields may be ignored for a struct that is itself a wrapper
    Sure,
}
/// Every encoding the matching rules allow. `at`: these two may be reached by skipping layers.
pub fn encodings(r: &Reg, v: &Value<()>, id: u32, skip: Skip, at: bool) -> Vec<Vec<u8>> {
    let each = |vs: Vec<&Value<()>>, ts: Vec<u32>| {
        let at = vs.len() == 1;
        product(vs.iter().zip(ts).map(|(v, t)| encodings(r, v, t, skip, at)).collect())
    };
    let prefixed = |p: Vec<u8>, e: Vec<Vec<u8>>| e.into_iter().map(|e| { let mut p = p.clone(); p.extend(e); p }).collect::<Vec<_>>();
    let mut all = match (&v.value, r.get(id)) {
        (ValueDef::Composite(c), Ty::Comp(fs)) if skip == Skip::Sure && at && fs.len() == 1 && c.len() > 1 => vec![],
        (ValueDef::Composite(c), Ty::Comp(fs)) => match line_up(c, fs) { Some(vs) => each(vs, fs.iter().map(|f| f.1).collect()), None => vec![] },
        (ValueDef::Composite(c), Ty::Tup(ts)) => if c.len() == ts.len() { each(items(c), ts.clone()) } else { vec![] },
        (ValueDef::Composite(c), Ty::Arr(t, n)) => if c.len() == *n { each(items(c), vec![*t; *n]) } else { vec![] },
        (ValueDef::Composite(c), Ty::Seq(t)) => prefixed({ let mut p = vec![]; compact(c.len() as u128, &mut p); p }, each(items(c), vec![*t; c.len()])),
        (ValueDef::Composite(c), Ty::Bits(s, o)) => match items(c).iter().map(|v| as_bit(v)).collect::<Option<Vec<bool>>>() {
            Some(b) => { let mut out = vec![]; bits(&b, *s, *o, &mut out); vec![out] }
            None => vec![],
        },
        (ValueDef::Variant(x), Ty::Var(vs)) => match vs.iter().find(|v| v.1 == x.name) {
            Some((i, _, fs)) => match line_up(&x.values, fs) { Some(vs) => prefixed(vec![*i], each(vs, fs.iter().map(|f| f.1).collect())), None => vec![] },
            None => vec![],
        },
        (ValueDef::Composite(_) | ValueDef::Variant(_), _) => vec![],
        (d, _) => leaf_encoding(r, d, id).into_iter().collect(),
    };
    if skip != Skip::No {
        let composite = matches!(v.value, ValueDef::Composite(_));
        if let Some(t) = inner_type(r, id) {
            if composite || !matches!(r.get(id), Ty::Arr(..)) { all.extend(encodings(r, v, t, skip, true)) }
        }
        if let ValueDef::Composite(c) = &v.value {
            if c.len() == 1 { all.extend(encodings(r, items(c)[0], id, skip, true)) }
        }
    }
    all
}
const FN: [&str; 3] = ["a", "b", "c"];
pub fn small_fields(r: &mut Reg, max: usize, child: &mut dyn FnMut(&mut Reg, usize) -> u32) -> Fields {
    match pick(3) {
        0 => { let n = pick(max + 1); (0..n).map(|i| (None, child(r, i))).collect() }
        1 => { let n = 1 + pick(max); (0..n).map(|i| (Some(FN[i]), child(r, i))).collect() }
        _ => { let n = 1 + pick(max); (0..n).map(|i| (Some(FN[n - 1 - i]), child(r, i))).collect() }
    }
}
pub fn small_type(r: &mut Reg, depth: u32, max: usize) -> u32 {
    if depth == 0 { return match pick(2) { 0 => r.prim(P::U8), _ => r.prim(P::Bool) } }
    let mut child = |r: &mut Reg, i: usize| if i == 0 { small_type(r, depth - 1, max) } else { r.prim(P::U8) };
    match pick(6) {
        0 => { let t = child(r, 0); r.add(Ty::Seq(t)) }
        1 => { let n = pick(max + 1); let t = child(r, 0); r.add(Ty::Arr(t, n)) }
        2 => { let n = pick(max + 1); let ts = (0..n).map(|i| child(r, i)).collect(); r.add(Ty::Tup(ts)) }
        3 => { let fs = small_fields(r, max, &mut child); r.add(Ty::Comp(fs)) }
        4 => { let fs = small_fields(r, max, &mut child); r.add(Ty::Var(vec![(5, "B", vec![]), (2, "A", fs)])) }
        _ => r.add(Ty::Bits(STORES[0], ORDERS[0])),
    }
}
pub fn small_value(depth: u32, max: usize) -> Value<()> {
    if depth == 0 { return match pick(2) { 0 => prim(Primitive::U128(byte() as u128), ()), _ => Value::bool(bit()) } }
    let mut child = |i: usize| if i == 0 { small_value(depth - 1, max) } else { prim(Primitive::U128(byte() as u128), ()) };
    let k = pick(4);
    let n = pick(max + 1);
    let c = match pick(3) {
        0 => Composite::Unnamed((0..n).map(|i| child(i)).collect()),
        1 => Composite::Named((0..n).map(|i| (FN[i].into(), child(i))).collect()),
        _ => Composite::Named((0..n).map(|i| (FN[(i + 1) % 3].into(), child(i))).collect()),
    };
    if k < 3 { comp(c, ()) } else { variant(if bit_fork() { "A" } else { "B" }, c, ()) }
}
/// C10: values against types, `level` = 100 * arity + 10 * depth of the type + depth of the value.
#[no_mangle]
pub extern "C" fn h_c10(level: u32) {
    opaque_numbers();
    let mut r = Reg::new();
    let max = (level / 100) as usize;
    let id = small_type(&mut r, level / 10 % 10, max);
    let v = small_value(level % 10, max);
    let mut out = vec![];
    let e = encode_as_type(&v, id, &r, &mut out);
    if e.is_ok() {
        check!(encodings(&r, &v, id, Skip::Any, false).contains(&out));
        if let Some(x) = encodings(&r, &v, id, Skip::No, false).first() { check!(*x == out) }
        cover(1);
        observe(&out);
    } else {
        check!(encodings(&r, &v, id, Skip::Sure, false).is_empty());
        cover(2);
    }
}
/// C10: bit sequences from lists of booleans and numbers.
#[no_mangle]
pub extern "C" fn h_c10_bits(level: u32) {
    opaque_numbers();
    let mut r = Reg::new();
    let (s, o) = (one_of(&STORES), one_of(&ORDERS));
    let id = r.add(Ty::Bits(s, o));
    let id = if bit_fork() { wrap_type(&mut r, id, 3) } else { id };
    let n = pick(level as usize + 1);
    let vs: Vec<Value<()>> = (0..n).map(|_| match pick(4) {
        0 => Value::bool(bit()),
        1 => prim(Primitive::U128(u128()), ()),
        2 => prim(Primitive::I128(u128() as i128), ()),
        _ => Value::string("1"),
    }).collect();
    let v = if bit_fork() { unnamed(vs, ()) } else { comp(Composite::Named(vs.into_iter().enumerate().map(|(i, v)| (i.to_string(), v)).collect()), ()) };
    let mut out = vec![];
    let e = encode_as_type(&v, id, &r, &mut out);
    let all = encodings(&r, &v, id, Skip::Any, false);
    check!(e.is_ok() != all.is_empty());
    if e.is_ok() { check!(all.contains(&out)); cover(1); observe(&out) } else { cover(2) }
}

/// A resolver that counts how often it is asked.
struct Counting<'a>(&'a Reg, core::cell::Cell<u32>);
impl TypeResolver for Counting<'_> {
    type TypeId = u32;
    type Error = NoType;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = u32>>(&'this self, id: u32, v: V) -> Result<V::Value, NoType> {
        self.1.set(self.1.get() + 1);
        self.0.resolve_type(id, v)
    }
}
/// C11: what is already in the output, and what is appended to it. `level` as in C10.
#[no_mangle]
pub extern "C" fn h_c11(level: u32) {
    opaque_numbers();
    let mut r = Reg::new();
    let max = (level / 100) as usize;
    let id = small_type(&mut r, level / 10 % 10, max);
    let v = small_value(level % 10, max);
    let mut alone = vec![];
    let a = encode_as_type(&v, id, &r, &mut alone);
    let before: [u8; 3] = bytes();
    let mut out = before.to_vec();
    let b = encode_as_type(&v, id, &r, &mut out);
    check!(a.is_ok() == b.is_ok());
    check!(out.len() >= 3 && out[..3] == before);
    if a.is_ok() {
        check!(out[3..] == alone[..]);
        cover(1);
        observe(&out);
    } else {
        if let ValueDef::Composite(_) = v.value { check!(out.len() == 3) }
        cover(2);
    }
}
/// Values of single entries in each other, `n` layers deep.
fn chain(n: usize) -> Value<()> {
    let names = pick(4);
    let mut v = match pick(4) { 0 => prim(Primitive::U128(byte() as u128), ()), 1 => Value::string("q"), 2 => unnamed(vec![], ()), _ => variant("A", Composite::Unnamed(vec![]), ()) };
    for i in 0..n {
        let named = match names { 0 => false, 1 => true, 2 => i % 2 == 0, _ => i + 1 == n };
        v = if named { comp(Composite::Named(vec![("a".into(), v)]), ()) } else { unnamed(vec![v], ()) };
    }
    v
}
/// C11: the work done, counted in types looked up, for values nested `level` % 100 deep against types nested
/// `level` / 100 deep.
#[no_mangle]
pub extern "C" fn h_c11_work(level: u32) {
    opaque_numbers();
    let mut r = Reg::new();
    let id = small_type(&mut r, level / 100, 2);
    let d = (level % 100) as usize;
    let v = chain(d);
    let c = Counting(&r, Default::default());
    let mut out = vec![];
    let e = encode_as_type(&v, id, &c, &mut out);
    // quadratic for every sequence type nested in the type
    let n = (d + 1) as u32;
    check!(c.1.get() <= 20 * n * n);
    if e.is_ok() { cover(1) } else { cover(2) }
}
/// C11: as above, against types that contain themselves.
fn recursive_work(r: &Reg, id: u32, d: usize) -> (bool, bool) {
    let v = chain(d);
    let c = Counting(r, Default::default());
    let mut out = vec![];
    let e = encode_as_type(&v, id, &c, &mut out);
    let n = (d + 1) as u32;
    if e.is_ok() { cover(1) } else { cover(2) }
    (c.1.get() <= 20 * n * n, e.is_ok())
}
#[no_mangle]
pub extern "C" fn h_c11_recursive(level: u32) {
    opaque_numbers();
    let mut r = Reg::new();
    let k = pick(2);
    let n = BASE;
    let id = if k == 0 {
        r.add(Ty::Var(vec![(0, "A", vec![]), (1, "Cons", vec![(None, n + 1), (None, n)])]));
        r.prim(P::U8);
        n
    } else {
        r.add(Ty::Comp(vec![(Some("a"), n + 1), (Some("b"), n + 2)]));
        r.prim(P::U8);
        r.add(Ty::Seq(n));
        n
    };
    let (few, _) = recursive_work(&r, id, level as usize);
    check!(few);
}
/// C11: a struct of nothing but a sequence of itself.
#[no_mangle]
pub extern "C" fn h_c11_kids(level: u32) {
    opaque_numbers();
    let mut r = Reg::new();
    r.add(Ty::Comp(vec![(Some("kids"), BASE + 1)]));
    r.add(Ty::Seq(BASE));
    let (few, _) = recursive_work(&r, BASE, level as usize);
    check!(few);
}

use scale_encode::error::Location;
/// A value of the type, of two entries where any number will do.
fn good(r: &Reg, id: u32) -> Value<()> {
    match r.get(id) {
        Ty::Prim(P::Bool) => Value::bool(true),
        Ty::Prim(P::Str) => Value::string("s"),
        Ty::Prim(_) | Ty::Compact(_) => Value::u128(7),
        Ty::Bits(..) => Value::bit_sequence(to_bits(&[true, false])),
        Ty::Seq(t) => Value::unnamed_composite([good(r, *t), good(r, *t)]),
        Ty::Arr(t, n) => Value::unnamed_composite((0..*n).map(|_| good(r, *t)).collect::<Vec<_>>()),
        Ty::Tup(ts) => Value::unnamed_composite(ts.iter().map(|t| good(r, *t)).collect::<Vec<_>>()),
        Ty::Comp(fs) => comp(good_fields(r, fs, None), ()),
        Ty::Var(vs) => variant(vs[0].1, good_fields(r, &vs[0].2, None), ()),
    }
}
/// The values of fields, one of them given.
fn good_fields(r: &Reg, fs: &Fields, bad: Option<(usize, Value<()>)>) -> Composite<()> {
    let at = |i: usize, t: u32| match &bad { Some((k, v)) if *k == i => v.clone(), _ => good(r, t) };
    if fs.iter().all(|f| f.0.is_some()) { Composite::Named(fs.iter().enumerate().map(|(i, (n, t))| (n.unwrap().to_string(), at(i, *t))).collect()) } else { Composite::Unnamed(fs.iter().enumerate().map(|(i, (_, t))| at(i, *t)).collect()) }
}
/// A value of which exactly one part does not fit the type, and what leads to it, innermost first.
fn misfit(r: &Reg, id: u32, path: &mut Vec<Location>) -> Value<()> {
    let entries = |n: usize, at: usize, bad: Value<()>, t: u32, named: bool| {
        let vs: Vec<Value<()>> = (0..n).map(|i| if i == at { bad.clone() } else { good(r, t) }).collect();
        if named { Value::named_composite(vs.into_iter().enumerate().map(|(i, v)| (NAMES[i], v)).collect::<Vec<_>>()) } else { Value::unnamed_composite(vs) }
    };
    let mut fields = |fs: &Fields| {
        let k = pick(fs.len());
        let bad = misfit(r, fs[k].1, path);
        path.push(match (fs.iter().all(|f| f.0.is_some()), fs[k].0) { (true, Some(n)) => Location::field(n), _ => Location::idx(k) });
        good_fields(r, fs, Some((k, bad)))
    };
    match r.get(id) {
        Ty::Prim(P::Bool) => match pick(2) { 0 => Value::u128(u128()), _ => Value::string("true") },
        Ty::Prim(P::Str) => Value::bool(bit()),
        Ty::Prim(_) | Ty::Compact(_) => match pick(4) {
            0 => { let n = u128(); assume(n > 255); Value::u128(n) }
            1 => { let n = u128(); assume(n >> 127 == 1); Value::i128(n as i128) }
            2 => Value::string("7"),
            _ => Value::unnamed_composite([Value::u128(1), Value::u128(2)]),
        },
        Ty::Bits(..) => {
            let (n, named) = (2 + pick(2), pick(2) == 1);
            let at = pick(n);
            path.push(Location::idx(at));
            let b = r.0.iter().position(|t| matches!(t, Ty::Prim(P::Bool))).unwrap() as u32 + BASE;
            let bad = match pick(3) { 0 => { let n = u128(); assume(n > 1); Value::u128(n) } 1 => { let n = u128() as i128; assume(n < 0); Value::i128(n) } _ => Value::unnamed_composite([Value::bool(true)]) };
            entries(n, at, bad, b, named)
        }
        Ty::Seq(t) => {
            let (n, named) = (2 + pick(2), pick(2) == 1);
            let at = pick(n);
            let bad = misfit(r, *t, path);
            path.push(if named { Location::field(NAMES[at]) } else { Location::idx(at) });
            entries(n, at, bad, *t, named)
        }
        Ty::Arr(t, n) => {
            let named = pick(2) == 1;
            if pick(4) == 3 { return entries(n + 1, 0, good(r, *t), *t, named) }
            let at = pick(*n);
            let bad = misfit(r, *t, path);
            path.push(Location::idx(at));
            entries(*n, at, bad, *t, named)
        }
        Ty::Tup(ts) => {
            if pick(4) == 3 { return Value::unnamed_composite((0..ts.len() + 1).map(|_| Value::u128(1)).collect::<Vec<_>>()) }
            let fs: Fields = ts.iter().map(|t| (None, *t)).collect();
            comp(fields(&fs), ())
        }
        Ty::Comp(fs) => comp(fields(fs), ()),
        Ty::Var(vs) => if pick(4) == 3 { variant("Nope", good_fields(r, &vs[0].2, None), ()) } else { variant(vs[0].1, fields(&vs[0].2), ()) },
    }
}
/// C22: the error of a failed encode names what leads to the part that does not fit.
#[no_mangle]
pub extern "C" fn h_c22(level: u32) {
    opaque_numbers();
    fn leaf(r: &mut Reg) -> u32 {
        let b = r.prim(P::Bool);
        match pick(5) { 0 => b, 1 => r.prim(P::Str), 2 => r.prim(P::U8), 3 => { let t = r.prim(P::U8); r.add(Ty::Compact(t)) } _ => r.add(Ty::Bits(STORES[0], ORDERS[0])) }
    }
    fn any(r: &mut Reg, depth: u32) -> u32 {
        if depth == 0 { return leaf(r) }
        let t = any(r, depth - 1);
        let b = r.prim(P::U8);
        let (x, y) = if depth > 1 || pick(2) == 0 { (t, b) } else { (b, t) };
        match pick(7) {
            0 => r.add(Ty::Seq(t)),
            1 => r.add(Ty::Arr(t, 2)),
            2 => r.add(Ty::Tup(vec![x, y])),
            3 => r.add(Ty::Comp(vec![(Some("a"), x), (Some("b"), y)])),
            4 => r.add(Ty::Comp(vec![(None, x), (None, y)])),
            5 => r.add(Ty::Var(vec![(4, "It", vec![(Some("c"), x), (Some("d"), y)]), (5, "No", vec![])])),
            _ => r.add(Ty::Var(vec![(4, "It", vec![(None, x), (None, y)]), (5, "No", vec![])])),
        }
    }
    let mut r = Reg::new();
    let mut path = vec![];
    let (id, v) = match level {
        // a layer of one named part
        3 => {
            let mut id = any(&mut r, 1);
            id = match pick(2) {
                0 => r.add(Ty::Comp(vec![(Some("w"), id)])),
                _ => r.add(Ty::Var(vec![(4, "It", vec![(Some("w"), id)]), (5, "No", vec![])])),
            };
            let v = misfit(&r, id, &mut path);
            (id, v)
        }
        // many entries
        4 => {
            let n = one_of(&[3, 4, 9, 17, 33, 65, 257]);
            let at = one_of(&[0, n / 2, n - 2, n - 1]);
            let b = r.prim(P::Bool);
            let t = r.prim(P::U8);
            let (id, g) = match pick(6) {
                0 => (r.add(Ty::Seq(t)), t),
                1 => (r.add(Ty::Arr(t, n)), t),
                2 => (r.add(Ty::Tup(vec![t; n])), t),
                3 => (r.add(Ty::Comp((0..n).map(|_| (None, t)).collect())), t),
                4 => (r.add(Ty::Var(vec![(4, "It", (0..n).map(|_| (None, t)).collect())])), t),
                _ => (r.add(Ty::Bits(STORES[0], ORDERS[0])), b),
            };
            let bad = match pick(3) { 0 => { let n = u128(); assume(n > 255); Value::u128(n) } 1 => { let n = u128() as i128; assume(n < 0); Value::i128(n) } _ => Value::string("1") };
            let vs: Vec<_> = (0..n).map(|i| if i == at { bad.clone() } else { good(&r, g) }).collect();
            let ty = r.get(id);
            let named = matches!(ty, Ty::Seq(_) | Ty::Arr(..) | Ty::Bits(..)) && pick(2) == 1;
            let name = |i: usize| std::string::String::from_utf8(vec![b'a' + (i / 26) as u8, b'a' + (i % 26) as u8]).unwrap();
            path.push(if named && matches!(ty, Ty::Seq(_)) { Location::field(name(at)) } else { Location::idx(at) });
            let v = match ty {
                Ty::Var(_) => Value::unnamed_variant("It", vs),
                _ if named => Value::named_composite(vs.into_iter().enumerate().map(|(i, v)| (name(i), v)).collect::<Vec<_>>()),
                _ => Value::unnamed_composite(vs),
            };
            (id, v)
        }
        n => {
            let id = any(&mut r, n);
            let v = misfit(&r, id, &mut path);
            (id, v)
        }
    };
    let mut out = vec![];
    let Err(e) = encode_as_type(&v, id, &r, &mut out) else { check!(false); return };
    let p = e.context().path();
    check!(p.locations().count() == path.len());
    check!(p.locations().zip(&path).all(|(a, b)| a == b));
    cover(1);
}
