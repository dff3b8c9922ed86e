use crate::{sym::*, text::{ascii, to_str}, ty::bit_fork, val::*};
use scale_value::{value, At, BitSequence, Composite, Primitive, Value, ValueDef, Variant};
use std::cell::RefCell;

/// A short name: any ASCII characters, or one of a few others.
fn name() -> String {
    match pick(5) {
        k @ (0 | 1 | 2) => { let v = vec(k); for b in &v { assume(*b < 128) } unsafe { String::from_utf8_unchecked(v) } }
        3 => "é".to_string(),
        _ => "name".to_string(),
    }
}
/// A value with any contexts, of any shape; up to `wide` entries, of which the first and last go deeper.
fn any(depth: u32, wide: usize, rich: bool) -> Value<u32> {
    let c = u32::from_le_bytes(bytes());
    match pick(if depth == 0 { 2 } else { 4 }) {
        0 => prim(if rich { leaf() } else { Primitive::U128(u128()) }, c),
        1 => Value { value: ValueDef::BitSequence(if rich { to_bits(&any_bits(2)) } else { to_bits(&[bit()]) }), context: c },
        2 => comp(any_comp(depth, wide, rich), c),
        _ => { let n = some_name(rich); variant(&n, any_comp(depth, wide, rich), c) }
    }
}
fn some_name(rich: bool) -> String { if rich { name() } else { let b = byte(); assume(b < 128); (b as char).to_string() } }
fn leaf() -> Primitive {
    match pick(7) {
        0 => Primitive::Bool(bit()),
        1 => Primitive::Char(any_char()),
        2 => Primitive::String(any_str(2)),
        3 => Primitive::U128(u128()),
        4 => Primitive::I128(u128() as i128),
        5 => Primitive::U256(bytes()),
        _ => Primitive::I256(bytes()),
    }
}
fn any_comp(depth: u32, wide: usize, rich: bool) -> Composite<u32> {
    let n = pick(wide + 1);
    let mut kid = |i: usize| if i == 0 { any(depth - 1, wide, rich) } else { prim(Primitive::U128(i as u128), u32::from_le_bytes(bytes())) };
    if bit_fork() { Composite::Unnamed((0..n).map(kid).collect()) } else { Composite::Named((0..n).map(|i| (some_name(rich), kid(i))).collect()) }
}
/// Shapes alone: numbered leaves.
fn shape(depth: u32, wide: usize, rich: bool) -> Value<u32> {
    match pick(if depth == 0 { 2 } else { 4 }) {
        0 => prim(Primitive::Bool(true), 0),
        1 => Value { value: ValueDef::BitSequence(to_bits(&[true, false])), context: 0 },
        2 => comp(shape_comp(depth, wide, rich), 0),
        _ => variant("name", shape_comp(depth, wide, rich), 0),
    }
}
fn shape_comp(depth: u32, wide: usize, rich: bool) -> Composite<u32> {
    let n = pick(wide + 1);
    let deep = pick(n);
    let mut kid = |i: usize| if i == deep { shape(depth - 1, wide, rich) } else { prim(Primitive::U128(i as u128), 0) };
    if bit_fork() { Composite::Unnamed((0..n).map(kid).collect()) } else { Composite::Named((0..n).map(|i| (some_name(rich), kid(i))).collect()) }
}

#[derive(Clone)]
enum Loc { Pos(usize), Name(String) }
fn loc(rich: bool) -> Loc { if bit_fork() { Loc::Pos(u64::from_le_bytes(bytes()) as usize) } else { Loc::Name(some_name(rich)) } }
fn find<'a>(c: &'a Composite<u32>, l: &Loc) -> Option<&'a Value<u32>> {
    match (c, l) {
        (Composite::Named(f), Loc::Pos(n)) => { for (i, f) in f.iter().enumerate() { if i == *n { return Some(&f.1) } } None }
        (Composite::Unnamed(f), Loc::Pos(n)) => { for (i, f) in f.iter().enumerate() { if i == *n { return Some(f) } } None }
        (Composite::Named(f), Loc::Name(s)) => { for f in f { if f.0.as_bytes() == s.as_bytes() { return Some(&f.1) } } None }
        _ => None,
    }
}
fn reference<'a>(v: Option<&'a Value<u32>>, l: &Loc) -> Option<&'a Value<u32>> {
    match &v?.value { ValueDef::Composite(c) => find(c, l), ValueDef::Variant(x) => find(&x.values, l), _ => None }
}
/// Each way to ask.
fn ask<'a, T: At<u32>>(v: &'a T, l: &Loc, how: usize) -> Option<&'a Value<u32>> {
    match (l, how) {
        (Loc::Pos(n), 0) => v.at(*n),
        (Loc::Pos(n), 1) => v.at(n),
        (Loc::Pos(n), _) => v.at(&&n),
        (Loc::Name(s), 0) => v.at(s.as_str()),
        (Loc::Name(s), 1) => v.at(s.clone()),
        (Loc::Name(s), _) => v.at(&s.as_str()),
    }
}
fn eq(a: Option<&Value<u32>>, b: Option<&Value<u32>>) -> bool {
    match (a, b) { (None, None) => true, (Some(a), Some(b)) => core::ptr::eq(a, b), _ => false }
}
/// C18: `level` 0 any lookup into a wide value, 1 lookups deep into one.
#[no_mangle]
pub extern "C" fn h_c18_big(level: u32) {
    use crate::big::LONG;
    if level == 0 {
        let n = one_of(&[17, 40, 65, 300]);
        let kid = |i: usize| prim(Primitive::U128(i as u128), 0);
        // names in pairs of the same
        let text = |i: usize| if i < 40 { LONG[i].to_string() } else { format!("{}{}", LONG[i % 40], i / 80) };
        let c = if bit_fork() { Composite::Unnamed((0..n).map(kid).collect()) } else { Composite::Named((0..n).map(|i| (text(i), kid(i))).collect()) };
        let v = if bit_fork() { comp(c, 0) } else { variant("V", c, 0) };
        let l = if bit_fork() { Loc::Pos(u64::from_le_bytes(bytes()) as usize) } else {
            let mut s = text(crate::big::place(n)).into_bytes();
            let k = pick(s.len().min(3));
            s[k] = ascii(1)[0];
            match pick(3) { 0 => s.push(b'1'), 1 => { s.pop(); } _ => {} }
            Loc::Name(to_str(s))
        };
        let want = reference(Some(&v), &l);
        check!(eq(ask(&v, &l, pick(3)), want));
        if want.is_some() { cover(1) } else { cover(2) }
        return;
    }
    let n = one_of(&[5, 9, 20, 40]);
    let k = pick(4);
    let mut v = Value { value: ValueDef::Primitive(Primitive::Bool(true)), context: 0 };
    for i in 0..n {
        let m = if k == 3 { i % 3 } else { k };
        v = match m { 0 => comp(Composite::Unnamed(vec![v]), 0), 1 => comp(Composite::Named(vec![("a".into(), v)]), 0), _ => variant("W", Composite::Named(vec![("x".into(), prim(Primitive::Bool(false), 0)), ("b".into(), v)]), 0) };
    }
    let bad = if bit_fork() { n } else { crate::big::place(n) };
    if deeper(&Some(&v), Some(&v), n, n, k, bad) { cover(3) } else { cover(4) }
}
/// The remaining `i` of `n` lookups, one of them any name.
fn deeper(got: &Option<&Value<u32>>, want: Option<&Value<u32>>, i: usize, n: usize, k: usize, bad: usize) -> bool {
    if i == 0 { return want.is_some() }
    let i = i - 1;
    let m = if k == 3 { i % 3 } else { k };
    let l = if i == bad { Loc::Name((byte_ascii() as char).to_string()) } else { match m { 0 => Loc::Pos(0), 1 => Loc::Name("a".into()), _ => one_of_loc(pick(if i + 3 > n { 2 } else { 1 })) } };
    let want = reference(want, &l);
    let got = ask(got, &l, i % 3);
    check!(eq(got, want));
    deeper(&got, want, i, n, k, bad)
}
fn byte_ascii() -> u8 { let b = byte(); assume(b < 128); b }
fn one_of_loc(k: usize) -> Loc { if k == 0 { Loc::Name("b".into()) } else { Loc::Pos(1) } }
/// C18: `level` lookups into a value of up to that depth, and 10 times the width of the containers.
#[no_mangle]
pub extern "C" fn h_c18(level: u32) {
    let (depth, wide) = (level % 10, (level / 10) as usize);
    let rich = depth < 2;
    let v = shape(depth, wide, rich);
    let how = if rich { pick(3) } else { 0 };
    let first = loc(rich);
    let want = reference(Some(&v), &first);
    let got = ask(&v, &first, how);
    check!(eq(got, want));
    if want.is_some() { cover(1) } else { cover(2) }
    check!(eq(ask(&Some(&v), &first, how), want));
    check!(ask(&None::<&Value<u32>>, &first, how).is_none());
    match &v.value {
        ValueDef::Composite(c) => { check!(eq(ask(c, &first, how), want)); check!(eq(ask(&Some(c), &first, how), want)) }
        ValueDef::Variant(x) => { check!(eq(ask(x, &first, how), want)); check!(eq(ask(&Some(x), &first, how), want)); check!(eq(ask(&x.values, &first, how), want)) }
        _ => check!(got.is_none()),
    }
    if depth > 1 {
        let second = loc(rich);
        let want = reference(want, &second);
        check!(eq(ask(&got, &second, 0), want));
        match (&first, &second) {
            (Loc::Name(a), Loc::Pos(b)) => check!(eq(v.at(a).at(b), want)),
            (Loc::Pos(a), Loc::Name(b)) => check!(eq(v.at(a).at(b.as_str()), want)),
            (Loc::Name(a), Loc::Name(b)) => check!(eq(v.at(a.as_str()).at(b), want)),
            (Loc::Pos(a), Loc::Pos(b)) => check!(eq(v.at(*a).at(*b), want)),
        }
        if want.is_some() { cover(3) }
        let third = loc(rich);
        let mid = ask(&got, &second, 1);
        let got = ask(&mid, &third, 2);
        check!(eq(got, reference(want, &third)));
        if got.is_some() { cover(4) }
    }
}

fn only(v: &Value<()>, p: &Primitive) -> bool {
    let (b, c, s, u, i) = match p {
        Primitive::Bool(x) => (Some(*x), None, None, None, None),
        Primitive::Char(x) => (None, Some(*x), None, None, None),
        Primitive::String(x) => (None, None, Some(x.as_bytes()), None, None),
        Primitive::U128(x) => (None, None, None, Some(*x), None),
        Primitive::I128(x) => (None, None, None, None, Some(*x)),
        _ => (None, None, None, None, None),
    };
    let ValueDef::Primitive(q) = &v.value else { return false };
    same_prim(q, p)
        && v.as_bool() == b && v.as_char() == c && v.as_str().map(|s| s.as_bytes()) == s && v.as_u128() == u && v.as_i128() == i
        && q.as_bool() == b && q.as_char() == c && q.as_str().map(|s| s.as_bytes()) == s && q.as_u128() == u && q.as_i128() == i
}
/// C19: numbers, chars and strings.
#[no_mangle]
pub extern "C" fn h_c19(_: u32) {
    macro_rules! from { ($x:expr, $p:expr) => { {
        let (x, p) = ($x, $p);
        let v: Value<()> = x.clone().into();
        check!(only(&v, &p));
        let d: ValueDef<()> = x.clone().into();
        check!(only(&Value::without_context(d), &p));
        let q: Primitive = x.clone().into();
        check!(same_prim(&q, &p));
        let d: ValueDef<()> = q.clone().into();
        check!(only(&Value::without_context(d), &p));
        check!(only(&Value::primitive(q), &p));
        check!(only(&value!(x), &p));
    } } }
    macro_rules! ints { ($n:expr, $k:expr, $($i:pat => $t:ty, $p:ident as $b:ty;)*) => { match $k { $($i => from!($n as $t, Primitive::$p($n as $t as $b)),)* } } }
    let k = pick(17);
    match k {
        0..=11 => { let n = u128(); ints! { n, k,
            0 => u8, U128 as u128; 1 => u16, U128 as u128; 2 => u32, U128 as u128; 3 => u64, U128 as u128; 4 => u128, U128 as u128; 5 => usize, U128 as u128;
            6 => i8, I128 as i128; 7 => i16, I128 as i128; 8 => i32, I128 as i128; 9 => i64, I128 as i128; 10 => i128, I128 as i128; _ => isize, I128 as i128; }
            check!(only(&Value::u128(n), &Primitive::U128(n)) && only(&Value::i128(n as i128), &Primitive::I128(n as i128)));
            check!(same_prim(&Primitive::u128(n), &Primitive::U128(n)) && same_prim(&Primitive::i128(n as i128), &Primitive::I128(n as i128)));
        }
        12 => { let b = bit(); from!(b, Primitive::Bool(b)); check!(only(&Value::bool(b), &Primitive::Bool(b))) }
        13 => { let c = any_char(); from!(c, Primitive::Char(c)); check!(only(&Value::char(c), &Primitive::Char(c))) }
        14 => { let s = any_str(3); from!(s.clone(), Primitive::String(s.clone())); from!(s.as_str(), Primitive::String(s.clone())); check!(only(&Value::string(s.as_str()), &Primitive::String(s.clone())) && only(&Value::string(s.clone()), &Primitive::String(s))) }
        15 => {
            let p = if bit_fork() { Primitive::U256(bytes()) } else { Primitive::I256(bytes()) };
            check!(only(&Value::primitive(p.clone()), &p));
        }
        _ => {
            let b = any_bits(9);
            let s: BitSequence = to_bits(&b);
            for v in [Value::bit_sequence(s.clone()), Value::from(s.clone()), Value::without_context(ValueDef::from(s.clone())), value!(s.clone())] {
                let ValueDef::BitSequence(got) = &v.value else { check!(false); return };
                check!(got.len() == b.len() && got.iter().zip(&b).all(|(x, y)| x == *y));
                check!(none(&v));
            }
        }
    }
    cover(1);
}
fn none<T>(v: &Value<T>) -> bool { v.as_bool().is_none() && v.as_char().is_none() && v.as_u128().is_none() && v.as_i128().is_none() && v.as_str().is_none() }
/// C19: containers, of up to `wide` entries.
#[no_mangle]
pub extern "C" fn h_c19_build(wide: u32) {
    let big = wide >= 10;
    let n = if big { one_of(&[9, 17, 64, 65, 300]) } else { pick(wide as usize + 1) };
    let at = crate::big::place(n);
    let nums: Vec<u64> = (0..n).map(|i| if !big || i == at { u64::from_le_bytes(bytes()) } else { i as u64 * 77 }).collect();
    let strs: Vec<String> = (0..n).map(|i| if !big || i == at { name() } else { crate::big::LONG[i % 40].to_string() }).collect();
    let vals = || nums.iter().map(|n| Value::u128(*n as u128)).collect::<Vec<_>>();
    let fields = || strs.iter().cloned().zip(vals()).collect::<Vec<_>>();
    let v = name();
    let (c, vs) = if bit_fork() {
        let c = Composite::Unnamed(vals());
        (c.clone(), match pick(3) {
            0 => vec![Value::unnamed_composite(vals()), Value::from(nums.clone()), Value::from(vals()), ValueDef::from(nums.clone()).into_value(), Composite::from(nums.clone()).into(), comp(Composite::unnamed(vals()), ()), Value::without_context(ValueDef::from(c.clone())), value!(nums.clone())],
            1 => vec![Value::unnamed_variant(v.clone(), vals()), Value::unnamed_variant(v.as_str(), vals()), Value::variant(v.clone(), c.clone()), Variant::unnamed_fields(v.clone(), vals()).into(), Value::without_context(ValueDef::from(Variant { name: v.clone(), values: c }))],
            _ => {
                let b: Vec<u8> = nums.iter().map(|n| *n as u8).collect();
                let want = Composite::Unnamed(b.iter().map(|b| Value::u128(*b as u128)).collect());
                for v in [Value::from_bytes(&b), Value::from_bytes(b.clone()), Value::from(b.clone())] { check!(same(&v, &comp(want.clone(), ()))) }
                cover(2);
                return;
            }
        })
    } else {
        let c = Composite::Named(fields());
        let of = || strs.iter().cloned().zip(nums.iter().copied()).collect::<Vec<_>>();
        let by_ref = || strs.iter().map(|s| s.as_str()).zip(nums.iter().copied()).collect::<Vec<_>>();
        (c.clone(), match pick(2) {
            0 => vec![Value::named_composite(fields()), Value::from(of()), Value::from(by_ref()), Value::from(fields()), ValueDef::from(of()).into_value(), Composite::from(by_ref()).into(), comp(Composite::named(fields()), ()), Value::without_context(ValueDef::from(c.clone()))],
            _ => vec![Value::named_variant(v.clone(), fields()), Value::named_variant(v.as_str(), fields()), Value::variant(v.clone(), c.clone()), Variant::named_fields(v.clone(), fields()).into(), Value::without_context(ValueDef::from(Variant { name: v.clone(), values: c }))],
        })
    };
    let var = matches!(vs[0].value, ValueDef::Variant(_));
    let want = if var { variant(&v, c.clone(), ()) } else { comp(c.clone(), ()) };
    for v in &vs { check!(same(v, &want)); check!(none(v)) }
    check!(c.len() == n && c.is_empty() == (n == 0));
    check!(c.values().len() == n && c.values().zip(&nums).all(|(v, n)| v.as_u128() == Some(*n as u128)));
    let it = c.into_values();
    check!(it.len() == n);
    check!(it.zip(&nums).all(|(v, n)| v.as_u128() == Some(*n as u128)));
    cover(1);
}
trait IntoValue { fn into_value(self) -> Value<()>; }
impl IntoValue for ValueDef<()> { fn into_value(self) -> Value<()> { Value::without_context(self) } }

fn contexts(v: &Value<u32>, out: &mut Vec<u32>) {
    out.push(v.context);
    kid_contexts(match &v.value { ValueDef::Composite(c) => c, ValueDef::Variant(x) => &x.values, _ => return }, out);
}
fn kid_contexts(c: &Composite<u32>, out: &mut Vec<u32>) { for v in items(c) { contexts(v, out) } }
fn mapped(v: &Value<u32>, w: &Value<u64>, f: &dyn Fn(u32) -> u64) -> bool {
    let kids = match (&v.value, &w.value) {
        (ValueDef::Composite(a), ValueDef::Composite(b)) => items(a).into_iter().zip(items(b)).collect(),
        (ValueDef::Variant(a), ValueDef::Variant(b)) => items(&a.values).into_iter().zip(items(&b.values)).collect(),
        _ => vec![],
    };
    w.context == f(v.context) && kids.into_iter().all(|(v, w)| mapped(v, w, f))
}
fn big_context(level: u32) -> Value<u32> {
    let v = crate::big::big_value(level, &[5, 17, 33, 130]);
    let next = std::cell::Cell::new(0u32);
    let at = u32::from_le_bytes(bytes());
    v.map_context(|_| { next.set(next.get() + 1); if next.get() % 7 == 3 { at } else { next.get() } })
}
/// C19: contexts. `level`: depth, and 10 times the width.
#[no_mangle]
pub extern "C" fn h_c19_context(level: u32) {
    let v = if level >= 100 { big_context(level - 100) } else { any(level % 10, (level / 10) as usize, level % 10 < 2) };
    let key = u32::from_le_bytes(bytes());
    let f = |c: u32| (c ^ key) as u64 | 1 << 40;
    let seen = RefCell::new(vec![]);
    let g = |c: u32| { seen.borrow_mut().push(c); f(c) };
    let mut all = vec![];
    let w = match (pick(2), &v.value) {
        (0, _) => { contexts(&v, &mut all); v.clone().map_context(g) }
        (_, d) => {
            contexts(&v, &mut all);
            all.remove(0);
            let value = match d.clone() {
                ValueDef::Composite(c) => ValueDef::Composite(c.map_context(g)),
                ValueDef::Variant(x) => ValueDef::Variant(x.map_context(g)),
                d => d.map_context(g),
            };
            Value { value, context: f(v.context) }
        }
    };
    check!(same(&v, &w));
    check!(mapped(&v, &w, &f));
    // once each
    let mut seen = seen.into_inner();
    check!(seen.len() == all.len());
    let order: Vec<u32> = all.clone();
    if seen.len() == all.len() {
        let same_order = seen.iter().zip(&all).all(|(a, b)| a == b);
        if !same_order { seen.sort(); all.sort(); check!(seen == all) }
    }
    // conversions that keep what they are given
    let c = Value::with_context(v.value.clone(), key);
    check!(c.context == key && same(&c, &v));
    let mut kept = vec![];
    contexts(&c, &mut kept);
    check!(kept[1..] == order[order.len() - (kept.len() - 1)..]);
    check!(same(&v.clone().remove_context(), &v));
    check!(c.value == v.value && (c == v) == (v.context == key));
    cover(1);
}
/// C19: the macro.
#[no_mangle]
pub extern "C" fn h_c19_macro(_: u32) {
    let (n, i, b, c, s) = (u128(), u128() as i64, bit(), any_char(), name());
    let (vn, vi, vb, vc, vs) = (Value::u128(n), Value::i128(i as i128), Value::bool(b), Value::char(c), Value::string(s.clone()));
    let un = |v: &[&Value<()>]| Composite::Unnamed(v.iter().map(|v| (*v).clone()).collect());
    let na = |v: &[(&str, &Value<()>)]| Composite::Named(v.iter().map(|(n, v)| (n.to_string(), (*v).clone())).collect());
    let cs = |c: Composite<()>| comp(c, ());
    let (empty, named_empty) = (cs(un(&[])), cs(na(&[])));
    let pair = cs(un(&[&vn, &vb]));
    let rec = cs(na(&[("x", &vi), ("y z", &vs)]));
    let tv = variant("Tv", un(&[&vc, &vn]), ());
    let rv = variant("rv", na(&[("k", &vb), ("key", &vi)]), ());
    let bits = to_bits(&any_bits(2));
    let vbits = Value::bit_sequence(bits.clone());
    let one = Value::i128(1);
    let cases: Vec<(Value<()>, Value<()>)> = vec![
        (value!(), empty.clone()), (value!(()), empty.clone()), (value!({}), named_empty.clone()),
        (value!(n), vn.clone()), (value!(i), vi.clone()), (value!(s.clone()), vs.clone()), (value!(s.as_str()), vs.clone()), (value!(1), one.clone()), (value!(-1), Value::i128(-1)),
        (value!((n, b)), pair.clone()), (value!((n, b,)), pair.clone()), (value!((n)), cs(un(&[&vn]))), (value!((n,)), cs(un(&[&vn]))),
        (value!({ x: i, "y z": s.clone() }), rec.clone()), (value!({ x: i, "y z": s.clone(), }), rec.clone()), (value!({ n: n }), cs(na(&[("n", &vn)]))),
        (value!(Tv(c, n)), tv.clone()), (value!(Tv(c, n,)), tv.clone()), (value!(Tv()), variant("Tv", un(&[]), ())), (value!(Tv {}), variant("Tv", na(&[]), ())),
        (value!(rv { k: b, key: i }), rv.clone()), (value!(rv { k: b, key: i, }), rv.clone()),
        (value!((n, (n, b), Tv(c, n), { x: i, "y z": s.clone() }, rv { k: b, key: i }, ())), cs(un(&[&vn, &pair, &tv, &rec, &rv, &empty]))),
        (value!(((n, b), (n, b))), cs(un(&[&pair, &pair]))), (value!((Tv(c, n), rv { k: b, key: i },)), cs(un(&[&tv, &rv]))), (value!(({ x: i, "y z": s.clone() }, n)), cs(un(&[&rec, &vn]))),
        (value!({ a: (n, b), b: { x: i, "y z": s.clone() }, c: Tv(c, n), d: rv { k: b, key: i }, e: (), f: {}, g: bits.clone() }), cs(na(&[("a", &pair), ("b", &rec), ("c", &tv), ("d", &rv), ("e", &empty), ("f", &named_empty), ("g", &vbits)]))),
        (value!({ a: { a: { a: n } } }), cs(na(&[("a", &cs(na(&[("a", &cs(na(&[("a", &vn)])))])))]))),
        (value!({ last: (n, b) }), cs(na(&[("last", &pair)]))), (value!({ last: Tv(c, n), }), cs(na(&[("last", &tv)]))), (value!({ last: rv { k: b, key: i } }), cs(na(&[("last", &rv)]))),
        (value!(Out { a: In(Deep { x: n }, 1) }), variant("Out", na(&[("a", &variant("In", un(&[&variant("Deep", na(&[("x", &vn)]), ()), &one]), ()))]), ())),
        (value!({ m: value!((n, b)), v: vec![n, n] }), cs(na(&[("m", &pair), ("v", &cs(un(&[&vn, &vn])))]))),
        (value!((tv.clone(), rec.clone())), cs(un(&[&tv, &rec]))), (value!({ a: i, a: n }), cs(na(&[("a", &vi), ("a", &vn)]))),
        (value!((i as i128 + 0, -1)), cs(un(&[&vi, &Value::i128(-1)]))),
    ];
    for (got, want) in &cases { check!(same(got, want)) }
    cover(1);
}
