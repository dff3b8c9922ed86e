use crate::{encode::fits, serial::*, sym::*, val::*};
use scale_value::serde::{from_value, to_value};
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};
use serde::de::{DeserializeOwned, DeserializeSeed, IntoDeserializer};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

trait Int: DeserializeOwned + Serialize + Copy + PartialEq {
    const W: usize;
    const S: bool;
    fn cut(n: u128) -> Self;
    fn back(self) -> Primitive;
}
macro_rules! ints { ($($t:ty, $w:expr, $s:expr, $p:ident as $b:ty;)*) => { $(impl Int for $t {
    const W: usize = $w;
    const S: bool = $s;
    fn cut(n: u128) -> $t { n as $t }
    fn back(self) -> Primitive { Primitive::$p(self as $b) }
})* } }
ints! { u8, 1, false, U128 as u128; u16, 2, false, U128 as u128; u32, 4, false, U128 as u128; u64, 8, false, U128 as u128; u128, 16, false, U128 as u128; usize, 8, false, U128 as u128;
    i8, 1, true, I128 as i128; i16, 2, true, I128 as i128; i32, 4, true, I128 as i128; i64, 8, true, I128 as i128; i128, 16, true, I128 as i128; isize, 8, true, I128 as i128; }
macro_rules! each_int { ($f:ident, $($a:expr),*) => { match pick(12) {
    0 => $f::<u8>($($a),*), 1 => $f::<u16>($($a),*), 2 => $f::<u32>($($a),*), 3 => $f::<u64>($($a),*), 4 => $f::<u128>($($a),*), 5 => $f::<usize>($($a),*),
    6 => $f::<i8>($($a),*), 7 => $f::<i16>($($a),*), 8 => $f::<i32>($($a),*), 9 => $f::<i64>($($a),*), 10 => $f::<i128>($($a),*), _ => $f::<isize>($($a),*),
} } }
#[derive(Serialize, Deserialize)]
struct One<T> { x: T }
#[derive(Serialize, Deserialize)]
enum Two<T> { P(T, bool), Q { y: T } }
fn yes() -> Value<()> { Value::bool(true) }
/// The number from a value, and whether there is one.
fn take<T: Int>(n: Value<()>, at: usize) -> Option<T> {
    let named = |k: &str, n| Composite::Named(vec![(k.to_string(), n)]);
    Some(match at {
        0 => from_value::<_, T>(n).ok()?,
        1 => from_value::<_, Option<T>>(variant("Some", Composite::Unnamed(vec![n]), ())).ok()??,
        2 => from_value::<_, (bool, T)>(unnamed(vec![yes(), n], ())).ok()?.1,
        3 => *from_value::<_, Vec<T>>(unnamed(vec![n], ())).ok()?.first()?,
        4 => from_value::<_, One<T>>(comp(named("x", n), ())).ok()?.x,
        5 => match from_value::<_, Two<T>>(variant("P", Composite::Unnamed(vec![n, yes()]), ())).ok()? { Two::P(n, true) => n, _ => return None },
        6 => match from_value::<_, Two<T>>(variant("Q", named("y", n), ())).ok()? { Two::Q { y } => y, _ => return None },
        7 => *from_value::<_, BTreeMap<String, T>>(comp(named("k", n), ())).ok()?.get("k")?,
        8 => from_value::<_, [T; 2]>(unnamed(vec![n.clone(), n], ())).ok()?[1],
        9 => T::deserialize(n.value).ok()?,
        _ => match n.value { ValueDef::Primitive(p) => T::deserialize(p).ok()?, _ => return None },
    })
}
fn from_number<T: Int>(n: u128, signed: bool) {
    let v = prim(if signed { Primitive::I128(n as i128) } else { Primitive::U128(n) }, ());
    let at = pick(11);
    let got = take::<T>(v, at);
    let ok = fits(n, signed && (n as i128) < 0, T::W, T::S);
    check!(got.is_some() == ok);
    if let Some(g) = got { check!(g == T::cut(n)); cover(1) } else { cover(2) }
}
fn to_number<T: Int>(n: u128) {
    let n = T::cut(n);
    let w = prim(n.back(), ());
    let named = |k: &str, n| Composite::Named(vec![(k.to_string(), n)]);
    let at = pick(9);
    let (v, want) = match at {
        0 => (to_value(n), w.clone()),
        1 => (to_value(Some(n)), variant("Some", Composite::Unnamed(vec![w.clone()]), ())),
        2 => (to_value((true, n)), unnamed(vec![yes(), w.clone()], ())),
        3 => (to_value(vec![n]), unnamed(vec![w.clone()], ())),
        4 => (to_value(One { x: n }), comp(named("x", w.clone()), ())),
        5 => (to_value(Two::P(n, true)), variant("P", Composite::Unnamed(vec![w.clone(), yes()]), ())),
        6 => (to_value(Two::Q { y: n }), variant("Q", named("y", w.clone()), ())),
        7 => (to_value(BTreeMap::from([("k".to_string(), n)])), comp(named("k", w.clone()), ())),
        _ => (to_value([n, n]), unnamed(vec![w.clone(), w.clone()], ())),
    };
    let Ok(v) = v else { check!(false); return };
    check!(same(&v, &want));
    let back = take::<T>(w, at);
    check!(back == Some(n));
    cover(1);
}
fn visited<T: Int + IntoDeserializer<'static, E>>(n: u128) {
    let n = T::cut(n);
    let Ok(p) = Primitive::deserialize(n.into_deserializer()) else { check!(false); return };
    check!(same_prim(&p, &n.back()));
    let Ok(v) = Value::<()>::deserialize(n.into_deserializer()) else { check!(false); return };
    check!(same(&v, &prim(n.back(), ())));
    cover(1);
}
/// C15: numbers. `level`: 0 value to Rust number, 1 and back, 2 value to a format, 3 format to value.
#[no_mangle]
pub extern "C" fn h_c15(level: u32) {
    opaque_numbers();
    let n = u128();
    match level {
        0 => { let s = bit_fork(); each_int!(from_number, n, s) }
        1 => each_int!(to_number, n),
        2 => {
            let s = bit_fork();
            let p = if s { Primitive::I128(n as i128) } else { Primitive::U128(n) };
            let f = match pick(3) { 0 => p.serialize(Rec), 1 => prim(p, ()).serialize(Rec), _ => ValueDef::<()>::Primitive(p).serialize(Rec) };
            match f {
                Ok(Form::U(w, m)) => { check!(m == n && !(s && (n as i128) < 0)); check!(w < 16 || n > u64::MAX as u128) }
                Ok(Form::I(w, m)) => { check!(m == n as i128 && (s || m >= 0)); check!(w < 16 || m > i64::MAX as i128 || m < i64::MIN as i128) }
                _ => check!(false),
            }
            cover(1);
        }
        _ => each_int!(visited, n),
    }
}
use crate::ty::bit_fork;

/// The value documented for data of the type.
fn documented(t: &Sh, d: &Da) -> Value<()> {
    let all = |ts: &[Sh], v: &[Da]| Composite::Unnamed(ts.iter().zip(v).map(|(t, d)| documented(t, d)).collect());
    let named = |ts: &[Sh], v: &[Da]| Composite::Named(ts.iter().zip(v).enumerate().map(|(i, (t, d))| (FNAMES[i].to_string(), documented(t, d))).collect());
    match (t, d) {
        (_, Da::Bool(b)) => Value::bool(*b),
        (_, Da::Char(c)) => Value::char(*c),
        (_, Da::Str(s)) => Value::string(s.clone()),
        (_, Da::U(n)) => Value::u128(*n),
        (_, Da::I(n)) => Value::i128(*n),
        (_, Da::Bytes(b)) => unnamed(b.iter().map(|b| Value::u128(*b as u128)).collect(), ()),
        (_, Da::Unit | Da::F) => unnamed(vec![], ()),
        (_, Da::None) => variant("None", Composite::Unnamed(vec![]), ()),
        (Sh::Opt(t), Da::Some(d)) => variant("Some", Composite::Unnamed(vec![documented(t, d)]), ()),
        (Sh::Seq(t), Da::List(v)) => unnamed(v.iter().map(|d| documented(t, d)).collect(), ()),
        (Sh::Tup(ts) | Sh::TupStruct(ts), Da::List(v)) => comp(all(ts, v), ()),
        (Sh::Struct(ts), Da::List(v)) => comp(named(ts, v), ()),
        (Sh::Map(_, t), Da::Map(v)) => comp(Composite::Named(v.iter().map(|(k, d)| (match k { Da::Str(s) => s.clone(), Da::Char(c) => c.to_string(), _ => String::new() }, documented(t, d))).collect()), ()),
        (Sh::Enum(vs), Da::Var(i, v)) => match &vs[*i] {
            VSh::Unit => variant(VNAMES[*i], Composite::Unnamed(vec![]), ()),
            VSh::Tup(ts) => variant(VNAMES[*i], all(ts, v), ()),
            VSh::Struct(ts) => variant(VNAMES[*i], named(ts, v), ()),
        },
        _ => unreachable!(),
    }
}
/// The same with the fields of structs in another order, and one more.
fn shuffled(t: &Sh, v: Value<()>) -> Value<()> {
    let fields = |ts: &[Sh], c: Composite<()>| match c {
        Composite::Named(v) => {
            let mut v: Vec<_> = v.into_iter().zip(ts).map(|((n, v), t)| (n, shuffled(t, v))).collect();
            v.reverse();
            let extra = match pick(4) { 0 => Value::char('x'), 1 => Value::i128(-1), 2 => variant("V", Composite::Unnamed(vec![Value::bit_sequence(to_bits(&[true]))]), ()), _ => comp(Composite::Named(vec![("a".into(), prim(Primitive::U256([1; 32]), ()))]), ()) };
            v.insert(pick(v.len() + 1), ("other".into(), extra));
            Composite::Named(v)
        }
        c => c,
    };
    match (t, v.value) {
        (Sh::Struct(ts), ValueDef::Composite(c)) => comp(fields(ts, c), ()),
        (Sh::Enum(vs), ValueDef::Variant(x)) => {
            let i = VNAMES.iter().position(|n| *n == x.name).unwrap_or(0);
            match &vs[i] { VSh::Struct(ts) => variant(VNAMES[i], fields(ts, x.values), ()), _ => Value { value: ValueDef::Variant(x), context: () } }
        }
        (_, value) => Value { value, context: () },
    }
}
/// Long, wide (0) or deep (1) data; with a symbolic part.
fn big_data(level: u32) -> (Sh, Da) {
    use crate::big::{place, LONG};
    if level == 0 {
        let n = one_of(&[3, 9, 17, 64, 65, 256, 300]);
        let at = place(n);
        let b = |i: usize| if i == at { byte() } else { i as u8 };
        match pick(8) {
            0 => (Sh::Bytes, Da::Bytes((0..n).map(b).collect())),
            1 => { let c = crate::text::any_ch(); (Sh::Str, Da::Str((0..n).map(|i| if i == at { c } else { ['x', 'é', '字'][i % 3] }).collect())) }
            2 => (Sh::Seq(Box::new(Sh::Int(1, false))), Da::List((0..n).map(|i| Da::U(b(i) as u128)).collect())),
            3 => (Sh::Seq(Box::new(Sh::Int(16, true))), Da::List((0..n).map(|i| Da::I(if i == at { u128() as i128 } else { -(i as i128) })).collect())),
            4 => { let n = n.min(65); (Sh::Tup((0..n).map(|i| if i % 2 == 0 { Sh::Bool } else { Sh::Int(4, false) }).collect()), Da::List((0..n).map(|i| if i % 2 == 0 { Da::Bool(if i == at { bit() } else { i % 3 == 0 }) } else { Da::U(i as u128) }).collect())) }
            5 => (Sh::Map(Box::new(Sh::Str), Box::new(Sh::Opt(Box::new(Sh::Int(8, false))))), Da::Map((0..n).map(|i| (Da::Str(format!("{}{}", LONG[i % 40], i / 40)), if i % 3 == 1 { Da::None } else { Da::Some(Box::new(Da::U(b(i) as u128))) })).collect())),
            6 => (Sh::Seq(Box::new(Sh::Enum(vec![VSh::Unit, VSh::Tup(vec![Sh::Bool, Sh::Unit]), VSh::Struct(vec![Sh::Char])]))), Da::List((0..n).map(|i| match if i == at { pick(3) } else { i % 3 } { 0 => Da::Var(0, vec![]), 1 => Da::Var(1, vec![Da::Bool(i % 2 == 0), Da::Unit]), _ => Da::Var(2, vec![Da::Char('é')]) }).collect())),
            _ => (Sh::Seq(Box::new(Sh::Seq(Box::new(Sh::Struct(vec![Sh::Bool, Sh::Str]))))), Da::List((0..n).map(|i| Da::List((0..i % 3).map(|k| Da::List(vec![Da::Bool(k == 0), Da::Str("s".into())])).collect())).collect())),
        }
    } else {
        let n = one_of(&[4, 5, 9, 17, 33]);
        let k = pick(8);
        (0..n).fold((Sh::Int(2, false), Da::U(byte() as u128)), |(t, d), i| match if k == 7 { i % 7 } else { k } {
            0 => (Sh::Opt(Box::new(t)), Da::Some(Box::new(d))),
            1 => (Sh::Seq(Box::new(t)), Da::List(vec![d])),
            2 => (Sh::Tup(vec![Sh::Bool, t]), Da::List(vec![Da::Bool(true), d])),
            3 => (Sh::Struct(vec![t, Sh::Unit]), Da::List(vec![d, Da::Unit])),
            4 => (Sh::Map(Box::new(Sh::Str), Box::new(t)), Da::Map(vec![(Da::Str("k".into()), d)])),
            5 => (Sh::Enum(vec![VSh::Unit, VSh::Tup(vec![Sh::Unit, t])]), Da::Var(1, vec![Da::Unit, d])),
            _ => (Sh::Enum(vec![VSh::Struct(vec![t])]), Da::Var(0, vec![d])),
        })
    }
}
fn has_float(t: &Sh) -> bool { matches!(t, Sh::F32 | Sh::F64) }
/// C16: data of any type to a value and back. `level`: depth of the type; from 10 on also with reordered and extra fields.
#[no_mangle]
pub extern "C" fn h_c16(level: u32) {
    opaque_numbers();
    let (t, d) = if level >= 20 { big_data(level - 20) } else { let t = any_shape(level % 10); let d = any_data(&t, level % 10 > 0); (t, d) };
    let Ok(v) = to_value(Typed(&t, &d)) else { check!(false); return };
    let want = documented(&t, &d);
    check!(same(&v, &want));
    let v = if level / 10 == 1 { shuffled(&t, v) } else { v };
    let Ok(back) = (&t).deserialize(v) else { check!(false); return };
    check!(back == d);
    cover(1);
}
/// C16: what has no value.
#[no_mangle]
pub extern "C" fn h_c16_bad(level: u32) {
    opaque_numbers();
    let bad = match pick(7) {
        0 => Sh::F32,
        1 => Sh::F64,
        2 => { let (w, s) = one_of(&INTS); Sh::Map(Box::new(Sh::Int(w, s)), Box::new(Sh::Bool)) }
        3 => Sh::Map(Box::new(one_of(&[0, 1, 2]).pipe()), Box::new(Sh::Bool)),
        4 => Sh::Map(Box::new(Sh::Tup(vec![Sh::Str])), Box::new(Sh::Unit)),
        5 => Sh::Map(Box::new(Sh::Seq(Box::new(Sh::Char))), Box::new(Sh::Bool)),
        _ => Sh::Map(Box::new(Sh::Enum(vec![VSh::Unit])), Box::new(Sh::Bool)),
    };
    let float = has_float(&bad);
    let mut d = any_data(&bad, true);
    if let Da::Map(v) = &d { if v.is_empty() { d = Da::Map(vec![(any_data(match &bad { Sh::Map(k, _) => k, _ => unreachable!() }, true), match &bad { Sh::Map(_, v) => any_data(v, true), _ => unreachable!() })]) } }
    let (mut t, mut d) = (bad, d);
    for _ in 0..level {
        (t, d) = match pick(7) {
            0 => (Sh::Opt(Box::new(t)), Da::Some(Box::new(d))),
            1 => (Sh::Seq(Box::new(t)), Da::List(vec![d])),
            2 => (Sh::Tup(vec![Sh::Bool, t]), Da::List(vec![Da::Bool(true), d])),
            3 => (Sh::Struct(vec![t]), Da::List(vec![d])),
            4 => (Sh::Map(Box::new(Sh::Str), Box::new(t)), Da::Map(vec![(Da::Str("k".into()), d)])),
            5 => (Sh::Enum(vec![VSh::Tup(vec![Sh::Unit, t])]), Da::Var(0, vec![Da::Unit, d])),
            _ => (Sh::Enum(vec![VSh::Struct(vec![t])]), Da::Var(0, vec![d])),
        };
    }
    use scale_value::serde::SerializerError as X;
    let r = to_value(Typed(&t, &d));
    check!(r == Err(if float { X::CannotSerializeFloats } else { X::MapKeyMustBeStringlike }));
    cover(1);
}
trait Pipe { fn pipe(self) -> Sh; }
impl Pipe for i32 { fn pipe(self) -> Sh { match self { 0 => Sh::Bool, 1 => Sh::Unit, _ => Sh::Opt(Box::new(Sh::Str)) } } }

/// Derived implementations, with everything in one place.
#[derive(Serialize, Deserialize, PartialEq, Clone)]
struct Big { flag: bool, c: char, text: String, nums: Vec<i32>, pair: (u8, Option<char>), map: BTreeMap<String, u64>, kind: Kind, nothing: (), unit: Nil, tup: Tup, opt: Option<Option<u16>>, arr: [i8; 2], boxed: Option<Box<Kind>> }
#[derive(Serialize, Deserialize, PartialEq, Clone)]
struct Nil;
#[derive(Serialize, Deserialize, PartialEq, Clone)]
struct Tup(u128, String);
#[derive(Serialize, Deserialize, PartialEq, Clone)]
enum Kind { Some, None, Two(i64, Vec<bool>), Rec { name: String, n: Option<i128>, k: Vec<Kind> } }
fn any_kind(depth: usize) -> Kind {
    match pick(4) {
        0 => Kind::Some,
        1 => Kind::None,
        2 => Kind::Two(u128() as i64, any_bits(1)),
        _ => Kind::Rec { name: any_str(1), n: if bit_fork() { Some(u128() as i128) } else { None }, k: if depth > 0 && bit_fork() { vec![any_kind(depth - 1)] } else { vec![] } },
    }
}
#[no_mangle]
pub extern "C" fn h_c16_derived(level: u32) {
    opaque_numbers();
    let kind = any_kind(level as usize);
    let big = Big {
        flag: bit(), c: any_char(), text: any_str(1), nums: (0..pick(2)).map(|_| u128() as i32).collect(), pair: (byte(), if bit_fork() { Some('x') } else { None }),
        map: if bit_fork() { BTreeMap::from([("k".to_string(), u128() as u64)]) } else { BTreeMap::new() }, kind: kind.clone(), nothing: (), unit: Nil, tup: Tup(u128(), "t".into()),
        opt: match pick(3) { 0 => None, 1 => Some(None), _ => Some(Some(u128() as u16)) }, arr: [byte() as i8, -1], boxed: if bit_fork() { Some(Box::new(kind)) } else { None },
    };
    let Ok(v) = to_value(&big) else { check!(false); return };
    let Ok(back) = from_value::<_, Big>(v) else { check!(false); return };
    check!(back == big);
    cover(1);
}

const KEYS: [&str; 4] = ["a", "name", "__bitvec__values__", ""];
/// Values of all shapes; `big`: with 256-bit numbers.
fn value(depth: u32, big: bool, ctx: &mut u32) -> Value<u32> {
    *ctx += 1;
    let c = *ctx;
    let leaves = if big { 8 } else { 6 };
    let k = pick(if depth == 0 { leaves } else { leaves + 4 });
    if k < leaves {
        return match k {
            0 => prim(Primitive::Bool(bit()), c),
            1 => prim(Primitive::Char(any_char()), c),
            2 => prim(Primitive::String(any_str(1)), c),
            3 => prim(Primitive::U128(u128()), c),
            4 => prim(Primitive::I128(u128() as i128), c),
            5 => Value { value: ValueDef::BitSequence(to_bits(&any_bits(2))), context: c },
            6 => prim(Primitive::U256(bytes()), c),
            _ => prim(Primitive::I256(bytes()), c),
        };
    }
    let n = pick(3);
    let mut kid = |i: usize, ctx: &mut u32| if i == 0 { value(depth - 1, big, ctx) } else { prim(Primitive::Bool(true), *ctx) };
    let vals = match (k - leaves) & 1 {
        0 => Composite::Unnamed((0..n).map(|i| kid(i, ctx)).collect()),
        _ => Composite::Named((0..n).map(|i| (if i == 0 && depth > 1 { "b".to_string() } else { one_of(&KEYS).to_string() }, kid(i, ctx))).collect()),
    };
    if k - leaves < 2 { comp(vals, c) } else { variant(one_of(&["V", "Some", "None"]), vals, c) }
}
const SPECIAL: &str = "__bitvec__values__";
/// What deserializing the value to a value must give: the same, except that the special key means bits. None: an error.
fn passed(v: &Value<u32>) -> Option<Value<()>> {
    Some(match &v.value {
        ValueDef::Composite(Composite::Named(f)) if f.first().is_some_and(|f| f.0 == SPECIAL) => {
            let ValueDef::Composite(c) = &f[0].1.value else { return None };
            let mut bits = vec![];
            for v in items(c) { match &v.value { ValueDef::Primitive(Primitive::Bool(b)) => bits.push(*b), _ => return None } }
            // a field that is left over does not belong there
            Value { value: ValueDef::BitSequence(to_bits(&bits)), context: () }
        }
        ValueDef::Composite(c) => comp(passed_comp(c)?, ()),
        ValueDef::Variant(x) => variant(&x.name, passed_comp(&x.values)?, ()),
        d => Value { value: ValueDef::Primitive(match d { ValueDef::Primitive(p) => p.clone(), ValueDef::BitSequence(b) => return Some(Value::bit_sequence(b.clone())), _ => unreachable!() }), context: () },
    })
}
fn passed_comp(c: &Composite<u32>) -> Option<Composite<()>> {
    Some(match c {
        Composite::Named(f) => Composite::Named(f.iter().map(|(n, v)| Some((n.clone(), passed(v)?))).collect::<Option<_>>()?),
        Composite::Unnamed(f) => Composite::Unnamed(f.iter().map(passed).collect::<Option<_>>()?),
    })
}
/// Leaves nothing to chance about composites with the special key and more than it.
fn clear(v: &Value<u32>) -> bool {
    let c = match &v.value { ValueDef::Composite(c) => c, ValueDef::Variant(x) => &x.values, _ => return true };
    let special = matches!((&v.value, c), (ValueDef::Composite(_), Composite::Named(f)) if f.len() > 1 && f[0].0 == SPECIAL);
    !special && items(c).iter().all(|v| clear(v))
}
#[derive(Deserialize)]
struct Part { a: u8, rest: Value<()> }
#[derive(Deserialize)]
struct Newtype(Value<()>);
#[derive(Deserialize)]
enum Any { V(Value<()>, bool), W { x: Value<()> } }
/// C17: a value to a value, whole and as a part of Rust data. `level`: depth of the value, and 10 times the place in the data.
#[no_mangle]
pub extern "C" fn h_c17(level: u32) {
    opaque_numbers();
    let v = match level % 10 { 8 => crate::big::big_value(0, &[16, 65, 300]).map_context(|_| 0), 9 => crate::big::big_value(1 + pick(2) as u32, &[3, 9, 17, 33]).map_context(|_| 0), l => value(l, false, &mut 0) };
    assume(clear(&v));
    let want = passed(&v);
    let one = || prim(Primitive::U128(1), 0);
    let yes = || prim(Primitive::Bool(true), 0);
    let got: Option<Value<()>> = match level / 10 {
        0 => from_value(v.clone()).ok(),
        1 => ValueDef::<()>::deserialize(v.value.clone()).ok().map(|value| Value { value, context: () }),
        2 => match v.value.clone() {
            ValueDef::Composite(Composite::Named(f)) if f.first().is_some_and(|f| f.0 == SPECIAL) => return,
            ValueDef::Composite(c) => Composite::<()>::deserialize(c).ok().map(|c| comp(c, ())),
            ValueDef::Variant(x) => Variant::<()>::deserialize(x).ok().map(|x| Value { value: ValueDef::Variant(x), context: () }),
            ValueDef::Primitive(p) => Primitive::deserialize(p).ok().map(|p| prim(p, ())),
            _ => return,
        },
        3 => from_value::<_, Part>(comp(Composite::Named(vec![("rest".into(), v.clone()), ("a".into(), one())]), 0)).ok().map(|p| { check!(p.a == 1); p.rest }),
        4 => from_value::<_, (Value<()>, u8)>(unnamed(vec![v.clone(), one()], 0)).ok().map(|p| p.0),
        5 => from_value::<_, Vec<Value<()>>>(unnamed(vec![one(), v.clone()], 0)).ok().and_then(|mut p| p.pop()),
        6 => from_value::<_, Option<Value<()>>>(variant("Some", Composite::Unnamed(vec![v.clone()]), 0)).ok().flatten(),
        7 => from_value::<_, BTreeMap<String, Value<()>>>(comp(Composite::Named(vec![("k".into(), v.clone())]), 0)).ok().and_then(|mut p| p.remove("k")),
        8 => from_value::<_, Newtype>(v.clone()).ok().map(|p| p.0),
        9 => from_value::<_, Any>(variant("V", Composite::Unnamed(vec![v.clone(), yes()]), 0)).ok().and_then(|p| match p { Any::V(v, true) => Some(v), _ => None }),
        10 => from_value::<_, Any>(variant("W", Composite::Named(vec![("x".into(), v.clone())]), 0)).ok().and_then(|p| match p { Any::W { x } => Some(x), _ => None }),
        11 => from_value::<_, Composite<()>>(unnamed(vec![v.clone()], 0)).ok().and_then(|c| match c { Composite::Unnamed(mut v) => v.pop(), _ => None }),
        _ => from_value::<_, Variant<()>>(variant("Q", Composite::Named(vec![("x".into(), v.clone())]), 0)).ok().and_then(|x| match x.values { Composite::Named(mut v) if x.name == "Q" => v.pop().map(|v| v.1), _ => None }),
    };
    match (got, want) {
        (Some(g), Some(w)) => { check!(same(&g, &w)); cover(1) }
        (None, None) => cover(2),
        _ => check!(false),
    }
}
/// The documented form.
fn form(v: &Value<u32>) -> Form {
    match &v.value {
        ValueDef::Composite(c) => form_comp(c),
        ValueDef::Variant(x) => Form::Map(vec![(Form::Str("name".into()), Form::Str(x.name.clone())), (Form::Str("values".into()), form_comp(&x.values))], Some(2)),
        ValueDef::BitSequence(b) => Form::Map(vec![(Form::Str(SPECIAL.into()), Form::Seq(b.iter().map(Form::Bool).collect(), None))], Some(1)),
        ValueDef::Primitive(p) => match p {
            Primitive::Bool(b) => Form::Bool(*b),
            Primitive::Char(c) => Form::Char(*c),
            Primitive::String(s) => Form::Str(s.clone()),
            Primitive::U128(n) => Form::U(0, *n),
            Primitive::I128(n) => Form::I(0, *n),
            Primitive::U256(b) | Primitive::I256(b) => Form::Seq(b.iter().map(|b| Form::U(1, *b as u128)).collect(), None),
        },
    }
}
fn form_comp(c: &Composite<u32>) -> Form {
    match c {
        Composite::Named(f) => Form::Map(f.iter().map(|(n, v)| (Form::Str(n.clone()), form(v))).collect(), None),
        Composite::Unnamed(f) => Form::Seq(f.iter().map(form).collect(), None),
    }
}
/// The same form, whatever integer types were used, with no length announced or the right one.
fn same_form(got: &Form, want: &Form) -> bool {
    match (got, want) {
        (Form::U(_, a), Form::U(_, b)) => a == b,
        (Form::I(_, a), Form::I(_, b)) => a == b,
        (Form::U(_, a), Form::I(_, b)) | (Form::I(_, b), Form::U(_, a)) => *b >= 0 && *a == *b as u128,
        (Form::Seq(a, n), Form::Seq(b, _)) => a.len() == b.len() && n.is_none_or(|n| n == a.len()) && a.iter().zip(b).all(|(a, b)| same_form(a, b)),
        (Form::Map(a, n), Form::Map(b, _)) => a.len() == b.len() && n.is_none_or(|n| n == a.len()) && a.iter().zip(b).all(|(a, b)| same_form(&a.0, &b.0) && same_form(&a.1, &b.1)),
        (a, b) => a == b,
    }
}
/// The value that the form reads back as: variants are maps, 256-bit numbers lists.
fn flat(v: &Value<u32>) -> Value<u32> {
    let c = |c: &Composite<u32>| match c {
        Composite::Named(f) => Composite::Named(f.iter().map(|(n, v)| (n.clone(), flat(v))).collect()),
        Composite::Unnamed(f) => Composite::Unnamed(f.iter().map(flat).collect()),
    };
    match &v.value {
        ValueDef::Composite(x) => comp(c(x), 0),
        ValueDef::Variant(x) => comp(Composite::Named(vec![("name".into(), prim(Primitive::String(x.name.clone()), 0)), ("values".into(), comp(c(&x.values), 0))]), 0),
        ValueDef::Primitive(Primitive::U256(b) | Primitive::I256(b)) => unnamed(b.iter().map(|b| prim(Primitive::U128(*b as u128), 0)).collect(), 0),
        _ => v.clone(),
    }
}
/// C17: the serialized form, and back from it.
#[no_mangle]
pub extern "C" fn h_c17_form(level: u32) {
    opaque_numbers();
    let v = match level { 8 => crate::big::big_value(0, &[3, 16, 65, 300]).map_context(|_| 0), 9 => crate::big::big_value(1 + pick(2) as u32, &[3, 9, 17, 33, 130]).map_context(|_| 0), l => value(l, true, &mut 0) };
    assume(clear(&v));
    let f = match pick(2) {
        0 => v.serialize(Rec),
        _ => match &v.value {
            ValueDef::Composite(c) => c.serialize(Rec),
            ValueDef::Variant(x) => x.serialize(Rec),
            ValueDef::Primitive(p) => p.serialize(Rec),
            d => d.serialize(Rec),
        },
    };
    let Ok(f) = f else { check!(false); return };
    check!(same_form(&f, &form(&v)));
    match (Value::<()>::deserialize(De(f.clone(), None)), passed(&flat(&v))) {
        (Ok(g), Some(w)) => { check!(same(&g, &w)); cover(1) }
        (Err(_), None) => cover(2),
        _ => check!(false),
    }
    // asking for the kind it was
    match &v.value {
        ValueDef::Variant(x) => match (Variant::<()>::deserialize(De(f, None)), passed_comp(&match flat(&comp(x.values.clone(), 0)).value { ValueDef::Composite(c) => c, _ => unreachable!() })) {
            (Ok(g), Some(w)) => { check!(g.name == x.name && same_comp(&g.values, &w)); cover(3) }
            (Err(_), None) => {}
            _ => check!(false),
        },
        ValueDef::Primitive(p) => match Primitive::deserialize(De(f, None)) {
            Ok(g) => { check!(same_prim(&g, &match p { Primitive::I256(b) => Primitive::U256(*b), p => p.clone() })); cover(4) }
            Err(_) => check!(false),
        },
        _ => {}
    }
    // to a value again, as any data would be
    let Ok(g) = to_value(&v) else { check!(false); return };
    let w = bits_listed(&flat(&v));
    check!(same(&g, &w));
}
/// With bit sequences as maps of their special key.
fn bits_listed(v: &Value<u32>) -> Value<u32> {
    match &v.value {
        ValueDef::Composite(Composite::Named(f)) => comp(Composite::Named(f.iter().map(|(n, v)| (n.clone(), bits_listed(v))).collect()), 0),
        ValueDef::Composite(Composite::Unnamed(f)) => unnamed(f.iter().map(bits_listed).collect(), 0),
        ValueDef::BitSequence(b) => comp(Composite::Named(vec![(SPECIAL.into(), unnamed(b.iter().map(|b| prim(Primitive::Bool(b), 0)).collect(), 0))]), 0),
        _ => v.clone(),
    }
}
/// A form of up to `depth` levels.
fn any_form(depth: u32) -> Form {
    match pick(if depth == 0 { 9 } else { 12 }) {
        0 => Form::Bool(bit()),
        1 => Form::Char(any_char()),
        2 => Form::Str(any_str(1)),
        3 => { let mut b = vec![7; one_of(&[0, 1, 32])]; if let Some(b) = b.first_mut() { *b = byte() } Form::Bytes(b) }
        4 => Form::U(1, byte() as u128),
        5 => Form::I(8, u128() as i64 as i128),
        6 => Form::None,
        7 => Form::Unit,
        8 => Form::F(0.5),
        9 => Form::Some(Box::new(any_form(depth - 1))),
        10 => Form::Seq((0..pick(3)).map(|i| if i == 0 { any_form(depth - 1) } else { Form::Unit }).collect(), None),
        _ => Form::Map((0..pick(3)).map(|i| (if i > 0 || bit_fork() { Form::Str(one_of(&KEYS).into()) } else { any_form(0) }, if i == 0 { any_form(depth - 1) } else { Form::Seq(vec![Form::Bool(true)], None) })).collect(), None),
    }
}
/// What reading a form as a value must give.
fn read(f: &Form) -> Option<Value<()>> {
    Some(match f {
        Form::Bool(b) => Value::bool(*b),
        Form::Char(c) => Value::char(*c),
        Form::Str(s) => Value::string(s.clone()),
        Form::Bytes(b) => unnamed(b.iter().map(|b| Value::u128(*b as u128)).collect(), ()),
        Form::U(_, n) => Value::u128(*n),
        Form::I(_, n) => Value::i128(*n),
        Form::F(_) | Form::Static => return None,
        Form::None => variant("None", Composite::Unnamed(vec![]), ()),
        Form::Some(f) => variant("Some", Composite::Unnamed(vec![read(f)?]), ()),
        Form::Unit => unnamed(vec![], ()),
        Form::Seq(v, _) => unnamed(v.iter().map(read).collect::<Option<_>>()?, ()),
        Form::Map(v, _) => {
            let key = |k: &Form| match k { Form::Str(s) => Some(s.clone()), Form::Char(c) => Some(c.to_string()), Form::Bytes(b) => String::from_utf8(b.clone()).ok(), _ => None };
            if let Some((k, x)) = v.first() {
                if key(k)? == SPECIAL {
                    let Form::Seq(v, _) = x else { return None };
                    let b = v.iter().map(|f| match f { Form::Bool(b) => Some(*b), _ => None }).collect::<Option<Vec<_>>>()?;
                    return Some(Value::bit_sequence(to_bits(&b)));
                }
            }
            comp(Composite::Named(v.iter().map(|(k, x)| Some((key(k)?, read(x)?))).collect::<Option<_>>()?), ())
        }
    })
}
/// Data as self-describing formats hold it.
fn as_form(t: &Sh, d: &Da) -> Form {
    let list = |ts: &[Sh], v: &[Da]| Form::Seq(ts.iter().zip(v).map(|(t, d)| as_form(t, d)).collect(), None);
    let named = |ts: &[Sh], v: &[Da]| Form::Map(ts.iter().zip(v).enumerate().map(|(i, (t, d))| (Form::Str(FNAMES[i].into()), as_form(t, d))).collect(), None);
    match (t, d) {
        (Sh::Opt(t), Da::Some(d)) => Form::Some(Box::new(as_form(t, d))),
        (Sh::Seq(t), Da::List(v)) => Form::Seq(v.iter().map(|d| as_form(t, d)).collect(), None),
        (Sh::Tup(ts) | Sh::TupStruct(ts), Da::List(v)) => list(ts, v),
        (Sh::Struct(ts), Da::List(v)) => named(ts, v),
        (Sh::Map(k, t), Da::Map(v)) => Form::Map(v.iter().map(|(n, d)| (as_form(k, n), as_form(t, d))).collect(), None),
        (Sh::Enum(vs), Da::Var(i, v)) => match &vs[*i] {
            VSh::Unit => Form::Str(VNAMES[*i].into()),
            VSh::Tup(ts) => Form::Map(vec![(Form::Str(VNAMES[*i].into()), list(ts, v))], None),
            VSh::Struct(ts) => Form::Map(vec![(Form::Str(VNAMES[*i].into()), named(ts, v))], None),
        },
        (t, d) => Typed(t, d).serialize(Rec).unwrap_or(Form::Static),
    }
}
/// C20: reading a value from any format, whatever sizes it claims its containers to have.
#[no_mangle]
pub extern "C" fn h_c20(level: u32) {
    opaque_numbers();
    let f = if level >= 20 { let (t, d) = big_data(level - 20); as_form(&t, &d) } else { any_form(level) };
    let special = matches!(&f, Form::Map(v, _) if v.len() > 1 && v[0].0 == Form::Str(SPECIAL.into()));
    let hint = if level >= 20 { one_of(&[None, Some(0), Some(1), Some(70), Some(1 << 20), Some(usize::MAX)]) } else if bit_fork() { Some(u128() as usize) } else { None };
    // exact values between these only matter to the space allocated, which is one path each
    assume(level >= 20 || hint.is_none_or(|h| h < 4 || h >= 1 << 14));
    // that much for every container
    alloc_limit(if level >= 20 { 1 << 26 } else { 1 << 21 });
    let want = if special { return } else { read(&f) };
    match pick(3) {
        0 => match (Value::<()>::deserialize(De(f, hint)), want) {
            (Ok(g), Some(w)) => { check!(same(&g, &w)); cover(1) }
            (Err(_), None) => cover(2),
            _ => check!(false),
        },
        1 => {
            // as a composite
            let first = matches!(&f, Form::Map(v, _) if v.first().is_some_and(|v| v.0 == Form::Str(SPECIAL.into())));
            if first { return }
            let r = Composite::<()>::deserialize(De(f, hint));
            match (r, want.map(|v| v.value)) {
                (Ok(g), Some(ValueDef::Composite(w))) => { check!(same_comp(&g, &w)); cover(1) }
                (Err(_), _) => cover(2),
                _ => check!(false),
            }
        }
        _ => {
            let r = Primitive::deserialize(De(f, hint));
            match (r, want.map(|v| v.value)) {
                (Ok(g), Some(ValueDef::Primitive(w))) => { check!(same_prim(&g, &w)); cover(1) }
                (Ok(Primitive::U256(b)), Some(ValueDef::Composite(Composite::Unnamed(w)))) => check!(w.len() == 32 && w.iter().zip(b).all(|(v, b)| v.as_u128() == Some(b as u128))),
                (Err(_), _) => cover(2),
                _ => check!(false),
            }
        }
    }
}
/// C20: reading a variant from any format.
#[no_mangle]
pub extern "C" fn h_c20_variant(level: u32) {
    opaque_numbers();
    let hint = if bit_fork() { Some(u128() as usize) } else { None };
    assume(hint.is_none_or(|h| h < 4 || h >= 1 << 14));
    alloc_limit(1 << 21);
    if bit_fork() {
        // anything that's not a map
        let f = any_form(level);
        if matches!(f, Form::Map(..)) { return }
        let want = match &f { Form::None => true, Form::Some(f) => read(f).is_some(), _ => false };
        let special = matches!(&f, Form::Some(f) if matches!(&**f, Form::Map(v, _) if v.len() > 1 && v[0].0 == Form::Str(SPECIAL.into())));
        if special { return }
        match Variant::<()>::deserialize(De(f.clone(), hint)) {
            Ok(v) => {
                check!(want);
                let Some(w) = read(&f) else { return };
                check!(same(&Value { value: ValueDef::Variant(v), context: () }, &w));
                cover(1);
            }
            Err(_) => { check!(!want); cover(2) }
        }
        return;
    }
    let keys: Vec<usize> = (0..pick(4)).map(|_| pick(3)).collect();
    let count = |k| keys.iter().filter(|x| **x == k).count();
    let (a, b, other) = (count(0), count(1), count(2));
    if a > 1 || b > 1 { return }
    let (name, values) = if a + b == 2 && other == 0 { (any_str(2), any_form(level)) } else { ("V".to_string(), Form::Unit) };
    let f: Vec<(Form, Form)> = keys.iter().map(|k| match k {
        0 => (Form::Str("name".into()), Form::Str(name.clone())),
        1 => (Form::Str("values".into()), values.clone()),
        _ => (Form::Str(one_of(&["", "nam", "valuess"]).into()), Form::Unit),
    }).collect();
    let r = Variant::<()>::deserialize(De(Form::Map(f, None), hint));
    if a == 0 || b == 0 || other > 0 { check!(r.is_err()); cover(3); return }
    if matches!(&values, Form::Map(v, _) if v.first().is_some_and(|v| v.0 == Form::Str(SPECIAL.into()))) { return }
    match (r, read(&values).map(|v| v.value)) {
        (Ok(v), Some(ValueDef::Composite(w))) => { check!(v.name == name && same_comp(&v.values, &w)); cover(4) }
        (Err(_), Some(ValueDef::Composite(_))) => check!(false),
        (Err(_), _) => cover(5),
        _ => check!(false),
    }
}
