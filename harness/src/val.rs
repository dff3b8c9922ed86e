//! Reference encoder and structural comparison, independent of the code under test.
use crate::{sym::*, ty::*};
use scale_type_resolver::{BitsOrderFormat, BitsStoreFormat, Primitive as P};
use scale_value::{BitSequence, Composite, Primitive, Value, ValueDef, Variant};

/// Structural equality, ignoring contexts.
pub fn same<A, B>(a: &Value<A>, b: &Value<B>) -> bool {
    match (&a.value, &b.value) {
        (ValueDef::Composite(a), ValueDef::Composite(b)) => same_comp(a, b),
        (ValueDef::Variant(a), ValueDef::Variant(b)) => a.name.as_bytes() == b.name.as_bytes() && same_comp(&a.values, &b.values),
        (ValueDef::BitSequence(a), ValueDef::BitSequence(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| a == b),
        (ValueDef::Primitive(a), ValueDef::Primitive(b)) => same_prim(a, b),
        _ => false,
    }
}
pub fn same_prim(a: &Primitive, b: &Primitive) -> bool {
    match (a, b) {
        (Primitive::Bool(a), Primitive::Bool(b)) => a == b,
        (Primitive::Char(a), Primitive::Char(b)) => a == b,
        (Primitive::String(a), Primitive::String(b)) => a.as_bytes() == b.as_bytes(),
        (Primitive::U128(a), Primitive::U128(b)) => a == b,
        (Primitive::I128(a), Primitive::I128(b)) => a == b,
        (Primitive::U256(a), Primitive::U256(b)) => a == b,
        (Primitive::I256(a), Primitive::I256(b)) => a == b,
        _ => false,
    }
}
pub fn same_comp<A, B>(a: &Composite<A>, b: &Composite<B>) -> bool {
    match (a, b) {
        (Composite::Named(a), Composite::Named(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0.as_bytes() == b.0.as_bytes() && same(&a.1, &b.1)),
        (Composite::Unnamed(a), Composite::Unnamed(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        _ => false,
    }
}
/// Equality of the contexts of two values of the same shape.
pub fn same_ctx(a: &Value<u32>, b: &Value<u32>) -> bool { a.context == b.context && zip_all(a, b, &mut |a, b| same_ctx(a, b)) }
fn zip_all(a: &Value<u32>, b: &Value<u32>, f: &mut dyn FnMut(&Value<u32>, &Value<u32>) -> bool) -> bool {
    let (a, b) = match (&a.value, &b.value) {
        (ValueDef::Composite(a), ValueDef::Composite(b)) => (a, b),
        (ValueDef::Variant(a), ValueDef::Variant(b)) => (&a.values, &b.values),
        _ => return true,
    };
    items(a).len() == items(b).len() && items(a).iter().zip(items(b).iter()).all(|(a, b)| f(a, b))
}
pub fn items<T>(c: &Composite<T>) -> Vec<&Value<T>> {
    match c {
        Composite::Named(v) => v.iter().map(|x| &x.1).collect(),
        Composite::Unnamed(v) => v.iter().collect(),
    }
}
pub fn prim<T>(p: Primitive, context: T) -> Value<T> { Value { value: ValueDef::Primitive(p), context } }
pub fn unnamed<T>(v: Vec<Value<T>>, context: T) -> Value<T> { Value { value: ValueDef::Composite(Composite::Unnamed(v)), context } }
pub fn comp<T>(v: Composite<T>, context: T) -> Value<T> { Value { value: ValueDef::Composite(v), context } }
pub fn variant<T>(n: &str, v: Composite<T>, context: T) -> Value<T> { Value { value: ValueDef::Variant(Variant { name: n.to_string(), values: v }), context } }

/// Reference compact encoding.
pub fn compact(n: u128, out: &mut Vec<u8>) {
    if n < 1 << 6 {
        out.push((n as u8) << 2)
    } else if n < 1 << 14 {
        out.extend_from_slice(&(((n as u16) << 2) | 1).to_le_bytes())
    } else if n < 1 << 30 {
        out.extend_from_slice(&(((n as u32) << 2) | 2).to_le_bytes())
    } else {
        let b = n.to_le_bytes();
        let mut k = 4;
        while k < 16 && n >> (8 * k) != 0 { k += 1 }
        out.push((((k - 4) << 2) | 3) as u8);
        out.extend_from_slice(&b[..k])
    }
}
/// Reference bit sequence encoding: compact bit count, then whole storage units.
pub fn bits(bs: &[bool], s: BitsStoreFormat, o: BitsOrderFormat, out: &mut Vec<u8>) {
    compact(bs.len() as u128, out);
    let w = match s { BitsStoreFormat::U8 => 8, BitsStoreFormat::U16 => 16, BitsStoreFormat::U32 => 32, BitsStoreFormat::U64 => 64 };
    for unit in bs.chunks(w) {
        let mut n = 0u64;
        for (i, b) in unit.iter().enumerate() {
            let pos = match o { BitsOrderFormat::Lsb0 => i, BitsOrderFormat::Msb0 => w - 1 - i };
            n |= (*b as u64) << pos;
        }
        out.extend_from_slice(&n.to_le_bytes()[..w / 8]);
    }
}
pub fn to_bits(bs: &[bool]) -> BitSequence {
    let mut s = BitSequence::new();
    for b in bs { s.push(*b) }
    s
}
/// Any Unicode scalar value.
pub fn any_char() -> char {
    let n = u32::from_le_bytes(bytes());
    assume(n < 0x110000 && !(n >= 0xd800 && n < 0xe000));
    unsafe { char::from_u32_unchecked(n) }
}
/// A string of up to `n` characters: arbitrary ASCII, plus an optional non-ASCII character.
pub fn any_str(n: usize) -> String {
    let k = pick(n + 2);
    if k == n + 1 { return "é→\u{10348}".to_string() }
    let v = vec(k);
    for b in &v { assume(*b < 128) }
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn any_bits(max: usize) -> Vec<bool> { let n = pick(max + 1); (0..n).map(|_| bit()).collect() }

/// Limits for the generated data.
#[derive(Clone, Copy)]
pub struct Lim { pub seq: usize, pub str: usize, pub bits: usize }

/// A value of the given type, with its reference encoding.
pub fn any_of_type(r: &Reg, id: u32, l: Lim, out: &mut Vec<u8>) -> Value<u32> {
    match r.get(id) {
        Ty::Prim(p) => prim(any_prim(*p, l, out), id),
        Ty::Compact(_) => {
            // the value reports the ids of the types inside the compact, like decoding each of them
            compact_value(r, id, l, out)
        }
        Ty::Seq(t) => {
            let n = pick(l.seq + 1);
            compact(n as u128, out);
            unnamed((0..n).map(|_| any_of_type(r, *t, l, out)).collect(), id)
        }
        Ty::Arr(t, n) => unnamed((0..*n).map(|_| any_of_type(r, *t, l, out)).collect(), id),
        Ty::Tup(ts) => unnamed(ts.iter().map(|t| any_of_type(r, *t, l, out)).collect(), id),
        Ty::Comp(fs) => comp(any_fields_of(r, fs, l, out), id),
        Ty::Var(vs) => {
            let (i, n, fs) = &vs[pick(vs.len())];
            out.push(*i);
            variant(n, any_fields_of(r, fs, l, out), id)
        }
        Ty::Bits(s, o) => {
            let b = any_bits(l.bits);
            bits(&b, *s, *o, out);
            Value { value: ValueDef::BitSequence(to_bits(&b)), context: id }
        }
    }
}
pub fn any_fields_of(r: &Reg, fs: &Fields, l: Lim, out: &mut Vec<u8>) -> Composite<u32> {
    let named = !fs.is_empty() && fs.iter().all(|f| f.0.is_some());
    if named {
        Composite::Named(fs.iter().map(|(n, t)| (n.unwrap().to_string(), any_of_type(r, *t, l, out))).collect())
    } else {
        Composite::Unnamed(fs.iter().map(|(_, t)| any_of_type(r, *t, l, out)).collect())
    }
}
pub fn any_prim(p: P, l: Lim, out: &mut Vec<u8>) -> Primitive {
    match p {
        P::Bool => { let b = bit(); out.push(b as u8); Primitive::Bool(b) }
        P::Char => { let c = any_char(); out.extend_from_slice(&(c as u32).to_le_bytes()); Primitive::Char(c) }
        P::Str => { let s = any_str(l.str); compact(s.len() as u128, out); out.extend_from_slice(s.as_bytes()); Primitive::String(s) }
        P::U256 => { let b = bytes::<32>(); out.extend_from_slice(&b); Primitive::U256(b) }
        P::I256 => { let b = bytes::<32>(); out.extend_from_slice(&b); Primitive::I256(b) }
        _ => {
            let (w, signed) = int_of(p).unwrap();
            let mut b = [0u8; 16];
            fill(&mut b[..w]);
            out.extend_from_slice(&b[..w]);
            let n = u128::from_le_bytes(b);
            if signed {
                let s = 128 - 8 * w as u32;
                Primitive::I128(((n << s) as i128) >> s)
            } else {
                Primitive::U128(n)
            }
        }
    }
}
fn compact_value(r: &Reg, id: u32, _l: Lim, out: &mut Vec<u8>) -> Value<u32> {
    // descend to the integer, remembering the wrappers
    fn build(r: &Reg, id: u32, n: u128) -> Value<u32> {
        match r.get(id) {
            Ty::Prim(_) => prim(Primitive::U128(n), id),
            Ty::Compact(t) => build(r, *t, n),
            Ty::Tup(ts) => unnamed(vec![build(r, ts[0], n)], id),
            Ty::Comp(fs) => match fs[0].0 {
                Some(name) => comp(Composite::Named(vec![(name.to_string(), build(r, fs[0].1, n))]), id),
                None => comp(Composite::Unnamed(vec![build(r, fs[0].1, n)]), id),
            },
            _ => unreachable!(),
        }
    }
    fn width(r: &Reg, id: u32) -> usize {
        match r.get(id) {
            Ty::Prim(p) => int_of(*p).unwrap().0,
            Ty::Compact(t) => width(r, *t),
            Ty::Tup(ts) => width(r, ts[0]),
            Ty::Comp(fs) => width(r, fs[0].1),
            _ => unreachable!(),
        }
    }
    let w = width(r, id);
    let mut b = [0u8; 16];
    fill(&mut b[..w]);
    let n = u128::from_le_bytes(b);
    compact(n, out);
    build(r, id, n)
}

/// Why a reference decode stopped: the path from the outermost container, and what had been decoded of it
/// (none at a leaf, or where a container itself cannot be started).
pub type Stop = Option<(String, Value<u32>)>;
/// Reference decoder.
pub fn decode(r: &Reg, id: u32, c: bool, b: &mut &[u8]) -> Result<Value<u32>, Stop> {
    use codec::{Compact, Decode};
    fn get<T: Decode>(b: &mut &[u8]) -> Result<T, Stop> { T::decode(b).map_err(|_| None) }
    match r.get(id) {
        Ty::Prim(p) => {
            if c {
                let n = match p {
                    P::U8 => get::<Compact<u8>>(b)?.0 as u128,
                    P::U16 => get::<Compact<u16>>(b)?.0 as u128,
                    P::U32 => get::<Compact<u32>>(b)?.0 as u128,
                    P::U64 => get::<Compact<u64>>(b)?.0 as u128,
                    P::U128 => get::<Compact<u128>>(b)?.0,
                    _ => return Err(None),
                };
                return Ok(prim(Primitive::U128(n), id));
            }
            let take = |b: &mut &[u8], n: usize| -> Result<Vec<u8>, Stop> {
                if b.len() < n { return Err(None) }
                let v = b[..n].to_vec();
                *b = &b[n..];
                Ok(v)
            };
            Ok(prim(match p {
                P::Bool => match take(b, 1)?[0] { 0 => Primitive::Bool(false), 1 => Primitive::Bool(true), _ => return Err(None) },
                P::Char => {
                    let v = take(b, 4)?;
                    Primitive::Char(char::from_u32(u32::from_le_bytes([v[0], v[1], v[2], v[3]])).ok_or(None)?)
                }
                P::Str => {
                    let n = get::<Compact<u32>>(b)?.0 as usize;
                    let v = take(b, n)?;
                    Primitive::String(core::str::from_utf8(&v).map_err(|_| None)?.to_string())
                }
                P::U256 | P::I256 => {
                    // the decoder wants these last
                    if b.len() != 32 { return Err(None) }
                    let v: [u8; 32] = take(b, 32)?.try_into().map_err(|_| None)?;
                    if let P::U256 = p { Primitive::U256(v) } else { Primitive::I256(v) }
                }
                _ => {
                    let (w, signed) = int_of(*p).unwrap();
                    let v = take(b, w)?;
                    let mut a = [0u8; 16];
                    a[..w].copy_from_slice(&v);
                    let n = u128::from_le_bytes(a);
                    let s = 128 - 8 * w as u32;
                    if signed { Primitive::I128(((n << s) as i128) >> s) } else { Primitive::U128(n) }
                }
            }, id))
        }
        Ty::Compact(t) => decode(r, *t, true, b),
        Ty::Seq(_) | Ty::Arr(..) | Ty::Var(_) | Ty::Bits(..) if c => Err(None),
        Ty::Seq(t) => {
            let n = get::<Compact<u64>>(b)?.0;
            let mut i = 0;
            let it = core::iter::from_fn(|| { i += 1; if i <= n { Some((None, *t)) } else { None } });
            run_fields(r, false, it, false, b, "").map(|v| comp(v, id)).map_err(|(p, v)| Some((p, comp(v, id))))
        }
        Ty::Arr(t, n) => run_fields(r, false, (0..*n).map(|_| (None, *t)), false, b, "").map(|v| comp(v, id)).map_err(|(p, v)| Some((p, comp(v, id)))),
        Ty::Tup(ts) if c && ts.len() != 1 => Err(None),
        Ty::Tup(ts) => run_fields(r, c, ts.iter().map(|t| (None, *t)), false, b, "").map(|v| comp(v, id)).map_err(|(p, v)| Some((p, comp(v, id)))),
        Ty::Comp(fs) if c && fs.len() != 1 => Err(None),
        Ty::Comp(fs) => run_fields(r, c, fs.iter().copied(), is_named(fs), b, "").map(|v| comp(v, id)).map_err(|(p, v)| Some((p, comp(v, id)))),
        Ty::Var(vs) => {
            let i: u8 = get(b)?;
            let (_, n, fs) = vs.iter().find(|v| v.0 == i).ok_or(None)?;
            run_fields(r, false, fs.iter().copied(), is_named(fs), b, n).map(|v| variant(n, v, id)).map_err(|(p, v)| Some((p, variant(n, v, id))))
        }
        Ty::Bits(s, o) => {
            let n = get::<Compact<u32>>(b)?.0 as usize;
            let w = match s { BitsStoreFormat::U8 => 1, BitsStoreFormat::U16 => 2, BitsStoreFormat::U32 => 4, BitsStoreFormat::U64 => 8 };
            let units = n / (8 * w) + (n % (8 * w) != 0) as usize;
            if b.len() < units * w { return Err(None) }
            let mut v = vec![];
            for i in 0..n {
                let (u, k) = (i / (8 * w), i % (8 * w));
                let k = match o { BitsOrderFormat::Lsb0 => k, BitsOrderFormat::Msb0 => 8 * w - 1 - k };
                v.push(b[u * w + k / 8] >> (k % 8) & 1 == 1);
            }
            *b = &b[units * w..];
            Ok(Value { value: ValueDef::BitSequence(to_bits(&v)), context: id })
        }
    }
}
pub fn is_named(fs: &Fields) -> bool { !fs.is_empty() && fs.iter().all(|f| f.0.is_some()) }
/// The fields in order, stopping at the first that does not decode.
pub fn run_fields(r: &Reg, c: bool, fs: impl Iterator<Item = (Option<&'static str>, u32)>, named: bool, b: &mut &[u8], at: &str) -> Result<Composite<u32>, (String, Composite<u32>)> {
    let (mut u, mut n) = (vec![], vec![]);
    let mut i = 0;
    for (name, t) in fs {
        let name = name.unwrap_or("");
        let mut path = String::new();
        if !at.is_empty() { path.push('.'); path.push_str(at) }
        path.push('.');
        if named { path.push_str(name) } else { path.push('['); path.push_str(&i.to_string()); path.push(']') }
        match decode(r, t, c, b) {
            Ok(v) => if named { n.push((name.to_string(), v)) } else { u.push(v) },
            Err(e) => {
                if let Some((p, v)) = e {
                    path.push_str(&p);
                    if named { n.push((name.to_string(), v)) } else { u.push(v) }
                }
                return Err((path, if named { Composite::Named(n) } else { Composite::Unnamed(u) }));
            }
        }
        i += 1;
    }
    Ok(if named { Composite::Named(n) } else { Composite::Unnamed(u) })
}
/// The fewest bytes a value of the type takes.
pub fn min_size(r: &Reg, id: u32) -> usize {
    match r.get(id) {
        Ty::Prim(_) | Ty::Compact(_) | Ty::Seq(_) | Ty::Var(_) | Ty::Bits(..) => 1,
        Ty::Arr(t, n) => min_size(r, *t) * n,
        Ty::Tup(ts) => ts.iter().map(|t| min_size(r, *t)).sum(),
        Ty::Comp(fs) => fs.iter().map(|f| min_size(r, f.1)).sum(),
    }
}
