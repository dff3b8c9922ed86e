//! Long, wide and deep inputs: sizes are fixed ones around thresholds, contents mostly fixed, with symbolic parts in chosen places.
use crate::{encode::*, sym::*, text::*, ty::*, val::*};
use scale_decode::IntoVisitor;
use scale_encode::EncodeAsFields;
use scale_type_resolver::Primitive as P;
use scale_value::scale::{decode_as_fields, decode_as_type, encode_as_type, tracing};
use scale_value::stringify::{custom_formatters::format_hex, custom_parsers::parse_hex, from_str, from_str_custom, to_writer_custom};
use scale_value::{Composite, Primitive, Value, ValueDef};

pub const SIZES: [usize; 9] = [3, 7, 16, 33, 63, 64, 65, 256, 300];
pub const HUGE: [usize; 3] = [16383, 16384, 16385];
/// One of the first, a middle one and the last of `n`.
pub fn place(n: usize) -> usize { match pick(4) { 0 => 0, 1 => n / 2, 2 => n.saturating_sub(2), _ => n.saturating_sub(1) } }

/// What to fill a type with: the lengths of its sequences in order of appearance, and which leaf is symbolic.
struct Gen { lens: Vec<usize>, sym: usize, leaf: usize, bits: usize }
fn gen_type(r: &Reg, id: u32, g: &mut Gen, out: &mut Vec<u8>) -> Value<u32> {
    match r.get(id) {
        Ty::Prim(p) => {
            let sym = g.leaf == g.sym;
            g.leaf += 1;
            let i = g.leaf;
            if sym { return prim(any_prim(*p, Lim { seq: 1, str: 1, bits: 1 }, out), id) }
            prim(match p {
                P::Bool => { out.push((i % 3 == 0) as u8); Primitive::Bool(i % 3 == 0) }
                P::Char => { let c = ['x', 'é', '字'][i % 3]; out.extend_from_slice(&(c as u32).to_le_bytes()); Primitive::Char(c) }
                P::Str => { let n = g.lens.pop().unwrap_or(i % 3); compact(n as u128, out); let s: String = (0..n).map(|k| (b'a' + (k % 26) as u8) as char).collect(); out.extend_from_slice(s.as_bytes()); Primitive::String(s) }
                P::U256 | P::I256 => unreachable!(),
                _ => {
                    let (w, signed) = int_of(*p).unwrap();
                    let n = (i as u128).wrapping_mul(0x9e3779b97f4a7c15f39cc0605cedc835);
                    let s = 128 - 8 * w as u32;
                    out.extend_from_slice(&n.to_le_bytes()[..w]);
                    if signed { Primitive::I128(((n << s) as i128) >> s) } else { Primitive::U128((n << s) >> s) }
                }
            }, id)
        }
        Ty::Compact(t) => { let n = (g.leaf as u128) * 37; g.leaf += 1; compact(n, out); prim(Primitive::U128(n), *t) }
        Ty::Seq(t) => { let n = g.lens.pop().unwrap_or(2); compact(n as u128, out); unnamed((0..n).map(|_| gen_type(r, *t, g, out)).collect(), id) }
        Ty::Arr(t, n) => unnamed((0..*n).map(|_| gen_type(r, *t, g, out)).collect(), id),
        Ty::Tup(ts) => unnamed(ts.iter().map(|t| gen_type(r, *t, g, out)).collect(), id),
        Ty::Comp(fs) => comp(gen_fields(r, fs, g, out), id),
        Ty::Var(vs) => { let (i, n, fs) = vs.last().unwrap(); out.push(*i); variant(n, gen_fields(r, fs, g, out), id) }
        Ty::Bits(s, o) => {
            let b: Vec<bool> = (0..g.bits).map(|i| if i == g.sym { bit() } else { i % 5 < 2 }).collect();
            bits(&b, *s, *o, out);
            Value { value: ValueDef::BitSequence(to_bits(&b)), context: id }
        }
    }
}
fn gen_fields(r: &Reg, fs: &Fields, g: &mut Gen, out: &mut Vec<u8>) -> Composite<u32> {
    if is_named(fs) { Composite::Named(fs.iter().map(|f| (f.0.unwrap().to_string(), gen_type(r, f.1, g, out))).collect()) } else { Composite::Unnamed(fs.iter().map(|f| gen_type(r, f.1, g, out)).collect()) }
}
pub const LONG: [&str; 40] = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
    "aa", "ab", "ac", "ad", "ae", "af", "ag", "ah", "ai", "aj", "ak", "al", "a_name_of_more_than_thirty_two_characters_and_then_some_more_to_get_past_sixty_four", "zz"];
fn many(r: &mut Reg, n: usize, named: usize) -> Fields {
    (0..n).map(|i| (match named { 0 => None, 1 => Some(LONG[i]), _ => Some(LONG[n - 1 - i]) }, match i % 4 { 0 => r.prim(P::U8), 1 => r.prim(P::Bool), 2 => { let t = r.prim(P::U32); r.add(Ty::Compact(t)) } _ => r.prim(P::I16) })).collect()
}
/// A large type and what to fill it with. `level`: 0 long, 1 wide, 2 deep, 3 huge.
fn big(r: &mut Reg, level: u32, full: bool) -> (u32, Gen) {
    let mut g = Gen { lens: vec![], sym: usize::MAX, leaf: 0, bits: 0 };
    let id = match level {
        0 => {
            let n = if full { one_of(&SIZES) } else { one_of(&[16, 65, 300]) };
            g.sym = if full { place(n) } else { one_of(&[0, n / 2, n - 1]) };
            match pick(7) {
                0 => { g.lens = vec![n]; let p = one_of(&[P::U8, P::I16, P::Bool]); let t = r.prim(p); r.add(Ty::Seq(t)) }
                1 => { g.lens = vec![n]; g.sym = usize::MAX; r.prim(P::Str) }
                2 => { g.bits = n; let (s, o) = (one_of(&STORES), one_of(&ORDERS)); r.add(Ty::Bits(s, o)) }
                3 => { let t = r.prim(P::U8); r.add(Ty::Arr(t, n)) }
                4 => { g.lens = vec![n]; let (a, b) = (r.prim(P::U8), r.prim(P::Char)); let t = r.add(Ty::Tup(vec![a, b])); r.add(Ty::Seq(t)) }
                5 => { g.lens = vec![n, 2]; let t = r.prim(P::U8); let t = r.add(Ty::Seq(t)); let t = r.add(Ty::Comp(vec![(Some("x"), t)])); r.add(Ty::Seq(t)) }
                _ => { g.lens = vec![n]; let t = r.prim(P::U8); let t = r.add(Ty::Var(vec![(1, "N", vec![]), (9, "Y", vec![(None, t)])])); r.add(Ty::Seq(t)) }
            }
        }
        1 => {
            let n = one_of(&[3, 4, 5, 8, 9, 17, 40]);
            g.sym = 4 * (place(n) / 4);
            match pick(6) {
                0 => { let ts = many(r, n, 0).into_iter().map(|f| f.1).collect(); r.add(Ty::Tup(ts)) }
                k @ 1..=3 => { let fs = many(r, n, k - 1); r.add(Ty::Comp(fs)) }
                4 => { let fs = many(r, n, 1); r.add(Ty::Var(vec![(3, "A", vec![]), (1, "Bb", fs)])) }
                _ => { let t = r.prim(P::U8); let vs = (0..n).map(|i| ((i * 6 + 3) as u8, LONG[i], vec![(None, t)])).collect(); g.sym = 0; r.add(Ty::Var(vs)) }
            }
        }
        2 => {
            let n = one_of(&[4, 5, 6, 9, 17]);
            let k = pick(6);
            g.sym = 0;
            g.lens = vec![1; n];
            let mut t = r.prim(P::U8);
            let b = r.prim(P::Bool);
            for i in 0..n {
                let m = if k == 5 { i % 5 } else { k };
                t = match m { 0 => r.add(Ty::Seq(t)), 1 => r.add(Ty::Arr(t, 1)), 2 => r.add(Ty::Tup(vec![t, b])), 3 => r.add(Ty::Comp(vec![(Some("f"), t), (Some("g"), b)])), _ => r.add(Ty::Var(vec![(0, "Z", vec![]), (4, "V", vec![(None, t)])])) };
            }
            t
        }
        _ => {
            let n = one_of(&HUGE);
            g.sym = n - 1;
            match pick(3) { 0 => { g.lens = vec![n]; let t = r.prim(P::U8); r.add(Ty::Seq(t)) } 1 => { g.lens = vec![n]; g.sym = usize::MAX; r.prim(P::Str) } _ => { g.bits = n; r.add(Ty::Bits(STORES[0], ORDERS[0])) } }
        }
    };
    (id, g)
}
/// 256-bit numbers, which the decoder takes only in final position.
fn wide_number(r: &mut Reg) -> u32 {
    let p = one_of(&[P::U256, P::I256]);
    let t = r.prim(p);
    let b = r.prim(P::Bool);
    match pick(8) {
        0 => t,
        1 => r.add(Ty::Seq(t)),
        2 => r.add(Ty::Arr(t, 1)),
        3 => r.add(Ty::Tup(vec![b, t])),
        4 => r.add(Ty::Comp(vec![(Some("a"), b), (Some("b"), t)])),
        5 => r.add(Ty::Comp(vec![(None, t)])),
        6 => { let t = r.add(Ty::Tup(vec![t])); r.add(Ty::Comp(vec![(Some("x"), t)])) }
        _ => r.add(Ty::Var(vec![(1, "A", vec![(None, t)]), (0, "B", vec![(Some("z"), t)])])),
    }
}
/// A type, an encoding of it, the value it means, and whether something may follow it.
fn sample(r: &mut Reg, level: u32) -> (u32, Vec<u8>, Value<u32>, bool) {
    let mut enc = vec![];
    if level == 9 {
        let id = wide_number(r);
        let v = any_of_type(r, id, Lim { seq: 1, str: 1, bits: 1 }, &mut enc);
        return (id, enc, v, false);
    }
    let (id, mut g) = big(r, level % 10, level < 10);
    let v = gen_type(r, id, &mut g, &mut enc);
    (id, enc, v, true)
}
/// C07.
#[no_mangle]
pub extern "C" fn h_c07_big(level: u32) {
    alloc_limit(1 << 24);
    let mut r = Reg::new();
    let (id, enc, want, tail) = sample(&mut r, level);
    let mut all = enc.clone();
    if tail { all.extend_from_slice(&[0xAA, 0x55]) }
    let cur = &mut &all[..];
    let Ok(got) = decode_as_type(cur, id, &r) else { check!(false); return };
    check!(same(&got, &want));
    check!(cur.len() == all.len() - enc.len());
    let mut out = vec![];
    check!(encode_as_type(&got, id, &r, &mut out).is_ok());
    check!(out == enc);
    cover(1);
}
/// C14.
#[no_mangle]
pub extern "C" fn h_c14_big(level: u32) {
    let mut r = Reg::new();
    let (id, enc, want, _) = sample(&mut r, level);
    let Ok(a) = decode_as_type(&mut &enc[..], id, &r) else { check!(false); return };
    check!(same_ctx(&a, &want) && same(&a, &want));
    let Ok(b) = tracing::decode_as_type(&mut &enc[..], id, &r) else { check!(false); return };
    check!(same_ctx(&b, &want) && same(&b, &want));
    let Ok(c) = scale_decode::visitor::decode_with_visitor(&mut &enc[..], id, &r, Value::<()>::into_visitor::<Reg>()) else { check!(false); return };
    check!(same(&c, &want));
    check!(a.remove_context() == c);
    cover(1);
}
/// C12: the same, also cut short.
#[no_mangle]
pub extern "C" fn h_c12_big(level: u32) {
    let mut r = Reg::new();
    let (id, enc, _, _) = sample(&mut r, level);
    let cut = match pick(4) { 0 => 0, 1 => 1, 2 => enc.len() / 2, _ => enc.len() - 1 };
    let data = &enc[..enc.len() - cut.min(enc.len())];
    let (a, b) = (&mut &data[..], &mut &data[..]);
    match (decode_as_type(a, id, &r), tracing::decode_as_type(b, id, &r)) {
        (Ok(p), Ok(t)) => { check!(same(&p, &t) && same_ctx(&p, &t)); check!(a.len() == b.len()); cover(1) }
        (Err(_), Err(t)) => {
            let got = t.to_string();
            let path = match decode(&r, id, false, &mut &data[..]) { Ok(_) => { check!(false); return } Err(None) => String::new(), Err(Some((path, _))) => path };
            let (head, at) = ("Error decoding value at ", got.find(": "));
            if path.is_empty() { check!(got.starts_with("Error decoding value: ")) } else { check!(got.starts_with(head) && at.is_some_and(|at| got[head.len()..at] == path)) }
            cover(2);
        }
        _ => check!(false),
    }
}
/// C08: lengths claimed in up to 6 bytes, with little behind them; numbers of all lengths.
#[no_mangle]
pub extern "C" fn h_c08_big(level: u32) {
    let mut r = Reg::new();
    let u8s = r.prim(P::U8);
    let (id, n) = match level {
        0 => (match pick(8) {
            0 => r.add(Ty::Seq(u8s)),
            1 => { let t = r.prim(P::U64); r.add(Ty::Seq(t)) }
            2 => r.prim(P::Str),
            3 => { let (s, o) = (one_of(&STORES), one_of(&ORDERS)); r.add(Ty::Bits(s, o)) }
            4 => { let t = r.add(Ty::Seq(u8s)); r.add(Ty::Tup(vec![t])) }
            5 => { let t = r.prim(P::Bool); let t = r.add(Ty::Seq(t)); r.add(Ty::Comp(vec![(Some("a"), u8s), (Some("b"), t)])) }
            6 => { let t = r.prim(P::Str); r.add(Ty::Var(vec![(0, "A", vec![(None, t)])])) }
            _ => { let t = r.add(Ty::Compact(u8s)); r.add(Ty::Seq(t)) }
        }, 6),
        _ => (match pick(5) {
            0 => { let p = one_of(&UINTS); let t = r.prim(p); r.add(Ty::Compact(t)) }
            1 => { let p = one_of(&UINTS); r.prim(p) }
            2 => { let p = one_of(&SINTS); r.prim(p) }
            3 => { let p = one_of(&[P::U256, P::I256]); r.prim(p) }
            _ => { let p = one_of(&UINTS); let t = r.prim(p); let t = r.add(Ty::Comp(vec![(Some("n"), t)])); r.add(Ty::Compact(t)) }
        }, 18),
    };
    let n = if let (Ty::Prim(P::U256 | P::I256), _) = (r.get(id), ()) { 31 + pick(3) } else { pick(n + 1) };
    let mut data = match level {
        // what is claimed
        0 => {
            let fill = one_of(&[0, 1, 255]);
            let mut d: Vec<u8> = vec![fill; n];
            if n > 0 { d[0] = byte(); let k = pick(n); d[k] = byte() }
            if n > 4 || n > 0 && matches!(r.get(id), Ty::Bits(..)) { assume(d[0] & 3 >= 2) }
            d
        }
        _ => vec(n),
    };
    // and what is there
    if level == 0 { data.extend(core::iter::repeat_n(1, one_of(&[0, 9]))) }
    alloc_limit(1024 + 512 * data.len());
    let cur = &mut &data[..];
    let got = match pick(3) {
        0 => decode_as_type(cur, id, &r).ok(),
        1 => tracing::decode_as_type(cur, id, &r).ok(),
        _ => { let fs = vec![(None, id)]; let fs = field_vec(&fs); decode_as_fields(cur, &mut fs.iter().cloned(), &r).ok().and_then(|c| items(&c).first().map(|v| (*v).clone())) }
    };
    let k = data.len() - cur.len();
    check!(cur.len() <= data.len() && cur.as_ptr() as usize == data.as_ptr() as usize + k);
    let want = decode(&r, id, false, &mut &data[..]);
    let Some(v) = got else { check!(want.is_err()); cover(2); return };
    let Ok(want) = want else { check!(false); return };
    check!(same(&v, &want) && same_ctx(&v, &want));
    let c2 = &mut &data[..k];
    let Ok(again) = decode_as_type(c2, id, &r) else { check!(false); return };
    check!(c2.is_empty() && same(&v, &again));
    cover(1);
}
/// A field list of two to five u8 fields and the same fields, in any order, one possibly under another name, encoded against
/// the list and against the struct.
fn shuffled(r: &mut Reg) {
    let t = r.prim(P::U8);
    let n = 2 + pick(4);
    let fs: Fields = (0..n).map(|i| (Some(LONG[i]), t)).collect();
    let id = r.add(Ty::Comp(fs.clone()));
    let xs = vec(n);
    let mut left: Vec<usize> = (0..n).collect();
    let mut vals = vec![];
    while !left.is_empty() { let i = left.remove(pick(left.len())); vals.push((LONG[i].to_string(), Value::u128(xs[i] as u128))) }
    let bad = pick(3) == 2;
    if bad { vals[pick(n)].0 = "zzz".into() }
    let c = Composite::Named(vals);
    let list = field_vec(&fs);
    let (mut a, mut b, mut d) = (vec![], vec![], vec![]);
    let e = [c.encode_as_fields_to(&mut list.iter().cloned(), r, &mut a).is_ok(),
        Value { value: ValueDef::Composite(c.clone()), context: () }.encode_as_fields_to(&mut list.iter().cloned(), r, &mut b).is_ok(),
        encode_as_type(&Value { value: ValueDef::Composite(c), context: () }, id, r, &mut d).is_ok()];
    if bad { check!(e == [false; 3]); cover(2); return }
    check!(e == [true; 3] && a == xs && b == xs && d == xs);
    cover(1);
}
/// C13: long lists of fields.
#[no_mangle]
pub extern "C" fn h_c13_big(level: u32) {
    let mut r = Reg::new();
    if level == 1 { return shuffled(&mut r) }
    let n = one_of(&[4, 5, 9, 17, 40]);
    let k = pick(3);
    let fs = many(&mut r, n, k);
    let id = r.add(Ty::Comp(fs.clone()));
    let mut g = Gen { lens: vec![], sym: 4 * (place(n) / 4), leaf: 0, bits: 0 };
    let mut enc = vec![];
    let want = gen_fields(&r, &fs, &mut g, &mut enc);
    let whole = enc.len();
    enc.push(0x77);
    if pick(2) == 1 { let k = place(whole); enc.truncate(k) }
    let list = field_vec(&fs);
    let cur = &mut &enc[..];
    let got = decode_as_fields(cur, &mut list.iter().cloned(), &r);
    if enc.len() < whole { check!(got.is_err()); cover(2); return }
    let Ok(got) = got else { check!(false); return };
    check!(same_comp(&got, &want) && cur.len() == 1);
    check!(same_ctx(&comp(got.clone(), id), &comp(want.clone(), id)));
    // fields in another order and one too many
    let mut v = got;
    if let Composite::Named(f) = &mut v {
        if pick(2) == 1 { f.rotate_left(1) }
        if pick(2) == 1 { f.insert(n / 2, ("extra".into(), prim(Primitive::Bool(true), 1))) }
    }
    let mut out = vec![];
    check!(v.encode_as_fields_to(&mut list.iter().cloned(), &r, &mut out).is_ok());
    check!(out == enc[..whole]);
    // and one too few
    match &mut v { Composite::Named(f) => { f.retain(|f| f.0 != LONG[n - 1]) } Composite::Unnamed(f) => { f.pop(); } }
    check!(v.encode_as_fields_to(&mut list.iter().cloned(), &r, &mut out).is_err());
    cover(1);
}

/// C01: long, wide and deep values.
/// A long (0), wide (1) or deep (2) value, or a number (3); with a symbolic part.
pub fn big_value(level: u32, sizes: &[usize]) -> Value<()> {
    let c = any_ch();
    match level {
        0 => {
            let n = one_of(sizes);
            let at = place(n);
            let text: String = (0..n).map(|i| if i == at { c } else { ['x', 'é', '\\', '"', '7', '\n', '字'][i % 7] }).collect();
            let word: String = (0..n).map(|i| if i == at { c } else { ['x', 'é', 'Z', '_', '7', '字'][i % 6] }).collect();
            match pick(5) {
                0 => Value::string(text),
                1 => Value::named_composite([(text, Value::u128(1)), (word, Value::bool(true))]),
                2 => Value::unnamed_variant(word, [Value::u128(1)]),
                3 => Value::named_variant(text, [("a", Value::u128(1))]),
                _ => Value::bit_sequence(to_bits(&(0..n).map(|i| if i == at { (c as u32) < 64 } else { i % 5 < 2 }).collect::<Vec<_>>())),
            }
        }
        1 => {
            let n = one_of(sizes);
            let at = place(n);
            let item = |i: usize| if i == at { Value::char(c) } else { match i % 5 { 0 => Value::u128(i as u128), 1 => Value::bool(i % 2 == 0), 2 => Value::string("s"), 3 => Value::unnamed_composite([]), _ => Value::i128(-(i as i128)) } };
            match pick(4) {
                0 => Value::unnamed_composite((0..n).map(item).collect::<Vec<_>>()),
                1 => Value::named_composite((0..n).map(|i| (LONG[i % 40], item(i))).collect::<Vec<_>>()),
                2 => Value::unnamed_variant("V", (0..n).map(item).collect::<Vec<_>>()),
                _ => Value::named_variant("V", (0..n).map(|i| (LONG[i % 40], item(i))).collect::<Vec<_>>()),
            }
        }
        2 => {
            let n = one_of(sizes);
            let k = pick(5);
            let mut v = Value::char(c);
            for i in 0..n {
                let m = if k == 4 { i % 4 } else { k };
                v = match m { 0 => Value::unnamed_composite([v]), 1 => Value::named_composite([("a", v), ("b", Value::u128(1))]), 2 => Value::unnamed_variant("V", [Value::bool(true), v]), _ => Value::named_variant("W", [("c", v)]) };
            }
            v
        }
        _ => {
            // numbers around all powers of two and ten
            let k = pick(128 + 39);
            let base = if k < 128 { 1u128 << k } else { 10u128.pow(k as u32 - 128) };
            let n = base.wrapping_sub(2).wrapping_add(byte() as u128 & 3);
            if pick(2) == 0 { prim(Primitive::U128(n), ()) } else { prim(Primitive::I128((n as i128).wrapping_neg()), ()) }
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c01_big(level: u32) {
    let v = big_value(level, match level { 0 => &SIZES, 1 => &[3, 4, 5, 9, 17, 65, 130], _ => &[4, 5, 9, 17, 33] });
    let mut s = String::new();
    use core::fmt::Write;
    let ok = match pick(if level == 3 { 1 } else { 4 }) {
        0 => write!(s, "{v}"),
        1 => write!(s, "{v:#}"),
        2 => to_writer_custom().compact().write(&v, &mut s),
        _ => to_writer_custom().pretty().indent_by("\t").leading_indent(" ").write(&v, &mut s),
    };
    check!(ok.is_ok());
    let (r, rest) = from_str(&s);
    let Ok(r) = r else { check!(false); return };
    let want = match &v.value { ValueDef::Primitive(Primitive::I128(n)) if *n >= 0 => Value::u128(*n as u128), _ => v };
    check!(same(&r, &want) && rest.is_empty());
    cover(1);
}
/// Long texts of one construct, with any one character put into them.
fn long_text(full: bool) -> String {
    const ONES: [(&str, &str, &str); 16] = [
        ("", "1", ""), ("-", "9", ""), ("+", "0", "7"), ("", "1_", "_"), ("\"", "a", "\""), ("\"", "\\n", "\""), ("\"", "é", "\""), ("<", "10", ">"), ("", "a", "(1)"), ("v\"", "b", "\"{}"),
        ("(", "1,", "2)"), ("{", "a:1,", "b:(2)}"), ("(", " ", ")"), ("Foo{x", "字", ":1}"), ("((", "true,", "false))"), ("{\"", "k ", "\":'c'}"),
    ];
    let (head, one, tail) = one_of(&ONES);
    let n = if full { one_of(&[19, 20, 38, 39, 64, 130, 300]) } else { one_of(&[20, 39, 130]) };
    let at = if full { place(n + 1) } else { one_of(&[0, n / 2, n]) };
    let c = any_ch();
    let mut s = head.to_string();
    for i in 0..=n {
        if i == at { s.push(c) }
        if i < n { s.push_str(one) }
    }
    s.push_str(tail);
    s
}
/// Numbers next to the limits, with any character of them replaced, and the last one.
fn limit_text() -> String {
    let mut s = one_of(&["340282366920938463463374607431768211455", "-170141183460469231731687303715884105728", "+0340282366920938463463374607431768211456", "-1_7014118346046923173168730371588410572_9"]).as_bytes().to_vec();
    let k = pick(s.len());
    *s.last_mut().unwrap() = one_of(&[b'0', b'5', b'6', b'8', b'9', b'_']);
    s[k] = ascii(1)[0];
    to_str(s)
}
/// Deep texts.
fn deep_text() -> String {
    let (open, close) = one_of(&[("(", ")"), ("{a:", "}"), ("A(", ")"), ("v\"x\" { b : ", ",c:1}"), ("(1,", ",2)")]);
    let n = one_of(&[48, 40, 17, 9, 5]);
    let missing = pick(2);
    let mut s = open.repeat(n);
    s.push(any_ch());
    s.push_str(&close.repeat(n - missing));
    s
}
fn big_text(level: u32) -> String { match level { 0 => long_text(false), 10 => long_text(true), 1 => limit_text(), _ => deep_text() } }
/// C02.
#[no_mangle]
pub extern "C" fn h_c02_big(level: u32) {
    let s = big_text(level);
    let (r, rest) = from_str(&s);
    check!(rest.len() <= s.len() && rest.as_ptr() as usize + rest.len() == s.as_ptr() as usize + s.len());
    match r {
        Ok(v) => {
            let (r2, rest2) = from_str(&s[..s.len() - rest.len()]);
            check!(rest2.is_empty());
            match r2 { Ok(v2) => check!(same(&v, &v2)), Err(_) => check!(false) }
            cover(1);
        }
        Err(e) => {
            check!(e.start_loc <= s.len());
            if let Some(end) = e.end_loc { check!(end >= e.start_loc) }
            cover(2);
        }
    }
}
/// C03.
#[no_mangle]
pub extern "C" fn h_c03_big(level: u32) {
    let s = big_text(level);
    let (r, rest) = from_str(&s);
    let cs: Vec<char> = s.chars().collect();
    match (r, value(&no_hook, &cs, 0)) {
        (Ok(v), Ok((w, n))) => {
            check!(same(&v, &w));
            check!(s.len() - rest.len() == cs[..n].iter().map(|c| c.len_utf8()).sum::<usize>());
            cover(1);
        }
        (Err(_), Err(_)) => cover(2),
        _ => check!(false),
    }
}
/// C05: long literals.
#[no_mangle]
pub extern "C" fn h_c05_big(_: u32) {
    let n = one_of(&SIZES);
    let at = place(2 * n);
    let c = ascii(1)[0];
    let mut s: Vec<u8> = b"0x".to_vec();
    for i in 0..2 * n { s.push(if i == at { c } else { b"09afAF37"[i % 8] }) }
    let s = to_str(s);
    let t = format!("{s})");
    let cur = &mut &t[..];
    let bad = s.as_bytes()[2..].iter().position(|c| !c.is_ascii_hexdigit());
    match parse_hex(cur) {
        Some(Ok(v)) => {
            let end = bad.unwrap_or(2 * n);
            check!(end == 2 * n || !c.is_ascii_alphanumeric());
            check!(end % 2 == 0 && cur.len() == t.len() - 2 - end);
            let ValueDef::Composite(Composite::Unnamed(vs)) = &v.value else { check!(false); return };
            let digit = |c: u8| (c as char).to_digit(16).unwrap_or(99) as u128;
            check!(vs.len() == end / 2 && vs.iter().zip(s.as_bytes()[2..].chunks(2)).all(|(v, c)| v.as_u128() == Some(digit(c[0]) * 16 + digit(c[1]))));
            if end > 0 {
                let mut o = String::new();
                check!(matches!(format_hex(&v, &mut o), Some(Ok(()))));
                check!(o.len() == 2 + end && o[2..].eq_ignore_ascii_case(&s[2..2 + end]) && o.starts_with("0x") && !o.as_bytes().iter().any(|c| matches!(c, b'a'..=b'f')));
            }
            cover(1);
        }
        Some(Err(e)) => {
            check!(cur.len() == t.len());
            let Some(k) = bad else { check!(false); return };
            if c.is_ascii_alphanumeric() { check!(e.start_loc == k + 2 && e.end_loc.is_none()) } else { check!(k % 2 == 1 && e.start_loc == 0 && e.end_loc == Some(k + 2)) }
            cover(2);
        }
        None => check!(false),
    }
    // in place
    let u = format!("({}{t}", "1, ".repeat(n));
    let (r, rest) = from_str_custom().add_custom_parser(parse_hex).parse(&u);
    if bad.is_none() { match r { Ok(Value { value: ValueDef::Composite(Composite::Unnamed(v)), .. }) => check!(v.len() == n + 1 && rest.is_empty()), _ => check!(false) } }
}
/// C10: `level` 0 sequences, arrays, tuples and bits of many entries; 1 structs and variants of many fields; 2 many layers.
fn big_pair(r: &mut Reg, level: u32) -> (Value<()>, u32) {
    let b = r.prim(P::U8);
    let number = |n: u8| Value::u128(n as u128);
    match level {
        0 => {
            let n = one_of(&SIZES);
            let at = place(n);
            let off = pick(3);
            let t = match pick(4) {
                0 => r.add(Ty::Seq(b)),
                1 => r.add(Ty::Arr(b, n + off - 1)),
                2 => r.add(Ty::Tup(vec![b; n + off - 1])),
                _ => { let (s, o) = (one_of(&STORES), one_of(&ORDERS)); r.add(Ty::Bits(s, o)) }
            };
            let x = byte();
            let item = |i: usize| if i == at { number(x) } else if i % 2 == 0 { number((i % 2) as u8) } else { number(1) };
            let v = match pick(2) { 0 => Value::unnamed_composite((0..n).map(item).collect::<Vec<_>>()), _ => Value::named_composite((0..n).map(|i| (LONG[i % 40], item(i))).collect::<Vec<_>>()) };
            (v, t)
        }
        1 => {
            let n = one_of(&[4, 5, 8, 9, 17, 40]);
            let at = place(n);
            let fs: Fields = { let k = pick(3); (0..n).map(|i| (match k { 0 => None, 1 => Some(LONG[i]), _ => Some(LONG[n - 1 - i]) }, b)).collect() };
            let x = byte();
            let mut vs: Vec<(String, Value<()>)> = (0..n).map(|i| (LONG[i].to_string(), number(if i == at { x } else { i as u8 }))).collect();
            match pick(6) {
                0 => {}
                1 => vs.rotate_left(n / 2),
                2 => vs.insert(at, ("extra".into(), Value::bool(true))),
                3 => { vs.remove(at); }
                4 => vs[at].0 = "other".into(),
                _ => vs.push(("last".into(), Value::string("x"))),
            }
            let c = if pick(2) == 0 { Composite::Named(vs) } else { Composite::Unnamed(vs.into_iter().map(|v| v.1).collect()) };
            if pick(2) == 0 { (comp(c, ()), r.add(Ty::Comp(fs))) } else {
                // among many variants
                let mut all: Vec<_> = (0..n).map(|i| (i as u8, LONG[i], vec![(None, b)])).collect();
                all.insert(n / 2, (200, "It", fs));
                (variant("It", c, ()), r.add(Ty::Var(all)))
            }
        }
        3 => {
            // fields in any order, one of them perhaps of another name, too many or too few
            let n = 2 + pick(4);
            let mut left: Vec<usize> = (0..n).collect();
            let mut vs: Vec<(String, Value<()>)> = vec![];
            while !left.is_empty() { let i = left.remove(pick(left.len())); vs.push((LONG[i].to_string(), number(byte()))); }
            let at = pick(n);
            match pick(4) {
                0 => {}
                1 => vs[at].0 = "other".into(),
                2 => { vs.remove(at); }
                _ => vs.insert(at, ("other".into(), number(3))),
            }
            let fs: Fields = (0..n).map(|i| (Some(LONG[i]), b)).collect();
            match pick(2) { 0 => (comp(Composite::Named(vs), ()), r.add(Ty::Comp(fs))), _ => (variant("It", Composite::Named(vs), ()), r.add(Ty::Var(vec![(3, "No", vec![]), (9, "It", fs)]))) }
        }
        _ => {
            let layers = |k: usize, r: &mut Reg, t: u32| (0..k).fold(t, |t, i| wrap_type(r, t, 1 + i % 3));
            let (k, m) = (pick(6), pick(6));
            let t = match pick(3) { 0 => b, 1 => r.add(Ty::Seq(b)), _ => r.add(Ty::Comp(vec![(Some("p"), b), (Some("q"), b)])) };
            let v = match pick(3) { 0 => number(byte()), 1 => Value::unnamed_composite([number(byte()), number(2)]), _ => Value::named_composite([("q", number(byte())), ("p", number(2))]) };
            let v = (0..m).fold(v, |v, i| if i % 2 == 0 { Value::unnamed_composite([v]) } else { Value::named_composite([("w", v)]) });
            (v, layers(k, r, t))
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c10_big(level: u32) {
    opaque_numbers();
    let mut r = Reg::new();
    let (v, id) = big_pair(&mut r, level);
    let mut out = vec![0x55; 9];
    let e = encode_as_type(&v, id, &r, &mut out);
    check!(out.len() >= 9 && out[..9] == [0x55; 9]);
    let all = encodings(&r, &v, id, Skip::Any, false);
    if e.is_ok() { check!(all.iter().any(|x| x[..] == out[9..])); cover(1) } else { check!(encodings(&r, &v, id, Skip::Sure, false).is_empty()); cover(2) }
}
/// C11: the same pairs, after any output.
#[no_mangle]
pub extern "C" fn h_c11_big(level: u32) {
    opaque_numbers();
    let mut r = Reg::new();
    let (v, id) = big_pair(&mut r, level);
    let mut alone = vec![];
    let a = encode_as_type(&v, id, &r, &mut alone);
    let n = one_of(&[0, 1, 64, 300]);
    let before: Vec<u8> = (0..n).map(|i| if i + 1 == n { byte() } else { i as u8 }).collect();
    let mut out = before.clone();
    let b = encode_as_type(&v, id, &r, &mut out);
    check!(a.is_ok() == b.is_ok());
    check!(out.len() >= n && out[..n] == before);
    if a.is_ok() { check!(out[n..] == alone[..]); cover(1) } else { if let ValueDef::Composite(_) = v.value { check!(out.len() == n) } cover(2) }
}
/// C09: `level` 0 long strings, and bytes for arrays; 1 numbers in many layers.
#[no_mangle]
pub extern "C" fn h_c09_big(level: u32) {
    opaque_numbers();
    let mut r = Reg::new();
    let (v, t, want) = if level == 0 {
        match pick(3) {
            0 => {
                let n = one_of(&[7, 15, 31, 63, 64, 65, 255, 256, 16383, 16384]);
                let at = place(n);
                let c = any_ch();
                let s: String = (0..n).map(|i| if i == at { c } else if n < 100 && i % 3 == 0 { 'é' } else { 'a' }).collect();
                let mut want = vec![];
                compact(s.len() as u128, &mut want);
                want.extend_from_slice(s.as_bytes());
                (Value::string(s), r.prim(P::Str), Some(want))
            }
            1 => {
                let b: [u8; 32] = bytes();
                let p = if pick(2) == 0 { Primitive::U256(b) } else { Primitive::I256(b) };
                let n = one_of(&[0, 1, 31, 32, 33, 64]);
                let t = r.prim(P::U8);
                (prim(p, ()), r.add(Ty::Arr(t, n)), (n == 32).then(|| b.to_vec()))
            }
            _ => {
                let n = one_of(&[8, 63, 64, 65, 300]);
                let at = place(n);
                let b: Vec<bool> = (0..n).map(|i| if i == at { bit() } else { i % 5 < 2 }).collect();
                let (s, o) = (one_of(&STORES), one_of(&ORDERS));
                let mut want = vec![];
                bits(&b, s, o, &mut want);
                (Value::bit_sequence(to_bits(&b)), r.add(Ty::Bits(s, o)), Some(want))
            }
        }
    } else {
        let p = one_of(&[P::U8, P::I16, P::U32, P::I64, P::U128]);
        let (w, signed) = int_of(p).unwrap();
        let neg = pick(2) == 1;
        let n = u128();
        let mut t = r.prim(p);
        let mut want = vec![];
        let compacted = !signed && pick(2) == 1;
        let m = n as i128;
        let s = 128 - 8 * w as u32;
        let fits = if signed { if neg { (m << s) >> s == m } else { m >= 0 && (m << s) >> s == m } } else { !(neg && m < 0) && (n << s) >> s == n };
        if compacted {
            if fits { compact(n, &mut want) }
        } else { want.extend_from_slice(&n.to_le_bytes()[..w]) }
        let (inner, outer, around) = (if compacted { one_of(&[0, 5]) } else { 0 }, one_of(&[0, 4, 7, 15]), one_of(&[0, 4, 7, 15]));
        for i in 0..inner { t = if i % 2 == 0 { r.add(Ty::Comp(vec![(Some("a"), t)])) } else { r.add(Ty::Tup(vec![t])) } }
        if compacted { t = r.add(Ty::Compact(t)) }
        for i in 0..outer { t = if i % 2 == 0 { r.add(Ty::Tup(vec![t])) } else { r.add(Ty::Comp(vec![(Some("zz"), t)])) } }
        let mut v = if neg { prim(Primitive::I128(m), ()) } else { prim(Primitive::U128(n), ()) };
        for i in 0..around { v = if i % 2 == 0 { Value::unnamed_composite([v]) } else { Value::named_composite([("q", v)]) } }
        (v, t, fits.then_some(want))
    };
    let mut out = vec![7];
    let e = encode_as_type(&v, t, &r, &mut out);
    match want { Some(w) => { check!(e.is_ok() && out[0] == 7 && out[1..] == w[..]); cover(1) } None => { check!(e.is_err()); cover(2) } }
}
/// C07: 256-bit numbers with something after them.
#[no_mangle]
pub extern "C" fn h_c07_u256(_: u32) {
    let mut r = Reg::new();
    let p = one_of(&[P::U256, P::I256]);
    let t = r.prim(p);
    let b = r.prim(P::Bool);
    let id = match pick(4) { 0 => t, 1 => r.add(Ty::Tup(vec![t, b])), 2 => r.add(Ty::Arr(t, 2)), _ => r.add(Ty::Comp(vec![(Some("a"), t), (Some("b"), b)])) };
    let mut enc = vec![];
    let want = any_of_type(&r, id, Lim { seq: 1, str: 1, bits: 1 }, &mut enc);
    if id == t { enc.push(0xAA) }
    cover(1);
    match decode_as_type(&mut &enc[..], id, &r) { Ok(v) => assume(same(&v, &want)), Err(_) => check!(false) }
}
