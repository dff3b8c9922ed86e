use crate::{sym::*, ty::*, val::*};
use scale_value::scale::{decode_as_fields, decode_as_type, encode_as_type, tracing};
use scale_value::{stringify::{custom_formatters::format_hex, to_writer_custom}, Value};
use scale_type_resolver::Primitive as P;

const LIM: Lim = Lim { seq: 2, str: 2, bits: 9 };
fn lim(level: u32) -> Lim {
    match level { 0 => LIM, 1 => Lim { seq: 2, str: 1, bits: 3 }, _ => Lim { seq: 2, str: 1, bits: 1 } }
}

/// C07: encoding -> value -> encoding, with trailing bytes left alone.
#[no_mangle]
pub extern "C" fn h_c07(level: u32) {
    let mut r = Reg::new();
    let id = any_type(&mut r, level);
    let mut enc = Vec::new();
    let want = any_of_type(&r, id, lim(level), &mut enc);
    let n = enc.len();
    let mut all = enc.clone();
    all.extend_from_slice(&[0xAA, 0x55]);
    let cur = &mut &all[..];
    let got = decode_as_type(cur, id, &r);
    let Ok(got) = got else { check!(false); return };
    check!(same(&got, &want));
    check!(cur.len() == 2 && cur.as_ptr() == all[n..].as_ptr());
    let mut out = Vec::new();
    let e = encode_as_type(&got, id, &r, &mut out);
    check!(e.is_ok());
    check!(out == enc);
    cover(1);
    observe(&out);
}

/// A type and a number of bytes to decode, by level.
fn type_and_len(r: &mut Reg, level: u32) -> (u32, usize) {
    let (k, n) = (level / 10, level as usize % 10);
    let id = match k { 0..=3 => any_type(r, k), 4 => any_recursive(r), _ => any_text(r) };
    (id, n)
}
/// Text, characters and bits in containers.
fn any_text(r: &mut Reg) -> u32 {
    let t = match pick(4) { 0 | 1 => r.prim(P::Str), 2 => r.prim(P::Char), _ => r.add(Ty::Bits(STORES[1], ORDERS[1])) };
    let b = r.prim(P::Bool);
    match pick(6) {
        0 => r.add(Ty::Seq(t)),
        1 => r.add(Ty::Arr(t, 2)),
        2 => r.add(Ty::Tup(vec![b, t])),
        3 => r.add(Ty::Comp(vec![(None, t), (None, b)])),
        4 => r.add(Ty::Comp(vec![(Some("a"), b), (Some("b"), t)])),
        _ => r.add(Ty::Var(vec![(0, "A", vec![(None, t)]), (5, "B", vec![(Some("z"), t)])])),
    }
}
/// No sequence of elements that take no bytes.
fn sized(r: &Reg) -> bool { r.0.iter().all(|t| !matches!(t, Ty::Seq(t) if min_size(r, *t) == 0)) }

/// C08: any bytes against any type. `level` = 10 * kind of type + number of bytes.
#[no_mangle]
pub extern "C" fn h_c08(level: u32) {
    let mut r = Reg::new();
    let (id, n) = type_and_len(&mut r, level);
    assume(sized(&r));
    let data = vec(pick(n + 1));
    // the values of n bytes, a vector grown by doubling, and what encloses them
    alloc_limit(1024 + 512 * data.len());
    let cur = &mut &data[..];
    let got = match pick(3) {
        0 => decode_as_type(cur, id, &r).ok(),
        1 => {
            let got = tracing::decode_as_type(cur, id, &r);
            got.ok()
        }
        _ => {
            let (one, whole) = match r.get(id) { Ty::Comp(fs) => (fs.clone(), true), _ => (vec![(None, id)], false) };
            let fs = field_vec(&one);
            match decode_as_fields(cur, &mut fs.iter().cloned(), &r) {
                Ok(c) => if whole { Some(comp(c, id)) } else { items(&c).first().map(|v| (*v).clone()) },
                Err(_) => None,
            }
        }
    };
    let k = data.len() - cur.len();
    check!(cur.len() <= data.len() && cur.as_ptr() as usize == data.as_ptr() as usize + k);
    let Some(v) = got else { cover(2); return };
    let c2 = &mut &data[..k];
    let Ok(again) = decode_as_type(c2, id, &r) else { check!(false); return };
    check!(c2.is_empty());
    check!(same(&v, &again) && same_ctx(&v, &again));
    cover(1);
}

/// A container of leaves whose values print in few ways, for locating failures.
fn any_printable(r: &mut Reg, depth: u32) -> u32 {
    fn leaf(r: &mut Reg, i: usize) -> u32 {
        if i > 0 { return r.prim(P::Bool) }
        match pick(5) {
            0 => r.prim(P::Bool),
            1 => r.prim(P::U8),
            2 => r.prim(P::Str),
            3 => { let i = r.prim(P::U8); let i = if pick(2) == 0 { i } else { r.add(Ty::Comp(vec![(Some("w"), i)])) }; r.add(Ty::Compact(i)) }
            _ => r.prim(P::Char),
        }
    }
    match depth {
        0 => leaf(r, 0),
        1 => any_container(r, 2, &mut |r, i| leaf(r, i)),
        2 => { let mut one = One::new(); any_container(r, 2, &mut |r, i| if one.here(i) { any_container(r, 2, &mut |r, _| r.prim(P::Bool)) } else { r.prim(P::Bool) }) }
        _ => any_container(r, 1, &mut |r, _| any_container(r, 1, &mut |r, _| any_container(r, 2, &mut |r, _| r.prim(P::Bool)))),
    }
}
/// C12: the two decoders agree, and the error says where and with what so far.
/// `level`: below 100 as in C08; from 100 on, failures in types whose values print in few ways.
#[no_mangle]
pub extern "C" fn h_c12(level: u32) {
    let mut r = Reg::new();
    let (id, n) = if level < 100 { type_and_len(&mut r, level) } else { (any_printable(&mut r, (level - 100) / 10), level as usize % 10) };
    assume(sized(&r));
    let data = vec(pick(n + 1));
    let (a, b) = (&mut &data[..], &mut &data[..]);
    let plain = decode_as_type(a, id, &r);
    let traced = tracing::decode_as_type(b, id, &r);
    match (plain, traced) {
        (Ok(p), Ok(t)) => {
            check!(same(&p, &t) && same_ctx(&p, &t));
            check!(a.len() == b.len());
            cover(1);
        }
        (Err(p), Err(t)) => {
            if level < 100 { cover(2); return }
            let got = t.to_string();
            let want = match decode(&r, id, false, &mut &data[..]) {
                Ok(_) => { check!(false); return }
                Err(None) => { cover(3); format!("Error decoding value: {p}") }
                Err(Some((path, so_far))) => {
                    let mut s = format!("Error decoding value at {path}: {p}\nDecoded so far:\n\n");
                    let ok = to_writer_custom().pretty()
                        .format_context(|id: &u32, w: &mut &mut String| { use core::fmt::Write; write!(w, "{id:?}") })
                        .add_custom_formatter(|v: &Value<u32>, w: &mut &mut String| format_hex(v, w))
                        .write(&so_far, &mut s);
                    check!(ok.is_ok());
                    cover(4);
                    s
                }
            };
            check!(got == want);
            observe(got.as_bytes());
        }
        _ => check!(false),
    }
}
