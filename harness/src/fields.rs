use crate::{encode::*, sym::*, ty::*, val::*};
use scale_decode::{DecodeAsFields, IntoVisitor};
use scale_encode::EncodeAsFields;
use scale_type_resolver::Primitive as P;
use scale_value::scale::{decode_as_fields, decode_as_type, encode_as_type, tracing};
use scale_value::{Composite, Value, ValueDef};

const LIM: Lim = Lim { seq: 2, str: 1, bits: 3 };

fn field_list(r: &mut Reg, level: u32) -> Fields {
    match level {
        0 => any_fields(r, 2, &mut |r, i| if i == 0 { any_leaf(r) } else { few_leaf(r) }),
        1 => any_fields(r, 2, &mut |r, i| if i == 0 { any_container(r, 2, &mut |r, j| if j == 0 { few_leaf(r) } else { r.prim(P::U8) }) } else { few_leaf(r) }),
        _ => any_fields(r, 3, &mut |r, _| few_leaf(r)),
    }
}
/// C13: decoding by field list. `level`: below 10 every encoding for the field lists of that level (followed by more bytes);
/// otherwise 10 * level of field list + 10 and the number of arbitrary bytes.
#[no_mangle]
pub extern "C" fn h_c13(level: u32) {
    let mut r = Reg::new();
    let fs = field_list(&mut r, if level < 10 { level } else { level / 10 - 1 });
    let id = r.add(Ty::Comp(fs.clone()));
    let mut data = vec![];
    let want = if level < 10 {
        let w = any_fields_of(&r, &fs, LIM, &mut data);
        data.push(0xAA);
        Some(w)
    } else {
        let z = |r: &Reg| r.0.iter().all(|t| !matches!(t, Ty::Seq(t) if min_size(r, *t) == 0));
        assume(z(&r));
        data = vec(pick(level as usize % 10 + 1));
        None
    };
    let list = field_vec(&fs);
    let (s, a, b, c) = (&mut &data[..], &mut &data[..], &mut &data[..], &mut &data[..]);
    let st = decode_as_type(s, id, &r);
    let x = decode_as_fields(a, &mut list.iter().cloned(), &r);
    let y = Composite::<()>::decode_as_fields(b, &mut list.iter().cloned(), &r);
    let z = Value::<()>::decode_as_fields(c, &mut list.iter().cloned(), &r);
    match st {
        Ok(st) => {
            let (Ok(x), Ok(y), Ok(z)) = (x, y, z) else { check!(false); return };
            if let Some(w) = &want { check!(same_comp(&x, w)) }
            let x = comp(x, id);
            check!(same(&x, &st) && same_ctx(&x, &st));
            check!(same(&comp(y, ()), &st) && same(&z, &st));
            check!(a.len() == s.len() && b.len() == s.len() && c.len() == s.len());
            check!(want.is_none() || s.len() == 1);
            cover(1);
        }
        Err(_) => {
            check!(want.is_none());
            check!(x.is_err() && y.is_err() && z.is_err());
            cover(2);
        }
    }
}
/// C13: encoding by field list. `level` = 100 * arity + 10 * depth of the field types + depth of the value.
#[no_mangle]
pub extern "C" fn h_c13_encode(level: u32) {
    opaque_numbers();
    let mut r = Reg::new();
    let max = (level / 100) as usize;
    let d = level / 10 % 10;
    let fs = small_fields(&mut r, max, &mut |r, i| if i == 0 { small_type(r, d, max) } else { r.prim(P::U8) });
    let id = r.add(Ty::Comp(fs.clone()));
    let v = small_value(level % 10, max);
    let list = field_vec(&fs);
    let (mut a, mut b) = (vec![0x77], vec![]);
    let e = v.encode_as_fields_to(&mut list.iter().cloned(), &r, &mut a);
    check!(a.len() >= 1 && a[0] == 0x77);
    let ValueDef::Composite(c) = &v.value else { check!(e.is_err() && a.len() == 1); cover(3); return };
    let mut a2 = vec![];
    let e2 = c.encode_as_fields_to(&mut list.iter().cloned(), &r, &mut a2);
    check!(e.is_ok() == e2.is_ok() && a[1..] == a2[..]);
    let s = encode_as_type(&v, id, &r, &mut b);
    let exact = encodings(&r, &v, id, Skip::No, false);
    if e.is_ok() {
        if s.is_ok() { check!(a2 == b) } else { check!(encodings(&r, &v, id, Skip::Sure, false).is_empty()) }
        if let Some(x) = exact.first() { check!(*x == a2) }
        cover(1);
        observe(&a2);
    } else {
        check!(exact.is_empty());
        cover(2);
    }
}
/// C14: the type ids of all nodes, for every decoder, and values without them.
#[no_mangle]
pub extern "C" fn h_c14(level: u32) {
    let mut r = Reg::new();
    let id = any_type(&mut r, level);
    let mut enc = vec![];
    let want = any_of_type(&r, id, LIM, &mut enc);
    let Ok(a) = decode_as_type(&mut &enc[..], id, &r) else { check!(false); return };
    check!(same_ctx(&a, &want) && same(&a, &want));
    let Ok(b) = tracing::decode_as_type(&mut &enc[..], id, &r) else { check!(false); return };
    check!(same_ctx(&b, &want) && same(&b, &want));
    let Ok(c) = scale_decode::visitor::decode_with_visitor(&mut &enc[..], id, &r, Value::<()>::into_visitor::<Reg>()) else { check!(false); return };
    check!(same(&c, &want));
    check!(same(&a.clone().remove_context(), &c));
    check!(a.remove_context() == c);
    cover(1);
}
