use crate::{sym::*, text::*, val::*};
use scale_value::stringify::{custom_formatters::format_hex, custom_parsers::{parse_hex, parse_ss58}, from_str_custom, to_writer_custom, ParseError, ParseErrorKind};
use scale_value::{Composite, Primitive, Value, ValueDef};

/// What a made-up custom parser does at a text it recognises.
#[derive(Clone, Copy)]
struct Plan { mark: char, act: usize, take: usize, tag: u128 }
/// One that recognises texts starting with `mark` and, when the plan says so, leaves its cursor moved though declining.
fn plan(mark: char, tag: u128) -> Plan { Plan { mark, act: pick(4), take: 1 + pick(2), tag } }
fn bytes_of(cs: &[char]) -> usize { cs.iter().map(|c| c.len_utf8()).sum() }
fn run(p: Plan, s: &mut &str) -> Option<Result<Value<()>, ParseError>> {
    if !s.starts_with(p.mark) { return None }
    let n: usize = s.chars().take(p.take).map(|c| c.len_utf8()).sum();
    match p.act {
        0 => { *s = &s[n..]; None }
        1 => Some(Err(ParseError::new_at(ParseErrorKind::custom("E"), n))),
        2 => Some(Err(ParseError::new_between(ParseErrorKind::custom("E"), 0, n))),
        _ => { *s = &s[n..]; Some(Ok(Value::u128(p.tag))) }
    }
}
fn hook(p: Plan, s: &[char], i: usize) -> Option<Result<(Value<()>, usize), Fail>> {
    if s.get(i) != Some(&p.mark) { return None }
    let end = (i + p.take).min(s.len());
    let (b, e) = (bytes_of(&s[..i]), bytes_of(&s[..end]));
    match p.act {
        0 => None,
        1 => Some(Err(Some((e, None)))),
        2 => Some(Err(Some((b, Some(e))))),
        _ => Some(Ok((Value::u128(p.tag), end))),
    }
}
const MARKED: [&str; 9] = [
    "#", "#é", "(#, 字é)", "{a: #→, bb:'é'}", "A(#,{x:(é#x)})", "A{#:1}", "(\"#\",%字#,1)", "{\"é\":(%#)}", "(1,2,%x,é)",
];
/// C04: custom parsers.
#[no_mangle]
pub extern "C" fn h_c04(level: u32) {
    let s = match level {
        0 => one_of(&MARKED).to_string(),
        1 => {
            // any one character of a text replaced, or the text cut there
            let cs: Vec<char> = one_of(&MARKED).chars().collect();
            let k = pick(cs.len());
            let c = any_ch();
            let mut s: String = cs[..k].iter().collect();
            s.push(c);
            if pick(2) == 0 { s.extend(cs[k + 1..].iter()) }
            s
        }
        // far into a long text
        7 => {
            let n = one_of(&[40, 63, 85, 86, 130]);
            let (open, one, close) = one_of(&[("(", "1, ", ")"), ("(", "'é',", ")"), ("{", "é:2,\n", "}"), ("A(B{", "ab : (),", "})"), ("(\"", "x字", "\",")]);
            let mut s = open.to_string();
            for _ in 0..n { s.push_str(one) }
            if open.ends_with('{') { s.push_str("z:") }
            if open.ends_with('"') { s.push_str(close) }
            s.push('#');
            for _ in 0..one_of(&[0, 1, 90, 150]) { s.push_str("é1") }
            s.push_str(close);
            s
        }
        n => {
            // any short text
            let mut s = any_text(n as usize - 1, false);
            s.push_str("é)");
            s
        }
    };
    let (p, q) = if level == 7 { (Plan { mark: '#', act: pick(4), take: one_of(&[1, 2, 180, 301]), tag: 1 }, Plan { mark: '#', act: one_of(&[1, 3]), take: 1, tag: 2 }) } else if level == 0 { (plan('#', 1), plan(one_of(&['#', '%', 'é']), 2)) } else { (Plan { mark: '#', act: one_of(&[0, 3]), take: 2, tag: 1 }, Plan { mark: one_of(&['#', '%']), act: one_of(&[2, 3]), take: 1, tag: 2 }) };
    let (r, rest) = from_str_custom().add_custom_parser(move |s| run(p, s)).add_custom_parser(move |s| run(q, s)).parse(&s);
    let cs: Vec<char> = s.chars().collect();
    let h = |s: &[char], i: usize| hook(p, s, i).or_else(|| hook(q, s, i));
    match (r, value(&h, &cs, 0)) {
        (Ok(v), Ok((w, n))) => {
            check!(same(&v, &w));
            check!(rest.len() == bytes_of(&cs[n..]));
            cover(1);
        }
        (Err(e), Err(Some((start, end)))) => {
            check!(e.err == ParseErrorKind::Custom("E".to_string()));
            check!(e.start_loc == start && e.end_loc == end);
            cover(2);
        }
        (Err(e), Err(None)) => { check!(e.err != ParseErrorKind::Custom("E".to_string())); cover(3) }
        _ => check!(false),
    }
    check!(s.ends_with(rest));
    observe(rest.as_bytes());
}

/// What a made-up formatter does: it takes numbers equal to `n`, or values of one shape.
#[derive(Clone, Copy)]
struct Fmt { what: usize, n: u128, text: &'static str }
fn takes(f: Fmt, v: &Value<()>) -> bool {
    match (f.what, &v.value) {
        (0, ValueDef::Primitive(Primitive::U128(n))) => *n == f.n,
        (1, ValueDef::Composite(Composite::Named(_))) => true,
        (2, ValueDef::Variant(_)) => true,
        (3, ValueDef::Composite(Composite::Unnamed(x))) => x.len() == 2,
        (4, ValueDef::Primitive(_)) => true,
        (5, ValueDef::BitSequence(_)) => true,
        (6, _) => true,
        _ => false,
    }
}
const HOLES: [&str; 2] = ["777001", "777002"];
/// The value with everything the formatters take replaced by numbers standing for their texts.
fn holes(fs: &[Fmt; 2], v: &Value<()>) -> Value<()> {
    for i in 0..2 { if takes(fs[i], v) { return Value::u128(777001 + i as u128) } }
    let c = |c: &Composite<()>| match c {
        Composite::Named(v) => Composite::Named(v.iter().map(|(n, v)| (n.clone(), holes(fs, v))).collect()),
        Composite::Unnamed(v) => Composite::Unnamed(v.iter().map(|v| holes(fs, v)).collect()),
    };
    match &v.value {
        ValueDef::Composite(x) => comp(c(x), ()),
        ValueDef::Variant(x) => variant(&x.name, c(&x.values), ()),
        _ => v.clone(),
    }
}
fn tree(depth: usize) -> Value<()> {
    let k = if depth == 0 { pick(3) } else { pick(7) };
    match k {
        0 => Value::u128(byte() as u128 & 3),
        1 => Value::bool(true),
        2 => Value::bit_sequence(to_bits(&[true, false])),
        3 => { let a = tree(depth - 1); comp(Composite::Unnamed(vec![a, Value::u128(1)]), ()) }
        4 => { let a = tree(depth - 1); comp(Composite::Named(vec![("a".into(), Value::u128(2)), ("b".into(), a)]), ()) }
        5 => { let a = tree(depth - 1); variant("V", Composite::Unnamed(vec![a]), ()) }
        _ => { let a = tree(depth - 1); variant("W", Composite::Named(vec![("c".into(), a)]), ()) }
    }
}
fn big_tree(level: u32) -> Value<()> {
    let n = one_of(if level == 0 { &[40] } else { &[5, 9, 20] });
    if level == 0 {
        let at = crate::big::place(n);
        let one = |i: usize| if i == at { tree(1) } else if i % 3 == 0 { Value::u128(1) } else { Value::bool(true) };
        match pick(4) {
            0 => comp(Composite::Unnamed((0..n).map(one).collect()), ()),
            1 => comp(Composite::Named((0..n).map(|i| (crate::big::LONG[i % 40].to_string(), one(i))).collect()), ()),
            2 => variant("V", Composite::Unnamed((0..n).map(one).collect()), ()),
            _ => variant("V", Composite::Named((0..n).map(|i| (crate::big::LONG[i % 40].to_string(), one(i))).collect()), ()),
        }
    } else {
        let k = pick(4);
        (0..n).fold(tree(0), |v, i| match if k == 3 { i % 3 } else { k } {
            0 => comp(Composite::Unnamed(vec![Value::u128(1), v]), ()),
            1 => comp(Composite::Named(vec![("a".into(), v), ("b".into(), Value::u128(2))]), ()),
            _ => variant("W", Composite::Named(vec![("c".into(), v)]), ()),
        })
    }
}
/// C04: custom formatters.
#[no_mangle]
pub extern "C" fn h_c04_fmt(depth: u32) {
    let v = if depth < 10 { tree(depth as usize) } else { big_tree(depth - 10) };
    let fs = [Fmt { what: pick(6), n: 1, text: "<<é>>" }, Fmt { what: pick(7), n: byte() as u128 & 3, text: "" }];
    let (f, g) = (fs[0], fs[1]);
    let mut s = String::new();
    let mut t = String::new();
    macro_rules! put { ($b:expr, $w:ident, $v:expr) => { $b.write($v, &mut $w) } }
    let custom = || to_writer_custom::<(), &mut String>()
        .add_custom_formatter(move |v, w: &mut &mut String| if takes(f, v) { w.push_str(f.text); Some(Ok(())) } else { None })
        .add_custom_formatter(move |v, w: &mut &mut String| if takes(g, v) { w.push_str(g.text); Some(Ok(())) } else { None });
    let h = holes(&fs, &v);
    let (a, b) = match pick(3) {
        0 => (put!(custom(), s, &v), put!(to_writer_custom(), t, &h)),
        1 => (put!(custom().compact(), s, &v), put!(to_writer_custom().compact(), t, &h)),
        _ => (put!(custom().pretty(), s, &v), put!(to_writer_custom().pretty(), t, &h)),
    };
    check!(a.is_ok() && b.is_ok());
    let want = t.replace(HOLES[0], f.text).replace(HOLES[1], g.text);
    check!(s == want);
    // a formatter that fails makes the whole fail, one that declines changes nothing
    let mut u = String::new();
    let failed = to_writer_custom::<(), &mut String>().add_custom_formatter(move |v, _| if takes(f, v) { Some(Err(core::fmt::Error)) } else { None }).write(&v, &mut u);
    fn any(f: Fmt, v: &Value<()>) -> bool {
        takes(f, v) || match &v.value { ValueDef::Composite(c) => items(c).iter().any(|v| any(f, v)), ValueDef::Variant(x) => items(&x.values).iter().any(|v| any(f, v)), _ => false }
    }
    check!(failed.is_err() == any(f, &v));
    if failed.is_ok() { check!(u == v.to_string()); cover(2) }
    cover(1);
    observe(s.as_bytes());
}

fn nibble(b: u8) -> Option<u8> {
    Some(match b { b'0'..=b'9' => b - b'0', b'a'..=b'f' => b - b'a' + 10, b'A'..=b'F' => b - b'A' + 10, _ => return None })
}
/// C05: the hex parser.
#[no_mangle]
pub extern "C" fn h_c05(level: u32) {
    let t = match level {
        0..=9 => any_text(level as usize, false),
        10..=19 => { let mut s = "0x".to_string(); s.push_str(&any_text(level as usize - 10, true)); s }
        20..=29 => { let mut s = "0x".to_string(); s.push_str(&any_text(level as usize - 20, false)); s }
        _ => {
            // a long literal with a character replaced
            let mut s = b"0x00119aFf7fe0Ab12cD".to_vec();
            let k = pick(s.len());
            s[k] = ascii(1)[0];
            s.truncate(s.len() - pick(2));
            to_str(s)
        }
    };
    let cur = &mut &t[..];
    let r = parse_hex(cur);
    let b = t.as_bytes();
    if b.len() < 2 || b[0] != b'0' || b[1] != b'x' {
        check!(r.is_none());
        check!(cur.len() == t.len());
        cover(1);
        return;
    }
    let mut end = 2;
    let mut bad = None;
    let mut want = vec![];
    while end < b.len() && b[end].is_ascii_alphanumeric() {
        match nibble(b[end]) { Some(n) => want.push(n), None => { bad = Some(end); break } }
        end += 1;
    }
    let Some(r) = r else { check!(false); return };
    match r {
        Ok(v) => {
            check!(bad.is_none() && want.len() % 2 == 0);
            let w = Value::unnamed_composite(want.chunks(2).map(|c| Value::u128((c[0] * 16 + c[1]) as u128)).collect::<Vec<_>>());
            check!(same(&v, &w));
            check!(cur.len() == t.len() - end && cur.as_ptr() as usize == t.as_ptr() as usize + end);
            cover(2);
        }
        Err(e) => {
            check!(cur.len() == t.len());
            match bad {
                Some(k) => { check!(e.start_loc == k && e.end_loc.is_none()); cover(3) }
                None => { check!(want.len() % 2 == 1 && e.start_loc == 0 && e.end_loc == Some(end)); cover(4) }
            }
            check!(matches!(e.err, ParseErrorKind::Custom(_)));
        }
    }
    // inside a larger text
    let s = format!("(1,{t}");
    let (r, rest) = from_str_custom().add_custom_parser(parse_hex).parse(&s);
    if bad.is_some() || want.len() % 2 == 1 {
        let Err(e) = r else { check!(false); return };
        match bad { Some(k) => check!(e.start_loc == k + 3 && e.end_loc.is_none()), None => check!(e.start_loc == 3 && e.end_loc == Some(end + 3)) }
    } else if b.get(end) == Some(&b')') {
        let Ok(v) = r else { check!(false); return };
        let w = Value::unnamed_composite(want.chunks(2).map(|c| Value::u128((c[0] * 16 + c[1]) as u128)).collect::<Vec<_>>());
        check!(same(&v, &Value::unnamed_composite([Value::u128(1), w])));
        check!(rest.len() == b.len() - end - 1);
        cover(5);
    }
    observe(rest.as_bytes());
}
/// C05: the hex formatter.
#[no_mangle]
pub extern "C" fn h_c05_fmt(max: u32) {
    let n = pick(max as usize + 1);
    let mut vs = vec![];
    let mut bytes = vec![];
    let mut ok = n > 0;
    for i in 0..n {
        let b = byte();
        bytes.push(b);
        let k = if i + 1 == n { pick(7) } else { 0 };
        vs.push(match k {
            0 => Value::u128(b as u128),
            1 => { let x = u128(); ok &= x < 256; bytes[i] = x as u8; Value::u128(x) }
            _ => {
                ok = false;
                match k {
                    2 => Value::i128(b as i128),
                    3 => Value::char(b as char),
                    4 => Value::unnamed_composite([Value::u128(b as u128)]),
                    5 => prim(Primitive::U256([b; 32]), ()),
                    _ => Value::bool(true),
                }
            }
        });
    }
    let shape = pick(4);
    let v: Value<()> = match shape {
        0 => Value::unnamed_composite(vs),
        1 => { ok = false; Value::named_composite(vs.into_iter().map(|v| ("a", v)).collect::<Vec<_>>()) }
        2 => { ok = false; Value::unnamed_variant("V", vs) }
        _ => { ok = false; vs.pop().unwrap_or(Value::u128(1)) }
    };
    if shape == 3 {
        // the element itself, unless it is a composite
        if let ValueDef::Composite(Composite::Unnamed(_)) = &v.value { ok = true; bytes = vec![bytes[n - 1]] }
    }
    let mut s = String::new();
    let r = format_hex(&v, &mut s);
    check!(r.is_some() == ok);
    if !ok { check!(s.is_empty()); cover(1); return }
    check!(matches!(r, Some(Ok(()))));
    let mut want = "0x".to_string();
    for b in &bytes { for d in [b >> 4, b & 15] { want.push(if d < 10 { (b'0' + d) as char } else { (b'A' + d - 10) as char }) } }
    check!(s == want);
    let cur = &mut &s[..];
    match parse_hex(cur) { Some(Ok(p)) => check!(same(&p, &v)), _ => check!(false) }
    check!(cur.is_empty());
    // as a custom formatter and parser, nested
    let big = Value::named_composite([("f", v), ("g", Value::u128(9))]);
    let mut s = String::new();
    check!(to_writer_custom().add_custom_formatter(|v, w: &mut &mut String| format_hex(v, w)).write(&big, &mut s).is_ok());
    let (r, rest) = from_str_custom().add_custom_parser(parse_hex).parse(&s);
    match r { Ok(r) => check!(same(&r, &big)), _ => check!(false) }
    check!(rest.is_empty());
    cover(2);
    observe(s.as_bytes());
}

const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
/// Reference base58: the bytes, or none if a character is not in the alphabet.
fn unbase58(s: &[u8]) -> Option<Vec<u8>> {
    let mut out: Vec<u8> = vec![]; // big endian, without leading zeros
    let mut zeros = 0;
    let mut lead = true;
    for c in s {
        let mut carry = B58.iter().position(|b| b == c)? as u32;
        if lead && carry == 0 { zeros += 1 } else { lead = false }
        for b in out.iter_mut().rev() {
            carry += *b as u32 * 58;
            *b = carry as u8;
            carry >>= 8;
        }
        if carry > 0 { out.insert(0, carry as u8) }
    }
    let mut r = vec![0; zeros];
    r.extend(out);
    Some(r)
}
fn base58(b: &[u8]) -> String {
    let mut digits: Vec<u8> = vec![]; // little endian
    for x in b {
        let mut carry = *x as u32;
        for d in digits.iter_mut() {
            carry += (*d as u32) << 8;
            *d = (carry % 58) as u8;
            carry /= 58;
        }
        while carry > 0 { digits.push((carry % 58) as u8); carry /= 58 }
    }
    let mut s: String = b.iter().take_while(|x| **x == 0).map(|_| '1').collect();
    s.extend(digits.iter().rev().map(|d| B58[*d as usize] as char));
    s
}
fn hash(b: &[u8]) -> [u8; 2] {
    use blake2::{Blake2b512, Digest};
    let mut h = Blake2b512::new();
    h.update(b"SS58PRE");
    h.update(b);
    let r = h.finalize();
    [r[0], r[1]]
}
/// The address the text starts with, if any, and its length.
fn address(t: &str) -> Option<(Vec<u8>, usize)> {
    let b = t.as_bytes();
    let n = b.iter().take_while(|c| c.is_ascii_alphanumeric()).count();
    let run = &b[..n];
    if n == 0 || run == b"true" || run == b"false" || run.iter().all(|c| c.is_ascii_digit()) { return None }
    let next = t[n..].chars().find(|c| !c.is_whitespace());
    if next == Some('(') || next == Some('{') { return None }
    let d = unbase58(run)?;
    let p = match *d.first()? { 0..=63 => 1, 64..=127 => 2, _ => return None };
    if d.len() < p + 2 { return None }
    let k = d.len() - 2;
    if d[k..] != hash(&d[..k]) { return None }
    Some((d[p..k].to_vec(), n))
}
const PREFIXES: [&[u8]; 8] = [&[0], &[42], &[63], &[64, 0], &[127, 255], &[85, 7], &[128], &[255]];
const TAILS: [&str; 9] = ["", " ", ")", ",é", " (", "\t\n{", "\u{2003}(", "é(", "},x"];
/// C06: the ss58 parser.
#[no_mangle]
pub extern "C" fn h_c06(level: u32) {
    let t = match level {
        // well-formed addresses of all lengths and prefixes, some with a wrong checksum, then something else
        0 => {
            let mut d = one_of(&PREFIXES).to_vec();
            let n = one_of(&[0usize, 1, 2, 4, 8, 20, 32, 33]);
            for i in 0..n { d.push((i * 37 + 11) as u8) }
            let mut h = hash(&d);
            match pick(4) { 0 => h[0] ^= 1, 1 => h[1] ^= 0x80, 2 => h.swap(0, 1), _ => {} }
            d.extend(h);
            let mut s = base58(&d);
            s.push_str(one_of(&TAILS));
            s
        }
        // an address and any two characters
        1 => {
            let mut s = one_of(&["5GrwvaEF5zXb26Fz9rcQpDWS57CtERHpNehXCPcNoHGKutQY", "F7Hs", "25GUyv", "111", "true", "false", "1234"]).to_string();
            let v = ascii(2);
            // the hash cannot be decided over two symbolic characters at once
            assume(!(v[0].is_ascii_alphanumeric() & v[1].is_ascii_alphanumeric()));
            s.push_str(&to_str(v));
            s
        }
        // any one character of an address replaced
        2 | 3 => {
            let mut s = one_of(&["F7Hs", "25GUyv", "g4b", "5GrwvaEF5zXb26Fz9rcQpDWS57CtERHpNehXCPcNoHGKutQY"]).as_bytes().to_vec();
            let k = if s.len() < 9 || level == 3 { pick(s.len()) } else { one_of(&[0, 1, 30, 47]) };
            s[k] = ascii(1)[0];
            to_str(s)
        }
        // the shortest ones, with any first byte
        4 => {
            let n = pick(4);
            let mut d: Vec<u8> = if n == 0 { vec![] } else { vec![pick(256) as u8] };
            for i in 1..n { d.push((i * 91 + 7) as u8) }
            let h = hash(&d);
            match pick(4) { 0 => {} 1 => d.push(h[0]), _ => d.extend(h) }
            base58(&d)
        }
        // long ones
        5 => {
            let mut d = one_of(&PREFIXES).to_vec();
            let n = one_of(&[34usize, 45, 46, 62, 63, 64, 65, 100, 128, 200]);
            for i in 0..n { d.push(if n == 64 { 0 } else { (i * 37 + 11) as u8 }) }
            let mut h = hash(&d);
            match pick(2) { 0 => h[1] ^= 1, _ => {} }
            d.extend(h);
            let mut s = base58(&d);
            match pick(3) { 0 => s.push('1'), 1 => s.insert(0, '1'), _ => {} }
            s.push_str(one_of(&["", " ", "\n\n (", ")é"]));
            s
        }
        // short texts
        n => any_text(n as usize - 10, true),
    };
    let cur = &mut &t[..];
    let got = parse_ss58(cur);
    match address(&t) {
        None => {
            check!(got.is_none());
            check!(cur.len() == t.len() && cur.as_ptr() == t.as_ptr());
            cover(1);
        }
        // no network has addresses that long: those may be declined
        Some((bytes, _)) if bytes.len() > 100 && got.is_none() => { check!(cur.len() == t.len() && cur.as_ptr() == t.as_ptr()); cover(1) }
        Some((bytes, n)) => {
            let want = Value::unnamed_composite(bytes.iter().map(|b| Value::u128(*b as u128)).collect::<Vec<_>>());
            match got { Some(Ok(v)) => check!(same(&v, &want)), _ => check!(false) }
            check!(cur.len() == t.len() - n && cur.as_ptr() as usize == t.as_ptr() as usize + n);
            cover(2);
            // inside a larger text
            let s = format!("{{a:{t}");
            let (r, _) = from_str_custom().add_custom_parser(parse_ss58).parse(&s);
            if s.as_bytes().get(n + 3) == Some(&b'}') {
                match r { Ok(v) => check!(same(&v, &Value::named_composite([("a", want)]))), _ => check!(false) }
                cover(3);
            }
        }
    }
    observe(cur.as_bytes());
}
