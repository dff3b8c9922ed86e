//! Texts, a reference parser for the documented syntax, and values to print.
use crate::{sym::*, val::*};
use scale_value::{Composite, Primitive, Value};

/// One character per class the syntax can distinguish outside ASCII: letters of 2, 3 and 4 bytes, non-letters,
/// white space of 2 and 3 bytes, a non-ASCII digit, a number that is not a letter, a combining mark.
pub const WIDE: [&str; 9] = ["é", "字", "\u{10348}", "→", "\u{a0}", "\u{2003}", "٣", "²", "\u{301}"];
pub fn ascii(n: usize) -> Vec<u8> {
    let v = vec(n);
    for b in &v { assume(*b < 128) }
    v
}
pub fn to_str(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
/// Any ASCII text of exactly `n` characters with one non-ASCII character put in, or none.
pub fn any_text(n: usize, wide: bool) -> String {
    let mut v = ascii(n);
    if wide {
        let at = pick(n + 1);
        let w = one_of(&WIDE);
        v.splice(at..at, w.bytes());
    }
    to_str(v)
}
/// Texts covering every construct, used as starting points.
pub const TEXTS: [&str; 16] = [
    "{ a: 1, bb_2: true }",
    "{\"x y\":'c',b:\"s\\n\"}",
    "(1, -2 , +3_4)",
    "Foo { a: (false), b: <01> }",
    "v\"a b\" (1,Bar())",
    "<0110>",
    "'\\''",
    "\"a\\\"\\\\\\t\\r\\0b\"",
    "A({b:{}},(),<>)",
    "340282366920938463463374607431768211455",
    "-170141183460469231731687303715884105728",
    "{\n  é: (\n    'é',\n    \"→\"\n  )\n}",
    "true",
    "false_",
    "((((1))))",
    "tru {f:v\"\"{}}",
];

/// Where a reference parse stands: `Ok((value, next position))` or a failure.
/// (with the location, if a custom parser failed).
type R<T> = Result<(T, usize), Fail>;
pub type Fail = Option<(usize, Option<usize>)>;
/// A custom parser: given the text and a position, the value and the position after it.
pub type Hook<'a> = &'a dyn Fn(&[char], usize) -> Option<Result<(Value<()>, usize), Fail>>;
fn ws(s: &[char], mut i: usize) -> usize {
    while i < s.len() && s[i].is_whitespace() { i += 1 }
    i
}
fn at(s: &[char], i: usize) -> Option<char> { s.get(i).copied() }
fn word(s: &[char], i: usize, w: &str) -> bool {
    let mut j = i;
    for c in w.chars() {
        if at(s, j) != Some(c) { return false }
        j += 1;
    }
    !at(s, j).is_some_and(|c| c.is_alphanumeric() || c == '_')
}
fn unescape(c: char) -> Result<char, Fail> {
    Ok(match c { 'n' => '\n', 't' => '\t', 'r' => '\r', '"' => '"', '\'' => '\'', '\\' => '\\', '0' => '\0', _ => return Err(None) })
}
fn string(s: &[char], mut i: usize) -> R<String> {
    let mut o = String::new();
    i += 1;
    loop {
        match at(s, i).ok_or(None)? {
            '"' => return Ok((o, i + 1)),
            '\\' => { o.push(unescape(at(s, i + 1).ok_or(None)?)?); i += 2 }
            c => { o.push(c); i += 1 }
        }
    }
}
fn ident(s: &[char], i: usize) -> R<String> {
    let mut j = i;
    if !at(s, j).is_some_and(|c| c.is_alphabetic()) { return Err(None) }
    while at(s, j).is_some_and(|c| c.is_alphanumeric() || c == '_') { j += 1 }
    Ok((s[i..j].iter().collect(), j))
}
fn number(s: &[char], mut i: usize) -> R<Primitive> {
    let neg = at(s, i) == Some('-');
    if neg || at(s, i) == Some('+') { i += 1 }
    if !at(s, i).is_some_and(|c| c.is_ascii_digit()) { return Err(None) }
    let mut n: u128 = 0;
    let mut fits = true;
    while let Some(c) = at(s, i) {
        if c.is_ascii_digit() {
            match n.checked_mul(10).and_then(|n| n.checked_add(c as u128 - 48)) { Some(m) => n = m, None => fits = false }
        } else if c != '_' { break }
        i += 1
    }
    if !fits || (neg && n > 1 << 127) { return Err(None) }
    Ok((if neg { Primitive::I128((n as i128).wrapping_neg()) } else { Primitive::U128(n) }, i))
}
fn list<T>(h: Hook, s: &[char], i: usize, close: char, item: fn(Hook, &[char], usize) -> R<T>) -> R<Vec<T>> {
    let mut v = vec![];
    let mut i = ws(s, i + 1);
    if at(s, i) == Some(close) { return Ok((v, i + 1)) }
    loop {
        let (x, j) = item(h, s, i)?;
        v.push(x);
        i = ws(s, j);
        match at(s, i) {
            Some(',') => i = ws(s, i + 1),
            Some(c) if c == close => return Ok((v, i + 1)),
            _ => return Err(None),
        }
    }
}
fn field(h: Hook, s: &[char], i: usize) -> R<(String, Value<()>)> {
    let (n, i) = if at(s, i) == Some('"') { string(s, i)? } else { ident(s, i)? };
    let i = ws(s, i);
    if at(s, i) != Some(':') { return Err(None) }
    let (v, i) = value(h, s, ws(s, i + 1))?;
    Ok(((n, v), i))
}
fn composite(h: Hook, s: &[char], i: usize) -> R<Composite<()>> {
    match at(s, i) {
        Some('{') => list(h, s, i, '}', field).map(|(v, i)| (Composite::Named(v), i)),
        Some('(') => list(h, s, i, ')', value).map(|(v, i)| (Composite::Unnamed(v), i)),
        _ => Err(None),
    }
}
/// Reference parser: the value at position `i` and the position after it.
pub fn value(h: Hook, s: &[char], i: usize) -> R<Value<()>> {
    if let Some(r) = h(s, i) { return r }
    if word(s, i, "true") { return Ok((prim(Primitive::Bool(true), ()), i + 4)) }
    if word(s, i, "false") { return Ok((prim(Primitive::Bool(false), ()), i + 5)) }
    match at(s, i).ok_or(None)? {
        '\'' => {
            let (c, j) = match at(s, i + 1).ok_or(None)? { '\\' => (unescape(at(s, i + 2).ok_or(None)?)?, i + 3), c => (c, i + 2) };
            if at(s, j) != Some('\'') { return Err(None) }
            Ok((prim(Primitive::Char(c), ()), j + 1))
        }
        '"' => string(s, i).map(|(v, i)| (prim(Primitive::String(v), ()), i)),
        '0'..='9' | '+' | '-' => number(s, i).map(|(v, i)| (prim(v, ()), i)),
        '{' | '(' => composite(h, s, i).map(|(v, i)| (comp(v, ()), i)),
        '<' => {
            let mut b = vec![];
            let mut j = i + 1;
            loop {
                match at(s, j).ok_or(None)? {
                    '>' => return Ok((Value::bit_sequence(to_bits(&b)), j + 1)),
                    c @ ('0' | '1') => b.push(c == '1'),
                    _ => return Err(None),
                }
                j += 1
            }
        }
        c => {
            let (n, j) = if c == 'v' && at(s, i + 1) == Some('"') { string(s, i + 1)? } else { ident(s, i)? };
            let (v, j) = composite(h, s, ws(s, j))?;
            Ok((variant(&n, v, ()), j))
        }
    }
}

pub fn no_hook(_: &[char], _: usize) -> Option<Result<(Value<()>, usize), Fail>> { None }
/// A number close to one of the interesting ones; its digits depend on one symbolic byte.
pub fn any_number() -> Primitive {
    const BASES: [u128; 9] = [0, 950, 65300, 99_900, u64::MAX as u128 - 100, (1 << 127) - 200, 1 << 127, 10u128.pow(38) - 50, u128::MAX - 255];
    let n = one_of(&BASES) + byte() as u128;
    if pick(2) == 0 { return Primitive::U128(n) }
    Primitive::I128(if pick(2) == 1 { (n as i128).wrapping_neg() } else { n as i128 })
}
/// A character: any ASCII one or one per class outside.
pub fn any_ch() -> char {
    if pick(2) == 0 {
        let b = byte();
        assume(b < 128);
        return b as char;
    }
    one_of(&WIDE).chars().next().unwrap()
}
/// A text with `n` ASCII characters, and maybe something else.
pub fn any_words(n: usize) -> String {
    match pick(n + 2) {
        k if k <= n => to_str(ascii(k)),
        _ => any_text(1, true),
    }
}
