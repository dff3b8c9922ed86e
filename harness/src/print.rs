use crate::{sym::*, text::*, val::*};
use core::fmt::Write;
use std::{cell::RefCell, rc::Rc};
use scale_value::stringify::{from_str, to_writer_custom};
use scale_value::{Composite, Primitive, Value, ValueDef};

/// The value that reading back the printed value must give.
fn expected(v: &Value<()>) -> Value<()> {
    let c = |c: &Composite<()>| match c {
        Composite::Named(v) => Composite::Named(v.iter().map(|(n, v)| (n.clone(), expected(v))).collect()),
        Composite::Unnamed(v) => Composite::Unnamed(v.iter().map(expected).collect()),
    };
    match &v.value {
        ValueDef::Composite(x) => comp(c(x), ()),
        ValueDef::Variant(x) => variant(&x.name, c(&x.values), ()),
        ValueDef::Primitive(Primitive::I128(n)) if *n >= 0 => prim(Primitive::U128(*n as u128), ()),
        _ => v.clone(),
    }
}
fn print(v: &Value<()>, layout: usize) -> Result<String, core::fmt::Error> {
    let mut s = String::new();
    match layout {
        0 => write!(s, "{v}")?,
        1 => write!(s, "{v:#}")?,
        2 => to_writer_custom().compact().write(v, &mut s)?,
        3 => to_writer_custom().pretty().indent_by("\t\u{2003}").leading_indent(" \n").write(v, &mut s)?,
        4 => to_writer_custom().pretty().indent_by("").write(v, &mut s)?,
        5 => to_writer_custom().write(v, &mut s)?,
        // the parts have printers of their own
        _ => match &v.value {
            ValueDef::Composite(c) => if layout == 6 { write!(s, "{c}")? } else { write!(s, "{c:#}")? },
            ValueDef::Variant(x) => if layout == 6 { write!(s, "{x}")? } else { write!(s, "{x:#}")? },
            ValueDef::Primitive(p) => if layout == 6 { write!(s, "{p}")? } else { write!(s, "{p:#}")? },
            d => if layout == 6 { write!(s, "{d}")? } else { write!(s, "{d:#}")? },
        },
    }
    Ok(s)
}
fn round_trip(v: &Value<()>, layout: usize, tail: bool) {
    let s = print(v, layout);
    let Ok(mut s) = s else { check!(false); return };
    let n = s.len();
    if tail { s.push_str(" ,x") }
    let (r, rest) = from_str(&s);
    let Ok(r) = r else { check!(false); return };
    check!(same(&r, &expected(v)));
    check!(rest.len() == s.len() - n);
    check!(r == expected(v));
    observe(s.as_bytes());
}
fn leaf() -> Value<()> {
    match pick(5) {
        0 => Value::bool(bit()),
        1 => Value::char(any_ch()),
        2 => Value::string(any_words(1)),
        3 => prim(one_of(&[7u128, 100]).into_prim(pick(2) == 1), ()),
        _ => Value::bit_sequence(to_bits(&any_bits(2))),
    }
}
trait IntoPrim { fn into_prim(self, signed: bool) -> Primitive; }
impl IntoPrim for u128 {
    fn into_prim(self, signed: bool) -> Primitive { if signed { Primitive::I128(-(self as i128)) } else { Primitive::U128(self) } }
}
const FIXED: [&str; 14] = ["", "a", "v", "true", "false", "truex", "falsey", "tru", "a_b", "1a", "_a", "a b", "é1", "v\""];
fn name(sym: usize) -> String { if sym == 9 { "x".into() } else if sym == 0 { one_of(&["true", "v", ""]).to_string() } else { to_str(ascii(sym)) } }
fn container(child: &mut dyn FnMut(usize) -> Value<()>, max: usize, sym: usize) -> Value<()> {
    let k = pick(4);
    let n = pick(max + 1);
    let c = if k & 1 == 0 {
        Composite::Unnamed((0..n).map(|i| child(i)).collect())
    } else {
        Composite::Named((0..n).map(|i| (if i == 0 && k == 1 { name(sym) } else { format!("k{i}") }, child(i))).collect())
    };
    if k < 2 { comp(c, ()) } else { variant(&name(sym), c, ()) }
}

/// C01: every value prints to a text that parses back to it.
#[no_mangle]
pub extern "C" fn h_c01(level: u32) {
    match level {
        // leaves
        0 => {
            let v = match pick(5) {
                0 => Value::bool(bit()),
                1 => Value::char(any_ch()),
                2 => Value::string(any_words(3)),
                3 => prim(any_number(), ()),
                _ => Value::bit_sequence(to_bits(&any_bits(9))),
            };
            let l = pick(8);
            round_trip(&v, l, pick(2) == 1);
        }
        // names of fields and variants
        1 => {
            let n = match pick(4) { 0 => one_of(&FIXED).to_string(), 1 => to_str(ascii(2)), 2 => to_str(ascii(3)), _ => any_text(1, true) };
            let one = || Value::u128(1);
            let v = match pick(5) {
                0 => comp(Composite::Named(vec![(n, one())]), ()),
                1 => comp(Composite::Named(vec![("x".into(), one()), (n, one())]), ()),
                2 => variant(&n, Composite::Unnamed(vec![]), ()),
                3 => variant(&n, Composite::Unnamed(vec![one()]), ()),
                _ => variant(&n, Composite::Named(vec![("y".into(), one())]), ()),
            };
            let l = one_of(&[0, 1, 2, 3]);
            round_trip(&v, l, false);
        }
        // containers of leaves
        2 => {
            let v = container(&mut |i| if i == 0 { leaf() } else { Value::bool(false) }, 2, 1);
            let l = pick(8);
            round_trip(&v, l, l & 1 == 1);
        }
        // nesting
        _ => {
            let v = container(&mut |i| if i == 0 { container(&mut |i| if i == 0 { container(&mut |_| Value::char(ascii(1)[0] as char), 1, 9) } else { Value::string(to_str(ascii(1))) }, 2, 9) } else { Value::u128(5) }, 2, 0);
            let l = one_of(&[0, 1, 2, 3]);
            round_trip(&v, l, false);
        }
    }
    cover(1);
}

/// The text after replacing, inserting, removing or cutting at any place of a text that covers the syntax.
fn mutated() -> String {
    let t = one_of(&TEXTS);
    let cs: Vec<char> = t.chars().collect();
    let at = pick(cs.len() + 1);
    let mut s: String = cs[..at].iter().collect();
    let c = any_ch();
    match pick(4) {
        0 => { s.push(c); s.extend(cs[at..].iter()) }
        1 => { s.push(c); s.extend(cs[at..].iter().skip(1)) }
        2 => { s.push(c) }
        _ => s.extend(cs[at..].iter().skip(1)),
    }
    s
}
fn input(level: u32) -> String {
    match level {
        0..=9 => any_text(level as usize, false),
        10..=19 => any_text(level as usize - 10, true),
        _ => mutated(),
    }
}
/// C02: parsing any text.
#[no_mangle]
pub extern "C" fn h_c02(level: u32) {
    let s = input(level);
    let (r, rest) = from_str(&s);
    check!(rest.len() <= s.len() && rest.as_ptr() as usize + rest.len() == s.as_ptr() as usize + s.len());
    check!(s.is_char_boundary(s.len() - rest.len()));
    match r {
        Ok(v) => {
            let (r2, rest2) = from_str(&s[..s.len() - rest.len()]);
            check!(rest2.is_empty());
            match r2 { Ok(v2) => check!(same(&v, &v2)), Err(_) => check!(false) }
            cover(1);
        }
        Err(e) => {
            check!(e.start_loc <= s.len());
            if let Some(end) = e.end_loc { check!(end >= e.start_loc) }
            cover(2);
        }
    }
    observe(rest.as_bytes());
}
/// C03: the parser agrees with the reference reading of the documented syntax.
#[no_mangle]
pub extern "C" fn h_c03(level: u32) {
    let s = input(level);
    let (r, rest) = from_str(&s);
    let cs: Vec<char> = s.chars().collect();
    match (r, value(&no_hook, &cs, 0)) {
        (Ok(v), Ok((w, n))) => {
            check!(same(&v, &w));
            check!(s.len() - rest.len() == cs[..n].iter().map(|c| c.len_utf8()).sum::<usize>());
            cover(1);
        }
        (Err(_), Err(_)) => cover(2),
        _ => check!(false),
    }
    observe(rest.as_bytes());
}

/// How a value is laid out: no spaces, single spaces, or entries on lines of their own after `lead` and `by` per level.
#[derive(Clone, Copy)]
enum Style<'a> { Compact, Normal, Pretty(&'a str, &'a str) }
/// The text of a value by the documented layout: `<context> ` in front of each value if there is a way to print it,
/// and bools as `special` says if it says anything.
struct Layout<'a> { style: Style<'a>, ctx: bool, special: Option<&'a str> }
impl Layout<'_> {
    fn line(&self, depth: usize, o: &mut String) {
        if let Style::Pretty(lead, by) = self.style { o.push('\n'); o.push_str(lead); for _ in 0..depth { o.push_str(by) } }
    }
    fn space(&self, o: &mut String) { if !matches!(self.style, Style::Compact) { o.push(' ') } }
    fn quoted(&self, s: &str, q: char, o: &mut String) {
        o.push(q);
        for c in s.chars() {
            match "\n\t\r\"'\\\0".chars().position(|x| x == c) { Some(i) => { o.push('\\'); o.push("ntr\"'\\0".as_bytes()[i] as char) } None => o.push(c) }
        }
        o.push(q);
    }
    fn name(&self, s: &str, var: bool, o: &mut String) {
        let mut cs = s.chars();
        let plain = match cs.next() { Some(c) => c.is_alphabetic() && cs.all(|c| c.is_alphanumeric() || c == '_'), None => false };
        if plain && !(var && (s == "true" || s == "false")) { o.push_str(s) } else { if var { o.push('v') } self.quoted(s, '"', o) }
    }
    /// Fails for what cannot be printed.
    fn value(&self, v: &Value<u8>, depth: usize, o: &mut String) -> bool {
        if self.ctx { o.push('<'); o.push('@'); o.push(v.context as char); o.push_str("> ") }
        if let (Some(s), ValueDef::Primitive(Primitive::Bool(b))) = (self.special, &v.value) { o.push_str(s); o.push(if *b { 'T' } else { 'F' }); return true }
        self.def(&v.value, depth, o)
    }
    fn def(&self, v: &ValueDef<u8>, depth: usize, o: &mut String) -> bool {
        match v {
            ValueDef::Primitive(p) => match p {
                Primitive::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
                Primitive::Char(c) => { let mut s = String::new(); s.push(*c); self.quoted(&s, '\'', o) }
                Primitive::String(s) => self.quoted(s, '"', o),
                Primitive::U128(n) => { let _ = write!(o, "{n}"); }
                Primitive::I128(n) => { let _ = write!(o, "{n}"); }
                Primitive::U256(_) | Primitive::I256(_) => return false,
            },
            ValueDef::BitSequence(b) => { o.push('<'); for b in b.iter() { o.push(if b { '1' } else { '0' }) } o.push('>') }
            ValueDef::Variant(x) => { self.name(&x.name, true, o); self.space(o); return self.comp(&x.values, depth, o) }
            ValueDef::Composite(c) => return self.comp(c, depth, o),
        }
        true
    }
    fn comp(&self, c: &Composite<u8>, depth: usize, o: &mut String) -> bool {
        let (named, n) = match c { Composite::Named(v) => (true, v.len()), Composite::Unnamed(v) => (false, v.len()) };
        o.push(if named { '{' } else { '(' });
        for i in 0..n {
            if i > 0 { o.push(',') }
            if matches!(self.style, Style::Normal) { if i > 0 || named { o.push(' ') } } else { self.line(depth + 1, o) }
            let v = match c { Composite::Named(v) => { self.name(&v[i].0, false, o); o.push(':'); self.space(o); &v[i].1 } Composite::Unnamed(v) => &v[i] };
            if !self.value(v, depth + 1, o) { return false }
        }
        if n > 0 { if matches!(self.style, Style::Normal) { if named { o.push(' ') } } else { self.line(depth, o) } }
        o.push(if named { '}' } else { ')' });
        true
    }
}
/// Takes so many bytes, then no more.
struct Cap { s: Rc<RefCell<String>>, left: usize }
impl Write for Cap {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if s.len() > self.left { return Err(core::fmt::Error) }
        self.left -= s.len();
        self.s.borrow_mut().push_str(s);
        Ok(())
    }
}
/// The layouts that can be asked for, and what they should look like.
fn styled<W: Write>(layout: usize) -> (scale_value::stringify::ToWriterBuilder<u8, W>, Style<'static>) {
    let b = to_writer_custom();
    match layout {
        0 => (b, Style::Normal),
        1 => (b.pretty(), Style::Pretty("", "  ")),
        2 => (b.compact(), Style::Compact),
        3 => (b.pretty().indent_by("\t*").leading_indent("é|"), Style::Pretty("é|", "\t*")),
        4 => (b.leading_indent("   ").indent_by("").pretty(), Style::Pretty("   ", "")),
        5 => (b.indent_by("--").leading_indent("++"), Style::Normal),
        _ => (b.leading_indent("+").compact().indent_by("-"), Style::Compact),
    }
}
fn laid_out(v: &Value<u8>, layout: usize, both: bool) {
    let (mut style, mut ok) = (Style::Normal, true);
    if layout < 7 {
        let ctx = pick(2) == 1;
        let special = if both { pick(2) == 1 } else { ctx };
        let (mut b, st) = styled(layout);
        if ctx { b = b.format_context(|c: &u8, w: &mut Cap| { w.write_char('@')?; w.write_char(*c as char) }) }
        if special { b = b.add_custom_formatter(|v: &Value<u8>, w: &mut Cap| match &v.value { ValueDef::Primitive(Primitive::Bool(b)) => Some(w.write_str(if *b { "%T" } else { "%F" })), _ => None }) }
        let out = Rc::new(RefCell::new(String::new()));
        let r = b.write(v, Cap { s: out.clone(), left: 1 << 20 });
        let s = out.take();
        let mut want = String::new();
        let can = Layout { style: st, ctx, special: if special { Some("%") } else { None } }.value(v, 0, &mut want);
        check!(r.is_ok() == can);
        // nothing but what comes before the part that cannot be printed
        check!(s == want);
        cover(if can { 1 } else { 2 });
        // the same again: the builder is as it was
        let again = b.write(v, Cap { s: out.clone(), left: 1 << 20 });
        check!(again.is_ok() == can && out.take() == want);
        observe(s.as_bytes());
        return;
    }
    let mut s = String::new();
    match layout {
        7 => ok = write!(s, "{v}").is_ok(),
        8 => { style = Style::Pretty("", "  "); ok = write!(s, "{v:#}").is_ok() }
        9 => ok = scale_value::stringify::to_writer(v, &mut s).is_ok(),
        10 | 11 => {
            if layout == 11 { style = Style::Pretty("", "  ") }
            ok = match (&v.value, layout) {
                (ValueDef::Composite(c), 10) => write!(s, "{c}"),
                (ValueDef::Composite(c), _) => write!(s, "{c:#}"),
                (ValueDef::Variant(c), 10) => write!(s, "{c}"),
                (ValueDef::Variant(c), _) => write!(s, "{c:#}"),
                (ValueDef::Primitive(c), 10) => write!(s, "{c}"),
                (ValueDef::Primitive(c), _) => write!(s, "{c:#}"),
                (c, 10) => write!(s, "{c}"),
                (c, _) => write!(s, "{c:#}"),
            }.is_ok();
        }
        _ => {}
    }
    let mut want = String::new();
    let can = Layout { style, ctx: false, special: None }.value(v, 0, &mut want);
    if layout == 12 { if can { s = scale_value::stringify::to_string(v) } else { return } }
    check!(ok == can);
    check!(s == want);
    cover(if can { 1 } else { 2 });
    observe(s.as_bytes());
}
fn leaf8(full: bool) -> Value<u8> {
    let d = match pick(if full { 7 } else { 4 }) {
        0 => ValueDef::Primitive(Primitive::Bool(bit())),
        1 => ValueDef::Primitive(Primitive::Char(if full { any_ch() } else { ascii(1)[0] as char })),
        2 => ValueDef::Primitive(one_of(&[7u128, 100]).into_prim(pick(2) == 1)),
        3 => ValueDef::Primitive(Primitive::U256([1; 32])),
        4 => ValueDef::BitSequence(to_bits(&any_bits(3))),
        5 => ValueDef::Primitive(Primitive::String(any_words(2))),
        _ => ValueDef::Primitive(any_number()),
    };
    Value { value: d, context: context() }
}
fn bool8() -> Value<u8> { Value { value: ValueDef::Primitive(Primitive::Bool(bit())), context: b'B' } }
fn context() -> u8 { let b = byte(); assume(b < 128); b }
fn container8(child: &mut dyn FnMut(usize) -> Value<u8>, max: usize, sym: usize) -> Value<u8> {
    let k = pick(4);
    let n = pick(max + 1);
    let c = if k & 1 == 0 {
        Composite::Unnamed((0..n).map(|i| child(i)).collect())
    } else {
        Composite::Named((0..n).map(|i| (if i == 0 && k == 1 { name(sym) } else { format!("k{i}") }, child(i))).collect())
    };
    if k < 2 { comp(c, b'C') } else { variant(&name(sym), c, b'V') }
}
fn container8_of(vals: Vec<Value<u8>>, ctx: u8) -> Value<u8> {
    let k = pick(4);
    let c = if k & 1 == 0 { Composite::Unnamed(vals) } else { Composite::Named(vals.into_iter().enumerate().map(|(i, v)| (format!("k{i}"), v)).collect()) };
    if k < 2 { comp(c, ctx) } else { variant("Va", c, ctx) }
}
/// C21: the text has exactly the layout asked for.
#[no_mangle]
pub extern "C" fn h_c21(level: u32) {
    match level {
        0 => { let v = leaf8(true); laid_out(&v, pick(13), true) }
        1 => { let v = container8(&mut |i| if i == 0 { leaf8(false) } else { bool8() }, 2, 0); laid_out(&v, pick(13), true) }
        2 => {
            let v = container8(&mut |i| if i == 0 { container8(&mut |i| if i == 0 { container8(&mut |_| leaf8(false), 1, 9) } else { bool8() }, 2, 9) } else { Value::u128(5).map_context(|_| b'x') }, 2, 0);
            laid_out(&v, one_of(&[0, 1, 2, 3]), false);
        }
        // names
        3 => {
            let n = match pick(4) { 0 => one_of(&FIXED).to_string(), 1 => to_str(ascii(2)), 2 => to_str(ascii(3)), _ => any_text(1, true) };
            let one = Value { value: ValueDef::Primitive(Primitive::U128(1)), context: b'c' };
            let v = match pick(3) {
                0 => comp(Composite::Named(vec![("x".into(), one.clone()), (n, one)]), b'd'),
                1 => variant(&n, Composite::Unnamed(vec![]), b'e'),
                _ => variant(&n, Composite::Named(vec![("y".into(), one)]), b'f'),
            };
            laid_out(&v, one_of(&[0, 1, 2, 8]), false);
        }
        // many entries, many levels
        4 => {
            let n = one_of(&[1, 3, 17]);
            let at = one_of(&[0, n / 2, n - 1]);
            let k = pick(3);
            let item = |i: usize| Value { value: if i == at { ValueDef::Primitive(Primitive::Bool(bit())) } else { ValueDef::Composite(Composite::Unnamed(vec![])) }, context: if i == at { context() } else { b'a' + (i % 26) as u8 } };
            let v = match k {
                0 => comp(Composite::Unnamed((0..n).map(item).collect()), b'U'),
                1 => variant("Va", Composite::Named((0..n).map(|i| (format!("f{i}"), item(i))).collect()), b'W'),
                _ => (0..n).fold(item(at), |v, i| match i % 3 { 0 => unnamed(vec![v], b'p'), 1 => variant("N", Composite::Unnamed(vec![item(n), v]), b'q'), _ => comp(Composite::Named(vec![("a".into(), v), ("b".into(), item(n))]), b'r') }),
            };
            laid_out(&v, pick(7), true);
        }
        // entries of any size side by side
        6 => {
            let leaf = |c: u8| Value { value: ValueDef::Primitive(Primitive::U128(7)), context: c };
            let inner = |c: u8| { let n = pick(4); container8_of((0..n).map(|i| leaf(c + i as u8)).collect(), c) };
            let v = container8_of(vec![leaf(b'1'), inner(b'a'), inner(b'n'), leaf(b'2')], b'o');
            laid_out(&v, one_of(&[0, 1, 2, 8]), false);
        }
        // a writer that stops taking text
        _ => {
            let v = container8(&mut |i| if i == 0 { container8(&mut |_| leaf8(false), 1, 9) } else { bool8() }, 2, 0);
            let layout = pick(4);
            let ctx = pick(2) == 1;
            let out = Rc::new(RefCell::new(String::new()));
            let (mut b, style) = styled(layout);
            let mut want = String::new();
            let can = Layout { style, ctx, special: None }.value(&v, 0, &mut want);
            let cap = one_of(&[0, 1, 2, 5, 9, 14, 99]);
            if ctx { b = b.format_context(|c: &u8, w: &mut Cap| { w.write_char('@')?; w.write_char(*c as char) }) }
            let r = b.write(&v, Cap { s: out.clone(), left: cap });
            let s = out.take();
            check!(r.is_ok() == (can && want.len() <= cap));
            check!(want.as_bytes().starts_with(s.as_bytes()));
            if r.is_ok() { check!(s == want); cover(1) } else { cover(2) }
        }
    }
}
