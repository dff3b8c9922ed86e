//! Data of all shapes serde knows, and a self-describing format kept in memory.
use crate::sym::*;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Deserialize, Serialize, Serializer};
use core::fmt;

/// An error without a text.
#[derive(Debug, PartialEq, Clone, Copy)]
pub struct E;
impl fmt::Display for E { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl ser::Error for E { fn custom<T: fmt::Display>(_: T) -> E { E } }
impl de::Error for E { fn custom<T: fmt::Display>(_: T) -> E { E } }

/// What a serializer was told.
#[derive(PartialEq, Debug, Clone)]
pub enum Form {
    Bool(bool), Char(char), Str(String), Bytes(Vec<u8>), F(f64),
    /// a number and the width it was given with
    U(u8, u128), I(u8, i128),
    None, Some(Box<Form>), Unit,
    /// entries and the length announced
    Seq(Vec<Form>, Option<usize>), Map(Vec<(Form, Form)>, Option<usize>),
    /// anything that needs names known at compile time
    Static,
}
pub struct Rec;
pub struct RecSeq(Vec<Form>, Option<usize>);
pub struct RecMap(Vec<(Form, Form)>, Option<Form>, Option<usize>);
macro_rules! rec { ($($f:ident $t:ty, $v:ident => $e:expr;)*) => { $(fn $f(self, $v: $t) -> Result<Form, E> { Ok($e) })* } }
impl Serializer for Rec {
    type Ok = Form;
    type Error = E;
    type SerializeSeq = RecSeq;
    type SerializeTuple = RecSeq;
    type SerializeTupleStruct = ser::Impossible<Form, E>;
    type SerializeTupleVariant = ser::Impossible<Form, E>;
    type SerializeMap = RecMap;
    type SerializeStruct = ser::Impossible<Form, E>;
    type SerializeStructVariant = ser::Impossible<Form, E>;
    rec! {
        serialize_bool bool, v => Form::Bool(v); serialize_char char, v => Form::Char(v); serialize_str &str, v => Form::Str(v.to_string());
        serialize_bytes &[u8], v => Form::Bytes(v.to_vec()); serialize_f32 f32, v => Form::F(v as f64); serialize_f64 f64, v => Form::F(v);
        serialize_u8 u8, v => Form::U(1, v as u128); serialize_u16 u16, v => Form::U(2, v as u128); serialize_u32 u32, v => Form::U(4, v as u128);
        serialize_u64 u64, v => Form::U(8, v as u128); serialize_u128 u128, v => Form::U(16, v);
        serialize_i8 i8, v => Form::I(1, v as i128); serialize_i16 i16, v => Form::I(2, v as i128); serialize_i32 i32, v => Form::I(4, v as i128);
        serialize_i64 i64, v => Form::I(8, v as i128); serialize_i128 i128, v => Form::I(16, v);
        serialize_unit_struct &'static str, _n => Form::Static;
    }
    fn serialize_none(self) -> Result<Form, E> { Ok(Form::None) }
    fn serialize_unit(self) -> Result<Form, E> { Ok(Form::Unit) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Form, E> { Ok(Form::Some(Box::new(v.serialize(Rec)?))) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Form, E> { Ok(Form::Static) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, _: &T) -> Result<Form, E> { Ok(Form::Static) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Form, E> { Ok(Form::Static) }
    fn serialize_seq(self, n: Option<usize>) -> Result<RecSeq, E> { Ok(RecSeq(vec![], n)) }
    fn serialize_tuple(self, n: usize) -> Result<RecSeq, E> { Ok(RecSeq(vec![], Some(n))) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> { Err(E) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E) }
    fn serialize_map(self, n: Option<usize>) -> Result<RecMap, E> { Ok(RecMap(vec![], None, n)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> { Err(E) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { Err(E) }
}
impl SerializeSeq for RecSeq {
    type Ok = Form;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.0.push(v.serialize(Rec)?); Ok(()) }
    fn end(self) -> Result<Form, E> { Ok(Form::Seq(self.0, self.1)) }
}
impl SerializeTuple for RecSeq {
    type Ok = Form;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.0.push(v.serialize(Rec)?); Ok(()) }
    fn end(self) -> Result<Form, E> { Ok(Form::Seq(self.0, self.1)) }
}
impl SerializeMap for RecMap {
    type Ok = Form;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), E> { self.1 = Some(k.serialize(Rec)?); Ok(()) }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { let k = self.1.take().ok_or(E)?; self.0.push((k, v.serialize(Rec)?)); Ok(()) }
    fn end(self) -> Result<Form, E> { Ok(Form::Map(self.0, self.2)) }
}

/// Deserializes a form, as a self-describing format would, claiming `hint` for the size of every container
/// (`None`: the real one).
pub struct De(pub Form, pub Option<usize>);
macro_rules! any { ($($f:ident)*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.deserialize_any(v) })* } }
impl<'de> Deserializer<'de> for De {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let h = self.1;
        match self.0 {
            Form::Bool(x) => v.visit_bool(x),
            Form::Char(x) => v.visit_char(x),
            Form::Str(x) => v.visit_str(&x),
            Form::Bytes(x) => v.visit_bytes(&x),
            Form::F(x) => v.visit_f64(x),
            Form::U(1, x) => v.visit_u8(x as u8),
            Form::U(2, x) => v.visit_u16(x as u16),
            Form::U(4, x) => v.visit_u32(x as u32),
            Form::U(8, x) => v.visit_u64(x as u64),
            Form::U(_, x) => v.visit_u128(x),
            Form::I(1, x) => v.visit_i8(x as i8),
            Form::I(2, x) => v.visit_i16(x as i16),
            Form::I(4, x) => v.visit_i32(x as i32),
            Form::I(8, x) => v.visit_i64(x as i64),
            Form::I(_, x) => v.visit_i128(x),
            Form::None => v.visit_none(),
            Form::Some(x) => v.visit_some(De(*x, h)),
            Form::Unit => v.visit_unit(),
            Form::Seq(x, _) => v.visit_seq(Items(x.into_iter(), h)),
            Form::Map(x, _) => v.visit_map(Entries(x.into_iter(), None, h)),
            Form::Static => Err(E),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { v.visit_newtype_struct(self) }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
    any! { deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128 deserialize_u8 deserialize_u16 deserialize_u32
        deserialize_u64 deserialize_u128 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes
        deserialize_byte_buf deserialize_option deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any }
}
struct Items(std::vec::IntoIter<Form>, Option<usize>);
impl<'de> SeqAccess<'de> for Items {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        match self.0.next() { Some(x) => s.deserialize(De(x, self.1)).map(Some), None => Ok(None) }
    }
    fn size_hint(&self) -> Option<usize> { self.1.or(Some(self.0.len())) }
}
struct Entries(std::vec::IntoIter<(Form, Form)>, Option<Form>, Option<usize>);
impl<'de> MapAccess<'de> for Entries {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        match self.0.next() { Some((k, x)) => { self.1 = Some(x); s.deserialize(De(k, self.2)).map(Some) } None => Ok(None) }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> { s.deserialize(De(self.1.take().ok_or(E)?, self.2)) }
    fn size_hint(&self) -> Option<usize> { self.2.or(Some(self.0.len())) }
}

/// A type, as serde sees it.
#[derive(Clone, Debug)]
pub enum Sh {
    Bool, Char, Str, Bytes, Unit, UnitStruct, F32, F64,
    /// width in bytes (0: pointer size), signed
    Int(u8, bool),
    Opt(Box<Sh>), Seq(Box<Sh>), Tup(Vec<Sh>), TupStruct(Vec<Sh>), Struct(Vec<Sh>),
    /// kind of keys and values
    Map(Box<Sh>, Box<Sh>),
    /// unit, tuple (of two or more) or struct variants
    Enum(Vec<VSh>),
}
#[derive(Clone, Debug)]
pub enum VSh { Unit, Tup(Vec<Sh>), Struct(Vec<Sh>) }
/// Data of such a type.
#[derive(Clone, Debug, PartialEq)]
pub enum Da { Bool(bool), Char(char), Str(String), Bytes(Vec<u8>), U(u128), I(i128), F, Unit, None, Some(Box<Da>), List(Vec<Da>), Map(Vec<(Da, Da)>), Var(usize, Vec<Da>) }
pub const FNAMES: [&str; 3] = ["a", "bb", "Ccc"];
pub const VNAMES: [&str; 4] = ["A", "None", "Some", "D"];

pub struct Typed<'a>(pub &'a Sh, pub &'a Da);
impl Serialize for Typed<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Sh::Bool, Da::Bool(b)) => s.serialize_bool(*b),
            (Sh::Char, Da::Char(c)) => s.serialize_char(*c),
            (Sh::Str, Da::Str(t)) => s.serialize_str(t),
            (Sh::Bytes, Da::Bytes(b)) => s.serialize_bytes(b),
            (Sh::Unit, _) => s.serialize_unit(),
            (Sh::UnitStruct, _) => s.serialize_unit_struct("U"),
            (Sh::F32, _) => s.serialize_f32(1.5),
            (Sh::F64, _) => s.serialize_f64(1.5),
            (Sh::Int(w, _), Da::U(n)) => match w { 0 => (*n as usize).serialize(s), 1 => s.serialize_u8(*n as u8), 2 => s.serialize_u16(*n as u16), 4 => s.serialize_u32(*n as u32), 8 => s.serialize_u64(*n as u64), _ => s.serialize_u128(*n) },
            (Sh::Int(w, _), Da::I(n)) => match w { 0 => (*n as isize).serialize(s), 1 => s.serialize_i8(*n as i8), 2 => s.serialize_i16(*n as i16), 4 => s.serialize_i32(*n as i32), 8 => s.serialize_i64(*n as i64), _ => s.serialize_i128(*n) },
            (Sh::Opt(_), Da::None) => s.serialize_none(),
            (Sh::Opt(t), Da::Some(d)) => s.serialize_some(&Typed(t, d)),
            (Sh::Seq(t), Da::List(v)) => { let mut q = s.serialize_seq(Some(v.len()))?; for d in v { q.serialize_element(&Typed(t, d))? } q.end() }
            (Sh::Tup(ts), Da::List(v)) => { let mut q = s.serialize_tuple(v.len())?; for (t, d) in ts.iter().zip(v) { q.serialize_element(&Typed(t, d))? } q.end() }
            (Sh::TupStruct(ts), Da::List(v)) => { let mut q = s.serialize_tuple_struct("T", v.len())?; for (t, d) in ts.iter().zip(v) { q.serialize_field(&Typed(t, d))? } q.end() }
            (Sh::Struct(ts), Da::List(v)) => { let mut q = s.serialize_struct("S", v.len())?; for (i, (t, d)) in ts.iter().zip(v).enumerate() { q.serialize_field(FNAMES[i], &Typed(t, d))? } q.end() }
            (Sh::Map(k, t), Da::Map(v)) => { let mut q = s.serialize_map(None)?; for (n, d) in v { q.serialize_entry(&Typed(k, n), &Typed(t, d))? } q.end() }
            (Sh::Enum(vs), Da::Var(i, v)) => match &vs[*i] {
                VSh::Unit => s.serialize_unit_variant("E", *i as u32, VNAMES[*i]),
                VSh::Tup(ts) => { let mut q = s.serialize_tuple_variant("E", *i as u32, VNAMES[*i], v.len())?; for (t, d) in ts.iter().zip(v) { q.serialize_field(&Typed(t, d))? } q.end() }
                VSh::Struct(ts) => { let mut q = s.serialize_struct_variant("E", *i as u32, VNAMES[*i], v.len())?; for (k, (t, d)) in ts.iter().zip(v).enumerate() { q.serialize_field(FNAMES[k], &Typed(t, d))? } q.end() }
            },
            _ => unreachable!(),
        }
    }
}
/// Deserializes data of the given type, as derived implementations do.
impl<'de> DeserializeSeed<'de> for &Sh {
    type Value = Da;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Da, D::Error> {
        struct S;
        Ok(match self {
            Sh::Bool => Da::Bool(bool::deserialize(d)?),
            Sh::Char => Da::Char(char::deserialize(d)?),
            Sh::Str => Da::Str(String::deserialize(d)?),
            Sh::Bytes => return d.deserialize_byte_buf(BytesV),
            Sh::Unit => { <()>::deserialize(d)?; Da::Unit }
            Sh::UnitStruct => return d.deserialize_unit_struct("U", UnitV),
            Sh::F32 => { f32::deserialize(d)?; Da::F }
            Sh::F64 => { f64::deserialize(d)?; Da::F }
            Sh::Int(w, false) => Da::U(match w { 0 => usize::deserialize(d)? as u128, 1 => u8::deserialize(d)? as u128, 2 => u16::deserialize(d)? as u128, 4 => u32::deserialize(d)? as u128, 8 => u64::deserialize(d)? as u128, _ => u128::deserialize(d)? }),
            Sh::Int(w, true) => Da::I(match w { 0 => isize::deserialize(d)? as i128, 1 => i8::deserialize(d)? as i128, 2 => i16::deserialize(d)? as i128, 4 => i32::deserialize(d)? as i128, 8 => i64::deserialize(d)? as i128, _ => i128::deserialize(d)? }),
            Sh::Opt(t) => return d.deserialize_option(OptV(t)),
            Sh::Seq(t) => return d.deserialize_seq(SeqV(t)),
            Sh::Tup(ts) => return d.deserialize_tuple(ts.len(), TupV(ts)),
            Sh::TupStruct(ts) => return d.deserialize_tuple_struct("T", ts.len(), TupV(ts)),
            Sh::Struct(ts) => return d.deserialize_struct("S", &FNAMES[..ts.len()], StructV(ts)),
            Sh::Map(k, t) => return d.deserialize_map(MapV(k, t)),
            Sh::Enum(vs) => return d.deserialize_enum("E", &VNAMES[..vs.len()], EnumV(vs)),
        })
    }
}
macro_rules! expecting { () => { type Value = Da; fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("it") } } }
struct BytesV;
impl<'de> Visitor<'de> for BytesV {
    expecting!();
    fn visit_bytes<X: de::Error>(self, v: &[u8]) -> Result<Da, X> { Ok(Da::Bytes(v.to_vec())) }
    fn visit_byte_buf<X: de::Error>(self, v: Vec<u8>) -> Result<Da, X> { Ok(Da::Bytes(v)) }
}
struct UnitV;
impl<'de> Visitor<'de> for UnitV { expecting!(); fn visit_unit<X: de::Error>(self) -> Result<Da, X> { Ok(Da::Unit) } }
struct OptV<'a>(&'a Sh);
impl<'de> Visitor<'de> for OptV<'_> {
    expecting!();
    fn visit_none<X: de::Error>(self) -> Result<Da, X> { Ok(Da::None) }
    fn visit_unit<X: de::Error>(self) -> Result<Da, X> { Ok(Da::None) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Da, D::Error> { Ok(Da::Some(Box::new(self.0.deserialize(d)?))) }
}
struct SeqV<'a>(&'a Sh);
impl<'de> Visitor<'de> for SeqV<'_> {
    expecting!();
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Da, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element_seed(self.0)? { v.push(x) }
        Ok(Da::List(v))
    }
}
struct TupV<'a>(&'a [Sh]);
impl<'de> Visitor<'de> for TupV<'_> {
    expecting!();
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Da, A::Error> {
        let mut v = vec![];
        for t in self.0 { v.push(a.next_element_seed(t)?.ok_or_else(|| de::Error::invalid_length(v.len(), &self))?) }
        Ok(Da::List(v))
    }
}
struct FieldName(usize);
struct FieldV(usize);
impl<'de> Visitor<'de> for FieldV {
    type Value = FieldName;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a name") }
    fn visit_str<X: de::Error>(self, s: &str) -> Result<FieldName, X> { Ok(FieldName(FNAMES[..self.0].iter().position(|n| *n == s).unwrap_or(9))) }
}
impl<'de> DeserializeSeed<'de> for FieldV {
    type Value = FieldName;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<FieldName, D::Error> { d.deserialize_identifier(self) }
}
struct StructV<'a>(&'a [Sh]);
impl<'de> Visitor<'de> for StructV<'_> {
    expecting!();
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Da, A::Error> { TupV(self.0).visit_seq(a) }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Da, A::Error> {
        let mut v = vec![None; self.0.len()];
        while let Some(FieldName(i)) = a.next_key_seed(FieldV(self.0.len()))? {
            if i == 9 { a.next_value::<IgnoredAny>()?; continue }
            if v[i].is_some() { return Err(de::Error::duplicate_field(FNAMES[i])) }
            v[i] = Some(a.next_value_seed(&self.0[i])?);
        }
        v.into_iter().enumerate().map(|(i, x)| x.ok_or_else(|| de::Error::missing_field(FNAMES[i]))).collect::<Result<_, _>>().map(Da::List)
    }
}
struct MapV<'a>(&'a Sh, &'a Sh);
impl<'de> Visitor<'de> for MapV<'_> {
    expecting!();
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Da, A::Error> {
        let mut v = vec![];
        while let Some(k) = a.next_key_seed(self.0)? { v.push((k, a.next_value_seed(self.1)?)) }
        Ok(Da::Map(v))
    }
}
struct VarName(usize);
impl<'de> Visitor<'de> for VarName {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a variant") }
    fn visit_str<X: de::Error>(self, s: &str) -> Result<usize, X> { VNAMES[..self.0].iter().position(|n| *n == s).ok_or_else(|| de::Error::unknown_variant(s, &VNAMES)) }
}
impl<'de> DeserializeSeed<'de> for VarName {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> { d.deserialize_identifier(self) }
}
struct EnumV<'a>(&'a [VSh]);
impl<'de> Visitor<'de> for EnumV<'_> {
    expecting!();
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Da, A::Error> {
        let (i, a) = a.variant_seed(VarName(self.0.len()))?;
        let d = match &self.0[i] {
            VSh::Unit => { a.unit_variant()?; Da::List(vec![]) }
            VSh::Tup(ts) => a.tuple_variant(ts.len(), TupV(ts))?,
            VSh::Struct(ts) => a.struct_variant(&FNAMES[..ts.len()], StructV(ts))?,
        };
        let Da::List(v) = d else { return Err(de::Error::custom("")) };
        Ok(Da::Var(i, v))
    }
}

pub const INTS: [(u8, bool); 12] = [(1, false), (2, false), (4, false), (8, false), (16, false), (0, false), (1, true), (2, true), (4, true), (8, true), (16, true), (0, true)];
fn leaf(few: bool) -> Sh {
    if few { return match pick(4) { 0 => Sh::Bool, 1 => Sh::Int(2, true), 2 => Sh::Unit, _ => Sh::Opt(Box::new(Sh::Int(1, false))) } }
    match pick(7) {
        0 => Sh::Bool, 1 => Sh::Char, 2 => Sh::Str, 3 => Sh::Bytes, 4 => Sh::Unit, 5 => Sh::UnitStruct,
        _ => { let (w, s) = one_of(&INTS); Sh::Int(w, s) }
    }
}
/// A container type whose first part is made by `child`.
fn container(child: &mut dyn FnMut() -> Sh) -> Sh {
    let list = |min: usize, child: &mut dyn FnMut() -> Sh| -> Vec<Sh> { let n = min + pick(3 - min); (0..n).map(|i| if i == 0 { child() } else { Sh::Bool }).collect() };
    match pick(7) {
        0 => Sh::Opt(Box::new(child())),
        1 => Sh::Seq(Box::new(child())),
        2 => Sh::Tup(list(1, child)),
        3 => Sh::TupStruct(list(0, child)),
        4 => Sh::Struct(list(0, child)),
        5 => { let k = if pick(2) == 0 { Sh::Str } else { Sh::Char }; Sh::Map(Box::new(k), Box::new(child())) }
        _ => {
            let v = match pick(3) { 0 => VSh::Tup(vec![child(), Sh::Bool]), 1 => VSh::Struct(list(0, child)), _ => VSh::Unit };
            // the same under names that options have
            match pick(3) { 0 => Sh::Enum(vec![v, VSh::Unit]), 1 => Sh::Enum(vec![VSh::Unit, v]), _ => Sh::Enum(vec![VSh::Unit, VSh::Unit, v]) }
        }
    }
}
/// Any type nested `depth` deep.
pub fn any_shape(depth: u32) -> Sh {
    match depth {
        0 => leaf(false),
        1 => container(&mut || leaf(false)),
        2 => container(&mut || container(&mut || leaf(true))),
        _ => container(&mut || container(&mut || container(&mut || Sh::Bool))),
    }
}
/// Data of the type.
pub fn any_data(t: &Sh, small: bool) -> Da {
    match t {
        Sh::Bool => Da::Bool(bit()),
        Sh::Char => Da::Char(crate::val::any_char()),
        Sh::Str => Da::Str(crate::val::any_str(if small { 1 } else { 2 })),
        Sh::Bytes => Da::Bytes(vec(pick(3))),
        Sh::Unit | Sh::UnitStruct => Da::Unit,
        Sh::F32 | Sh::F64 => Da::F,
        Sh::Int(w, s) => {
            let mut b = [0u8; 16];
            let w = if *w == 0 { 8 } else { *w as usize };
            fill(&mut b[..w]);
            let n = u128::from_le_bytes(b);
            let k = 128 - 8 * w as u32;
            if *s { Da::I(((n << k) as i128) >> k) } else { Da::U(n) }
        }
        Sh::Opt(t) => if pick(2) == 0 { Da::None } else { Da::Some(Box::new(any_data(t, small))) },
        Sh::Seq(t) => Da::List((0..pick(3)).map(|_| any_data(t, true)).collect()),
        Sh::Tup(ts) | Sh::TupStruct(ts) | Sh::Struct(ts) => Da::List(ts.iter().map(|t| any_data(t, small)).collect()),
        Sh::Map(k, t) => Da::Map((0..pick(3)).map(|i| (if i == 0 { any_data(k, true) } else { any_key(k) }, any_data(t, true))).collect()),
        Sh::Enum(vs) => {
            let i = pick(vs.len());
            Da::Var(i, match &vs[i] { VSh::Unit => vec![], VSh::Tup(ts) | VSh::Struct(ts) => ts.iter().map(|t| any_data(t, small)).collect() })
        }
    }
}
fn any_key(k: &Sh) -> Da { match k { Sh::Str => Da::Str("key".into()), Sh::Char => Da::Char('k'), k => any_data(k, true) } }
