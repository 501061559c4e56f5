//! Serialisation round trips, over a token format of our own, JSON and bincode (C15).
use crate::gen::*;
use bytedata::{ByteData, SharedBytes, StringData};
use covrt::engine::{Ctx, Kind, Module, Src};
use covrt::{ck, note};
use serde::de::{self, DeserializeSeed, Deserializer, SeqAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use serde::Deserialize;

pub const SERDE: Module = Module {
    name: "serde",
    rule: "a case is one content, serialised from a ByteData, SharedBytes or StringData in any representation through a recording serialiser (human-readable or not), JSON, a JSON value tree and bincode, alone and inside tuples, options and vectors, and deserialised into every type of its kind, borrowed and static, from a slice and from a reader; input memory of a static result is overwritten and released before the result is checked. The recorded form must equal that of another representation of the same content. Non-trivial: at least 3 bytes of content and at least 4 round trips.",
    run,
    guided: true,
    balance: true,
};
pub const TOKENS: Module = Module {
    name: "serdetok",
    rule: "a case is a token tree fed to a deserialisation of ByteData, SharedBytes or StringData (borrowed, static, deserialize_static_opt, deserialize_static_vec): bytes and text in transient, borrowed and owned form, sequences of integers of any width with truthful, absent or absurd size hints, numbers, characters, unit, none, some, newtype, map and enum tokens, errors in the middle; against a model of what each must give. A content of the right kind must come out unchanged, a wrong kind, an element outside 0..=255 or a failing sequence must be an error. Non-trivial: the token tree is a sequence, an option or is accepted with at least 15 bytes.",
    run: run_tokens,
    guided: true,
    balance: true,
};
pub const FOREIGN: Module = Module {
    name: "serdein",
    rule: "a case is a JSON text or a bincode input, correct and then damaged (bytes changed, cut, inserted), deserialised into ByteData, SharedBytes and StringData in every form, against String and a plain byte buffer type: same acceptance, same content. Non-trivial: the input is damaged or at least 15 bytes long.",
    run: run_foreign,
    guided: true,
    balance: true,
};

// ------------------------------------------------------------------ tokens
#[derive(Clone, Debug, PartialEq)]
enum T {
    Bytes(Vec<u8>),
    BorrowedBytes(&'static [u8]),
    ByteBuf(Vec<u8>),
    Str(String),
    BorrowedStr(&'static str),
    String(String),
    Seq(Vec<T>, Option<usize>),
    /// a sequence which fails after its elements
    BadSeq(Vec<T>),
    None,
    Some(Box<T>),
    Unit,
    Newtype(Box<T>),
    Bool(bool),
    Int(i128, u8),
    F64(f64),
    Char(char),
    Map(Vec<(T, T)>),
    Enum,
}
#[derive(Debug)]
struct Er(#[allow(dead_code)] String);
impl core::fmt::Display for Er {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Er {}
impl de::Error for Er {
    fn custom<D: core::fmt::Display>(m: D) -> Self {
        Er(m.to_string())
    }
}
impl ser::Error for Er {
    fn custom<D: core::fmt::Display>(m: D) -> Self {
        Er(m.to_string())
    }
}
struct De<'a>(&'a T, bool);
impl<'a> De<'a> {
    fn go<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Er> {
        match self.0 {
            // transient forms are gone when the visit returns
            T::Bytes(b) => {
                let mut x = b.clone();
                let r = v.visit_bytes(&x);
                x.fill(0xDD);
                drop(x);
                r
            }
            T::BorrowedBytes(b) => v.visit_borrowed_bytes(b),
            T::ByteBuf(b) => v.visit_byte_buf(b.clone()),
            T::Str(b) => {
                let x = b.clone();
                let r = v.visit_str(&x);
                let mut x = x.into_bytes();
                x.fill(b'~');
                drop(x);
                r
            }
            T::BorrowedStr(b) => v.visit_borrowed_str(b),
            T::String(b) => v.visit_string(b.clone()),
            T::Seq(l, h) => v.visit_seq(Seq(l, *h, false, self.1)),
            T::BadSeq(l) => v.visit_seq(Seq(l, None, true, self.1)),
            T::None => v.visit_none(),
            T::Some(t) => v.visit_some(De(t, self.1)),
            T::Unit => v.visit_unit(),
            T::Newtype(t) => v.visit_newtype_struct(De(t, self.1)),
            T::Bool(b) => v.visit_bool(*b),
            T::Int(n, w) => match w {
                0 => v.visit_u8(*n as u8),
                1 => v.visit_u16(*n as u16),
                2 => v.visit_u32(*n as u32),
                3 => v.visit_u64(*n as u64),
                4 => v.visit_u128(*n as u128),
                5 => v.visit_i8(*n as i8),
                6 => v.visit_i16(*n as i16),
                7 => v.visit_i32(*n as i32),
                8 => v.visit_i64(*n as i64),
                _ => v.visit_i128(*n),
            },
            T::F64(x) if *x == 1.0 => v.visit_f32(*x as f32),
            T::F64(x) => v.visit_f64(*x),
            T::Char(c) => v.visit_char(*c),
            T::Map(m) => v.visit_map(de::value::MapDeserializer::new(m.iter().map(|(k, x)| (IntoDe(k, self.1), IntoDe(x, self.1))))),
            T::Enum => v.visit_enum(de::value::StrDeserializer::<Er>::new("Variant")),
        }
    }
}
struct IntoDe<'a>(&'a T, bool);
impl<'a> de::IntoDeserializer<'static, Er> for IntoDe<'a> {
    type Deserializer = De<'a>;
    fn into_deserializer(self) -> De<'a> {
        De(self.0, self.1)
    }
}
struct Seq<'a>(&'a [T], Option<usize>, bool, bool);
impl<'a> SeqAccess<'static> for Seq<'a> {
    type Error = Er;
    fn next_element_seed<S: DeserializeSeed<'static>>(&mut self, s: S) -> Result<Option<S::Value>, Er> {
        match self.0.split_first() {
            Some((a, r)) => {
                self.0 = r;
                s.deserialize(De(a, self.3)).map(Some)
            }
            None if self.2 => Err(Er("the sequence broke off".into())),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.1
    }
}
impl<'a> Deserializer<'static> for De<'a> {
    type Error = Er;
    fn deserialize_any<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Er> {
        self.go(v)
    }
    fn is_human_readable(&self) -> bool {
        self.1
    }
    serde::forward_to_deserialize_any! {
        <V: Visitor<'static>>
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
/// Records what is serialised as tokens.
struct Se(bool);
macro_rules! no {
    ($($f:ident($($t:ty),*);)*) => {
        $(fn $f(self $(, _: $t)*) -> Result<T, Er> { Err(Er(stringify!($f).into())) })*
    };
}
struct SeSeq(Vec<T>, Option<usize>, bool);
impl ser::SerializeSeq for SeSeq {
    type Ok = T;
    type Error = Er;
    fn serialize_element<X: ?Sized + Serialize>(&mut self, x: &X) -> Result<(), Er> {
        self.0.push(x.serialize(Se(self.2))?);
        Ok(())
    }
    fn end(self) -> Result<T, Er> {
        Ok(T::Seq(self.0, self.1))
    }
}
impl ser::SerializeTuple for SeSeq {
    type Ok = T;
    type Error = Er;
    fn serialize_element<X: ?Sized + Serialize>(&mut self, x: &X) -> Result<(), Er> {
        self.0.push(x.serialize(Se(self.2))?);
        Ok(())
    }
    fn end(self) -> Result<T, Er> {
        Ok(T::Seq(self.0, self.1))
    }
}
impl Serializer for Se {
    type Ok = T;
    type Error = Er;
    type SerializeSeq = SeSeq;
    type SerializeTuple = SeSeq;
    type SerializeTupleStruct = ser::Impossible<T, Er>;
    type SerializeTupleVariant = ser::Impossible<T, Er>;
    type SerializeMap = ser::Impossible<T, Er>;
    type SerializeStruct = ser::Impossible<T, Er>;
    type SerializeStructVariant = ser::Impossible<T, Er>;
    fn is_human_readable(&self) -> bool {
        self.0
    }
    no! { serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); serialize_bool(bool); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); }
    fn serialize_u8(self, v: u8) -> Result<T, Er> {
        Ok(T::Int(v.into(), 0))
    }
    fn serialize_str(self, v: &str) -> Result<T, Er> {
        Ok(T::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<T, Er> {
        Ok(T::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> Result<T, Er> {
        Ok(T::None)
    }
    fn serialize_some<X: ?Sized + Serialize>(self, x: &X) -> Result<T, Er> {
        Ok(T::Some(Box::new(x.serialize(Se(self.0))?)))
    }
    fn serialize_unit(self) -> Result<T, Er> {
        Ok(T::Unit)
    }
    fn serialize_newtype_struct<X: ?Sized + Serialize>(self, _: &'static str, x: &X) -> Result<T, Er> {
        x.serialize(self)
    }
    fn serialize_newtype_variant<X: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &X) -> Result<T, Er> {
        Err(Er("variant".into()))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<SeSeq, Er> {
        Ok(SeSeq(Vec::new(), n, self.0))
    }
    fn serialize_tuple(self, n: usize) -> Result<SeSeq, Er> {
        Ok(SeSeq(Vec::new(), Some(n), self.0))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Er> {
        Err(Er("tuple struct".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Er> {
        Err(Er("tuple variant".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Er> {
        Err(Er("map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Er> {
        Err(Er("struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Er> {
        Err(Er("struct variant".into()))
    }
}

// ------------------------------------------------------------------ what can be deserialised
/// Wrappers which use the `deserialize_static*` functions.
struct BS(ByteData<'static>);
struct SS(StringData<'static>);
struct BO(Option<ByteData<'static>>);
struct SO(Option<StringData<'static>>);
struct BV(Vec<ByteData<'static>>);
struct SV(Vec<StringData<'static>>);
macro_rules! wrap {
    ($t:ident, $f:expr) => {
        impl<'de> Deserialize<'de> for $t {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                $f(d).map($t)
            }
        }
    };
}
wrap!(BS, ByteData::deserialize_static);
wrap!(SS, StringData::deserialize_static);
wrap!(BO, ByteData::deserialize_static_opt);
wrap!(SO, StringData::deserialize_static_opt);
wrap!(BV, ByteData::deserialize_static_vec);
wrap!(SV, StringData::deserialize_static_vec);
/// The reference for byte types.
#[derive(Debug, PartialEq)]
struct Ref(Vec<u8>);
struct RefV;
impl<'de> Visitor<'de> for RefV {
    type Value = Ref;
    fn expecting(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Ref, E> {
        Ok(Ref(v.to_vec()))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Ref, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element::<u8>()? {
            v.push(x);
        }
        Ok(Ref(v))
    }
}
impl<'de> Deserialize<'de> for Ref {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_byte_buf(RefV)
    }
}

// ------------------------------------------------------------------ round trips
#[inline(never)]
pub fn run(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let text = s.bool();
    let mut trips = 0;
    let c = if text { gen_text(s).into_bytes() } else { gen_bytes(s) };
    note!(cx, "{:?}{}", Sh(&c), if text { " as text" } else { "" });
    for _ in 0..s.range(1, 6) {
        if s.exhausted() {
            break;
        }
        let human = s.bool();
        if text {
            let t = core::str::from_utf8(&c).unwrap();
            let (v, how) = gen_sd(s, cx, &ar, t);
            let (w, _) = gen_sd(s, cx, &ar, t);
            note!(cx, "StringData ({how})");
            trip_text(s, cx, &v, &w, t, human);
        } else {
            match s.usize(2) {
                0 => {
                    let (v, m) = gen_bd(s, cx, &ar, &c);
                    let (w, _) = gen_bd(s, cx, &ar, &c);
                    note!(cx, "ByteData ({})", m.how);
                    trip_bytes(s, cx, &v, &w, &c, human);
                }
                _ => {
                    let (v, how) = gen_shared(s, &c);
                    let (w, _) = gen_shared(s, &c);
                    note!(cx, "SharedBytes ({how})");
                    trip_bytes(s, cx, &v, &w, &c, human);
                }
            }
        }
        trips += 1;
    }
    if c.len() >= 3 && trips >= 4 {
        cx.nontrivial();
    }
    ar.check_owners(cx);
}
fn ok<X, E: core::fmt::Display>(cx: &mut Ctx, what: &str, r: Result<X, E>) -> X {
    match r {
        Ok(x) => x,
        Err(e) => cx.fail(Kind::Content, format!("{what} fails: {e}")),
    }
}
/// Overwrites and releases the input.
fn wipe(mut v: Vec<u8>) {
    v.fill(0xDD);
}
#[inline(never)]
fn trip_bytes<V: Serialize>(s: &mut Src, cx: &mut Ctx, v: &V, w: &V, c: &[u8], human: bool) {
    let t = ok(cx, "serialising", v.serialize(Se(human)));
    let u = ok(cx, "serialising", w.serialize(Se(human)));
    ck!(cx, Content, t == u, "the same bytes are serialised as {t:?} and {u:?} from different representations");
    macro_rules! is {
        ($x:expr, $what:expr) => {{
            let x = $x;
            ck!(cx, Content, x.as_slice() == c, "{} gives {:?}, must give {:?}", $what, Sh(x.as_slice()), Sh(c));
        }};
    }
    match s.usize(8) {
        0 => {
            note!(cx, "tokens");
            is!(ok(cx, "ByteData from tokens", ByteData::deserialize(De(&t, human))), "ByteData from tokens");
            is!(ok(cx, "ByteData from tokens", ByteData::deserialize_static(De(&t, human))), "static ByteData from tokens");
            is!(ok(cx, "SharedBytes from tokens", SharedBytes::deserialize(De(&t, human))), "SharedBytes from tokens");
        }
        1 => {
            note!(cx, "JSON");
            let j = ok(cx, "to JSON", serde_json::to_vec(v));
            ck!(cx, Content, j == serde_json::to_vec(w).unwrap(), "the same bytes give different JSON");
            is!(ok(cx, "ByteData from JSON", serde_json::from_slice::<ByteData<'_>>(&j)), "ByteData from JSON");
            is!(ok(cx, "SharedBytes from JSON", serde_json::from_slice::<SharedBytes>(&j)), "SharedBytes from JSON");
            let x = ok(cx, "ByteData from JSON", serde_json::from_slice::<BS>(&j)).0;
            wipe(j);
            is!(x, "static ByteData from JSON");
        }
        2 => {
            note!(cx, "JSON value");
            let j = ok(cx, "to a JSON value", serde_json::to_value(v));
            is!(ok(cx, "ByteData from a JSON value", serde_json::from_value::<BS>(j.clone())).0, "ByteData from a JSON value");
            is!(ok(cx, "ByteData from a JSON value", ByteData::deserialize(&j)), "ByteData from a JSON value");
            is!(ok(cx, "SharedBytes from a JSON value", serde_json::from_value::<SharedBytes>(j)), "SharedBytes from a JSON value");
        }
        3 => {
            note!(cx, "bincode");
            let j = ok(cx, "to bincode", bincode::serialize(v));
            is!(ok(cx, "ByteData from bincode", bincode::deserialize::<ByteData<'_>>(&j)), "ByteData from bincode");
            is!(ok(cx, "SharedBytes from bincode", bincode::deserialize::<SharedBytes>(&j)), "SharedBytes from bincode");
            let x = ok(cx, "ByteData from bincode", bincode::deserialize::<BS>(&j)).0;
            wipe(j);
            is!(x, "static ByteData from bincode");
        }
        4 => {
            note!(cx, "bincode reader");
            let j = ok(cx, "to bincode", bincode::serialize(v));
            let x = ok(cx, "ByteData from a reader", bincode::deserialize_from::<_, BS>(&j[..])).0;
            let y = ok(cx, "SharedBytes from a reader", bincode::deserialize_from::<_, SharedBytes>(&j[..]));
            wipe(j);
            is!(x, "ByteData from a reader");
            is!(y, "SharedBytes from a reader");
        }
        5 => {
            note!(cx, "bincode of a tuple");
            let j = ok(cx, "to bincode", bincode::serialize(&(7_u8, v, Some(w), vec![v, w], 9_u16)));
            type Tu<'a> = (u8, ByteData<'a>, Option<SharedBytes>, Vec<ByteData<'a>>, u16);
            {
                let x = ok(cx, "a tuple from bincode", bincode::deserialize::<Tu<'_>>(&j));
                ck!(cx, Content, x.0 == 7 && x.4 == 9 && x.3.len() == 2, "what is around a ByteData comes back as {} {} {}", x.0, x.4, x.3.len());
                is!(x.1, "ByteData in a tuple");
                is!(x.2.unwrap_or_else(SharedBytes::empty), "SharedBytes in an option");
                for y in &x.3 {
                    is!(y, "ByteData in a vector");
                }
            }
            let x = ok(cx, "a tuple from bincode", bincode::deserialize::<(u8, BS, BO, BV, u16)>(&j));
            wipe(j);
            is!(x.1 .0, "static ByteData in a tuple");
            ck!(cx, Content, x.2 .0.as_ref().is_some_and(|x| x.as_slice() == c), "deserialize_static_opt gives {:?}", x.2 .0);
            ck!(cx, Content, x.3 .0.len() == 2 && x.3 .0.iter().all(|x| x.as_slice() == c) && x.4 == 9, "deserialize_static_vec gives {:?}", x.3 .0);
        }
        6 => {
            note!(cx, "JSON of a tuple");
            let j = ok(cx, "to JSON", serde_json::to_vec(&(v, Some(w), None::<&V>, vec![w, v])));
            let x = ok(cx, "a tuple from JSON", serde_json::from_slice::<(BS, BO, BO, BV)>(&j));
            {
            let y = ok(cx, "a tuple from JSON", serde_json::from_slice::<(ByteData<'_>, Option<ByteData<'_>>, Option<SharedBytes>, Vec<SharedBytes>)>(&j));
            ck!(cx, Content, y.0.as_slice() == c && y.1.is_some_and(|x| x.as_slice() == c) && y.2.is_none() && y.3.len() == 2 && y.3.iter().all(|x| x.as_slice() == c), "a tuple comes back wrong from JSON");
            }
            wipe(j);
            is!(x.0 .0, "static ByteData in a tuple");
            ck!(cx, Content, x.1 .0.as_ref().is_some_and(|x| x.as_slice() == c), "deserialize_static_opt gives {:?}", x.1 .0);
            ck!(cx, Content, x.2 .0.is_none(), "deserialize_static_opt of null gives {:?}", x.2 .0);
            ck!(cx, Content, x.3 .0.len() == 2 && x.3 .0.iter().all(|x| x.as_slice() == c), "deserialize_static_vec gives {:?}", x.3 .0);
        }
        _ => {
            note!(cx, "to and from a vector");
            // what is serialised can be read by others, and the other way round
            let j = ok(cx, "to bincode", bincode::serialize(v));
            let x: Vec<u8> = ok(cx, "Vec from bincode", bincode::deserialize(&j));
            ck!(cx, Content, x == c, "a vector read from it is {:?}, must be {:?}", Sh(&x), Sh(c));
            let j = bincode::serialize(&c.to_vec()).unwrap();
            is!(ok(cx, "ByteData from bincode of a vector", bincode::deserialize::<ByteData<'_>>(&j)), "ByteData from bincode of a vector");
        }
    }
}
#[inline(never)]
fn trip_text(s: &mut Src, cx: &mut Ctx, v: &StringData<'static>, w: &StringData<'static>, c: &str, human: bool) {
    let t = ok(cx, "serialising", v.serialize(Se(human)));
    let u = ok(cx, "serialising", w.serialize(Se(human)));
    ck!(cx, Content, t == u, "the same text is serialised as {t:?} and {u:?} from different representations");
    macro_rules! is {
        ($x:expr, $what:expr) => {{
            let x = $x;
            ck!(cx, Content, x.as_str() == c, "{} gives {:?}, must give {:?}", $what, x.as_str(), c);
        }};
    }
    match s.usize(6) {
        0 => {
            note!(cx, "tokens");
            is!(ok(cx, "StringData from tokens", StringData::deserialize(De(&t, human))), "StringData from tokens");
            is!(ok(cx, "StringData from tokens", StringData::deserialize_static(De(&t, human))), "static StringData from tokens");
        }
        1 => {
            note!(cx, "JSON");
            let j = ok(cx, "to JSON", serde_json::to_vec(v));
            ck!(cx, Content, j == serde_json::to_vec(c).unwrap(), "the JSON of a StringData is not that of its text");
            is!(ok(cx, "StringData from JSON", serde_json::from_slice::<StringData<'_>>(&j)), "StringData from JSON");
            let x = ok(cx, "StringData from JSON", serde_json::from_slice::<SS>(&j)).0;
            wipe(j);
            is!(x, "static StringData from JSON");
        }
        2 => {
            note!(cx, "JSON value");
            let j = ok(cx, "to a JSON value", serde_json::to_value(v));
            is!(ok(cx, "StringData from a JSON value", StringData::deserialize(&j)), "StringData from a JSON value");
            is!(ok(cx, "StringData from a JSON value", serde_json::from_value::<SS>(j)).0, "StringData from a JSON value");
        }
        3 => {
            note!(cx, "bincode");
            let j = ok(cx, "to bincode", bincode::serialize(v));
            ck!(cx, Content, j == bincode::serialize(c).unwrap(), "the bincode of a StringData is not that of its text");
            is!(ok(cx, "StringData from bincode", bincode::deserialize::<StringData<'_>>(&j)), "StringData from bincode");
            let x = ok(cx, "StringData from bincode", bincode::deserialize::<SS>(&j)).0;
            let y = ok(cx, "StringData from a reader", bincode::deserialize_from::<_, SS>(&j[..])).0;
            wipe(j);
            is!(x, "static StringData from bincode");
            is!(y, "StringData from a reader");
        }
        4 => {
            note!(cx, "JSON of a tuple");
            let j = ok(cx, "to JSON", serde_json::to_vec(&(v, Some(w), None::<StringData<'_>>, vec![w, v])));
            {
                let y = ok(cx, "a tuple from JSON", serde_json::from_slice::<(StringData<'_>, Option<StringData<'_>>, Option<StringData<'_>>, Vec<StringData<'_>>)>(&j));
                ck!(cx, Content, y.0.as_str() == c && y.1.is_some_and(|x| x.as_str() == c) && y.2.is_none() && y.3.len() == 2 && y.3.iter().all(|x| x.as_str() == c), "a tuple comes back wrong from JSON");
            }
            let x = ok(cx, "a tuple from JSON", serde_json::from_slice::<(SS, SO, SO, SV)>(&j));
            wipe(j);
            is!(x.0 .0, "static StringData in a tuple");
            ck!(cx, Content, x.1 .0.as_ref().is_some_and(|x| x.as_str() == c), "deserialize_static_opt gives {:?}", x.1 .0);
            ck!(cx, Content, x.2 .0.is_none(), "deserialize_static_opt of null gives {:?}", x.2 .0);
            ck!(cx, Content, x.3 .0.len() == 2 && x.3 .0.iter().all(|x| x.as_str() == c), "deserialize_static_vec gives {:?}", x.3 .0);
        }
        _ => {
            note!(cx, "bincode of a tuple");
            let j = ok(cx, "to bincode", bincode::serialize(&(7_u8, v, Some(w), vec![v, w], 9_u16)));
            let x = ok(cx, "a tuple from bincode", bincode::deserialize::<(u8, SS, SO, SV, u16)>(&j));
            let y = ok(cx, "Strings from bincode", bincode::deserialize::<(u8, String, Option<String>, Vec<String>, u16)>(&j));
            ck!(cx, Content, y.0 == 7 && y.1 == c && y.2.as_deref() == Some(c) && y.3 == [c, c] && y.4 == 9, "Strings come back wrong from a tuple of StringData");
            wipe(j);
            is!(x.1 .0, "static StringData in a tuple");
            ck!(cx, Content, x.2 .0.as_ref().is_some_and(|x| x.as_str() == c), "deserialize_static_opt gives {:?}", x.2 .0);
            ck!(cx, Content, x.3 .0.len() == 2 && x.3 .0.iter().all(|x| x.as_str() == c) && x.4 == 9, "deserialize_static_vec gives {:?}", x.3 .0);
        }
    }
}

// ------------------------------------------------------------------ token trees
#[inline(never)]
fn gen_tok(s: &mut Src, ar: &Arena, depth: usize, text: bool) -> T {
    let sub = |s: &mut Src| gen_tok(s, ar, depth.saturating_sub(1), text);
    match s.weighted(&[6, 6, 6, 3, 3, 3, if depth > 0 { 8 } else { 0 }, 4, 1, 1, if depth > 0 { 4 } else { 0 }, 1, 1, 1, 1, 1, 1, 1, 1]) {
        0 if text => T::Str(gen_text(s)),
        1 if text => T::BorrowedStr(ar.str(&gen_text(s))),
        2 if text => T::String(gen_text(s)),
        3 if text => T::Bytes(gen_bytes_small(s)),
        4 if text => T::BorrowedBytes(ar.bytes(&gen_bytes_small(s))),
        5 if text => T::ByteBuf(gen_bytes_small(s)),
        0 => T::Bytes(gen_bytes(s)),
        1 => T::BorrowedBytes(ar.bytes(&gen_bytes(s))),
        2 => T::ByteBuf(gen_bytes(s)),
        3 => T::Str(gen_text_small(s)),
        4 => T::BorrowedStr(ar.str(&gen_text_small(s))),
        5 => T::String(gen_text_small(s)),
        6 => {
            let n = s.usize(4);
            let l: Vec<T> = (0..n).map(|_| sub(s)).collect();
            if s.ratio(1, 8) {
                T::BadSeq(l)
            } else {
                T::Seq(l, gen_hint(s, n))
            }
        }
        7 => {
            // bytes as numbers
            let c = gen_bytes_small(s);
            let w = s.usize(10) as u8;
            let mut l: Vec<T> = c.iter().map(|b| T::Int((*b).min(if w == 5 { 127 } else { 255 }).into(), w)).collect();
            if s.ratio(1, 5) {
                let bad = [T::Int(256, 3), T::Int(-1, 8), T::Int(-1, 5), T::Int(1 << 70, 9), T::Int(65536, 2), T::F64(1.0), T::Unit, T::Str("a".into()), T::Bool(true), T::Bytes(vec![1])];
                let at = s.usize(l.len() + 1);
                let bad = s.pick(&bad).clone();
                l.insert(at, bad);
            }
            let n = l.len();
            if s.ratio(1, 10) {
                return T::BadSeq(l);
            }
            T::Seq(l, gen_hint(s, n))
        }
        8 => T::None,
        9 => T::Unit,
        10 => T::Some(Box::new(sub(s))),
        11 => T::Newtype(Box::new(sub(s))),
        12 => T::Bool(s.bool()),
        13 => {
            let w = s.usize(10) as u8;
            T::Int(s.below(128).into(), w)
        }
        14 => T::F64(1.5),
        15 => T::Char(CHARS[s.usize(CHARS.len())]),
        16 => T::Map(vec![(T::Str("k".into()), T::Bytes(vec![1]))]),
        17 => T::Enum,
        _ => T::Int(s.below(256).into(), 0),
    }
}
/// What a sequence of `n` items says of its length.
fn gen_hint(s: &mut Src, n: usize) -> Option<usize> {
    match s.usize(7) {
        0 => None,
        1 => Some(0),
        2 => Some(usize::MAX),
        3 => Some(n + 7),
        4 => Some(n / 2),
        5 => Some(n.saturating_sub(1)),
        _ => Some(n),
    }
}
/// What a token means: bytes, text, none of both.
#[derive(Debug, PartialEq)]
enum M {
    /// must be accepted with this content
    Is(Vec<u8>),
    /// may be refused, but if it is accepted it has this content
    May(Vec<u8>),
    Err,
    /// anything goes: the library documents nothing
    Free,
}
fn mean_bytes(t: &T) -> M {
    match t {
        T::Bytes(b) | T::ByteBuf(b) => M::Is(b.clone()),
        T::BorrowedBytes(b) => M::Is(b.to_vec()),
        T::Str(b) | T::String(b) => M::May(b.as_bytes().to_vec()),
        T::BorrowedStr(b) => M::May(b.as_bytes().to_vec()),
        T::Seq(l, _) => {
            let mut v = Vec::new();
            // serde's own u8 takes no 128-bit integers
            let mut wide = false;
            for x in l {
                match x {
                    T::Int(n, w) if (0..256).contains(n) => {
                        wide |= matches!(w, 4 | 9);
                        v.push(*n as u8)
                    }
                    _ => return M::Err,
                }
            }
            if wide {
                M::May(v)
            } else {
                M::Is(v)
            }
        }
        T::Newtype(_) => M::Free,
        _ => M::Err,
    }
}
fn mean_text(t: &T) -> M {
    match t {
        T::Str(b) | T::String(b) => M::Is(b.as_bytes().to_vec()),
        T::BorrowedStr(b) => M::Is(b.as_bytes().to_vec()),
        T::Bytes(b) | T::ByteBuf(b) if core::str::from_utf8(b).is_ok() => M::May(b.clone()),
        T::BorrowedBytes(b) if core::str::from_utf8(b).is_ok() => M::May(b.to_vec()),
        T::Char(c) => M::May(c.to_string().into_bytes()),
        T::Newtype(_) => M::Free,
        _ => M::Err,
    }
}
fn judge(cx: &mut Ctx, what: &str, got: Result<Vec<u8>, Er>, m: &M) {
    match (got, m) {
        (_, M::Free) => {}
        (Ok(g), M::Is(w) | M::May(w)) => ck!(cx, Content, g == *w, "{what} gives {:?}, must give {:?}", Sh(&g), Sh(w)),
        (Err(_), M::Err | M::May(_)) => {}
        (Ok(g), M::Err) => cx.fail(Kind::Content, format!("{what} gives {:?}, must be an error", Sh(&g))),
        (Err(e), M::Is(w)) => cx.fail(Kind::Content, format!("{what} fails with {e}, must give {:?}", Sh(w))),
    }
}
fn utf8(cx: &mut Ctx, v: &StringData<'_>) -> Vec<u8> {
    let b = v.as_str().as_bytes();
    ck!(cx, Utf8, core::str::from_utf8(b).is_ok(), "a StringData holds {:?}, which is not UTF-8", Sh(b));
    b.to_vec()
}
#[inline(never)]
pub fn run_tokens(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let text = s.bool();
    let t = gen_tok(s, &ar, 3, text);
    let human = s.bool();
    note!(cx, "{t:?}");
    if matches!(&t, T::Seq(..) | T::BadSeq(_) | T::Some(_)) {
        cx.nontrivial();
    }
    let vec_of = |t: &T| match t {
        T::Seq(l, _) => Some(l.clone()),
        _ => None,
    };
    let opt_of = |t: &T| match t {
        T::None | T::Unit => None,
        T::Some(t) => Some((**t).clone()),
        t => Some(t.clone()),
    };
    let m = mean_bytes(&t);
    if matches!(&m, M::Is(v) if v.len() >= 15) {
        cx.nontrivial();
    }
    judge(cx, "ByteData::deserialize", ByteData::deserialize(De(&t, human)).map(|x| x.as_slice().to_vec()), &m);
    judge(cx, "ByteData::deserialize_static", ByteData::deserialize_static(De(&t, human)).map(|x| x.as_slice().to_vec()), &m);
    judge(cx, "SharedBytes::deserialize", SharedBytes::deserialize(De(&t, human)).map(|x| x.as_slice().to_vec()), &m);
    let m = mean_text(&t);
    if matches!(&m, M::Is(v) if v.len() >= 15) {
        cx.nontrivial();
    }
    let g = StringData::deserialize(De(&t, human)).map(|x| utf8(cx, &x));
    judge(cx, "StringData::deserialize", g, &m);
    let g = StringData::deserialize_static(De(&t, human)).map(|x| utf8(cx, &x));
    judge(cx, "StringData::deserialize_static", g, &m);
    // options
    let g = ByteData::deserialize_static_opt(De(&t, human));
    let o = opt_of(&t);
    match (g, &o) {
        (Ok(None), None) => {}
        (Ok(Some(g)), Some(o)) => judge(cx, "ByteData::deserialize_static_opt", Ok(g.as_slice().to_vec()), &mean_bytes(o)),
        (Err(e), Some(o)) => judge(cx, "ByteData::deserialize_static_opt", Err(e), &mean_bytes(o)),
        (g, o) => cx.fail(Kind::Content, format!("ByteData::deserialize_static_opt gives {g:?} for {o:?}")),
    }
    let g = StringData::deserialize_static_opt(De(&t, human));
    match (g, &o) {
        (Ok(None), None) => {}
        (Ok(Some(g)), Some(o)) => {
            let g = utf8(cx, &g);
            judge(cx, "StringData::deserialize_static_opt", Ok(g), &mean_text(o))
        }
        (Err(e), Some(o)) => judge(cx, "StringData::deserialize_static_opt", Err(e), &mean_text(o)),
        (g, o) => cx.fail(Kind::Content, format!("StringData::deserialize_static_opt gives {g:?} for {o:?}")),
    }
    // vectors
    let g = ByteData::deserialize_static_vec(De(&t, human));
    judge_vec(cx, "ByteData::deserialize_static_vec", g.map(|v| v.iter().map(|x| x.as_slice().to_vec()).collect()), vec_of(&t), mean_bytes, matches!(t, T::Newtype(_)));
    let g = StringData::deserialize_static_vec(De(&t, human)).map(|v| v.iter().map(|x| utf8(cx, x)).collect());
    judge_vec(cx, "StringData::deserialize_static_vec", g, vec_of(&t), mean_text, matches!(t, T::Newtype(_)));
    drop((t, o));
    ar.check_owners(cx);
}
fn judge_vec(cx: &mut Ctx, what: &str, got: Result<Vec<Vec<u8>>, Er>, want: Option<Vec<T>>, mean: fn(&T) -> M, free: bool) {
    if free {
        return;
    }
    match (got, want) {
        (Ok(g), Some(w)) => {
            ck!(cx, Content, g.len() == w.len(), "{what} gives {} items for {}", g.len(), w.len());
            for (g, w) in g.into_iter().zip(&w) {
                judge(cx, what, Ok(g), &mean(w));
            }
        }
        (Err(e), Some(w)) => ck!(cx, Content, w.iter().any(|x| !matches!(mean(x), M::Is(_))), "{what} fails with {e} on {} good items", w.len()),
        (Err(_), None) => {}
        (Ok(g), None) => cx.fail(Kind::Content, format!("{what} gives {g:?}, must be an error")),
    }
}

// ------------------------------------------------------------------ damaged input
#[inline(never)]
pub fn run_foreign(s: &mut Src, cx: &mut Ctx) {
    let json = s.bool();
    let text = s.bool();
    let c = if text { gen_text_small(s).into_bytes() } else { gen_bytes_small(s) };
    let mut j = match (json, text) {
        (true, true) => {
            let t = String::from_utf8(c).unwrap();
            let mut j = serde_json::to_string(&t).unwrap();
            if s.bool() {
                // with escapes, so that the text is not borrowed
                let e = *s.pick(&["\\u00e9", "\\ud83d\\ude00", "\\n", "\\/", "\\ud800", "\\u0000"]);
                let mut at = 1 + s.usize(j.len() - 1);
                while !j.is_char_boundary(at) {
                    at -= 1;
                }
                j.insert_str(at, e);
            }
            j.into_bytes()
        }
        (true, false) => serde_json::to_vec(&c).unwrap(),
        (false, true) => bincode::serialize(core::str::from_utf8(&c).unwrap()).unwrap(),
        (false, false) => bincode::serialize(&c).unwrap(),
    };
    let mut damaged = false;
    for _ in 0..s.usize(4) {
        damaged = true;
        match s.usize(4) {
            0 if !j.is_empty() => {
                let at = s.usize(j.len());
                j[at] = s.below(256) as u8;
            }
            1 => {
                let at = s.usize(j.len() + 1);
                j.truncate(at);
            }
            2 => {
                let at = s.usize(j.len() + 1);
                j.insert(at, *s.pick(b"\"[],0159 \\u{}n\x80\xff\xc3"));
            }
            _ if !j.is_empty() => {
                let at = s.usize(j.len());
                j.remove(at);
            }
            _ => {}
        }
    }
    // lengths which bincode would try to allocate for are not what is looked for here
    if !json && j.len() >= 8 && u64::from_le_bytes(j[..8].try_into().unwrap()) > 1 << 20 {
        j[2..8].fill(0);
    }
    note!(cx, "{} {:?}", if json { "JSON" } else { "bincode" }, Sh(&j));
    if damaged || j.len() >= 15 {
        cx.nontrivial();
    }
    macro_rules! both {
        ($t:ty, $r:ty, |$x:ident| $e:expr, |$y:ident| $f:expr) => {{
            let (g, w) = if json {
                (serde_json::from_slice::<$t>(&j).map(|$x| $e).map_err(|e| e.to_string()), serde_json::from_slice::<$r>(&j).map(|$y| $f).map_err(|e| e.to_string()))
            } else {
                (bincode::deserialize::<$t>(&j).map(|$x| $e).map_err(|e| e.to_string()), bincode::deserialize::<$r>(&j).map(|$y| $f).map_err(|e| e.to_string()))
            };
            match (&g, &w) {
                (Ok(g), Ok(w)) => ck!(cx, Content, g == w, "{} gives {g:?}, {} gives {w:?}", stringify!($t), stringify!($r)),
                (Err(_), Err(_)) => {}
                _ => cx.fail(Kind::Content, format!("{} gives {g:?}, {} gives {w:?}", stringify!($t), stringify!($r))),
            }
        }};
    }
    both!(ByteData<'_>, Ref, |x| x.as_slice().to_vec(), |y| y.0);
    both!(BS, Ref, |x| x.0.as_slice().to_vec(), |y| y.0);
    both!(SharedBytes, Ref, |x| x.as_slice().to_vec(), |y| y.0);
    both!(StringData<'_>, String, |x| utf8(cx, &x), |y| y.into_bytes());
    both!(SS, String, |x| utf8(cx, &x.0), |y| y.into_bytes());
    if json {
        both!(BO, Option<Ref>, |x| x.0.map(|x| x.as_slice().to_vec()), |y| y.map(|y| y.0));
        both!(SO, Option<String>, |x| x.0.map(|x| utf8(cx, &x)), |y| y.map(|y| y.into_bytes()));
        both!(BV, Vec<Ref>, |x| x.0.into_iter().map(|x| x.as_slice().to_vec()).collect::<Vec<_>>(), |y| y.into_iter().map(|y| y.0).collect::<Vec<_>>());
        both!(SV, Vec<String>, |x| x.0.into_iter().map(|x| utf8(cx, &x)).collect::<Vec<_>>(), |y| y.into_iter().map(|y| y.into_bytes()).collect::<Vec<_>>());
    }
}
