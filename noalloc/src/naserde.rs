//! Serialisation without alloc (C20): what is borrowed stays borrowed, what is short is held inline, what needs a heap is refused.
use crate::gen::*;
use bytedata::{ByteData, StringData};
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};
use serde::de::{self, Deserialize, IntoDeserializer, Visitor};
use serde::Serialize;

pub const SERDE: Module = Module {
    name: "naserde",
    rule: "a case is one to eight round trips of a content as ByteData or StringData: serialised by bincode and serde_json and compared with the plain slice and text, deserialised from borrowed, transient and owned bytes and text, from options, units, numbers, sequences and maps, through Deserialize, deserialize_static and deserialize_static_opt. Borrowed input gives a value which points into it (when longer than 14 bytes), transient input of up to 14 bytes a value which outlives it, longer transient input an error, anything else an error. Non-trivial: at least 3 round trips of at least 3 bytes.",
    run,
    guided: true,
    balance: true,
};
#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Transient,
    Borrowed,
    Owned,
    /// text where bytes are asked for, bytes where text is
    Other,
    None,
    Unit,
    Some,
    Int,
    Bool,
    Seq,
    Map,
}
use Form::*;
type Er = de::value::Error;
struct De<'a>(&'a [u8], bool, Form);
impl<'a> De<'a> {
    fn go<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Er> {
        let De(b, text, form) = self;
        let t = || core::str::from_utf8(b).unwrap();
        match form {
            // transient forms are gone when the visit returns
            Transient | Other if text == (form == Transient) && core::str::from_utf8(b).is_ok() => {
                let x = t().to_string();
                let r = v.visit_str(&x);
                x.into_bytes().fill(b'~');
                r
            }
            Transient | Other => {
                let mut x = b.to_vec();
                let r = v.visit_bytes(&x);
                x.fill(0xDD);
                r
            }
            Borrowed if text => v.visit_borrowed_str(t()),
            Borrowed => v.visit_borrowed_bytes(b),
            Owned if text => v.visit_string(t().to_string()),
            Owned => v.visit_byte_buf(b.to_vec()),
            None => v.visit_none(),
            Unit => v.visit_unit(),
            Some => v.visit_some(De(b, text, Borrowed)),
            Int => v.visit_u64(b.len() as u64),
            Bool => v.visit_bool(b.is_empty()),
            Seq => v.visit_seq(de::value::SeqDeserializer::new(b.iter().copied())),
            Map => v.visit_map(de::value::MapDeserializer::new(b.iter().map(|x| (*x, *x)))),
        }
    }
}
impl<'a> IntoDeserializer<'a, Er> for De<'a> {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}
impl<'de> de::Deserializer<'de> for De<'de> {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        self.go(v)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
/// What must come of a content in a form: the value, or an error.
fn judge(cx: &mut Ctx, what: &str, c: &[u8], form: Form, statik: bool, r: Result<(&[u8], bool), String>) {
    let short = c.len() <= 14;
    let want = match form {
        Borrowed => short || !statik,
        Transient | Owned => short,
        _ => false,
    };
    match r {
        Ok((x, utf)) => {
            ck!(cx, Utf8, utf, "{what} from {form:?} is {:?}, which is not text", Sh(x));
            ck!(cx, Content, want, "{what} from {form:?} of {} bytes must fail, gives {:?}", c.len(), Sh(x));
            ck!(cx, Content, x == c, "{what} from {form:?} gives {:?}, must give {:?}", Sh(x), Sh(c));
            if !short {
                ck!(cx, Alias, x.as_ptr() == c.as_ptr(), "{what} from {form:?} does not point into the input");
            }
        }
        Err(e) => ck!(cx, Content, !want, "{what} from {form:?} of {} bytes fails: {e}", c.len()),
    }
}
fn show<T>(r: Result<T, Er>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}
#[inline(never)]
fn run(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let mut trips = 0;
    for _ in 0..s.range(1, 8) {
        if s.exhausted() {
            break;
        }
        let text = s.bool();
        let c = if text { gen_text(s).into_bytes() } else { gen_bytes(s) };
        let p = ar.bytes(&c);
        trips += usize::from(c.len() >= 3);
        let form = [Transient, Borrowed, Owned, Other, None, Unit, Some, Int, Bool, Seq, Map][s.usize(11)];
        note!(cx, "{:?}{} as {form:?}", Sh(&c), if text { " (text)" } else { "" });
        match s.usize(4) {
            0 if text => {
                let r = show(StringData::deserialize(De(p, true, form)));
                // bytes which are text may be taken for text
                if form != Other {
                    judge(cx, "StringData", p, form, false, r.as_ref().map(|v| (v.as_bytes(), core::str::from_utf8(v.as_bytes()).is_ok())).map_err(Clone::clone));
                } else if let Ok(v) = &r {
                    ck!(cx, Content, v.as_bytes() == p, "StringData from bytes gives {:?}", Sh(v.as_bytes()));
                }
            }
            0 => {
                let r = show(ByteData::deserialize(De(p, false, form)));
                if form != Other {
                    judge(cx, "ByteData", p, form, false, r.as_ref().map(|v| (v.as_slice(), true)).map_err(Clone::clone));
                } else if let Ok(v) = &r {
                    ck!(cx, Content, v.as_slice() == p, "ByteData from text gives {:?}", Sh(v));
                }
            }
            1 if text => {
                let r = show(StringData::deserialize_static(De(p, true, form)));
                if form != Other {
                    judge(cx, "static StringData", p, form, true, r.as_ref().map(|v| (v.as_bytes(), core::str::from_utf8(v.as_bytes()).is_ok())).map_err(Clone::clone));
                }
            }
            1 => {
                let r = show(ByteData::deserialize_static(De(p, false, form)));
                if form != Other {
                    judge(cx, "static ByteData", p, form, true, r.as_ref().map(|v| (v.as_slice(), true)).map_err(Clone::clone));
                }
            }
            2 => {
                // an option: nothing, or the value
                let r: Result<Option<Vec<u8>>, String> = if text {
                    show(StringData::deserialize_static_opt(De(p, true, form))).map(|x| x.map(|x| x.as_bytes().to_vec()))
                } else {
                    show(ByteData::deserialize_static_opt(De(p, false, form))).map(|x| x.map(|x| x.as_slice().to_vec()))
                };
                match form {
                    None | Unit => ck!(cx, Content, r == Ok(Option::None), "an option from {form:?} gives {r:?}"),
                    Some => {
                        let w = c.len() <= 14;
                        ck!(cx, Content, r.is_ok() == w && (!w || r == Ok(Option::Some(c.clone()))), "an option from {form:?} of {:?} gives {r:?}", Sh(&c));
                    }
                    _ => {
                        if let Ok(x) = &r {
                            ck!(cx, Content, x.as_ref() == Option::Some(&c), "an option from {form:?} of {:?} gives {r:?}", Sh(&c));
                        }
                    }
                }
            }
            _ if text => {
                let t = ar.str(core::str::from_utf8(&c).unwrap());
                let (v, how) = gen_sd(s, cx, &ar, t);
                let j = serde_json::to_string(&v).unwrap();
                ck!(cx, Content, j == serde_json::to_string(t).unwrap(), "the StringData made with {how} is {j} in JSON");
                let b = bincode::serialize(&v).unwrap();
                ck!(cx, Content, b == bincode::serialize(t).unwrap(), "the StringData made with {how} differs from its text in bincode");
                match bincode::deserialize::<StringData<'_>>(&b) {
                    Ok(x) => {
                        ck!(cx, Content, x.as_str() == t, "StringData from bincode gives {:?}", Sh(x.as_bytes()));
                        ck!(cx, Alias, t.len() <= 14 || b.as_ptr_range().contains(&x.as_bytes().as_ptr()), "StringData from bincode is not borrowed");
                    }
                    Err(e) => ck!(cx, Content, false, "StringData from bincode fails: {e}"),
                }
                // a text in JSON is borrowed unless it has an escape
                let esc = j.contains('\\');
                let r = serde_json::from_str::<StringData<'_>>(&j);
                match r {
                    Ok(x) => ck!(cx, Content, x.as_str() == t, "StringData from JSON gives {:?}", Sh(x.as_bytes())),
                    Err(e) => ck!(cx, Content, esc && t.len() > 14, "StringData of {} bytes from JSON fails: {e}", t.len()),
                }
            }
            _ => {
                let (v, m) = gen_bd(s, cx, &ar, &c);
                let b = bincode::serialize(&v).unwrap();
                ck!(cx, Content, b == bincode::serialize(&c).unwrap(), "the ByteData made with {} differs from its bytes in bincode", m.how);
                match bincode::deserialize::<ByteData<'_>>(&b) {
                    Ok(x) => {
                        ck!(cx, Content, x.as_slice() == c, "ByteData from bincode gives {:?}", Sh(&x));
                        ck!(cx, Alias, c.len() <= 14 || b.as_ptr_range().contains(&x.as_slice().as_ptr()), "ByteData from bincode is not borrowed");
                    }
                    Err(e) => ck!(cx, Content, false, "ByteData from bincode fails: {e}"),
                }
                ck!(cx, Content, serde_json::to_vec(&v).unwrap() == serde_json::to_vec(&c).unwrap(), "the ByteData made with {} differs from its bytes in JSON", m.how);
                let _ = v.serialize(serde_json::value::Serializer);
            }
        }
    }
    if trips >= 3 {
        cx.nontrivial();
    }
}
