//! nom parsers and input operations against &[u8] and &str (C14).
use crate::gen::*;
use bytedata::{ByteData, ByteQueue, StringData, StringQueue};
use covrt::engine::{Ctx, Kind, Module, Src};
use covrt::{ck, note};
use nom::branch::alt;
use nom::error::{ErrorKind, VerboseError, VerboseErrorKind};
use nom::{Compare, FindSubstring, FindToken, HexDisplay, IResult, InputIter, InputLength, InputTake, InputTakeAtPosition, Slice};
use nom::{combinator as co, multi, sequence as sq};

pub const PARSE: Module = Module {
    name: "nomparse",
    rule: "a case is a short content (text with digits, letters, signs, line ends, multi-byte characters; or bytes) and a random parser of depth up to 4 built from nom's byte, character, number, bit, multi, branch and sequence combinators, complete and streaming, its tags and delimiters mostly cut from the content. It runs on a ByteData and a ByteQueue against &[u8] and, for text, on a StringData and a StringQueue against &str, the queues in several chunkings. Compared: output tree, rest, or kind of error (error, failure, incomplete with the need), with the whole stack of error kinds and the input left at each. Non-trivial: at least two elementary parsers, and the outcome was reached after some input was consumed, or was an error of a later part.",
    run: run_parse,
    guided: true,
    balance: true,
};
pub const OPS: Module = Module {
    name: "nomops",
    rule: "a case is a content in a ByteData, ByteQueue and, for text, StringData and StringQueue, and up to 12 single input operations on each (length, indices and elements, position, slice_index, take, take_split, the four splitting operations with any predicate, the four slices, compare and compare_no_case with every accepted type, substring and token search with every accepted type, hex display, as_bytes), with positions inside and outside the input, against &[u8] and &str including which calls panic. Non-trivial: at least 4 operations on at least 4 bytes.",
    run: run_ops,
    guided: true,
    balance: true,
};

#[derive(Clone, Debug)]
enum Pr {
    Set(String),
    NotSet(String),
    Digit,
    Alpha,
    Ws,
    Any,
    None,
    Hash(u32),
}
impl Pr {
    fn t(&self, c: u32) -> bool {
        let ch = char::from_u32(c).unwrap_or('\u{fffd}');
        match self {
            Pr::Set(s) => s.contains(ch),
            Pr::NotSet(s) => !s.contains(ch),
            Pr::Digit => ch.is_ascii_digit(),
            Pr::Alpha => ch.is_alphabetic(),
            Pr::Ws => ch.is_whitespace(),
            Pr::Any => true,
            Pr::None => false,
            Pr::Hash(k) => covrt::engine::mix(u64::from(c) ^ (u64::from(*k) << 32)) & 1 == 0,
        }
    }
}
#[derive(Clone, Debug)]
enum Tg {
    S(String),
    B(Vec<u8>),
}
#[derive(Clone, Debug)]
enum P {
    Tag(Tg),
    TagNoCase(Tg),
    IsA(String),
    IsNot(String),
    Take(usize),
    TakeWhile(Pr),
    TakeWhile1(Pr),
    TakeWhileMN(usize, usize, Pr),
    TakeTill(Pr),
    TakeTill1(Pr),
    TakeUntil(Tg),
    TakeUntil1(Tg),
    OneOf(String),
    NoneOf(String),
    Char(char),
    Satisfy(Pr),
    AnyChar,
    Class(usize),
    Int(usize),
    Num(usize),
    Bits(usize, usize),
    Rest,
    RestLen,
    Eof,
    Fail,
    Opt(Box<P>),
    Peek(Box<P>),
    Not(Box<P>),
    Cut(Box<P>),
    Complete(Box<P>),
    AllConsuming(Box<P>),
    Verify(usize, Box<P>),
    Many0(Box<P>),
    Many1(Box<P>),
    ManyMN(usize, usize, Box<P>),
    ManyTill(Box<P>, Box<P>),
    ManyCount(bool, Box<P>),
    Fold(bool, Box<P>),
    Sep(bool, Box<P>, Box<P>),
    Count(usize, Box<P>),
    LengthData,
    LengthValue(Box<P>),
    LengthCount(Box<P>),
    MapParser(Box<P>, Box<P>),
    FlatMap(Box<P>),
    Alt(Vec<P>),
    Seq(Vec<P>),
    Delimited(Box<P>, Box<P>, Box<P>),
    Preceded(Box<P>, Box<P>),
    Terminated(Box<P>, Box<P>),
    SepPair(Box<P>, Box<P>, Box<P>),
}
#[derive(Clone, PartialEq)]
enum Out {
    I(Vec<u8>),
    C(u32),
    N(u128),
    L(Vec<Out>),
    U,
}
impl core::fmt::Debug for Out {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        match self {
            Out::I(v) => write!(f, "{:?}", Sh(v)),
            Out::C(c) => write!(f, "'{}'", char::from_u32(*c).unwrap_or('?').escape_debug()),
            Out::N(n) => write!(f, "{n:#x}"),
            Out::L(l) => f.debug_list().entries(l).finish(),
            Out::U => write!(f, "()"),
        }
    }
}
trait Raw {
    fn raw(&self) -> Vec<u8>;
}
impl Raw for &[u8] {
    fn raw(&self) -> Vec<u8> {
        self.to_vec()
    }
}
impl Raw for &str {
    fn raw(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
}
impl Raw for ByteData<'static> {
    fn raw(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
}
impl Raw for StringData<'static> {
    fn raw(&self) -> Vec<u8> {
        self.as_str().as_bytes().to_vec()
    }
}
impl Raw for ByteQueue<'static> {
    fn raw(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.chunks().for_each(|c| v.extend_from_slice(c));
        if v.len() != self.len() || self.chunk_len() != self.chunks().count() {
            v.extend_from_slice(b"!inconsistent");
        }
        v
    }
}
impl Raw for StringQueue<'static> {
    fn raw(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.chunks().for_each(|c| v.extend_from_slice(c.as_bytes()));
        if v.len() != self.len() || core::str::from_utf8(&v).is_err() {
            v.extend_from_slice(b"!inconsistent");
        }
        v
    }
}
/// An outcome with nothing of the input type left in it.
#[derive(Clone, PartialEq, Debug)]
enum Res {
    Ok(Out, Vec<u8>),
    Incomplete(Option<usize>),
    Bad(&'static str, Vec<(Vec<u8>, String)>),
}
fn stack<I: Raw>(k: &'static str, e: VerboseError<I>) -> Res {
    Res::Bad(
        k,
        e.errors
            .into_iter()
            .map(|(i, k)| {
                (
                    i.raw(),
                    match k {
                        VerboseErrorKind::Char(c) => format!("char {c}"),
                        VerboseErrorKind::Nom(k) => format!("{k:?}"),
                        VerboseErrorKind::Context(c) => c.to_string(),
                    },
                )
            })
            .collect(),
    )
}
fn plain<I: Raw>(r: IResult<I, Out, VerboseError<I>>) -> Res {
    match r {
        Ok((rest, o)) => Res::Ok(o, rest.raw()),
        Err(nom::Err::Incomplete(nom::Needed::Unknown)) => Res::Incomplete(None),
        Err(nom::Err::Incomplete(nom::Needed::Size(n))) => Res::Incomplete(Some(n.get())),
        Err(nom::Err::Error(e)) => stack("error", e),
        Err(nom::Err::Failure(e)) => stack("failure", e),
    }
}
fn oi<I: Raw>((r, o): (I, I)) -> (I, Out) {
    let x = Out::I(o.raw());
    (r, x)
}
fn oc<I>((r, o): (I, char)) -> (I, Out) {
    (r, Out::C(o as u32))
}
fn on<I>((r, o): (I, usize)) -> (I, Out) {
    (r, Out::N(o as u128))
}
fn ol<I>((r, o): (I, Vec<Out>)) -> (I, Out) {
    (r, Out::L(o))
}

/// The same interpreter for every input type. `$st` tells which family of elementary parsers is used.
macro_rules! interp {
    ($name:ident, $I:ty, $item:ty, $num:ident) => {
        #[inline(never)]
        fn $name(p: &P, st: bool, i: $I) -> IResult<$I, Out, VerboseError<$I>> {
            use nom::bytes::{complete as bc, streaming as bs};
            use nom::character::{complete as cc, streaming as cs};
            type E<I> = VerboseError<I>;
            let pr = |q: &Pr| {
                let q = q.clone();
                move |c: $item| q.t(c as u32)
            };
            macro_rules! either {
                ($c:expr, $s:expr) => {
                    if st { $s(i) } else { $c(i) }
                };
            }
            macro_rules! tagged {
                ($c:path, $s:path, $t:expr) => {
                    match $t {
                        Tg::S(t) => either!($c(&t[..]), $s(&t[..])),
                        Tg::B(t) => either!($c(&t[..]), $s(&t[..])),
                    }
                };
            }
            let rec = |q: &P| {
                let q = q.clone();
                move |i: $I| $name(&q, st, i)
            };
            match p {
                P::Tag(t) => tagged!(bc::tag, bs::tag, t).map(oi),
                P::TagNoCase(t) => tagged!(bc::tag_no_case, bs::tag_no_case, t).map(oi),
                P::IsA(s) => either!(bc::is_a(&s[..]), bs::is_a(&s[..])).map(oi),
                P::IsNot(s) => either!(bc::is_not(&s[..]), bs::is_not(&s[..])).map(oi),
                P::Take(n) => either!(bc::take(*n), bs::take(*n)).map(oi),
                P::TakeWhile(q) => either!(bc::take_while(pr(q)), bs::take_while(pr(q))).map(oi),
                P::TakeWhile1(q) => either!(bc::take_while1(pr(q)), bs::take_while1(pr(q))).map(oi),
                P::TakeWhileMN(m, n, q) => either!(bc::take_while_m_n(*m, *n, pr(q)), bs::take_while_m_n(*m, *n, pr(q))).map(oi),
                P::TakeTill(q) => either!(bc::take_till(pr(q)), bs::take_till(pr(q))).map(oi),
                P::TakeTill1(q) => either!(bc::take_till1(pr(q)), bs::take_till1(pr(q))).map(oi),
                P::TakeUntil(Tg::S(t)) => either!(bc::take_until(&t[..]), bs::take_until(&t[..])).map(oi),
                P::TakeUntil1(Tg::S(t)) => either!(bc::take_until1(&t[..]), bs::take_until1(&t[..])).map(oi),
                P::TakeUntil(_) | P::TakeUntil1(_) => co::fail(i),
                P::OneOf(s) => either!(cc::one_of(&s[..]), cs::one_of(&s[..])).map(oc),
                P::NoneOf(s) => either!(cc::none_of(&s[..]), cs::none_of(&s[..])).map(oc),
                P::Char(c) => either!(cc::char(*c), cs::char(*c)).map(oc),
                P::Satisfy(q) => {
                    let q = q.clone();
                    either!(cc::satisfy(|c| q.t(c as u32)), cs::satisfy(|c| q.t(c as u32))).map(oc)
                }
                P::AnyChar => either!(cc::anychar, cs::anychar).map(oc),
                P::Class(k) => match k {
                    0 => either!(cc::alpha0, cs::alpha0).map(oi),
                    1 => either!(cc::alpha1, cs::alpha1).map(oi),
                    2 => either!(cc::digit0, cs::digit0).map(oi),
                    3 => either!(cc::digit1, cs::digit1).map(oi),
                    4 => either!(cc::alphanumeric0, cs::alphanumeric0).map(oi),
                    5 => either!(cc::alphanumeric1, cs::alphanumeric1).map(oi),
                    6 => either!(cc::hex_digit1, cs::hex_digit1).map(oi),
                    7 => either!(cc::oct_digit0, cs::oct_digit0).map(oi),
                    8 => either!(cc::space0, cs::space0).map(oi),
                    9 => either!(cc::space1, cs::space1).map(oi),
                    10 => either!(cc::multispace0, cs::multispace0).map(oi),
                    11 => either!(cc::multispace1, cs::multispace1).map(oi),
                    12 => either!(cc::line_ending, cs::line_ending).map(oi),
                    13 => either!(cc::not_line_ending, cs::not_line_ending).map(oi),
                    14 => either!(cc::crlf, cs::crlf).map(oi),
                    15 => either!(cc::newline, cs::newline).map(oc),
                    _ => either!(cc::tab, cs::tab).map(oc),
                },
                P::Int(k) => {
                    macro_rules! int {
                        ($t:ident) => {
                            either!(cc::$t, cs::$t).map(|(r, n)| (r, Out::N(n as u128)))
                        };
                    }
                    match k {
                        0 => int!(u8),
                        1 => int!(u16),
                        2 => int!(u32),
                        3 => int!(u64),
                        4 => int!(u128),
                        5 => int!(i8),
                        6 => int!(i16),
                        7 => int!(i32),
                        8 => int!(i64),
                        _ => int!(i128),
                    }
                }
                P::Rest => co::rest(i).map(oi),
                P::RestLen => co::rest_len(i).map(on),
                P::Eof => co::eof(i).map(oi),
                P::Fail => co::fail(i),
                P::Opt(a) => co::opt(rec(a))(i).map(|(r, o)| (r, Out::L(o.into_iter().collect()))),
                P::Peek(a) => co::peek(rec(a))(i),
                P::Not(a) => co::not(rec(a))(i).map(|(r, _)| (r, Out::U)),
                P::Cut(a) => co::cut(rec(a))(i),
                P::Complete(a) => co::complete(rec(a))(i),
                P::AllConsuming(a) => co::all_consuming(rec(a))(i),
                P::Verify(k, a) => co::verify(rec(a), |o: &Out| covrt::engine::mix(format!("{o:?}").len() as u64 + *k as u64) & 3 != 0)(i),
                P::Many0(a) => multi::many0(rec(a))(i).map(ol),
                P::Many1(a) => multi::many1(rec(a))(i).map(ol),
                P::ManyMN(m, n, a) => multi::many_m_n(*m, *n, rec(a))(i).map(ol),
                P::ManyTill(a, b) => multi::many_till(rec(a), rec(b))(i).map(|(r, (l, e))| (r, Out::L(vec![Out::L(l), e]))),
                P::ManyCount(one, a) => {
                    if *one {
                        multi::many1_count(rec(a))(i).map(on)
                    } else {
                        multi::many0_count(rec(a))(i).map(on)
                    }
                }
                P::Fold(one, a) => {
                    let f = |mut v: Vec<Out>, o| {
                        v.insert(0, o);
                        v
                    };
                    if *one {
                        multi::fold_many1(rec(a), Vec::new, f)(i).map(ol)
                    } else {
                        multi::fold_many0(rec(a), Vec::new, f)(i).map(ol)
                    }
                }
                P::Sep(one, s, a) => {
                    if *one {
                        multi::separated_list1(rec(s), rec(a))(i).map(ol)
                    } else {
                        multi::separated_list0(rec(s), rec(a))(i).map(ol)
                    }
                }
                P::Count(n, a) => multi::count(rec(a), *n)(i).map(ol),
                P::LengthData => multi::length_data(co::map(cc::anychar::<$I, E<$I>>, |c| c as usize & 15))(i).map(oi),
                P::LengthValue(a) => multi::length_value(co::map(cc::anychar::<$I, E<$I>>, |c| c as usize & 7), rec(a))(i),
                P::LengthCount(a) => multi::length_count(co::map(cc::anychar::<$I, E<$I>>, |c| c as usize & 3), rec(a))(i).map(ol),
                P::MapParser(a, b) => {
                    // the output of the first is the input of the second
                    let first = |i: $I| -> IResult<$I, $I, E<$I>> {
                        let (r, _) = $name(a, st, i.clone())?;
                        let k = i.input_len() - r.input_len();
                        Ok(if r == i.slice(k..) { i.take_split(k) } else { (r, i) })
                    };
                    co::map_parser(first, rec(b))(i)
                }
                P::FlatMap(a) => co::flat_map(co::map(cc::anychar::<$I, E<$I>>, |c| c as usize & 3), |n| multi::count(rec(a), n))(i).map(ol),
                P::Alt(v) => match v.len() {
                    1 => alt((rec(&v[0]), co::fail))(i),
                    2 => alt((rec(&v[0]), rec(&v[1])))(i),
                    _ => alt((rec(&v[0]), rec(&v[1]), rec(&v[2])))(i),
                },
                P::Seq(v) => {
                    let mut i = i;
                    let mut l = Vec::new();
                    for q in v {
                        let (r, o) = $name(q, st, i)?;
                        i = r;
                        l.push(o);
                    }
                    Ok((i, Out::L(l)))
                }
                P::Delimited(a, b, c) => sq::delimited(rec(a), rec(b), rec(c))(i),
                P::Preceded(a, b) => sq::preceded(rec(a), rec(b))(i),
                P::Terminated(a, b) => sq::terminated(rec(a), rec(b))(i),
                P::SepPair(a, b, c) => sq::separated_pair(rec(a), rec(b), rec(c))(i).map(|(r, (x, y))| (r, Out::L(vec![x, y]))),
                P::Num(_) | P::Bits(..) => $num!(p, st, i, $I),
            }
        }
    };
}
macro_rules! bytes_only {
    ($p:expr, $st:expr, $i:expr, $I:ty) => {{
        use nom::number::{complete as nc, streaming as ns, Endianness};
        let (p, st, i): (&P, bool, $I) = ($p, $st, $i);
        macro_rules! num {
            ($t:ident) => {
                if st { ns::$t(i) } else { nc::$t(i) }.map(|(r, n)| (r, Out::N(n as u128)))
            };
        }
        match p {
            P::Num(k) => match k {
                0 => num!(be_u8),
                1 => num!(be_u16),
                2 => num!(le_u16),
                3 => num!(be_u24),
                4 => num!(le_u24),
                5 => num!(be_u32),
                6 => num!(le_u32),
                7 => num!(be_u64),
                8 => num!(le_u64),
                9 => num!(be_u128),
                10 => num!(le_u128),
                11 => num!(be_i8),
                12 => num!(le_i16),
                13 => num!(be_i24),
                14 => num!(le_i32),
                15 => num!(be_i64),
                16 => if st { ns::le_f32(i) } else { nc::le_f32(i) }.map(|(r, n)| (r, Out::N(n.to_bits().into()))),
                17 => if st { ns::be_f64(i) } else { nc::be_f64(i) }.map(|(r, n)| (r, Out::N(n.to_bits().into()))),
                18 => if st { ns::u32(Endianness::Little)(i) } else { nc::u32(Endianness::Little)(i) }.map(|(r, n)| (r, Out::N(n.into()))),
                _ => if st { ns::i128(Endianness::Big)(i) } else { nc::i128(Endianness::Big)(i) }.map(|(r, n)| (r, Out::N(n as u128))),
            },
            P::Bits(a, b) => {
                type B = ($I, usize);
                type EB = VerboseError<B>;
                let q = |i: B| -> IResult<B, Out, EB> {
                    use nom::bits::{complete as bc, streaming as bs};
                    let (i, x): (B, u64) = if st { bs::take(*a)(i)? } else { bc::take(*a)(i)? };
                    let (i, y): (B, u8) = if st { bs::take(*b)(i)? } else { bc::take(*b)(i)? };
                    let (i, z) = if st { bs::bool(i)? } else { bc::bool(i)? };
                    Ok((i, Out::L(vec![Out::N(x.into()), Out::N(y.into()), Out::N(z.into())])))
                };
                nom::bits::bits(q)(i)
            }
            _ => unreachable!(),
        }
    }};
}
macro_rules! text_only {
    ($p:expr, $st:expr, $i:expr, $I:ty) => {
        co::fail($i)
    };
}
interp!(on_slice, &'static [u8], u8, bytes_only);
interp!(on_str, &'static str, char, text_only);
interp!(on_bd, ByteData<'static>, u8, bytes_only);
interp!(on_bq, ByteQueue<'static>, u8, bytes_only);
interp!(on_sd, StringData<'static>, char, text_only);
interp!(on_sq, StringQueue<'static>, char, text_only);

// ------------------------------------------------------------------ generation
const ALPHA: &[&str] = &["a", "b", "A", "B", "1", "2", "0", "-", "+", ",", " ", "\n", "\r\n", "\r", "\t", "é", "É", "€", "😀", "ſ", "K", "İ", "ß", "f", "(", ")", ";", "x"];
fn gen_content(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[6, 3, 2, 2]) {
        0 => {
            let k = s.usize(24);
            let w = s.usize(4);
            let mut t = String::new();
            for _ in 0..k {
                let i = match w {
                    0 => s.usize(ALPHA.len()),
                    1 => s.usize(9),
                    2 => *s.pick(&[4, 5, 6, 4, 5, 9, 10, 7]),
                    _ => *s.pick(&[0, 0, 0, 1, 9, 10, 11, 12, 15]),
                };
                t.push_str(ALPHA[i]);
            }
            t.into_bytes()
        }
        1 => {
            let n = s.usize(48);
            gen_text_n(s, n).into_bytes()
        }
        2 => {
            let n = s.usize(40);
            gen_bytes_n(s, n)
        }
        _ => gen_bytes_small(s),
    }
}
/// A tag, mostly cut from the content, its case sometimes changed.
fn gen_tag(s: &mut Src, c: &[u8]) -> Tg {
    if s.ratio(1, 4) || c.is_empty() {
        let k = s.usize(3);
        let mut t = String::new();
        for _ in 0..k {
            t.push_str(ALPHA[s.usize(ALPHA.len())]);
        }
        return Tg::S(t);
    }
    let a = if s.ratio(1, 3) { 0 } else { s.usize(c.len()) };
    let z = a + s.usize((c.len() - a).min(20) + 1);
    let mut v = c[a..z].to_vec();
    if s.ratio(1, 4) {
        if s.bool() {
            v.make_ascii_uppercase();
        } else {
            v.make_ascii_lowercase();
        }
    }
    if s.ratio(1, 8) {
        v.push(b'a');
    }
    match String::from_utf8(v) {
        Ok(t) => {
            if s.ratio(1, 4) {
                Tg::B(t.into_bytes())
            } else if s.ratio(1, 8) {
                Tg::S(t.to_uppercase())
            } else {
                Tg::S(t)
            }
        }
        Err(e) => Tg::B(e.into_bytes()),
    }
}
fn gen_set(s: &mut Src, c: &[u8]) -> String {
    let mut t = String::new();
    let text = String::from_utf8_lossy(c);
    let all: Vec<char> = text.chars().collect();
    for _ in 0..s.usize(5) {
        if !all.is_empty() && s.ratio(2, 3) {
            t.push(all[s.usize(all.len())]);
        } else {
            t.push_str(ALPHA[s.usize(ALPHA.len())]);
        }
    }
    t
}
fn gen_pred(s: &mut Src, c: &[u8]) -> Pr {
    match s.weighted(&[4, 4, 2, 2, 2, 1, 1, 3]) {
        0 => Pr::Set(gen_set(s, c)),
        1 => Pr::NotSet(gen_set(s, c)),
        2 => Pr::Digit,
        3 => Pr::Alpha,
        4 => Pr::Ws,
        5 => Pr::Any,
        6 => Pr::None,
        _ => Pr::Hash(s.below(64) as u32),
    }
}
#[inline(never)]
fn gen_parser(s: &mut Src, c: &[u8], depth: usize, text: bool) -> P {
    let leaf = depth == 0 || s.ratio(1, 3);
    let b = |s: &mut Src| Box::new(gen_parser(s, c, depth.saturating_sub(1), text));
    if leaf {
        return match s.weighted(&[5, 3, 2, 2, 4, 2, 2, 2, 2, 2, 3, 2, 2, 2, 2, 2, 2, 5, 3, if text { 0 } else { 5 }, if text { 0 } else { 3 }, 1, 1, 1, 1]) {
            0 => P::Tag(gen_tag(s, c)),
            1 => P::TagNoCase(gen_tag(s, c)),
            2 => P::IsA(gen_set(s, c)),
            3 => P::IsNot(gen_set(s, c)),
            4 => P::Take(s.usize(6)),
            5 => P::TakeWhile(gen_pred(s, c)),
            6 => P::TakeWhile1(gen_pred(s, c)),
            7 => {
                let m = s.usize(4);
                P::TakeWhileMN(m, m + s.usize(4), gen_pred(s, c))
            }
            8 => P::TakeTill(gen_pred(s, c)),
            9 => P::TakeTill1(gen_pred(s, c)),
            10 => P::TakeUntil(gen_tag(s, c)),
            11 => P::TakeUntil1(gen_tag(s, c)),
            12 => P::OneOf(gen_set(s, c)),
            13 => P::NoneOf(gen_set(s, c)),
            14 => P::Char(gen_set(s, c).chars().next().unwrap_or('a')),
            15 => P::Satisfy(gen_pred(s, c)),
            16 => P::AnyChar,
            17 => P::Class(s.usize(17)),
            18 => P::Int(s.usize(10)),
            19 => P::Num(s.usize(20)),
            20 => P::Bits(s.usize(40), s.usize(9)),
            21 => P::Rest,
            22 => P::RestLen,
            23 => P::Eof,
            _ => P::Fail,
        };
    }
    match s.weighted(&[3, 2, 2, 1, 2, 1, 1, 4, 3, 2, 2, 1, 1, 3, 2, 1, 2, 1, 2, 1, 5, 8, 3, 2, 2, 2]) {
        0 => P::Opt(b(s)),
        1 => P::Peek(b(s)),
        2 => P::Not(b(s)),
        3 => P::Cut(b(s)),
        4 => P::Complete(b(s)),
        5 => P::AllConsuming(b(s)),
        6 => P::Verify(s.usize(4), b(s)),
        7 => P::Many0(b(s)),
        8 => P::Many1(b(s)),
        9 => {
            let m = s.usize(3);
            P::ManyMN(m, m + s.usize(4), b(s))
        }
        10 => P::ManyTill(b(s), b(s)),
        11 => P::ManyCount(s.bool(), b(s)),
        12 => P::Fold(s.bool(), b(s)),
        13 => P::Sep(s.bool(), b(s), b(s)),
        14 => P::Count(s.usize(4), b(s)),
        15 => P::LengthData,
        16 => P::LengthValue(b(s)),
        17 => P::LengthCount(b(s)),
        18 => P::MapParser(b(s), b(s)),
        19 => P::FlatMap(b(s)),
        20 => P::Alt((0..1 + s.usize(3)).map(|_| *b(s)).collect()),
        21 => P::Seq((0..1 + s.usize(4)).map(|_| *b(s)).collect()),
        22 => P::Delimited(b(s), b(s), b(s)),
        23 => P::Preceded(b(s), b(s)),
        24 => P::Terminated(b(s), b(s)),
        _ => P::SepPair(b(s), b(s), b(s)),
    }
}
fn same(cx: &mut Ctx, ty: &str, got: &Result<Res, String>, want: &Result<Res, String>) {
    match (got, want) {
        (Ok(g), Ok(w)) => ck!(cx, Content, g == w, "on {ty} it gives {g:?}, must give {w:?}"),
        (Err(_), Err(_)) => {}
        (Ok(g), Err(w)) => cx.fail(Kind::Content, format!("on {ty} it gives {g:?}, must panic ({w})")),
        (Err(g), Ok(w)) => cx.fail(Kind::Content, format!("on {ty} it panics ({g}), must give {w:?}")),
    }
}
#[inline(never)]
pub fn run_parse(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let c = gen_content(s);
    let text = core::str::from_utf8(&c).is_ok();
    let as_text = text && s.bool();
    let st = s.ratio(2, 5);
    let depth = s.usize(5);
    let p = gen_parser(s, &c, depth, as_text);
    note!(cx, "{} {:?} on {:?}", if st { "streaming" } else { "complete" }, p, Sh(&c));
    let kept = ar.bytes(&c);
    let want;
    if as_text {
        let t = ar.str(core::str::from_utf8(&c).unwrap());
        want = cx.catch(|| plain(on_str(&p, st, t)));
        let (v, how) = gen_sd(s, cx, &ar, t);
        let got = cx.catch(|| plain(on_sd(&p, st, v)));
        same(cx, how, &got, &want);
        for _ in 0..2 {
            let q = gen_squeue(s, cx, &ar, t);
            note!(cx, "chunks {:?}", q.chunks().map(|c| c.len()).collect::<Vec<_>>());
            let keep = q.clone();
            let got = cx.catch(|| plain(on_sq(&p, st, q)));
            same(cx, "a StringQueue", &got, &want);
            ck!(cx, Content, keep.raw() == c, "parsing changes the queue it was cloned from");
        }
    } else {
        want = cx.catch(|| plain(on_slice(&p, st, kept)));
        let (v, m) = gen_bd(s, cx, &ar, &c);
        let got = cx.catch(|| plain(on_bd(&p, st, v)));
        same(cx, m.how, &got, &want);
        for _ in 0..2 {
            let q = gen_queue(s, cx, &ar, &c);
            note!(cx, "chunks {:?}", q.chunks().map(|c| c.len()).collect::<Vec<_>>());
            let keep = q.clone();
            let got = cx.catch(|| plain(on_bq(&p, st, q)));
            same(cx, "a ByteQueue", &got, &want);
            ck!(cx, Content, keep.raw() == c, "parsing changes the queue it was cloned from");
        }
    }
    match &want {
        Ok(Res::Ok(_, r)) if r.len() < c.len() && depth > 0 => cx.nontrivial(),
        Ok(Res::Bad(_, e)) if e.iter().any(|x| x.0.len() < c.len()) => cx.nontrivial(),
        _ => {}
    }
    cx.label(match &want {
        Ok(Res::Ok(..)) => "outcome ok",
        Ok(Res::Incomplete(_)) => "outcome incomplete",
        Ok(Res::Bad("error", _)) => "outcome error",
        Ok(Res::Bad(..)) => "outcome failure",
        Err(_) => "outcome panic",
    });
    drop(want);
    ar.check_owners(cx);
}

// ------------------------------------------------------------------ single operations
type Simple<I> = nom::error::Error<I>;
fn plain_s<I: Raw>(r: IResult<I, I, Simple<I>>) -> Res {
    match r {
        Ok((rest, o)) => Res::Ok(Out::I(o.raw()), rest.raw()),
        Err(nom::Err::Incomplete(nom::Needed::Unknown)) => Res::Incomplete(None),
        Err(nom::Err::Incomplete(nom::Needed::Size(n))) => Res::Incomplete(Some(n.get())),
        Err(nom::Err::Error(e)) => Res::Bad("error", vec![(e.input.raw(), format!("{:?}", e.code))]),
        Err(nom::Err::Failure(e)) => Res::Bad("failure", vec![(e.input.raw(), format!("{:?}", e.code))]),
    }
}
#[derive(Clone, Debug)]
enum Op {
    Len,
    Indices,
    Elements,
    Position(Pr),
    SliceIndex(usize),
    Take(usize),
    TakeSplit(usize),
    Split(usize, Pr),
    Slice(usize, usize, usize),
    Compare(bool, Tg),
    Find(Tg),
    Token(char),
    TokenU8(u8),
}
macro_rules! op {
    ($name:ident, $I:ty, $item:ty) => {
        #[inline(never)]
        fn $name(o: &Op, i: &$I) -> String {
            let sl = |t: &Tg| match t {
                Tg::S(x) => x.as_bytes().to_vec(),
                Tg::B(x) => x.clone(),
            };
            match o {
                Op::Len => format!("{}", i.input_len()),
                Op::Indices => format!("{:?}", i.iter_indices().collect::<Vec<_>>()),
                Op::Elements => format!("{:?}", i.iter_elements().collect::<Vec<_>>()),
                Op::Position(p) => format!("{:?}", InputIter::position(i, |c: $item| p.t(c as u32))),
                Op::SliceIndex(n) => format!("{:?}", i.slice_index(*n)),
                Op::Take(n) => format!("{:?}", Sh(&InputTake::take(i, *n).raw())),
                Op::TakeSplit(n) => {
                    let (a, b) = i.take_split(*n);
                    format!("{:?} {:?}", Sh(&a.raw()), Sh(&b.raw()))
                }
                Op::Split(k, p) => {
                    let f = |c: $item| p.t(c as u32);
                    let r = match k {
                        0 => i.split_at_position::<_, Simple<$I>>(f),
                        1 => i.split_at_position1::<_, Simple<$I>>(f, ErrorKind::Digit),
                        2 => i.split_at_position_complete::<_, Simple<$I>>(f),
                        _ => i.split_at_position1_complete::<_, Simple<$I>>(f, ErrorKind::Alpha),
                    };
                    format!("{:?}", plain_s(r))
                }
                Op::Slice(k, a, b) => {
                    let r: $I = match k {
                        0 => Slice::slice(i, *a..*b),
                        1 => Slice::slice(i, *a..),
                        2 => Slice::slice(i, ..*b),
                        _ => Slice::slice(i, ..),
                    };
                    format!("{:?}", Sh(&r.raw()))
                }
                Op::Compare(false, Tg::S(t)) => format!("{:?}", i.compare(&t[..])),
                Op::Compare(false, Tg::B(t)) => format!("{:?}", i.compare(&t[..])),
                Op::Compare(true, Tg::S(t)) => format!("{:?}", i.compare_no_case(&t[..])),
                Op::Compare(true, Tg::B(t)) => format!("{:?}", i.compare_no_case(&t[..])),
                Op::Find(t) => {
                    let n = sl(t);
                    match core::str::from_utf8(&n) {
                        Ok(t) => format!("{:?}", i.find_substring(t)),
                        // the reference for text does not take these
                        Err(_) => String::new(),
                    }
                }
                Op::Token(c) => format!("{}", i.find_token(*c)),
                Op::TokenU8(c) => format!("{} {}", i.find_token(*c), i.find_token(c)),
            }
        }
    };
}
op!(op_slice, &'static [u8], u8);
op!(op_str, &'static str, char);
op!(op_bd, ByteData<'static>, u8);
op!(op_bq, ByteQueue<'static>, u8);
op!(op_sd, StringData<'static>, char);
op!(op_sq, StringQueue<'static>, char);
fn same_s(cx: &mut Ctx, ty: &str, o: &Op, got: &Result<String, String>, want: &Result<String, String>) {
    match (got, want) {
        (Ok(g), Ok(w)) => ck!(cx, Content, g == w, "{o:?} on {ty} gives {g}, must give {w}"),
        (Err(_), Err(_)) => {}
        (Ok(g), Err(w)) => cx.fail(Kind::Content, format!("{o:?} on {ty} gives {g}, must panic ({w})")),
        (Err(g), Ok(w)) => cx.fail(Kind::Content, format!("{o:?} on {ty} panics ({g}), must give {w}")),
    }
}
#[inline(never)]
pub fn run_ops(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let c = gen_content(s);
    let n = c.len();
    note!(cx, "{:?}", Sh(&c));
    let kept = ar.bytes(&c);
    let text: Option<&'static str> = core::str::from_utf8(kept).ok();
    let (bd, m) = gen_bd(s, cx, &ar, &c);
    let bq = gen_queue(s, cx, &ar, &c);
    note!(cx, "chunks {:?}", bq.chunks().map(|c| c.len()).collect::<Vec<_>>());
    let strs = text.map(|t| {
        let sd = gen_sd(s, cx, &ar, t);
        let sq = gen_squeue(s, cx, &ar, t);
        note!(cx, "text chunks {:?}", sq.chunks().map(|c| c.len()).collect::<Vec<_>>());
        (t, sd, sq)
    });
    let k = s.range(1, 12);
    for _ in 0..k {
        if s.exhausted() {
            break;
        }
        let o = match s.weighted(&[1, 1, 1, 2, 3, 2, 3, 5, 5, 6, 4, 2, 2]) {
            0 => Op::Len,
            1 => Op::Indices,
            2 => Op::Elements,
            3 => Op::Position(gen_pred(s, &c)),
            4 => Op::SliceIndex(gen_pos(s, n)),
            5 => Op::Take(gen_pos(s, n)),
            6 => Op::TakeSplit(gen_pos(s, n)),
            7 => Op::Split(s.usize(4), gen_pred(s, &c)),
            8 => Op::Slice(s.usize(4), gen_pos(s, n), gen_pos(s, n)),
            9 => Op::Compare(s.bool(), gen_tag(s, &c)),
            10 => Op::Find(gen_tag(s, &c)),
            11 => Op::Token(gen_set(s, &c).chars().next().unwrap_or('x')),
            _ => Op::TokenU8(if n > 0 && s.bool() { c[s.usize(n)] } else { s.below(256) as u8 }),
        };
        note!(cx, "{o:?}");
        let want = cx.catch(|| op_slice(&o, &kept));
        let got = cx.catch(|| op_bd(&o, &bd));
        same_s(cx, m.how, &o, &got, &want);
        // a char which is not ASCII is a truncated byte to &[u8], see DESIGN.md
        if !matches!(o, Op::Token(x) if !x.is_ascii()) {
            let got = cx.catch(|| op_bq(&o, &bq));
            same_s(cx, "a ByteQueue", &o, &got, &want);
        }
        if let Some((t, sd, sq)) = &strs {
            let want = cx.catch(|| op_str(&o, t));
            let got = cx.catch(|| op_sd(&o, &sd.0));
            same_s(cx, sd.1, &o, &got, &want);
            // a range which is empty inside a character may be refused or empty
            let cut = match &o {
                Op::Slice(0, a, b) => a == b && *a <= n && !t.is_char_boundary(*a),
                _ => false,
            };
            if !cut {
                let got = cx.catch(|| op_sq(&o, sq));
                same_s(cx, "a StringQueue", &o, &got, &want);
            }
        }
        // the other types which are accepted
        if let Op::Compare(nc, t) = &o {
            let raw: &[u8] = match t {
                Tg::S(x) => x.as_bytes(),
                Tg::B(x) => x,
            };
            let other = gen_bd(s, cx, &ar, raw).0;
            let cmp = |g: nom::CompareResult| format!("{g:?}");
            macro_rules! c2 {
                ($x:expr, $y:expr) => {
                    if *nc { cmp($x.compare_no_case($y)) } else { cmp($x.compare($y)) }
                };
            }
            let w = c2!(kept, raw);
            ck!(cx, Content, c2!(bd, other.clone()) == w, "{o:?} of ByteData with a ByteData is not {w}");
            ck!(cx, Content, c2!(bd, &other) == w, "{o:?} of ByteData with a &ByteData is not {w}");
            ck!(cx, Content, c2!(bq, other.clone()) == w, "{o:?} of ByteQueue with a ByteData is not {w}");
            ck!(cx, Content, c2!(bq, &other) == w, "{o:?} of ByteQueue with a &ByteData is not {w}");
            if let Some((t, sd, sq)) = &strs {
                let w = c2!(t.as_bytes(), raw);
                ck!(cx, Content, c2!(sd.0, other.clone()) == w, "{o:?} of StringData with a ByteData is not {w}");
                ck!(cx, Content, c2!(sd.0, &other) == w, "{o:?} of StringData with a &ByteData is not {w}");
                ck!(cx, Content, c2!(sq, other.clone()) == w, "{o:?} of StringQueue with a ByteData is not {w}");
                ck!(cx, Content, c2!(sq, &other) == w, "{o:?} of StringQueue with a &ByteData is not {w}");
            }
            if let Ok(x) = core::str::from_utf8(raw) {
                let other = gen_sd(s, cx, &ar, x).0;
                let w = c2!(kept, x);
                ck!(cx, Content, c2!(bq, other.clone()) == w, "{o:?} of ByteQueue with a StringData is not {w}");
                ck!(cx, Content, c2!(bq, &other) == w, "{o:?} of ByteQueue with a &StringData is not {w}");
                if let Some((t, sd, sq)) = &strs {
                    let w = c2!(*t, x);
                    ck!(cx, Content, c2!(sd.0, other.clone()) == w, "{o:?} of StringData with a StringData is not {w}");
                    ck!(cx, Content, c2!(sd.0, &other) == w, "{o:?} of StringData with a &StringData is not {w}");
                    ck!(cx, Content, c2!(sq, other.clone()) == w, "{o:?} of StringQueue with a StringData is not {w}");
                    ck!(cx, Content, c2!(sq, &other) == w, "{o:?} of StringQueue with a &StringData is not {w}");
                }
            }
        }
        if let Op::Token(c) = &o {
            // a character behind a reference is the same character
            ck!(cx, Content, bd.find_token(c) == bd.find_token(*c), "{o:?} of a ByteData differs behind a reference");
            ck!(cx, Content, bq.find_token(c) == bq.find_token(*c), "{o:?} of a ByteQueue differs behind a reference");
            if let Some((_, sd, sq)) = &strs {
                ck!(cx, Content, sd.0.find_token(c) == sd.0.find_token(*c), "{o:?} of a StringData differs behind a reference");
                ck!(cx, Content, sq.find_token(c) == sq.find_token(*c), "{o:?} of a StringQueue differs behind a reference");
            }
        }
        if let Op::Find(t) = &o {
            let raw: &[u8] = match t {
                Tg::S(x) => x.as_bytes(),
                Tg::B(x) => x,
            };
            let w = kept.find_substring(raw);
            let other = gen_bd(s, cx, &ar, raw).0;
            ck!(cx, Content, bd.find_substring(raw) == w && bd.find_substring(&other) == w && bd.find_substring(other.clone()) == w, "{o:?} on a ByteData is not {w:?}");
            ck!(cx, Content, bq.find_substring(raw) == w && bq.find_substring(&other) == w && bq.find_substring(other.clone()) == w, "{o:?} on a ByteQueue is not {w:?}");
            if let Some((_, sd, sq)) = &strs {
                let sd = &sd.0;
                ck!(cx, Content, sd.find_substring(raw) == w && sd.find_substring(&other) == w && sd.find_substring(other.clone()) == w, "{o:?} on a StringData is not {w:?}");
                ck!(cx, Content, sq.find_substring(raw) == w && sq.find_substring(&other) == w && sq.find_substring(other.clone()) == w, "{o:?} on a StringQueue is not {w:?}");
                if let Ok(x) = core::str::from_utf8(raw) {
                    let other = gen_sd(s, cx, &ar, x).0;
                    ck!(cx, Content, sd.find_substring(&other) == w && sd.find_substring(other.clone()) == w, "{o:?} on a StringData is not {w:?}");
                }
            }
        }
    }
    // dumps
    let (size, from) = (1 + s.usize(20), s.usize(40));
    ck!(cx, Content, bd.to_hex(size) == kept.to_hex(size) && bd.to_hex_from(size, from) == kept.to_hex_from(size, from), "to_hex({size}) of a ByteData differs from that of its bytes");
    ck!(cx, Content, nom::AsBytes::as_bytes(&bd) == kept, "as_bytes of a ByteData differs from its bytes");
    if let Some((t, sd, _)) = &strs {
        ck!(cx, Content, sd.0.to_hex(size) == t.to_hex(size) && sd.0.to_hex_from(size, from) == t.to_hex_from(size, from), "to_hex({size}) of a StringData differs from that of its text");
        ck!(cx, Content, nom::AsBytes::as_bytes(&sd.0) == kept, "as_bytes of a StringData differs from its text");
    }
    // a queue has a layout of its own; its digits are those of the bytes from the offset on
    #[cfg(not(feature = "na"))]
    {
        let from = s.usize(kept.len() + 1);
        let digits = |x: &str| -> String { x.chars().filter(|c| !c.is_ascii_whitespace()).collect() };
        let hex = |b: &[u8]| -> String { b.iter().map(|x| format!("{x:02x}")).collect() };
        ck!(cx, Content, digits(&bq.to_hex(size)) == hex(kept), "to_hex({size}) of a ByteQueue has other digits than its bytes");
        ck!(cx, Content, digits(&bq.to_hex_from(size, from)) == hex(&kept[from..]), "to_hex_from({size}, {from}) of a ByteQueue has other digits than its bytes");
        if let Some((_, _, sq)) = &strs {
            ck!(cx, Content, digits(&sq.to_hex(size)) == hex(kept), "to_hex({size}) of a StringQueue has other digits than its text");
            ck!(cx, Content, digits(&sq.to_hex_from(size, from)) == hex(&kept[from..]), "to_hex_from({size}, {from}) of a StringQueue has other digits than its text");
        }
    }
    if k >= 4 && n >= 4 {
        cx.nontrivial();
    }
    drop((bd, bq, strs));
    ar.check_owners(cx);
}
