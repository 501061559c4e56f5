//! Generation from arbitrary's unstructured input (C21).
use crate::gen::*;
use arbitrary::{Arbitrary, Unstructured};
use bytedata::{ByteData, ByteQueue, StringData, StringQueue};
#[cfg(not(feature = "na"))]
use bytedata::{SharedBytes, SharedBytesBuilder};
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};

pub const ARB: Module = Module {
    name: "arb",
    rule: "a case is an unstructured input of 0 to 600 bytes (sizes around 1, 256 and 65536 too; text, zeros, drawn bytes, or little-endian characters), from which one to four values of ByteData, StringData, SharedBytes, SharedBytesBuilder, ByteQueue and StringQueue are generated in a row, by arbitrary or arbitrary_take_rest, or through Vec and tuple generators. Oracle: the outcome is a value or an error, the input consumed is within size_hint, the content is what &[u8], &str or the character generator yields from the same input (or its first 14 bytes), borrowed values point into the input, every chunk of a queue comes from the input and the queue has exactly the pieces its element generator gives one after the other, and lengths, chunk counts and UTF-8 are consistent. Non-trivial: at least 4 bytes of input and a value of at least one byte.",
    run,
    guided: true,
    balance: true,
};
fn prefix14(t: &str) -> &str {
    let mut k = t.len().min(14);
    while !t.is_char_boundary(k) {
        k -= 1;
    }
    &t[..k]
}
/// The characters the standard generator gives for all of the input.
fn chars_of(mut d: &[u8]) -> String {
    let mut r = String::new();
    while !d.is_empty() {
        let mut u = Unstructured::new(d);
        let Ok(c) = char::arbitrary(&mut u) else { break };
        r.push(c);
        d = &d[d.len() - u.len()..];
    }
    r
}
fn after_choice(d: &[u8]) -> &[u8] {
    let mut u = Unstructured::new(d);
    // a borrowed, an inline and, where there is a heap, a shared value
    let _ = u.choose(if CAP == usize::MAX { &[0, 1, 2][..] } else { &[0, 1] });
    let l = u.len();
    &d[d.len() - l..]
}
fn check_bd(cx: &mut Ctx, d: &[u8], v: &ByteData<'_>, rest: bool) {
    let x = after_choice(d);
    let std = <&[u8]>::arbitrary(&mut Unstructured::new(x)).unwrap_or_default();
    let got = v.as_slice();
    ck!(cx, Content, v.len() == got.len(), "len is {}, must be {}", v.len(), got.len());
    let p14 = |s: &'_ [u8]| got == &s[..s.len().min(14)];
    let ok = got == std || p14(std) || (rest && (got == x || p14(x)));
    ck!(cx, Content, ok, "ByteData from {:?} holds {:?}, the slice generator gives {:?}", Sh(d), Sh(got), Sh(if rest { x } else { std }));
    if let Some(b) = v.as_borrowed() {
        if !b.is_empty() {
            let r = d.as_ptr_range();
            ck!(cx, Alias, r.contains(&b.as_ptr()) && b.as_ptr_range().end <= r.end, "a borrowed value does not lie in the input");
        }
    }
}
fn check_sd(cx: &mut Ctx, d: &[u8], v: &StringData<'_>, rest: bool) {
    let x = after_choice(d);
    let raw = v.as_bytes();
    ck!(cx, Utf8, core::str::from_utf8(raw).is_ok(), "a generated string holds {:?}", Sh(raw));
    let got = v.as_str();
    let (a, b) = if rest {
        (<&str>::arbitrary_take_rest(Unstructured::new(x)).unwrap_or_default(), chars_of(x))
    } else {
        let mut u = Unstructured::new(x);
        let l: String = match u.arbitrary_iter::<char>() {
            Ok(i) => i.map_while(Result::ok).collect(),
            Err(_) => String::new(),
        };
        (<&str>::arbitrary(&mut Unstructured::new(x)).unwrap_or_default(), l)
    };
    // a last character of fewer than four bytes may be left out
    let cut = &b[..b.char_indices().next_back().map_or(0, |c| c.0)];
    let ok = got == a || got == prefix14(a) || got == b || got == prefix14(&b) || (rest && x.len() % 4 != 0 && (got == cut || got == prefix14(cut)));
    ck!(cx, Content, ok, "StringData from {:?} holds {got:?}; the generators give {a:?} and {b:?}", Sh(d));
    if let Some(b) = v.as_borrowed() {
        if !b.is_empty() {
            let r = d.as_ptr_range();
            ck!(cx, Alias, r.contains(&b.as_ptr()), "a borrowed string does not lie in the input");
        }
    }
}
fn check_q(cx: &mut Ctx, d: &[u8], q: &ByteQueue<'_>, text: bool) {
    let mut n = 0;
    let mut k = 0;
    for c in q.chunks() {
        ck!(cx, Content, !c.is_empty(), "a generated queue has an empty chunk");
        k += 1;
        n += c.len();
        ck!(cx, Content, k <= q.chunk_len(), "chunks gives more than the {} chunks counted", q.chunk_len());
        if !text {
            let c = c.as_slice();
            ck!(cx, Content, c.len() <= d.len() && d.windows(c.len()).any(|w| w == c), "the chunk {:?} is not in the input {:?}", Sh(c), Sh(d));
        } else {
            ck!(cx, Utf8, core::str::from_utf8(c).is_ok(), "a generated string queue has the chunk {:?}", Sh(c));
        }
    }
    ck!(cx, Content, k == q.chunk_len() && n == q.len(), "a generated queue counts {} chunks and {} bytes, it has {k} and {n}", q.chunk_len(), q.len());
    ck!(cx, Content, text || n <= d.len(), "a generated queue has {n} bytes from an input of {}", d.len());
}
/// The pieces the element generator gives one after the other, each followed by the choice of an end.
fn pieces<'a, T: Arbitrary<'a>>(d: &'a [u8], all: bool, f: impl Fn(T) -> Vec<u8>) -> Option<Vec<Vec<u8>>> {
    let mut u = Unstructured::new(d);
    let mut n = if all { usize::MAX } else { u.arbitrary_len::<T>().ok()? };
    let mut r = Vec::new();
    // a queue of fixed size takes what it has room for
    while !u.is_empty() && n != 0 && r.len() < CAP {
        let v = f(T::arbitrary(&mut u).ok()?);
        if !v.is_empty() {
            r.push(v);
        }
        n -= 1;
        let _ = bool::arbitrary(&mut u);
    }
    r.sort();
    Some(r)
}
fn check_pieces(cx: &mut Ctx, d: &[u8], q: &ByteQueue<'_>, text: bool, all: bool) {
    let want = if text { pieces::<StringData<'_>>(d, all, |v| v.as_bytes().to_vec()) } else { pieces::<ByteData<'_>>(d, all, |v| v.as_slice().to_vec()) };
    let mut got: Vec<Vec<u8>> = q.chunks().map(|c| c.as_slice().to_vec()).collect();
    got.sort();
    ck!(cx, Content, want.as_ref() == Some(&got), "the queue from {:?} has the pieces {:?}, the element generator gives {:?}", Sh(d), got, want);
}
fn gen_input(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[6, 6, 2, 2, 1]) {
        0 => s.usize(20),
        1 => s.usize(120),
        2 => s.usize(600),
        3 => 250 + s.usize(14),
        _ => 65530 + s.usize(14),
    };
    let mut d = match s.usize(5) {
        0 => gen_text_n(s, n).into_bytes(),
        1 => {
            let mut v = Vec::new();
            let f = s.usize(CHARS.len());
            for k in 0..n / 4 {
                v.extend((CHARS[(f + k * 7) % CHARS.len()] as u32).to_le_bytes());
                // the choice to go on
                if s.bool() && n < 300 {
                    v.push(1);
                }
            }
            v
        }
        2 => vec![s.usize(256) as u8; n],
        _ => {
            let mut v = gen_bytes_n(s, n.min(40));
            while v.len() < n {
                v.extend_from_within(..v.len().min(n - v.len()).max(1).min(v.len()));
                if v.is_empty() {
                    v.push(1);
                }
            }
            v
        }
    };
    // the choices are made with the first byte, the lengths with the last ones
    if let Some(x) = d.first_mut() {
        if s.bool() {
            *x = s.usize(3) as u8;
        }
    }
    if let Some(x) = d.last_mut() {
        if s.bool() {
            *x = s.usize(256) as u8;
        }
    }
    d
}
fn hint<'a, T: Arbitrary<'a>>(cx: &mut Ctx, before: usize, after: usize, failed: bool, what: &str) {
    let (lo, hi) = T::size_hint(0);
    let used = before - after;
    // a generator fed with less than it needs gets by with what there is
    ck!(cx, Content, used >= lo.min(before) || failed, "{what} used {used} bytes of {before}, the size hint is {:?}", (lo, hi));
    ck!(cx, Content, hi.is_none_or(|h| used <= h), "{what} used {used} bytes, the size hint is {:?}", (lo, hi));
    ck!(cx, Content, hi.is_none_or(|h| lo <= h), "the size hint of {what} is {:?}", (lo, hi));
}
pub fn run(s: &mut Src, cx: &mut Ctx) {
    let d = gen_input(s);
    note!(cx, "input {:?}", Sh(&d));
    let mut u = Unstructured::new(&d);
    let steps = s.range(1, 4);
    let mut got = 0;
    for _ in 0..steps {
        let left = u.len();
        let x = u.peek_bytes(left).unwrap_or_default();
        macro_rules! one {
            ($t:ty, $what:expr, $chk:expr) => {{
                note!(cx, "{} arbitrary with {} bytes", $what, left);
                let r = <$t>::arbitrary(&mut u);
                hint::<$t>(cx, left, u.len(), r.is_err(), $what);
                if let Ok(v) = r {
                    got = got.max(v.len());
                    $chk(cx, &v);
                }
            }};
        }
        macro_rules! rest {
            ($t:ty, $what:expr, $chk:expr) => {{
                note!(cx, "{} arbitrary_take_rest with {} bytes", $what, left);
                if let Ok(v) = <$t>::arbitrary_take_rest(Unstructured::new(x)) {
                    got = got.max(v.len());
                    $chk(cx, &v);
                }
            }};
        }
        match s.usize(15) {
            0 | 1 => one!(ByteData<'_>, "ByteData", |cx: &mut Ctx, v: &ByteData<'_>| check_bd(cx, x, v, false)),
            2 => rest!(ByteData<'_>, "ByteData", |cx: &mut Ctx, v: &ByteData<'_>| check_bd(cx, x, v, true)),
            3 | 4 => one!(StringData<'_>, "StringData", |cx: &mut Ctx, v: &StringData<'_>| check_sd(cx, x, v, false)),
            5 => rest!(StringData<'_>, "StringData", |cx: &mut Ctx, v: &StringData<'_>| check_sd(cx, x, v, true)),
            #[cfg(not(feature = "na"))]
            6 => one!(SharedBytes, "SharedBytes", |cx: &mut Ctx, v: &SharedBytes| {
                let w = <&[u8]>::arbitrary(&mut Unstructured::new(x)).unwrap_or_default();
                ck!(cx, Content, v.as_slice() == w, "SharedBytes from {:?} holds {:?}, the slice generator gives {:?}", Sh(x), Sh(v), Sh(w));
            }),
            #[cfg(not(feature = "na"))]
            7 => rest!(SharedBytes, "SharedBytes", |cx: &mut Ctx, v: &SharedBytes| {
                let w = <&[u8]>::arbitrary(&mut Unstructured::new(x)).unwrap_or_default();
                ck!(cx, Content, v.as_slice() == w || v.as_slice() == x, "SharedBytes from all of {:?} holds {:?}", Sh(x), Sh(v));
            }),
            #[cfg(not(feature = "na"))]
            8 => one!(SharedBytesBuilder, "SharedBytesBuilder", |cx: &mut Ctx, v: &SharedBytesBuilder| {
                let w = <&[u8]>::arbitrary(&mut Unstructured::new(x)).unwrap_or_default();
                ck!(cx, Content, v.as_slice() == w && v.capacity() >= w.len(), "SharedBytesBuilder from {:?} holds {:?}, the slice generator gives {:?}", Sh(x), Sh(v.as_slice()), Sh(w));
            }),
            #[cfg(not(feature = "na"))]
            9 => rest!(SharedBytesBuilder, "SharedBytesBuilder", |cx: &mut Ctx, v: &SharedBytesBuilder| {
                ck!(cx, Content, v.as_slice() == x, "SharedBytesBuilder from all of {:?} holds {:?}", Sh(x), Sh(v.as_slice()));
            }),
            10 => one!(ByteQueue<'_>, "ByteQueue", |cx: &mut Ctx, v: &ByteQueue<'_>| {
                check_q(cx, x, v, false);
                check_pieces(cx, x, v, false, false);
            }),
            11 => rest!(ByteQueue<'_>, "ByteQueue", |cx: &mut Ctx, v: &ByteQueue<'_>| {
                check_q(cx, x, v, false);
                check_pieces(cx, x, v, false, true);
            }),
            12 => one!(StringQueue<'_>, "StringQueue", |cx: &mut Ctx, v: &StringQueue<'_>| {
                check_q(cx, x, v.as_bytequeue(), true);
                check_pieces(cx, x, v.as_bytequeue(), true, false);
            }),
            13 => rest!(StringQueue<'_>, "StringQueue", |cx: &mut Ctx, v: &StringQueue<'_>| {
                check_q(cx, x, v.as_bytequeue(), true);
                check_pieces(cx, x, v.as_bytequeue(), true, true);
            }),
            _ => {
                note!(cx, "Vec of pairs");
                let r = <Vec<(ByteData<'_>, StringData<'_>)>>::arbitrary(&mut u);
                for (a, b) in r.unwrap_or_default() {
                    got = got.max(a.len()).max(b.len());
                    ck!(cx, Utf8, core::str::from_utf8(b.as_bytes()).is_ok(), "a generated string holds {:?}", Sh(b.as_bytes()));
                    ck!(cx, Content, a.is_empty() || d.windows(a.len()).any(|w| w == a.as_slice()), "{:?} is not in the input", Sh(&a));
                }
            }
        }
    }
    if d.len() >= 4 && got > 0 {
        cx.nontrivial();
    }
}
