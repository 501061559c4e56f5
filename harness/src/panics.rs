//! Panics in user code and rejected arguments (C22).
use std::future::Future;
use crate::gen::*;
use bytedata::{format_queue, format_shared, ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData, StringQueue};
use core::ops::Bound;
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;

pub const PANICS: Module = Module {
    name: "panics",
    rule: "a case is up to 6 calls, on values, builders and queues in every representation, in which user code (predicate, unfilled-space closure or future, buffer closure, iterator, conversion, Display, range, external owner's as_slice, owner's drop) panics at a drawn call after doing a drawn part of its work, or in which a range, position or length is rejected, or a drain is forgotten or dropped by a panic; after each, the value must hold what it held before or what the completed part explains, in full agreement with len, chunk_len and iteration, every other handle must be unchanged, and the value is used further (appended to, cut, read); at the end everything must have been released exactly once. Non-trivial: user code did panic, with a value of more than 14 bytes.",
    run,
    guided: true,
    balance: true,
};
const BOOM: &str = "planned panic";
/// The panic must be the one of the user's code.
fn ours(cx: &mut Ctx, p: &str, what: &str) {
    ck!(cx, Panic, p.contains(BOOM), "{what} panics for another reason: {p}");
    cx.label("user panic");
}
#[inline(never)]
fn qcheck(cx: &mut Ctx, q: &ByteQueue<'static>, m: &[u8], text: bool, what: &str) {
    ck!(cx, Content, q.len() == m.len() && q.is_empty() == m.is_empty(), "{what}: len is {}, must be {}", q.len(), m.len());
    let (mut p, mut n) = (0, 0);
    for c in q.chunks() {
        n += 1;
        ck!(cx, Content, n <= q.chunk_len(), "{what}: more than chunk_len = {} chunks", q.chunk_len());
        ck!(cx, Content, !c.is_empty() && m.get(p..p + c.len()) == Some(c.as_slice()), "{what}: the chunk at {p} holds {:?}", Sh(c));
        if text {
            ck!(cx, Utf8, core::str::from_utf8(c).is_ok(), "{what}: a chunk holds {:?}", Sh(c));
        }
        p += c.len();
    }
    ck!(cx, Content, p == m.len() && n == q.chunk_len(), "{what}: {p} bytes in {n} chunks, must be {} bytes in {} chunks", m.len(), q.chunk_len());
}
fn flat(q: &ByteQueue<'static>, max: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for c in q.chunks() {
        v.extend_from_slice(c);
        if v.len() > max {
            break;
        }
    }
    v
}
/// Uses the queue further.
#[inline(never)]
fn quse(s: &mut Src, cx: &mut Ctx, ar: &Arena, q: &mut ByteQueue<'static>, m: &mut Vec<u8>, text: bool) {
    for _ in 0..s.usize(4) {
        match s.usize(4) {
            0 => {
                q.push_back(ByteData::from_static(b"!back!"));
                m.extend_from_slice(b"!back!");
            }
            1 => {
                q.push_front(ByteData::from_borrowed(ar.bytes(b"a longer front item")));
                m.splice(..0, *b"a longer front item");
            }
            2 if !text => {
                let k = s.usize(m.len() + 1);
                let r = q.split_off(k);
                qcheck(cx, &r, &m[k..], text, "the end split off afterwards");
                m.truncate(k);
            }
            2 => (),
            _ => {
                if let Some(x) = q.pop_front() {
                    ck!(cx, Content, m.starts_with(&x), "pop_front afterwards gives {:?}", Sh(&x));
                    m.drain(..x.len());
                }
            }
        }
        qcheck(cx, q, m, text, "a later operation");
    }
}
fn gen_q(s: &mut Src, cx: &mut Ctx, ar: &Arena, text: bool) -> (ByteQueue<'static>, Vec<u8>) {
    if text {
        let n = s.range(1, 120);
        let c = gen_text_n(s, n);
        (gen_squeue(s, cx, ar, &c).into_bytequeue(), c.into_bytes())
    } else {
        let n = s.range(1, 120);
        let c = gen_bytes_n(s, n);
        (gen_queue(s, cx, ar, &c), c)
    }
}
fn as_text(q: ByteQueue<'static>) -> StringQueue<'static> {
    // the chunks are texts
    q.into_iter().map(|x| StringData::try_from_bytedata(x).ok().unwrap()).collect()
}

/// Predicates which panic: take_while, find_byte, find_char.
#[inline(never)]
fn predicates(s: &mut Src, cx: &mut Ctx, ar: &Arena) {
    let k = s.usize(6);
    let text = k == 1 || k >= 3 && s.bool() && k != 5;
    let text = text || k == 4;
    let lim = if s.bool() { 4 } else { 60 };
    let at = s.usize(lim);
    let mut calls = 0;
    macro_rules! pred {
        ($t:ty) => {
            |_: $t| {
                if calls == at {
                    panic!("{BOOM}");
                }
                calls += 1;
                true
            }
        };
    }
    match k {
        0 => {
            let n = s.range(1, 60);
            let c = gen_bytes_n(s, n);
            let (mut v, how) = gen_bd(s, cx, ar, &c);
            let o = v.clone();
            note!(cx, "ByteData::take_while on {:?} ({}), panic at {at}", Sh(&c), how.how);
            match cx.catch(|| ByteData::take_while(&mut v, pred!(u8))) {
                Err(p) => {
                    ours(cx, &p, "take_while");
                    ck!(cx, Content, (0..=calls).any(|k| c.get(k..) == Some(v.as_slice())), "after {calls} answers, {:?} is left of {:?}", Sh(&v), Sh(&c));
                    if c.len() > 14 {
                        cx.nontrivial();
                    }
                    let l = v.as_slice().to_vec();
                    let k = s.usize(l.len() + 1);
                    let x = v.take_bytes(k);
                    ck!(cx, Content, x.as_slice() == &l[..k] && v.as_slice() == &l[k..], "take_bytes afterwards gives {:?} and leaves {:?}", Sh(&x), Sh(&v));
                }
                Ok(x) => ck!(cx, Content, x.as_slice() == &c[..] && v.is_empty(), "take_while gives {:?}", Sh(&x)),
            }
            ck!(cx, Alias, o.as_slice() == &c[..], "a clone changes to {:?}", Sh(&o));
        }
        1 => {
            let n = s.range(1, 60);
            let c = gen_text_n(s, n);
            let mut v = gen_sd(s, cx, ar, &c).0;
            note!(cx, "StringData::take_while on {c:?}, panic at {at}");
            match cx.catch(|| StringData::take_while(&mut v, pred!(char))) {
                Err(p) => {
                    ours(cx, &p, "take_while");
                    ck!(cx, Utf8, core::str::from_utf8(v.as_bytes()).is_ok(), "a StringData holds {:?}", Sh(v.as_bytes()));
                    ck!(cx, Content, c.char_indices().take(calls + 1).any(|(k, _)| &c[k..] == v.as_str()), "after {calls} answers, {v:?} is left of {c:?}");
                    if c.len() > 14 {
                        cx.nontrivial();
                    }
                    let l = v.as_str().to_string();
                    let x = v.take_line();
                    ck!(cx, Content, l == format!("{x}{v}"), "take_line afterwards gives {x:?} and leaves {v:?}");
                }
                Ok(x) => ck!(cx, Content, x.as_str() == c && v.is_empty(), "take_while gives {x:?}"),
            }
        }
        _ => {
            let (q, mut m) = gen_q(s, cx, ar, text);
            let cl = q.clone();
            let find = k == 3 || k == 5;
            note!(cx, "{} of a {}, panic at {at}: {:?}", if find { "find" } else { "take_while" }, if text { "StringQueue" } else { "ByteQueue" }, Sh(&m));
            let before = m.clone();
            let mut q = if text {
                let mut t = as_text(q);
                let r = if find {
                    let mut p = pred!(char);
                    cx.catch(|| t.find_char(|x| !p(x)).is_none())
                } else {
                    cx.catch(|| {
                        let x = t.take_while(pred!(char));
                        x.len() == before.len() && t.is_empty()
                    })
                };
                match r {
                    Ok(ok) => {
                        ck!(cx, Content, ok, "a predicate which is always true gives another result");
                        return;
                    }
                    Err(p) => ours(cx, &p, "take_while or find_char"),
                }
                t.into_bytequeue()
            } else {
                let mut q = q;
                let r = if find {
                    let mut p = pred!(u8);
                    cx.catch(|| q.find_byte(|x| !p(x)).is_none())
                } else {
                    cx.catch(|| {
                        let x = q.take_while(pred!(u8));
                        x.len() == before.len() && q.is_empty()
                    })
                };
                match r {
                    Ok(ok) => {
                        ck!(cx, Content, ok, "a predicate which is always true gives another result");
                        return;
                    }
                    Err(p) => ours(cx, &p, "take_while or find_byte"),
                }
                q
            };
            if m.len() > 14 {
                cx.nontrivial();
            }
            if !find {
                // the taken part may be gone
                let l = flat(&q, m.len());
                let gone = m.len().saturating_sub(l.len());
                let answered = if text { core::str::from_utf8(&m).unwrap().char_indices().nth(calls).map_or(m.len(), |x| x.0) } else { calls };
                ck!(cx, Content, m.ends_with(&l) && gone <= answered, "{:?} is left after {calls} answers", Sh(&l));
                m = l;
            }
            qcheck(cx, &q, &m, text, "after the panic");
            quse(s, cx, ar, &mut q, &mut m, text);
            qcheck(cx, &cl, &before, text, "a clone");
        }
    }
}
fn gen_builder(s: &mut Src) -> (SharedBytesBuilder, Vec<u8>) {
    let n = s.usize(60);
    let c = gen_bytes_n(s, n);
    let mut b = match s.usize(4) {
        0 => SharedBytesBuilder::new(),
        1 => SharedBytesBuilder::with_capacity(s.usize(100)),
        2 => SharedBytesBuilder::with_aligned_capacity(s.usize(100), gen_align(s).min(512)),
        _ => SharedBytesBuilder::from(SharedBytes::from_slice(&c[..c.len() / 2])),
    };
    let k = b.len();
    b.extend_from_slice(&c[k..]);
    if s.bool() {
        b.reserve(s.usize(80));
    }
    (b, c)
}
/// Further use of a builder, and freezing it.
#[inline(never)]
fn buse(s: &mut Src, cx: &mut Ctx, mut b: SharedBytesBuilder, mut m: Vec<u8>) {
    ck!(cx, Content, b.as_slice() == &m[..] && b.len() == m.len() && b.capacity() >= m.len(), "the builder holds {:?} (len {}, capacity {}), must hold {:?}", Sh(b.as_slice()), b.len(), b.capacity(), Sh(&m));
    for _ in 0..s.usize(3) {
        match s.usize(4) {
            0 => {
                let n = s.usize(40);
                let e = fill(1, 9, n);
                b.extend_from_slice(&e);
                m.extend_from_slice(&e);
            }
            1 => {
                let k = s.usize(m.len() + 1);
                b.truncate(k);
                m.truncate(k);
            }
            2 => b.reserve(s.usize(100)),
            _ => {
                b.clear();
                m.clear();
            }
        }
        ck!(cx, Content, b.as_slice() == &m[..], "later the builder holds {:?}, must hold {:?}", Sh(b.as_slice()), Sh(&m));
    }
    let f = b.build();
    ck!(cx, Content, f.as_slice() == &m[..], "the frozen builder holds {:?}, must hold {:?}", Sh(&f), Sh(&m));
}
/// Closures and futures over the unfilled space.
#[inline(never)]
fn unfilled(s: &mut Src, cx: &mut Ctx) {
    let (mut b, m) = gen_builder(s);
    let free = b.capacity() - b.len();
    let w = s.usize(free + 1);
    let k = s.usize(5);
    note!(cx, "a builder with {} bytes and {free} free, #{k}: {w} bytes are written", m.len());
    let nt = m.len() > 14;
    let r: Result<(), String> = match k {
        0 => cx.catch(|| {
            b.apply_unfilled(|d| {
                for x in d.iter_mut().take(w) {
                    x.write(0x77);
                }
                if d.len() < usize::MAX {
                    panic!("{BOOM}");
                }
                ((), w)
            })
        }),
        1 => {
            // a future which is dropped before it is ready, or panics when polled
            let boom = s.bool();
            let polls = s.usize(3);
            cx.catch(|| {
                let mut f = Box::pin(b.apply_unfilled_async(|mut d| async move {
                    for x in d.iter_mut().take(w) {
                        x.write(0x77);
                    }
                    for _ in 0..polls {
                        let mut first = true;
                        std::future::poll_fn(|_| if core::mem::take(&mut first) { std::task::Poll::Pending } else { std::task::Poll::Ready(()) }).await;
                    }
                    if boom {
                        panic!("{BOOM}");
                    }
                    std::future::pending::<()>().await;
                    ((), w)
                }));
                let mut t = std::task::Context::from_waker(std::task::Waker::noop());
                for _ in 0..polls + 1 {
                    assert!(f.as_mut().poll(&mut t).is_pending());
                }
                drop(f);
                panic!("{BOOM}");
            })
        }
        #[cfg(not(miri))]
        2 => cx.catch(|| {
            b.apply_borrowed_buf(|d| {
                let mut c = d.unfilled();
                for _ in 0..w {
                    c.append(b"w");
                }
                if w < usize::MAX {
                    panic!("{BOOM}");
                }
            })
        }),
        3 => {
            // more than there is
            let over = free + 1 + s.usize(20);
            let big = s.ratio(1, 4);
            let r = cx.catch(|| b.apply_unfilled(|d| {
                for x in d.iter_mut() {
                    x.write(0x55);
                }
                ((), if big { usize::MAX - over } else { over })
            }));
            ck!(cx, Content, r.is_err(), "apply_unfilled takes {over} bytes of {free}");
            buse(s, cx, b, m);
            return;
        }
        #[cfg(miri)]
        _ => return,
        #[cfg(not(miri))]
        _ => {
            // a replaced buffer must be refused, or leave what is explained
            let n = s.range(1, 40);
            let other: &'static mut [u8] = Box::leak(vec![b'E'; n].into_boxed_slice());
            let p: *mut [u8] = other;
            let r = cx.catch(|| b.apply_borrowed_buf(|d| {
                let mut x = core::io::BorrowedBuf::from(other);
                x.unfilled().append(&[b'E']);
                *d = x;
            }));
            // SAFETY: nothing refers to the buffer any more
            drop(unsafe { Box::from_raw(p) });
            let _ = r;
            buse(s, cx, b, m);
            return;
        }
    };
    match r {
        Err(p) => ours(cx, &p, "a call with a panicking closure"),
        Ok(()) => ck!(cx, Panic, false, "the panic of a closure is swallowed"),
    }
    if nt {
        cx.nontrivial();
    }
    buse(s, cx, b, m);
}
/// Yields items and then panics.
struct Bomb<I> {
    it: I,
    left: usize,
    hint: (usize, Option<usize>),
}
impl<I: Iterator> Iterator for Bomb<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.left == 0 {
            panic!("{BOOM}");
        }
        self.left -= 1;
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
#[inline(never)]
fn iterators(s: &mut Src, cx: &mut Ctx, ar: &Arena) {
    let n = s.range(1, 80);
    let text = s.bool();
    let c = if text { gen_text_n(s, n).into_bytes() } else { gen_bytes_n(s, n) };
    let pieces: Vec<(usize, usize)> = {
        let mut v = Vec::new();
        let mut a = 0;
        for k in gen_cuts(s, c.len()).into_iter().chain([c.len()]) {
            let mut k = k.max(a);
            if text {
                while k < c.len() && c[k] & 0xc0 == 0x80 {
                    k += 1;
                }
            }
            v.push((a, k));
            a = k;
        }
        v
    };
    let left = s.usize(pieces.len() + 1);
    let hint = [(0, None), (0, Some(pieces.len())), (pieces.len().min(left), Some(usize::MAX))][s.usize(3)];
    let kind = s.usize(9);
    let done: Vec<u8> = pieces.iter().take(left).flat_map(|&(a, z)| c[a..z].to_vec()).collect();
    note!(cx, "{} items of {:?}, then a panic, into #{kind}", left, Sh(&c));
    if done.len() > 14 {
        cx.nontrivial();
    }
    match kind {
        0..=2 => {
            let (mut q, mut m) = gen_q(s, cx, ar, text);
            let items: Vec<ByteData<'static>> = pieces.iter().map(|&(a, z)| gen_bd(s, cx, ar, &c[a..z]).0).collect();
            let cl = q.clone();
            let before = m.clone();
            let r = if text {
                let mut t = as_text(q);
                let it = items.into_iter().map(|x| StringData::try_from_bytedata(x).ok().unwrap());
                let r = match kind {
                    0 => cx.catch(|| t.extend(Bomb { it, left, hint })),
                    1 => cx.catch(|| t.extend(Bomb { it: it.map(|x| ar.str(x.as_str())), left, hint })),
                    _ => cx.catch(|| t.extend(Bomb { it: it.map(|x| x.as_str().to_string()), left, hint })),
                };
                q = t.into_bytequeue();
                r
            } else {
                let it = items.into_iter();
                match kind {
                    0 => cx.catch(|| q.extend(Bomb { it, left, hint })),
                    1 => cx.catch(|| q.extend(Bomb { it: it.map(|x| ar.bytes(&x)), left, hint })),
                    _ => cx.catch(|| q.extend(Bomb { it: it.map(|x| x.as_slice().to_vec()), left, hint })),
                }
            };
            match r {
                Ok(()) => ck!(cx, Panic, false, "the panic of an iterator is swallowed"),
                Err(p) => ours(cx, &p, "extend"),
            }
            // what had been yielded may or may not have been added, in order
            let l = flat(&q, m.len() + c.len());
            ck!(cx, Content, l.starts_with(&m) && done.starts_with(&l[m.len()..]), "extend leaves {:?} after yielding {:?}", Sh(&l), Sh(&done));
            m = l;
            qcheck(cx, &q, &m, text, "after the panic");
            quse(s, cx, ar, &mut q, &mut m, text);
            qcheck(cx, &cl, &before, text, "a clone");
        }
        3 | 4 => {
            let items: Vec<ByteData<'static>> = pieces.iter().map(|&(a, z)| gen_bd(s, cx, ar, &c[a..z]).0).collect();
            let r = if text {
                cx.catch(|| Bomb { it: items.into_iter().map(|x| StringData::try_from_bytedata(x).ok().unwrap()), left, hint }.collect::<StringQueue<'static>>().len())
            } else {
                cx.catch(|| Bomb { it: items.into_iter(), left, hint }.collect::<ByteQueue<'static>>().len())
            };
            match r {
                Ok(_) => ck!(cx, Panic, false, "the panic of an iterator is swallowed"),
                Err(p) => ours(cx, &p, "collect"),
            }
        }
        5 => {
            let hint = (0, [None, Some(c.len()), Some(1 << 40), Some(usize::MAX)][s.usize(4)]);
            let left = left.min(c.len());
            match cx.catch(|| Bomb { it: c.iter().copied(), left, hint }.collect::<ByteData<'static>>().len()) {
                Ok(_) => ck!(cx, Panic, false, "the panic of an iterator is swallowed"),
                Err(p) => ours(cx, &p, "collect"),
            }
        }
        6 => {
            // From<I: Into> for pushes
            struct No(#[allow(dead_code)] Vec<u8>);
            impl From<No> for ByteData<'static> {
                fn from(_: No) -> Self {
                    panic!("{BOOM}");
                }
            }
            impl From<No> for StringData<'static> {
                fn from(_: No) -> Self {
                    panic!("{BOOM}");
                }
            }
            let (mut q, mut m) = gen_q(s, cx, ar, text);
            let back = s.bool();
            let r = if text {
                let mut t = as_text(q);
                let r = cx.catch(|| if back { t.push_back(No(vec![1; 20])) } else { t.push_front(No(vec![1; 20])) });
                q = t.into_bytequeue();
                r
            } else {
                cx.catch(|| if back { q.push_back(No(vec![1; 20])) } else { q.push_front(No(vec![1; 20])) })
            };
            match r {
                Ok(_) => ck!(cx, Panic, false, "the panic of a conversion is swallowed"),
                Err(p) => ours(cx, &p, "push"),
            }
            qcheck(cx, &q, &m, text, "after the panic");
            quse(s, cx, ar, &mut q, &mut m, text);
        }
        _ => {
            let (mut b, mut m) = gen_builder(s);
            let its = pieces.iter().map(|&(a, z)| &c[a..z]);
            let r = match s.usize(if text { 4 } else { 3 }) {
                0 => cx.catch(|| b.extend(Bomb { it: its, left, hint })),
                1 => cx.catch(|| b.extend(Bomb { it: c.iter(), left: done.len(), hint })),
                2 => cx.catch(|| b.extend(Bomb { it: c.iter().copied(), left: done.len(), hint })),
                _ => cx.catch(|| b.extend(Bomb { it: its.map(|x| core::str::from_utf8(x).unwrap()), left, hint })),
            };
            match r {
                Ok(_) => ck!(cx, Panic, false, "the panic of an iterator is swallowed"),
                Err(p) => ours(cx, &p, "extend"),
            }
            let l = b.as_slice().to_vec();
            ck!(cx, Content, l.starts_with(&m) && done.starts_with(&l[m.len()..]), "extend leaves {:?} after yielding {:?}", Sh(&l), Sh(&done));
            m = l;
            buse(s, cx, b, m);
        }
    }
}
/// Writes pieces, then panics.
struct Shout<'x>(&'x [&'x str], usize);
impl std::fmt::Display for Shout<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for (k, x) in self.0.iter().enumerate() {
            if k == self.1 {
                panic!("{BOOM}");
            }
            f.write_str(x)?;
        }
        panic!("{BOOM}");
    }
}
#[inline(never)]
fn formatters(s: &mut Src, cx: &mut Ctx, ar: &Arena) {
    let n = s.usize(6);
    let v: Vec<String> = (0..n).map(|_| {
        let k = s.usize(24);
        gen_text_n(s, k)
    }).collect();
    let v: Vec<&str> = v.iter().map(|x| &x[..]).collect();
    let at = s.usize(n + 1);
    let done: String = format!("<{}", v[..at.min(n)].concat());
    let d = Shout(&v, at);
    let kind = s.usize(6);
    note!(cx, "a formatter which writes {done:?} and panics, into #{kind}");
    if done.len() > 14 {
        cx.nontrivial();
    }
    let r = match kind {
        0 => cx.catch(|| format_shared!("<{d}>").len()),
        1 => cx.catch(|| format_queue!("<{d}>").len()),
        2 => {
            let (mut b, mut m) = gen_builder(s);
            let io = s.bool();
            let r = if io {
                cx.catch(|| std::io::Write::write_fmt(&mut b, format_args!("<{d}>")).is_ok() as usize)
            } else {
                cx.catch(|| std::fmt::Write::write_fmt(&mut b, format_args!("<{d}>")).is_ok() as usize)
            };
            let l = b.as_slice().to_vec();
            ck!(cx, Content, l.starts_with(&m) && done.as_bytes().starts_with(&l[m.len()..]), "write! leaves {:?} after writing {done:?}", Sh(&l));
            m = l;
            buse(s, cx, b, m);
            r
        }
        3 => {
            let mut b = SharedStrBuilder::with_capacity(s.usize(30));
            b.push_str("the start of it");
            let r = cx.catch(|| write!(b, "<{d}>").is_ok() as usize);
            let l = b.as_str().to_string();
            ck!(cx, Content, l.strip_prefix("the start of it").is_some_and(|x| done.starts_with(x)), "write! leaves {l:?} after writing {done:?}");
            b.push('!');
            ck!(cx, Content, b.as_str() == format!("{l}!"), "push afterwards gives {:?}", b.as_str());
            r
        }
        _ => {
            let text = kind == 4;
            let (mut q, mut m) = gen_q(s, cx, ar, text);
            let r = if text {
                let mut t = as_text(q);
                let r = cx.catch(|| write!(t, "<{d}>").is_ok() as usize);
                q = t.into_bytequeue();
                r
            } else {
                cx.catch(|| std::io::Write::write_fmt(&mut q, format_args!("<{d}>")).is_ok() as usize)
            };
            let l = flat(&q, m.len() + done.len());
            ck!(cx, Content, l.starts_with(&m) && done.as_bytes().starts_with(&l[m.len()..]), "write! leaves {:?} after writing {done:?}", Sh(&l));
            m = l;
            qcheck(cx, &q, &m, text, "after the panic");
            quse(s, cx, ar, &mut q, &mut m, text);
            r
        }
    };
    match r {
        Ok(_) => ck!(cx, Panic, false, "the panic of a formatter is swallowed"),
        Err(p) => ours(cx, &p, "formatting"),
    }
    let _ = std::io::sink().flush();
}
/// A range which panics when one of its ends is asked for, or gives other ends every time.
struct Odd {
    a: usize,
    z: usize,
    boom: u32,
    lie: bool,
    asked: AtomicU32,
}
impl Odd {
    fn ask(&self) -> usize {
        let k = self.asked.fetch_add(1, Ordering::Relaxed);
        if k == self.boom {
            panic!("{BOOM}");
        }
        if self.lie { k as usize * 3 } else { 0 }
    }
}
impl core::ops::RangeBounds<usize> for Odd {
    fn start_bound(&self) -> Bound<&usize> {
        match self.ask() {
            0 => Bound::Included(&self.a),
            _ => Bound::Unbounded,
        }
    }
    fn end_bound(&self) -> Bound<&usize> {
        match self.ask() {
            0..=3 => Bound::Excluded(&self.z),
            _ => Bound::Unbounded,
        }
    }
}
/// Ranges that are rejected or panic; drains that are forgotten or dropped by a panic.
#[inline(never)]
fn ranges(s: &mut Src, cx: &mut Ctx, ar: &Arena) {
    let text = s.bool();
    let kind = s.usize(8);
    let (q, mut m) = gen_q(s, cx, ar, text);
    let cl = q.clone();
    let before = m.clone();
    let n = m.len();
    if kind < 2 {
        // a drain which is forgotten, or whose user panics
        let (mut a, mut z) = (gen_pos_in(s, n), gen_pos_in(s, n));
        if a > z {
            (a, z) = (z, a);
        }
        if text {
            let t = core::str::from_utf8(&m).unwrap();
            while !t.is_char_boundary(a) {
                a -= 1;
            }
            while !t.is_char_boundary(z) {
                z += 1;
            }
            if a == z {
                return;
            }
        }
        let took = s.usize(6);
        note!(cx, "drain {a}..{z} of {:?}, {took} taken, then {}", Sh(&m), ["forgotten", "a panic"][kind]);
        let mut q = q;
        macro_rules! go {
            ($q:expr) => {{
                let qq = &mut $q;
                cx.catch(|| {
                    let mut d = qq.drain(a..z);
                    for _ in 0..took {
                        let _ = d.next();
                    }
                    if kind == 0 {
                        core::mem::forget(d);
                    } else if took < 100 {
                        panic!("{BOOM}");
                    }
                })
            }};
        }
        let r = if text {
            let mut t = as_text(q);
            let r = go!(t);
            q = t.into_bytequeue();
            r
        } else {
            go!(q)
        };
        match r {
            Ok(()) => ck!(cx, Panic, kind == 0, "a panic is swallowed"),
            Err(p) => {
                ours(cx, &p, "drain");
                if n > 14 {
                    cx.nontrivial();
                }
            }
        }
        let l = flat(&q, n);
        if kind == 1 {
            m.drain(a..z);
        } else {
            // some of the drained range may be gone
            let rest = &m[z..];
            ck!(cx, Content, l.len() >= a + rest.len() && l.starts_with(&m[..a]) && l.ends_with(rest), "a forgotten drain leaves {:?}", Sh(&l));
            ck!(cx, Content, m[a..z].ends_with(&l[a..l.len() - rest.len()]) || m[a..z].starts_with(&l[a..l.len() - rest.len()]), "a forgotten drain leaves {:?}", Sh(&l));
            m = l;
        }
        qcheck(cx, &q, &m, text, "after the drain");
        quse(s, cx, ar, &mut q, &mut m, text);
        qcheck(cx, &cl, &before, text, "a clone");
        return;
    }
    if kind < 5 {
        // operations with a bad range or position
        let r = gen_range_v(s, n, false);
        let bad = r.resolve(n).is_none() || (text && r.resolve_str(core::str::from_utf8(&m).unwrap()).is_none());
        if !bad {
            return;
        }
        let mut q = q;
        note!(cx, "a rejected range {r:?} of {:?} ({} chunks), #{kind}", Sh(&m), q.chunk_len());
        let item = gen_text_n(s, 20);
        let res = if text {
            let mut t = as_text(q);
            let res = match kind {
                2 => with_range!(r.clone(), x, cx.catch(|| t.drain(x).count())),
                3 => with_range!(r.clone(), x, cx.catch(|| { t.replace_range(x, StringData::from(item)); 0 })),
                _ => with_range!(r.clone(), x, cx.catch(|| t.slice(x).len())),
            };
            q = t.into_bytequeue();
            res
        } else {
            match kind {
                2 => with_range!(r.clone(), x, cx.catch(|| q.drain(x).count())),
                3 => with_range!(r.clone(), x, cx.catch(|| { q.replace_range(x, ByteData::from(item)); 0 })),
                _ => with_range!(r.clone(), x, cx.catch(|| q.slice(x).len())),
            }
        };
        // an empty range inside a character may be taken as empty
        if let Ok(k) = res {
            let empty = text && r.resolve(n).is_some_and(|(a, z)| a == z);
            ck!(cx, Panic, empty && k == 0 && kind != 3, "the range {r:?} of {n} bytes is accepted");
        }
        qcheck(cx, &q, &m, text, "after a rejected range");
        let k = match s.usize(3) {
            0 => n + 1,
            1 => usize::MAX,
            _ => n + 1 + s.usize(50),
        };
        if !text {
            if kind == 2 {
                let r = cx.catch(|| q.consume(k));
                // consuming too much empties the queue or panics
                if r.is_ok() {
                    m.clear();
                } else {
                    let l = flat(&q, n);
                    ck!(cx, Content, m.ends_with(&l), "consume({k}) of {n} leaves {:?}", Sh(&l));
                    m = l;
                }
            } else {
                let r = cx.catch(|| q.split_off(k).len());
                ck!(cx, Panic, r.is_err(), "split_off({k}) of {n} bytes succeeds");
            }
        }
        qcheck(cx, &q, &m, text, "after a rejected position");
        quse(s, cx, ar, &mut q, &mut m, text);
        qcheck(cx, &cl, &before, text, "a clone");
        return;
    }
    // ranges of the user's own
    let o = Odd { a: gen_pos(s, n), z: gen_pos(s, n), boom: [0, 1, 2, 9][s.usize(4)], lie: s.bool(), asked: AtomicU32::new(0) };
    note!(cx, "a range of the user's own, {}..{} boom {} lie {} on {:?} #{kind}", o.a, o.z, o.boom, o.lie, Sh(&m));
    let mut q = q;
    match kind {
        5 => {
            let (sh, _) = gen_shared(s, &m);
            let way = s.usize(3);
            let keep = sh.clone();
            let mut sh = sh;
            let r = match way {
                0 => cx.catch(|| sh.sliced_range(o)),
                1 => {
                    let x = sh.clone();
                    cx.catch(|| x.into_sliced_range(o))
                }
                _ => cx.catch(|| sh.make_sliced_range(o).clone()),
            };
            match r {
                Ok(x) => {
                    let l = x.as_slice();
                    ck!(cx, Content, l.is_empty() || m.windows(l.len()).any(|w| w == l), "a range of the user's own gives {:?}", Sh(l));
                }
                Err(_) => ck!(cx, Content, sh.as_slice() == &m[..], "after a panic the buffer holds {:?}", Sh(&sh)),
            }
            ck!(cx, Alias, keep.as_slice() == &m[..], "another handle changes to {:?}", Sh(&keep));
        }
        6 => {
            let r = if text {
                let t = as_text(q.clone());
                cx.catch(|| t.slice(o)).map(|x| x.into_bytequeue())
            } else {
                cx.catch(|| q.slice(o))
            };
            if let Ok(x) = r {
                let l = flat(&x, n);
                qcheck(cx, &x, &l, text, "a slice by a range of the user's own");
                ck!(cx, Content, l.is_empty() || m.windows(l.len()).any(|w| w == l), "a range of the user's own gives {:?}", Sh(&l));
            }
        }
        _ => {
            let rep = s.bool();
            let r = if text {
                let mut t = as_text(q);
                let r = cx.catch(|| if rep { t.replace_range(o, StringData::from_static("ins")) } else { drop(t.drain(o)) });
                q = t.into_bytequeue();
                r
            } else {
                cx.catch(|| if rep { q.replace_range(o, ByteData::from_static(b"ins")) } else { drop(q.drain(o)) })
            };
            let l = flat(&q, n + 3);
            match r {
                Ok(()) => {
                    // a part was cut out or replaced
                    let ok = (0..=n).any(|a| m[..a] == l[..a.min(l.len())] && a <= l.len() && {
                        let tail = if rep { l[a..].strip_prefix(b"ins") } else { Some(&l[a..]) };
                        tail.is_some_and(|t| t.len() <= n - a && m.ends_with(t))
                    });
                    ck!(cx, Content, ok, "a range of the user's own leaves {:?} of {:?}", Sh(&l), Sh(&m));
                }
                Err(_) => ck!(cx, Content, l == m, "a rejected range of the user's own leaves {:?}", Sh(&l)),
            }
            m = l;
        }
    }
    qcheck(cx, &q, &m, text, "after a range of the user's own");
    quse(s, cx, ar, &mut q, &mut m, text);
    qcheck(cx, &cl, &before, text, "a clone");
}
/// Values with a rejected range or position.
#[inline(never)]
fn values(s: &mut Src, cx: &mut Ctx, ar: &Arena) {
    let text = s.bool();
    let n = s.usize(60);
    let c = if text { gen_text_n(s, n).into_bytes() } else { gen_bytes_n(s, n) };
    let n = c.len();
    let (v, how) = gen_bd(s, cx, ar, &c);
    let keep = v.clone();
    let r = gen_range_v(s, n, false);
    let good = if text { r.resolve_str(core::str::from_utf8(&c).unwrap()) } else { r.resolve(n) };
    if good.is_some() {
        return;
    }
    let kind = s.usize(6);
    note!(cx, "the range {r:?} on {:?} ({}), #{kind}", Sh(&c), how.how);
    let k = n + 1 + s.usize(30);
    let after: ByteData<'static>;
    let res: Result<usize, String>;
    if text {
        let mut t = StringData::try_from_bytedata(v).ok().unwrap();
        let x = t.clone();
        res = match kind {
            0 => with_range!(r.clone(), r, cx.catch(|| { t.make_sliced(r); 0 })),
            1 => with_range!(r.clone(), r, cx.catch(|| x.into_sliced(r).len())),
            2 => with_range!(r.clone(), r, cx.catch(|| t.sliced(r).len())),
            3 => with_range!(r.clone(), r, cx.catch(|| x.into_shared_range(r).len())),
            _ => cx.catch(|| x.split_at(k).0.len()),
        };
        after = t.into_bytedata();
    } else {
        let mut t = v;
        let x = t.clone();
        res = match kind {
            0 => with_range!(r.clone(), r, cx.catch(|| { t.make_sliced(r); 0 })),
            1 => with_range!(r.clone(), r, cx.catch(|| x.into_sliced(r).len())),
            2 => with_range!(r.clone(), r, cx.catch(|| t.sliced(r).len())),
            3 => with_range!(r.clone(), r, cx.catch(|| x.into_shared_range(r).len())),
            4 => cx.catch(|| x.split_at(k).0.len()),
            _ => cx.catch(|| t.take_bytes(k).len()),
        };
        after = t;
    }
    ck!(cx, Panic, res.is_err(), "it is accepted: {res:?}");
    if n > 14 {
        cx.label("rejected range");
    }
    ck!(cx, Content, after.as_slice() == &c[..], "afterwards the value holds {:?}, must hold {:?}", Sh(&after), Sh(&c));
    ck!(cx, Alias, keep.as_slice() == &c[..], "a clone changes to {:?}", Sh(&keep));
    let sh = SharedBytes::from(after);
    let x = sh.clone();
    let bad = n + 1 + s.usize(9);
    let mut y = sh.clone();
    for k in 0..3 {
        let r = match k {
            0 => cx.catch(|| x.clone().into_sliced(bad, 0).len()),
            1 => cx.catch(|| x.sliced(n / 2, bad).len()),
            _ => cx.catch(|| y.make_sliced(bad, usize::MAX).len()),
        };
        // a documented fallback may be an empty result
        ck!(cx, Content, r.is_err() || r == Ok(0), "slicing a SharedBytes of {n} bytes from {bad} gives {r:?} bytes");
    }
    ck!(cx, Content, sh.as_slice() == &c[..] && x.as_slice() == &c[..], "afterwards the buffer holds {:?}", Sh(&sh));
}
/// External owners whose `as_slice` or destructor panics.
struct Nasty {
    data: Box<[u8]>,
    asked: AtomicU32,
    boom: u32,
    short: u32,
    drops: Arc<AtomicU32>,
    drop_boom: bool,
}
impl Drop for Nasty {
    fn drop(&mut self) {
        self.drops.fetch_add(1, Ordering::Relaxed);
        if self.drop_boom && !std::thread::panicking() {
            panic!("{BOOM}");
        }
    }
}
impl bytedata::external::ExternalBytes for Nasty {
    const OPS: bytedata::external::ExternalOps<Self> = bytedata::external::ExternalOps::new(|x: &Self| {
        let k = x.asked.fetch_add(1, Ordering::Relaxed);
        if k == x.boom {
            panic!("{BOOM}");
        }
        if k >= x.short {
            return &x.data[..x.data.len().min(5)];
        }
        &x.data
    });
}
#[inline(never)]
fn owners(s: &mut Src, cx: &mut Ctx) {
    let n = s.usize(50);
    let c = gen_bytes_n(s, n);
    let drops = Arc::new(AtomicU32::new(0));
    let boom = s.usize(4) as u32;
    let short = if s.bool() { 99 } else { s.usize(3) as u32 };
    let drop_boom = boom == 3 && s.bool();
    note!(cx, "an owner of {} bytes whose as_slice panics at call {boom}, gives little from call {short}, drop panics: {drop_boom}", c.len());
    let o = Nasty { data: c.clone().into_boxed_slice(), asked: AtomicU32::new(0), boom, short, drops: Arc::clone(&drops), drop_boom };
    let r = cx.catch(move || ByteData::from_external(o));
    match r {
        Err(p) => {
            ours(cx, &p, "from_external");
            if c.len() > 14 {
                cx.nontrivial();
            }
        }
        Ok(v) => {
            let full = v.as_slice() == &c[..];
            ck!(cx, Content, full || (short < 99 && v.as_slice() == &c[..c.len().min(5)]), "the value holds {:?}", Sh(&v));
            let w = v.clone();
            let x = v.sliced(v.len() / 3..);
            let ext = drops.load(Ordering::Relaxed) == 0;
            let mut h = [Some(v), Some(w), Some(x)];
            for _ in 0..3 {
                let k = s.usize(3);
                let r = cx.catch(|| drop(h[k].take()));
                if let Err(p) = r {
                    ours(cx, &p, "drop");
                }
            }
            for y in h.iter_mut() {
                let r = cx.catch(|| drop(y.take()));
                if let Err(p) = r {
                    ours(cx, &p, "drop");
                }
            }
            let _ = ext;
        }
    }
    let d = drops.load(Ordering::Relaxed);
    ck!(cx, Memory, d == 1, "the owner was dropped {d} times");
}
pub fn run(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    for _ in 0..s.range(1, 6) {
        if s.exhausted() {
            break;
        }
        match s.weighted(&[4, 4, 4, 3, 5, 4, 2]) {
            0 => predicates(s, cx, &ar),
            1 => unfilled(s, cx),
            2 => iterators(s, cx, &ar),
            3 => formatters(s, cx, &ar),
            4 => ranges(s, cx, &ar),
            5 => values(s, cx, &ar),
            _ => owners(s, cx),
        }
    }
    ar.check_owners(cx);
}
