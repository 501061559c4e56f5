//! Every iterator of the crate in every traversal style (C19).
use crate::gen::*;
use bytedata::{ByteData, ByteQueue, StringData, StringQueue};
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};
use std::collections::VecDeque;
use std::fmt::Debug;

pub const ITER: Module = Module {
    name: "iter",
    rule: "a case is one iterator of the crate (queue chunks, bytes and characters, borrowed and owned, with the crate's own skip and take applied first; drains; pieces of every split; values as iterators; the UTF-8 decoder) over a content in any representation and chunking, traversed by a drawn sequence of next, nth, by_ref().take and .skip, and next_back, nth_back and rfind where offered, with arguments up to usize::MAX, ended by count, last, collect, fold, rev, rfold, skip, take, step_by, position or a drop. Oracle: a deque of the items; size hint and length are checked before every step, and None stays None. After a drain the queue must hold the content without the range, and go on working. Non-trivial: at least 2 items and an argument above 0, or a traversal from the back.",
    run,
    guided: true,
    balance: true,
};
fn arg(s: &mut Src, rem: usize) -> usize {
    match s.weighted(&[4, 3, 3, 2, 1, 1, 1]) {
        0 => s.usize(3),
        1 => s.usize(rem + 1),
        2 => rem.saturating_sub(s.usize(3)),
        3 => rem + s.usize(3),
        4 => usize::MAX - s.usize(3),
        5 => usize::MAX / 2 + s.usize(3),
        _ => rem + 1000,
    }
}
struct D<'x, K> {
    what: &'x str,
    m: VecDeque<K>,
    exact: bool,
    fused: bool,
}
impl<'x, K: PartialEq + Debug> D<'x, K> {
    fn hint<I: Iterator>(&self, cx: &mut Ctx, it: &I, len: Option<fn(&I) -> usize>) {
        let (lo, hi) = it.size_hint();
        let n = self.m.len();
        ck!(cx, Content, lo <= n && hi.is_none_or(|h| n <= h), "{}: the size hint is {:?} with {n} items to come", self.what, (lo, hi));
        ck!(cx, Content, !self.exact || (lo == n && hi == Some(n)), "{}: the size hint is {:?}, must be exactly {n}", self.what, (lo, hi));
        if let Some(l) = len {
            let l = l(it);
            ck!(cx, Content, l == n, "{}: the length is {l}, must be {n}", self.what);
        }
    }
    fn is(&self, cx: &mut Ctx, op: &str, got: Option<K>, want: Option<K>) {
        ck!(cx, Content, got == want, "{}: {op} gives {got:?}, must give {want:?}", self.what);
    }
    fn skip(&mut self, n: usize) {
        let k = n.min(self.m.len());
        self.m.drain(..k);
    }
    /// Steps which do not use the iterator up.
    fn step<I: Iterator>(&mut self, s: &mut Src, cx: &mut Ctx, it: &mut I, len: Option<fn(&I) -> usize>, key: &mut dyn FnMut(I::Item) -> K) {
        self.hint(cx, it, len);
        match s.weighted(&[6, 4, 2, 2, 1]) {
            0 => {
                note!(cx, "next");
                let g = it.next().map(&mut *key);
                let w = self.m.pop_front();
                let end = w.is_none();
                self.is(cx, "next", g, w);
                if end && self.fused {
                    let g = it.next().map(&mut *key);
                    self.is(cx, "next after the end", g, None);
                }
            }
            1 => {
                let n = arg(s, self.m.len());
                note!(cx, "nth({n})");
                if n > 0 && self.m.len() > 1 {
                    cx.nontrivial();
                }
                if n >= self.m.len() && !self.fused {
                    return;
                }
                let g = it.nth(n).map(&mut *key);
                self.skip(n);
                let w = self.m.pop_front();
                self.is(cx, &format!("nth({n})"), g, w);
            }
            2 => {
                let n = arg(s, self.m.len());
                note!(cx, "by_ref().take({n})");
                let g: Vec<K> = it.by_ref().take(n).map(&mut *key).collect();
                let k = n.min(self.m.len());
                let w: Vec<K> = self.m.drain(..k).collect();
                ck!(cx, Content, g == w, "{}: by_ref().take({n}) gives {g:?}, must give {w:?}", self.what);
            }
            3 => {
                let n = arg(s, self.m.len());
                note!(cx, "by_ref().skip({n}).next()");
                if n >= self.m.len() && !self.fused {
                    return;
                }
                let g = Iterator::skip(it.by_ref(), n).next().map(&mut *key);
                self.skip(n);
                let w = self.m.pop_front();
                self.is(cx, &format!("by_ref().skip({n}).next()"), g, w);
            }
            _ => {
                let k = s.usize(3);
                note!(cx, "find after {k}");
                let mut c = k;
                let g = it
                    .find(|_| {
                        c = c.wrapping_sub(1);
                        c == usize::MAX
                    })
                    .map(&mut *key);
                self.skip(k);
                let w = self.m.pop_front();
                self.is(cx, "find", g, w);
            }
        }
    }
    /// One use of the iterator which ends it.
    fn end<I: Iterator>(mut self, s: &mut Src, cx: &mut Ctx, it: I, len: Option<fn(&I) -> usize>, key: &mut dyn FnMut(I::Item) -> K) {
        self.hint(cx, &it, len);
        let n = self.m.len();
        let w = self.what;
        match s.usize(10) {
            0 => {
                note!(cx, "count");
                let g = it.count();
                ck!(cx, Content, g == n, "{w}: count gives {g}, must give {n}");
            }
            1 => {
                note!(cx, "last");
                let g = it.last().map(&mut *key);
                let l = self.m.pop_back();
                self.is(cx, "last", g, l);
            }
            2 => {
                note!(cx, "collect");
                let g: Vec<K> = it.map(&mut *key).collect();
                ck!(cx, Content, g.iter().eq(self.m.iter()), "{w}: collect gives {g:?}, must give {:?}", self.m);
            }
            3 => {
                note!(cx, "fold");
                let g = it.fold(Vec::new(), |mut v, x| {
                    v.push(key(x));
                    v
                });
                ck!(cx, Content, g.iter().eq(self.m.iter()), "{w}: fold gives {g:?}, must give {:?}", self.m);
            }
            4 => {
                let k = arg(s, n);
                note!(cx, "skip({k}).collect()");
                if k > 0 && n > 1 {
                    cx.nontrivial();
                }
                let i = Iterator::skip(it, k);
                let (lo, hi) = i.size_hint();
                let r = n.saturating_sub(k);
                ck!(cx, Content, lo <= r && hi.is_none_or(|h| r <= h), "{w}: the size hint after skip({k}) is {:?} with {r} to come", (lo, hi));
                let g: Vec<K> = i.map(&mut *key).collect();
                self.skip(k);
                ck!(cx, Content, g.iter().eq(self.m.iter()), "{w}: skip({k}) gives {g:?}, must give {:?}", self.m);
            }
            5 => {
                let k = arg(s, n);
                note!(cx, "take({k}).count()");
                let g = Iterator::take(it, k).count();
                ck!(cx, Content, g == n.min(k), "{w}: take({k}).count() gives {g}, must give {}", n.min(k));
            }
            6 => {
                let k = s.range(1, 4);
                note!(cx, "step_by({k})");
                let g: Vec<K> = it.step_by(k).map(&mut *key).collect();
                let m: Vec<K> = self.m.into_iter().step_by(k).collect();
                ck!(cx, Content, g == m, "{w}: step_by({k}) gives {g:?}, must give {m:?}");
            }
            7 => {
                let k = arg(s, n);
                note!(cx, "skip({k}).last()");
                let g = Iterator::skip(it, k).last().map(&mut *key);
                self.skip(k);
                let l = self.m.pop_back();
                self.is(cx, &format!("skip({k}).last()"), g, l);
            }
            8 => {
                note!(cx, "for_each");
                let mut g = Vec::new();
                it.for_each(|x| g.push(key(x)));
                ck!(cx, Content, g.iter().eq(self.m.iter()), "{w}: for_each gives {g:?}, must give {:?}", self.m);
            }
            _ => note!(cx, "drop"),
        }
    }
    fn step_back<I: DoubleEndedIterator>(&mut self, s: &mut Src, cx: &mut Ctx, it: &mut I, len: Option<fn(&I) -> usize>, key: &mut dyn FnMut(I::Item) -> K) {
        self.hint(cx, it, len);
        if self.m.len() > 1 {
            cx.nontrivial();
        }
        match s.usize(3) {
            0 => {
                note!(cx, "next_back");
                let g = it.next_back().map(&mut *key);
                let w = self.m.pop_back();
                self.is(cx, "next_back", g, w);
            }
            1 => {
                let n = arg(s, self.m.len());
                note!(cx, "nth_back({n})");
                let g = it.nth_back(n).map(&mut *key);
                let k = self.m.len() - n.min(self.m.len());
                self.m.truncate(k);
                let w = self.m.pop_back();
                self.is(cx, &format!("nth_back({n})"), g, w);
            }
            _ => {
                let k = s.usize(3);
                note!(cx, "rfind after {k}");
                let mut c = k;
                let g = it
                    .rfind(|_| {
                        c = c.wrapping_sub(1);
                        c == usize::MAX
                    })
                    .map(&mut *key);
                let r = self.m.len() - k.min(self.m.len());
                self.m.truncate(r);
                let w = self.m.pop_back();
                self.is(cx, "rfind", g, w);
            }
        }
    }
    fn end_back<I: DoubleEndedIterator>(self, s: &mut Src, cx: &mut Ctx, it: I, len: Option<fn(&I) -> usize>, key: &mut dyn FnMut(I::Item) -> K) {
        self.hint(cx, &it, len);
        let g: Vec<K> = if s.bool() {
            note!(cx, "rev().collect()");
            it.rev().map(&mut *key).collect()
        } else {
            note!(cx, "rfold");
            it.rfold(Vec::new(), |mut v, x| {
                v.push(key(x));
                v
            })
        };
        ck!(cx, Content, g.iter().eq(self.m.iter().rev()), "{}: from the back gives {g:?}, must give {:?} reversed", self.what, self.m);
    }
}
struct Opt<I> {
    exact: bool,
    fused: bool,
    len: Option<fn(&I) -> usize>,
}
fn opt<I>() -> Opt<I> {
    Opt { exact: false, fused: true, len: None }
}
fn exact<I: ExactSizeIterator>() -> Opt<I> {
    Opt { exact: true, fused: true, len: Some(|i: &I| ExactSizeIterator::len(i)) }
}
fn drive<I: Iterator, K: PartialEq + Debug>(s: &mut Src, cx: &mut Ctx, what: &str, mut it: I, want: Vec<K>, o: Opt<I>, mut key: impl FnMut(I::Item) -> K) {
    note!(cx, "{what}: {} items", want.len());
    let mut d = D { what, m: want.into(), exact: o.exact, fused: o.fused };
    for _ in 0..s.usize(6) {
        d.step(s, cx, &mut it, o.len, &mut key);
    }
    d.end(s, cx, it, o.len, &mut key);
}
fn drive_both<I: DoubleEndedIterator, K: PartialEq + Debug>(s: &mut Src, cx: &mut Ctx, what: &str, mut it: I, want: Vec<K>, o: Opt<I>, mut key: impl FnMut(I::Item) -> K) {
    note!(cx, "{what}: {} items", want.len());
    let mut d = D { what, m: want.into(), exact: o.exact, fused: o.fused };
    for _ in 0..s.usize(8) {
        if s.bool() {
            d.step(s, cx, &mut it, o.len, &mut key);
        } else {
            d.step_back(s, cx, &mut it, o.len, &mut key);
        }
    }
    if s.bool() {
        d.end(s, cx, it, o.len, &mut key);
    } else {
        d.end_back(s, cx, it, o.len, &mut key);
    }
}
fn chunks_of(q: &ByteQueue<'_>) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let mut i = q.chunks();
    while let Some(x) = i.next() {
        v.push(x.as_slice().to_vec());
    }
    v
}
fn check_q(s: &mut Src, cx: &mut Ctx, q: &mut ByteQueue<'static>, c: &[u8], what: &str) {
    let g = chunks_of(q);
    ck!(cx, Content, g.concat() == c, "{what}, the queue holds {:?}, must hold {:?}", Sh(&g.concat()), Sh(c));
    ck!(cx, Content, q.len() == c.len() && q.chunk_len() == g.len() && g.iter().all(|x| !x.is_empty()), "{what}, the queue reports {} bytes in {} chunks, has {} in {}", q.len(), q.chunk_len(), c.len(), g.len());
    // and it goes on working
    let mut c = c.to_vec();
    if s.bool() {
        q.push_back(ByteData::from_static(b"<behind the drained part>"));
        c.extend_from_slice(b"<behind the drained part>");
    } else {
        q.push_front(ByteData::from_static(b"<in front of the drained part>"));
        c.splice(..0, *b"<in front of the drained part>");
    }
    let g = chunks_of(q);
    ck!(cx, Content, g.concat() == c && q.len() == c.len() && q.chunk_len() == g.len(), "{what} and a push, the queue holds {:?} in {} bytes and {} chunks, must hold {:?}", Sh(&g.concat()), q.len(), q.chunk_len(), Sh(&c));
}
fn bytes_case(s: &mut Src, cx: &mut Ctx, ar: &Arena) {
    let c = gen_bytes_small(s);
    note!(cx, "bytes {:?}", Sh(&c));
    let b = |x: &ByteData<'_>| x.as_slice().to_vec();
    match s.usize(9) {
        0 => {
            let q = gen_queue(s, cx, ar, &c);
            let want = chunks_of(&q);
            match s.usize(4) {
                0 => drive(s, cx, "chunks()", q.chunks(), want, exact(), b),
                1 => drive(s, cx, "iter()", q.iter(), want, exact(), b),
                2 => drive(s, cx, "&queue", (&q).into_iter(), want, exact(), b),
                _ => {
                    let n = arg(s, want.len());
                    let m = arg(s, want.len());
                    let mut it = q.chunks().skip(n);
                    it.skip_mut(m);
                    note!(cx, "skip({n}) and skip_mut({m})");
                    let want = want.into_iter().skip(n).skip(m).collect();
                    drive(s, cx, "chunks() after skips", it, want, exact(), b)
                }
            }
        }
        1 => {
            let q = gen_queue(s, cx, ar, &c);
            let want = chunks_of(&q);
            if s.bool() {
                drive_both(s, cx, "into_iter()", ByteQueue::into_iter(q), want, exact(), |x| b(&x))
            } else {
                drive_both(s, cx, "IntoIterator", IntoIterator::into_iter(q), want, exact(), |x| b(&x))
            }
        }
        2 => {
            let q = gen_queue(s, cx, ar, &c);
            let mut it = q.bytes();
            let mut want = c.clone();
            for _ in 0..s.usize(4) {
                let n = arg(s, want.len());
                if s.bool() {
                    note!(cx, "skip({n})");
                    it = it.skip(n);
                    want.drain(..n.min(want.len()));
                } else {
                    note!(cx, "take({n})");
                    it = it.take(n);
                    want.truncate(n);
                }
                ck!(cx, Content, it.len() == want.len() && it.is_empty() == want.is_empty(), "bytes() after skip and take: the length is {}, must be {}", it.len(), want.len());
                if s.ratio(1, 3) {
                    let g = it.next();
                    let w = if want.is_empty() { None } else { Some(want.remove(0)) };
                    ck!(cx, Content, g == w, "bytes() after skip and take gives {g:?}, must give {w:?}");
                }
            }
            drive(s, cx, "bytes()", it, want, exact(), |x| x)
        }
        3 => {
            let q = gen_queue(s, cx, ar, &c);
            let mut it = q.into_bytes();
            let mut want = c.clone();
            for _ in 0..s.usize(4) {
                let n = arg(s, want.len());
                if s.bool() {
                    note!(cx, "skip({n})");
                    it = it.skip(n);
                    want.drain(..n.min(want.len()));
                } else {
                    note!(cx, "take({n})");
                    it = it.take(n);
                    want.truncate(n);
                }
                ck!(cx, Content, it.len() == want.len() && it.is_empty() == want.is_empty(), "into_bytes() after skip and take: the length is {}, must be {}", it.len(), want.len());
                if s.ratio(1, 3) {
                    let g = it.next();
                    let w = if want.is_empty() { None } else { Some(want.remove(0)) };
                    ck!(cx, Content, g == w, "into_bytes() after skip and take gives {g:?}, must give {w:?}");
                }
            }
            drive(s, cx, "into_bytes()", it, want, exact(), |x| x)
        }
        4 | 5 => {
            let mut q = gen_queue(s, cx, ar, &c);
            if q.is_empty() {
                return;
            }
            let r = gen_range_v(s, c.len(), true);
            let Some((x, y)) = r.resolve(c.len()) else { return };
            note!(cx, "drain {x}..{y}");
            if s.ratio(1, 12) {
                // a drain which is forgotten has removed the range or not
                let d = with_range!(r, r, q.drain(r));
                core::mem::forget(d);
                let g = chunks_of(&q).concat();
                let mut w = c.clone();
                w.drain(x..y);
                ck!(cx, Content, g == c || g == w, "after a forgotten drain, the queue holds {:?}", Sh(&g));
                check_q(s, cx, &mut q, &g, "after a forgotten drain");
                return;
            }
            let d = with_range!(r, r, q.drain(r));
            drive(s, cx, "drain()", d, c[x..y].to_vec(), exact(), |x| x);
            let mut w = c.clone();
            w.drain(x..y);
            check_q(s, cx, &mut q, &w, "after the drain");
        }
        6 => {
            let (v, _) = gen_bd(s, cx, ar, &c);
            drive(s, cx, "a ByteData", v, c, opt(), |x| x)
        }
        7 => {
            let (v, _) = gen_bd(s, cx, ar, &c);
            let ne = needle(s, &c);
            let mut want = Vec::new();
            let mut it = v.clone().split_on(&ne);
            while let Some(x) = it.next() {
                want.push(b(&x));
            }
            drop(it);
            drive(s, cx, "ByteData::split_on", v.split_on(&ne), want, opt(), |x| b(&x))
        }
        _ => {
            let q = gen_queue(s, cx, ar, &c);
            let ne = needle(s, &c);
            let max = s.usize(4);
            let mk = || if max == 0 { q.split_on(&ne) } else { q.splitn_on(&ne, max) };
            let mut want = Vec::new();
            let mut it = mk();
            while let Some(x) = it.next() {
                want.push(chunks_of(&x).concat());
            }
            drive(s, cx, "ByteQueue::split_on", mk(), want, opt(), |x| chunks_of(&x).concat())
        }
    }
}
fn needle(s: &mut Src, c: &[u8]) -> Vec<u8> {
    if c.is_empty() || s.ratio(1, 6) {
        return gen_bytes_n(s, 1);
    }
    let i = s.usize(c.len());
    let n = s.usize(3).min(c.len() - i);
    c[i..i + n].to_vec()
}
fn text_case(s: &mut Src, cx: &mut Ctx, ar: &Arena) {
    let c = gen_text_small(s);
    note!(cx, "text {c:?}");
    let st = |x: &StringData<'_>| x.as_str().to_string();
    fn strs(q: &StringQueue<'_>) -> Vec<String> {
        q.byte_chunks().map(|x| core::str::from_utf8(x.as_slice()).expect("a chunk is not UTF-8").to_string()).collect()
    }
    let chars: Vec<char> = c.chars().collect();
    match s.usize(13) {
        0 => {
            let q = gen_squeue(s, cx, ar, &c);
            let want = strs(&q);
            drive(s, cx, "string chunks()", q.chunks(), want, exact(), st)
        }
        1 => {
            let q = gen_squeue(s, cx, ar, &c);
            let want = strs(&q).into_iter().map(String::into_bytes).collect();
            drive(s, cx, "byte_chunks()", q.byte_chunks(), want, exact(), |x| x.as_slice().to_vec())
        }
        2 => {
            let q = gen_squeue(s, cx, ar, &c);
            let want = strs(&q);
            if s.bool() {
                drive_both(s, cx, "string into_iter()", StringQueue::into_iter(q), want, exact(), |x| st(&x))
            } else {
                drive_both(s, cx, "string IntoIterator", IntoIterator::into_iter(q), want, exact(), |x| st(&x))
            }
        }
        3 => {
            let q = gen_squeue(s, cx, ar, &c);
            drive(s, cx, "chars()", q.chars(), chars, opt(), |x| x)
        }
        4 => {
            let q = gen_squeue(s, cx, ar, &c);
            drive(s, cx, "into_chars()", q.into_chars(), chars, opt(), |x| x)
        }
        5 => {
            let q = gen_squeue(s, cx, ar, &c);
            drive(s, cx, "chars_indecies()", q.chars_indecies(), c.char_indices().collect(), opt(), |x| x)
        }
        6 => {
            let q = gen_squeue(s, cx, ar, &c);
            drive(s, cx, "string bytes()", q.bytes(), c.bytes().collect(), exact(), |x| x)
        }
        7 => {
            let q = gen_squeue(s, cx, ar, &c);
            drive(s, cx, "string into_bytes()", q.into_bytes(), c.bytes().collect(), exact(), |x| x)
        }
        8 => {
            let mut q = gen_squeue(s, cx, ar, &c);
            if c.is_empty() {
                return;
            }
            let r = gen_range_str(s, &c);
            let Some((x, y)) = r.resolve_str(&c) else { return };
            note!(cx, "drain {x}..{y}");
            let d = with_range!(r, r, q.drain(r));
            drive(s, cx, "string drain()", d, c[x..y].chars().collect(), opt(), |x| x);
            let mut w = c.clone();
            w.replace_range(x..y, "");
            let g = strs(&q);
            ck!(cx, Content, g.concat() == w && q.len() == w.len() && q.chunk_len() == g.len() && g.iter().all(|x| !x.is_empty()), "after the drain, the queue holds {g:?} ({} bytes, {} chunks), must hold {w:?}", q.len(), q.chunk_len());
            q.push_back(StringData::from_static("<behind>"));
            ck!(cx, Content, strs(&q).concat() == format!("{w}<behind>"), "after the drain and a push, the queue holds {:?}", strs(&q));
        }
        9 => {
            let (v, _) = gen_sd(s, cx, ar, &c);
            if s.bool() {
                drive(s, cx, "a StringData", v, chars, opt(), |x| x)
            } else if s.bool() {
                drive_both(s, cx, "&StringData", (&v).into_iter(), chars, opt(), |x| x)
            } else {
                drive_both(s, cx, "StringData::iter", v.iter(), chars, opt(), |x| x)
            }
        }
        10 => {
            let (v, _) = gen_sd(s, cx, ar, &c);
            let ne = sneedle(s, &chars);
            let mut want = Vec::new();
            let mut it = v.clone().split_on(&ne);
            while let Some(x) = it.next() {
                want.push(st(&x));
            }
            drop(it);
            drive(s, cx, "StringData::split_on", v.split_on(&ne), want, opt(), |x| st(&x))
        }
        11 => {
            let q = gen_squeue(s, cx, ar, &c);
            let ne = sneedle(s, &chars);
            let max = s.usize(4);
            if s.bool() {
                let mk = || if max == 0 { q.split_on(&ne) } else { q.splitn_on(&ne, max) };
                let mut want = Vec::new();
                let mut it = mk();
                while let Some(x) = it.next() {
                    want.push(strs(&x).concat());
                }
                drive(s, cx, "StringQueue::split_on", mk(), want, opt(), |x| strs(&x).concat())
            } else {
                let mk = || if max == 0 { q.split_on_bytes(ne.as_bytes()) } else { q.splitn_on_bytes(ne.as_bytes(), max) };
                let mut want = Vec::new();
                let mut it = mk();
                while let Some(x) = it.next() {
                    want.push(chunks_of(&x).concat());
                }
                drive(s, cx, "StringQueue::split_on_bytes", mk(), want, opt(), |x| chunks_of(&x).concat())
            }
        }
        _ => {
            // the decoder, over text which may be damaged
            let mut b = c.into_bytes();
            for _ in 0..s.usize(3) {
                if !b.is_empty() {
                    let i = s.usize(b.len());
                    b[i] = *s.pick(&[0x80, 0xC2, 0xE0, 0xED, 0xF0, 0xF4, 0xFF, b'a', 0xBF]);
                }
            }
            let mk = || bytedata::Utf8CharIndices::new(&b);
            let mut want = Vec::new();
            let mut it = mk();
            while let Some(x) = it.next() {
                want.push(format!("{x:?}"));
            }
            drive(s, cx, "Utf8CharIndices", mk(), want, opt(), |x| format!("{x:?}"))
        }
    }
}
fn sneedle(s: &mut Src, c: &[char]) -> String {
    if c.is_empty() || s.ratio(1, 6) {
        return gen_text_n(s, 1);
    }
    let i = s.usize(c.len());
    let n = s.usize(3).min(c.len() - i);
    c[i..i + n].iter().collect()
}
#[inline(never)]
pub fn run(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    if s.bool() {
        bytes_case(s, cx, &ar)
    } else {
        text_case(s, cx, &ar)
    }
    ar.check_owners(cx);
}
