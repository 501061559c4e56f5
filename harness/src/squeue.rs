//! Histories over StringQueue values against a plain string (C07, C05, C18).
use crate::gen::*;
use bytedata::{ByteQueue, StringData, StringQueue};
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};
use std::borrow::Cow;
use std::fmt::Write as _;

pub const SQUEUE: Module = Module {
    name: "squeue",
    rule: "a case is a history of up to 40 operations over up to 3 StringQueue values (push and pop at both ends in every accepted type, runs of small pushes crossing internal nodes, split_off, slice, drain partly consumed, take_while, take_line, find_char, replace_range, extend in every form, Write, collect, clone, conversions, character and byte iteration), with positions on and off character boundaries, each with a String model and, per byte, the address it must still have when its chunk is longer than 14 bytes. After every step: text, len, chunk count, front, back, every chunk non-empty valid UTF-8. Non-trivial: at least 5 operations, a queue of at least 3 chunks and a multi-byte character present.",
    run,
    guided: true,
    balance: true,
};

struct Q {
    q: StringQueue<'static>,
    m: String,
    at: Vec<usize>,
}
fn addresses(q: &StringQueue<'static>) -> Vec<usize> {
    let mut at = Vec::with_capacity(q.len());
    for c in q.byte_chunks() {
        let p = c.as_slice().as_ptr() as usize;
        for k in 0..c.len() {
            at.push(if c.len() > 14 { p + k } else { 0 });
        }
    }
    at
}
impl Q {
    fn of(q: StringQueue<'static>, m: String) -> Q {
        Q { at: addresses(&q), q, m }
    }
    fn sub(q: StringQueue<'static>, from: &Q, a: usize, z: usize) -> Q {
        Q { q, m: from.m[a..z].to_string(), at: from.at.get(a..z).map(<[usize]>::to_vec).unwrap_or_default() }
    }
    fn cut(&mut self, a: usize, z: usize) {
        self.m.replace_range(a..z, "");
        self.at.drain(a..z);
    }
}
#[inline(never)]
fn check(cx: &mut Ctx, e: &mut Q) {
    let (q, m) = (&e.q, &e.m[..]);
    ck!(cx, Content, q.len() == m.len(), "len is {}, must be {}", q.len(), m.len());
    ck!(cx, Content, q.is_empty() == m.is_empty(), "is_empty is {} with {} bytes", q.is_empty(), m.len());
    let (mut pos, mut n) = (0, 0);
    let mut last: *const StringData<'static> = core::ptr::null();
    for c in q.chunks() {
        n += 1;
        ck!(cx, Content, n <= q.chunk_len() + 2, "chunks gives more than the {} chunks counted", q.chunk_len());
        let l = c.len();
        ck!(cx, Content, l != 0, "chunk {n} of {} is empty", q.chunk_len());
        ck!(cx, Utf8, core::str::from_utf8(c.as_bytes()).is_ok(), "chunk {n} holds invalid UTF-8 {:?}", Sh(c.as_bytes()));
        if n == 1 {
            ck!(cx, Content, q.front().is_some_and(|f| core::ptr::eq(f, c)), "front is not the first chunk");
        }
        ck!(cx, Content, m.as_bytes().get(pos..pos + l) == Some(c.as_bytes()), "chunk {n} at byte {pos} holds {:?}, the text must be {m:?}", c.as_str());
        let p = c.as_bytes().as_ptr() as usize;
        if l > 14 {
            ck!(cx, Alias, e.at.len() != m.len() || (0..l).all(|k| e.at[pos + k] == p + k), "the data of chunk {n} ({l} bytes) was copied");
        } else if e.at.len() == m.len() {
            e.at[pos..pos + l].fill(0);
        }
        pos += l;
        last = c;
    }
    ck!(cx, Content, pos == m.len(), "the chunks hold {pos} bytes, must hold {}", m.len());
    ck!(cx, Content, n == q.chunk_len(), "chunk_len is {}, but there are {n} chunks", q.chunk_len());
    ck!(cx, Content, q.front().is_some() == (n > 0), "front is {:?} with {n} chunks", q.front().map(|x| x.len()));
    ck!(cx, Content, q.back().map_or(last.is_null(), |b| core::ptr::eq(b, last)), "back is not the last chunk");
    ck!(cx, Content, !q.is_full(), "is_full with an allocator");
}

pub fn run(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let mut pool: Vec<Q> = Vec::new();
    let steps = s.range(2, 40);
    let (mut worked, mut big) = (0, false);
    for _ in 0..steps {
        if s.exhausted() {
            break;
        }
        if pool.is_empty() || (pool.len() < 3 && s.ratio(1, 12)) {
            let e = fresh(s, cx, &ar);
            pool.push(e);
        } else {
            worked += 1;
            step(s, cx, &ar, &mut pool);
        }
        while pool.len() > 3 {
            let k = s.usize(pool.len());
            pool.swap_remove(k);
        }
        for e in &mut pool {
            check(cx, e);
            big |= e.q.chunk_len() >= 3 && !e.m.is_ascii();
        }
        pool.retain(|e| e.m.len() < 6000);
    }
    drop(pool);
    ar.check_owners(cx);
    if worked >= 5 && big {
        cx.nontrivial();
    }
}

#[inline(never)]
fn fresh(s: &mut Src, cx: &mut Ctx, ar: &Arena) -> Q {
    let c = if s.ratio(1, 4) { String::new() } else { gen_text(s) };
    let k = s.usize(8);
    note!(cx, "new string queue #{k} {:?}", Sh(c.as_bytes()));
    let q: StringQueue<'static> = match k {
        0 => StringQueue::with_item(gen_sd(s, cx, ar, &c).0),
        1 => StringQueue::from(gen_sd(s, cx, ar, &c).0),
        2 => StringQueue::from(ar.str(&c)),
        3 => StringQueue::from(c.clone()),
        4 => StringQueue::from(if s.bool() { Cow::<'static, str>::Owned(c.clone()) } else { Cow::Borrowed(ar.str(&c)) }),
        5 => {
            let n = 1 + s.usize(9);
            let mut vs = Vec::new();
            let mut rest = &c[..];
            while !rest.is_empty() {
                let mut k = n.max(c.len() / 20).min(rest.len());
                while !rest.is_char_boundary(k) {
                    k += 1;
                }
                vs.push(gen_sd(s, cx, ar, &rest[..k]).0);
                rest = &rest[k..];
                if s.ratio(1, 8) {
                    vs.push(StringData::empty());
                }
            }
            vs.into_iter().collect()
        }
        _ => gen_squeue(s, cx, ar, &c),
    };
    Q::of(q, c)
}

/// A condition on characters which first holds at some position of `m`: (the character, its byte position).
fn stop_at(s: &mut Src, m: &str) -> (char, usize) {
    let k = s.usize(m.chars().count().min(200) + 1);
    let stop = m.chars().nth(k).unwrap_or('!');
    (stop, m.find(stop).unwrap_or(m.len()))
}

/// The character boundary at or before `k`.
fn floor(m: &str, mut k: usize) -> usize {
    while !m.is_char_boundary(k) {
        k -= 1;
    }
    k
}

#[inline(never)]
fn step(s: &mut Src, cx: &mut Ctx, ar: &Arena, pool: &mut Vec<Q>) {
    let i = s.usize(pool.len());
    let e = &mut pool[i];
    let n = e.m.len();
    match s.weighted(&[5, 5, 4, 4, 4, 4, 4, 5, 5, 3, 3, 5, 4, 2, 3, 3, 3, 3, 2]) {
        k @ 0..=1 => {
            let c = gen_text_small(s);
            let back = k == 0;
            let ty = s.usize(6);
            note!(cx, "[{i}] push_{} #{ty} {c:?}", if back { "back" } else { "front" });
            let mut at0 = 0;
            macro_rules! psh {
                ($v:expr) => {{
                    let v = $v;
                    if back {
                        e.q.push_back(v)
                    } else {
                        e.q.push_front(v)
                    }
                }};
            }
            match ty {
                0 => psh!(ar.str(&c)),
                1 => psh!(c.clone()),
                2 => psh!(Cow::<'static, str>::Owned(c.clone())),
                _ => {
                    let v = gen_sd(s, cx, ar, &c).0;
                    at0 = v.as_bytes().as_ptr() as usize;
                    psh!(v)
                }
            }
            let end = if back { e.q.back() } else { e.q.front() };
            if !c.is_empty() {
                ck!(cx, Content, end.is_some_and(|x| x.as_str() == c), "the pushed chunk reads {:?}, must be {c:?}", end.map(|x| x.as_str()));
            }
            if at0 == 0 || c.len() <= 14 {
                at0 = end.map_or(0, |x| x.as_bytes().as_ptr() as usize);
            }
            let at: Vec<usize> = (0..c.len()).map(|k| if c.len() > 14 { at0 + k } else { 0 }).collect();
            if back {
                e.m.push_str(&c);
                e.at.extend_from_slice(&at);
            } else {
                e.m.insert_str(0, &c);
                e.at.splice(..0, at);
            }
        }
        2 => {
            let k = s.range(1, 24);
            let seed = s.usize(1000);
            let mode = s.usize(3);
            note!(cx, "[{i}] {k} small pushes, mode {mode}");
            for j in 0..k {
                let c: String = (0..1 + j % 3).map(|x| CHARS[(seed + 7 * j + x) % CHARS.len()]).collect();
                if mode == 0 || (mode == 2 && j % 2 == 0) {
                    e.q.push_back(c.clone());
                    e.m.push_str(&c);
                    e.at.resize(e.m.len(), 0);
                } else {
                    e.q.push_front(c.clone());
                    e.m.insert_str(0, &c);
                    e.at.splice(..0, vec![0; c.len()]);
                }
            }
        }
        k @ 3..=4 => {
            let times = s.weighted(&[6, 2, 1, 1]) * 3 + 1;
            note!(cx, "[{i}] pop_{} x{times}", if k == 3 { "front" } else { "back" });
            for _ in 0..times {
                let c0 = e.q.chunk_len();
                let (want, got) = if k == 3 { (e.q.front().map(|x| x.len()), e.q.pop_front()) } else { (e.q.back().map(|x| x.len()), e.q.pop_back()) };
                ck!(cx, Content, got.as_ref().map(|x| x.len()) == want, "pop gives {:?} bytes, the end chunk has {want:?}", got.as_ref().map(|x| x.len()));
                ck!(cx, Content, got.is_some() == (c0 > 0), "pop of a queue of {c0} chunks gives {:?}", got.is_some());
                let Some(v) = got else { break };
                let l = v.len();
                ck!(cx, Content, l > 0 && l <= e.m.len(), "pop gives a chunk of {l} bytes");
                ck!(cx, Utf8, core::str::from_utf8(v.as_bytes()).is_ok(), "pop gives invalid UTF-8 {:?}", Sh(v.as_bytes()));
                let (a, z) = if k == 3 { (0, l) } else { (e.m.len() - l, e.m.len()) };
                ck!(cx, Content, v.as_bytes() == &e.m.as_bytes()[a..z], "pop gives {:?}, must give {:?}", v.as_str(), Sh(&e.m.as_bytes()[a..z]));
                if l > 14 {
                    ck!(cx, Alias, e.at[a] == v.as_bytes().as_ptr() as usize, "pop copies the data of a chunk");
                }
                e.cut(a, z);
                if times > 3 {
                    check(cx, e);
                }
            }
        }
        5 => {
            let k = if s.ratio(2, 3) { let mut k = gen_pos_in(s, n); while !e.m.is_char_boundary(k) { k -= 1 } k } else { gen_pos(s, n) };
            note!(cx, "[{i}] split_off {k}");
            let q = &mut e.q;
            match cx.catch(|| q.split_off(k)) {
                Ok(o) => {
                    ck!(cx, Utf8, e.m.is_char_boundary(k) || k > n, "split_off({k}) inside a character of {:?} does not panic", e.m);
                    ck!(cx, Content, k <= n, "split_off({k}) of {n} bytes does not panic");
                    let mut o = Q::sub(o, e, k, n);
                    e.cut(k, n);
                    check(cx, &mut o);
                    pool.push(o);
                }
                Err(p) => ck!(cx, Panic, !e.m.is_char_boundary(k), "split_off({k}) of {n} bytes panics: {p}"),
            }
        }
        6 => {
            let r = gen_range_str(s, &e.m);
            note!(cx, "[{i}] slice {r:?}");
            let q = &e.q;
            let want = r.resolve_str(&e.m);
            match (cx.catch(|| with_range!(r.clone(), x, q.slice(x))), want) {
                (Ok(o), Some((a, z))) => {
                    let mut o = Q::sub(o, e, a, z);
                    check(cx, &mut o);
                    pool.push(o);
                }
                (Err(_), None) => cx.label("range rejected"),
                // an empty range inside a character may give an empty queue
                (Ok(o), None) => {
                    let inside = r.resolve(n).is_some_and(|(a, z)| a == z);
                    ck!(cx, Utf8, inside || r.resolve(n).is_none(), "slice({r:?}) inside a character of {:?} gives {:?}", e.m, Sh(&Vec::from(o.into_bytequeue())));
                    ck!(cx, Content, inside && o.is_empty() && o.chunk_len() == 0, "slice({r:?}) of {n} bytes gives {} bytes instead of a panic", o.len());
                }
                (Err(p), Some(_)) => ck!(cx, Panic, false, "slice({r:?}) of {:?} panics: {p}", e.m),
            }
        }
        7 => {
            let r = gen_range_str(s, &e.m);
            let took = s.usize(12);
            let style = s.usize(5);
            note!(cx, "[{i}] drain {r:?}, taking {took}, style {style}");
            let want = r.resolve_str(&e.m);
            let q = &mut e.q;
            let got = cx.catch(|| {
                with_range!(r.clone(), x, {
                    let mut d = q.drain(x);
                    let mut v = Vec::new();
                    let mut h = Vec::new();
                    for _ in 0..took {
                        h.push(d.size_hint());
                        match d.next() {
                            Some(b) => v.push(b),
                            None => break,
                        }
                    }
                    let mut tail = None;
                    match style {
                        0 => {
                            tail = Some(String::new());
                            tail.as_mut().unwrap().extend(d)
                        }
                        1 => tail = Some(d.count().to_string()),
                        2 => tail = Some(format!("{:?}", d.last())),
                        3 => tail = Some(format!("{:?}", d.nth(took))),
                        _ => {}
                    }
                    (v, h, tail)
                })
            });
            match (got, want) {
                (Ok((v, h, tail)), Some((a, z))) => {
                    let t = &e.m[a..z];
                    let w: Vec<char> = t.chars().take(took).collect();
                    ck!(cx, Content, v == w, "drain({r:?}) gives {v:?}, must give {w:?}");
                    for (k, (lo, hi)) in h.iter().enumerate() {
                        let left = t.chars().count() - k.min(t.chars().count());
                        ck!(cx, Content, *lo <= left && hi.is_none_or(|x| x >= left), "drain({r:?}) has size hint {lo} to {hi:?} with {left} characters left");
                    }
                    let rest: String = t.chars().skip(w.len()).collect();
                    let wt = match style {
                        0 => Some(rest),
                        1 => Some(rest.chars().count().to_string()),
                        2 => Some(format!("{:?}", rest.chars().last())),
                        3 => Some(format!("{:?}", rest.chars().nth(took))),
                        _ => None,
                    };
                    ck!(cx, Content, tail == wt, "drain({r:?}) then gives {tail:?}, must give {wt:?}");
                    e.cut(a, z);
                }
                (Err(_), None) => cx.label("range rejected"),
                // an empty range inside a character: nothing may be drained
                (Ok((v, ..)), None) => {
                    let inside = r.resolve(n).is_some_and(|(a, z)| a == z);
                    ck!(cx, Utf8, inside || r.resolve(n).is_none(), "drain({r:?}) inside a character of {:?} gives {v:?}", e.m);
                    ck!(cx, Content, inside && v.is_empty(), "drain({r:?}) of {n} bytes does not panic");
                }
                (Err(p), Some(_)) => ck!(cx, Panic, false, "drain({r:?}) of {:?} panics: {p}", e.m),
            }
        }
        8 => {
            let counted = s.ratio(1, 2);
            let (stop, k) = if counted { (' ', floor(&e.m, gen_pos_in(s, n))) } else { stop_at(s, &e.m) };
            note!(cx, "[{i}] take_while {k} bytes (!= {stop:?})");
            let mut seen = String::new();
            let o = e.q.take_while(|x| {
                seen.push(x);
                if counted { seen.len() <= k } else { x != stop }
            });
            let next = e.m[k..].chars().next().map_or(0, char::len_utf8);
            ck!(cx, Content, seen == e.m[..k + next], "take_while calls the condition with {seen:?}");
            let mut o = Q::sub(o, e, 0, k);
            e.cut(0, k);
            check(cx, &mut o);
            pool.push(o);
        }
        9 => {
            note!(cx, "[{i}] take_line");
            let o = e.q.take_line();
            let k = e.m.find('\n').map_or(n, |x| x + 1);
            let mut o = Q::sub(o, e, 0, k);
            e.cut(0, k);
            check(cx, &mut o);
            if s.bool() {
                pool.push(o);
            }
        }
        10 => {
            let (stop, k) = stop_at(s, &e.m);
            note!(cx, "[{i}] find_char {stop:?}");
            let got = e.q.find_char(|x| x == stop);
            let want = (k < n).then_some(k);
            ck!(cx, Content, got == want, "find_char({stop:?}) gives {got:?}, must give {want:?}");
        }
        11 => {
            let r = gen_range_str(s, &e.m);
            let c = gen_text_small(s);
            let (v, _) = gen_sd(s, cx, ar, &c);
            note!(cx, "[{i}] replace_range {r:?} with {c:?}");
            let p = v.as_bytes().as_ptr() as usize;
            let at: Vec<usize> = (0..c.len()).map(|k| if c.len() > 14 { p + k } else { 0 }).collect();
            let q = &mut e.q;
            let got = cx.catch(|| with_range!(r.clone(), x, q.replace_range(x, v)));
            match (got, r.resolve_str(&e.m)) {
                (Ok(()), Some((a, z))) => {
                    e.m.replace_range(a..z, &c);
                    e.at.splice(a..z, at);
                }
                (Err(_), None) => cx.label("range rejected"),
                (Ok(()), None) => {
                    ck!(cx, Utf8, r.resolve(n).is_none(), "replace_range({r:?}) inside a character of {:?} does not panic", e.m);
                    ck!(cx, Content, false, "replace_range({r:?}) of {n} bytes does not panic")
                }
                (Err(p), Some(_)) => ck!(cx, Panic, false, "replace_range({r:?}) of {:?} panics: {p}", e.m),
            }
        }
        12 => {
            let c = gen_text_small(s);
            let k = s.usize(6);
            note!(cx, "[{i}] extend #{k} {c:?}");
            let mut h = s.usize(c.len() + 1);
            while !c.is_char_boundary(h) {
                h -= 1;
            }
            let (a, b) = c.split_at(h);
            match k {
                0 => e.q.extend([ar.str(a), "", ar.str(b)]),
                1 => e.q.extend([a.to_string(), String::new(), b.to_string()]),
                2 => {
                    let w = write!(e.q, "{a}{b}");
                    ck!(cx, Content, w.is_ok(), "Write reports an error");
                }
                3 => {
                    let _ = e.q.write_str(a);
                    for x in b.chars() {
                        let _ = e.q.write_char(x);
                    }
                }
                _ => {
                    let vs = vec![gen_sd(s, cx, ar, a).0, StringData::empty(), gen_sd(s, cx, ar, b).0];
                    e.q.extend(vs);
                }
            }
            e.m.push_str(&c);
            let new = addresses(&e.q);
            e.at.extend_from_slice(new.get(n..).unwrap_or_default());
        }
        13 => {
            note!(cx, "[{i}] clone");
            let o = Q { q: e.q.clone(), m: e.m.clone(), at: e.at.clone() };
            pool.push(o);
        }
        14 => {
            let k = s.usize(5);
            note!(cx, "[{i}] convert a clone #{k}");
            let q = e.q.clone();
            match k {
                0 => {
                    let v: String = q.into();
                    ck!(cx, Content, v == e.m, "String from a queue is {v:?}, must be {:?}", e.m);
                }
                1 => {
                    let one = q.chunk_len() == 1 && n > 14;
                    let v: StringData<'static> = q.into();
                    ck!(cx, Content, v.as_bytes() == e.m.as_bytes(), "StringData from a queue is {:?}, must be {:?}", Sh(v.as_bytes()), e.m);
                    ck!(cx, Alias, !one || v.as_bytes().as_ptr() as usize == e.at[0], "StringData from a queue of one chunk is a copy");
                }
                2 => {
                    let b = q.as_bytequeue();
                    ck!(cx, Content, *b == *e.m.as_bytes() && b.len() == n, "as_bytequeue gives other bytes");
                    let b: ByteQueue<'static> = q.into_bytequeue();
                    let mut o = crate::queue::Q { q: b, m: e.m.clone().into_bytes(), at: e.at.clone() };
                    crate::queue::check(cx, &mut o);
                }
                3 => {
                    let mut it = q.into_iter();
                    let (mut a, mut z) = (0, n);
                    while a < z || s.ratio(1, 2) {
                        let front = s.bool();
                        match if front { it.next() } else { it.next_back() } {
                            None => {
                                ck!(cx, Content, a == z, "into_iter ends {} bytes too early", z - a);
                                break;
                            }
                            Some(c) => {
                                let l = c.len();
                                ck!(cx, Content, l <= z - a, "into_iter gives too many bytes");
                                let w = if front { &e.m.as_bytes()[a..a + l] } else { &e.m.as_bytes()[z - l..z] };
                                ck!(cx, Utf8, core::str::from_utf8(c.as_bytes()).is_ok(), "into_iter gives invalid UTF-8");
                                ck!(cx, Content, c.as_bytes() == w, "into_iter gives {:?}, must give {:?}", c.as_str(), Sh(w));
                                if front {
                                    a += l
                                } else {
                                    z -= l
                                }
                            }
                        }
                        if s.ratio(1, 12) {
                            break;
                        }
                    }
                }
                _ => {
                    let v: StringQueue<'static> = IntoIterator::into_iter(q).collect();
                    let mut o = Q { q: v, m: e.m.clone(), at: e.at.clone() };
                    check(cx, &mut o);
                    pool.push(o);
                }
            }
        }
        15 => {
            // every way of reading the text
            let k = s.usize(6);
            note!(cx, "[{i}] read #{k}");
            let m = &e.m[..];
            match k {
                0 => ck!(cx, Content, e.q.chars().eq(m.chars()), "chars gives {:?}, must give {m:?}", e.q.chars().collect::<String>()),
                1 => ck!(cx, Content, e.q.chars_indecies().eq(m.char_indices()), "chars_indecies gives {:?}, must give {:?}", e.q.chars_indecies().collect::<Vec<_>>(), m),
                2 => ck!(cx, Content, e.q.clone().into_chars().eq(m.chars()), "into_chars gives {:?}, must give {m:?}", e.q.clone().into_chars().collect::<String>()),
                3 => ck!(cx, Content, e.q.bytes().eq(m.bytes()), "bytes gives other bytes than {m:?}"),
                4 => ck!(cx, Content, e.q.clone().into_bytes().eq(m.bytes()), "into_bytes gives other bytes than {m:?}"),
                _ => {
                    let mut v = Vec::new();
                    for c in e.q.byte_chunks() {
                        v.extend_from_slice(c);
                    }
                    ck!(cx, Content, v == m.as_bytes(), "byte_chunks gives {:?}, must give {m:?}", Sh(&v));
                }
            }
        }
        16 => {
            // all lines
            note!(cx, "[{i}] every line of a clone");
            let mut q = e.q.clone();
            let want: Vec<&str> = e.m.split_inclusive('\n').collect();
            for w in want {
                let l = q.take_line();
                ck!(cx, Content, l == *w, "take_line gives {:?}, must give {w:?}", l);
            }
            ck!(cx, Content, q.is_empty() && q.take_line().is_empty(), "take_line leaves text behind");
        }
        17 => {
            note!(cx, "[{i}] moved chunk by chunk");
            let mut o = StringQueue::default();
            let rev = s.bool();
            loop {
                let Some(c) = (if rev { e.q.pop_back() } else { e.q.pop_front() }) else { break };
                if rev {
                    o.push_front(c)
                } else {
                    o.push_back(c)
                }
            }
            let rest = core::mem::replace(&mut e.q, o);
            ck!(cx, Content, rest.is_empty() && rest.len() == 0 && rest.chunk_len() == 0, "a queue popped empty has {} bytes in {} chunks", rest.len(), rest.chunk_len());
        }
        _ => {
            note!(cx, "[{i}] drop");
            pool.swap_remove(i);
        }
    }
}
