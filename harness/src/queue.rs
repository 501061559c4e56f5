//! Histories over ByteQueue values against a plain byte sequence (C06, C18).
use crate::gen::*;
use bytedata::{ByteData, ByteQueue, SharedBytes, StringData};
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};

pub const QUEUE: Module = Module {
    name: "queue",
    rule: "a case is a history of up to 40 operations over up to 3 ByteQueue values (push and pop at both ends in every accepted type, runs of small pushes crossing internal nodes, append, split_off, slice, consume, drain partly consumed, take_while, replace_range, extend in every form, collect, clone, conversions, iterating away), each with a byte-vector model and, per byte, the address it must still have when its chunk is longer than 14 bytes. After every step: bytes, len, chunk count, front, back, no empty chunk. Non-trivial: at least 5 operations and a queue of at least 3 chunks.",
    run,
    guided: true,
    balance: true,
};

pub struct Q {
    pub q: ByteQueue<'static>,
    pub m: Vec<u8>,
    /// where each byte lies, 0 when it may lie anywhere
    pub at: Vec<usize>,
}
impl Q {
    pub fn of(q: ByteQueue<'static>, m: Vec<u8>) -> Q {
        let mut at = Vec::with_capacity(m.len());
        for c in q.chunks() {
            let p = c.as_slice().as_ptr() as usize;
            for k in 0..c.len() {
                at.push(if c.len() > 14 { p + k } else { 0 });
            }
        }
        Q { q, m, at }
    }
    fn sub(q: ByteQueue<'static>, from: &Q, a: usize, z: usize) -> Q {
        Q { q, m: from.m[a..z].to_vec(), at: from.at.get(a..z).map(<[usize]>::to_vec).unwrap_or_default() }
    }
}
/// Checks everything observable of a queue against its model, and brings the addresses up to date.
#[inline(never)]
pub fn check(cx: &mut Ctx, e: &mut Q) {
    let (q, m) = (&e.q, &e.m[..]);
    ck!(cx, Content, q.len() == m.len(), "len is {}, must be {}", q.len(), m.len());
    ck!(cx, Content, q.is_empty() == m.is_empty(), "is_empty is {} with {} bytes", q.is_empty(), m.len());
    let mut pos = 0;
    let mut n = 0;
    let mut last: *const ByteData<'static> = core::ptr::null();
    for c in q.chunks() {
        n += 1;
        ck!(cx, Content, n <= q.chunk_len() + 2, "chunks gives more than the {} chunks counted", q.chunk_len());
        let l = c.len();
        ck!(cx, Content, l != 0, "chunk {n} of {} is empty", q.chunk_len());
        if n == 1 {
            ck!(cx, Content, q.front().is_some_and(|f| core::ptr::eq(f, c)), "front is not the first chunk");
        }
        ck!(cx, Content, pos + l <= m.len() && c.as_slice() == &m[pos..pos + l], "chunk {n} at byte {pos} holds {:?}, must hold {:?}", Sh(c), Sh(&m[pos.min(m.len())..(pos + l).min(m.len())]));
        let p = c.as_slice().as_ptr() as usize;
        if l > 14 {
            ck!(cx, Alias, e.at.len() != m.len() || (0..l).all(|k| e.at[pos + k] == p + k), "the data of chunk {n} ({l} bytes) was copied");
        } else if e.at.len() == m.len() {
            e.at[pos..pos + l].fill(0);
        }
        pos += l;
        last = c;
    }
    ck!(cx, Content, pos == m.len(), "the chunks hold {pos} bytes, must hold {}", m.len());
    ck!(cx, Content, n == q.chunk_len(), "chunk_len is {}, but there are {n} chunks", q.chunk_len());
    ck!(cx, Content, q.front().is_some() == (n > 0), "front is {:?} with {n} chunks", q.front().map(|x| x.len()));
    ck!(cx, Content, q.back().map_or(last.is_null(), |b| core::ptr::eq(b, last)), "back is not the last chunk");
    ck!(cx, Content, !q.is_full(), "is_full with an allocator");
}

pub fn run(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let mut pool: Vec<Q> = Vec::new();
    let steps = s.range(2, 40);
    let (mut worked, mut big) = (0, false);
    for _ in 0..steps {
        if s.exhausted() {
            break;
        }
        if pool.is_empty() || (pool.len() < 3 && s.ratio(1, 12)) {
            let e = fresh(s, cx, &ar);
            pool.push(e);
        } else {
            worked += 1;
            step(s, cx, &ar, &mut pool);
        }
        while pool.len() > 3 {
            let k = s.usize(pool.len());
            pool.swap_remove(k);
        }
        for e in &mut pool {
            check(cx, e);
            big |= e.q.chunk_len() >= 3;
        }
        pool.retain(|e| e.m.len() < 6000);
    }
    drop(pool);
    ar.check_owners(cx);
    if worked >= 5 && big {
        cx.nontrivial();
    }
}

#[inline(never)]
fn fresh(s: &mut Src, cx: &mut Ctx, ar: &Arena) -> Q {
    let c = if s.ratio(1, 4) { Vec::new() } else { gen_bytes(s) };
    let k = s.usize(9);
    note!(cx, "new queue #{k} {:?}", Sh(&c));
    let q: ByteQueue<'static> = match k {
        0 => {
            let (v, _) = gen_bd(s, cx, ar, &c);
            ByteQueue::with_item(v)
        }
        1 => {
            let (v, _) = gen_bd(s, cx, ar, &c);
            ByteQueue::from(v)
        }
        2 => ByteQueue::from(ar.bytes(&c)),
        3 => ByteQueue::from(c.clone()),
        4 => {
            if core::str::from_utf8(&c).is_ok() {
                let t = String::from_utf8(c.clone()).unwrap();
                match s.usize(3) {
                    0 => ByteQueue::from(t),
                    1 => ByteQueue::from(std::borrow::Cow::<'static, str>::Owned(t)),
                    _ => ByteQueue::from(std::borrow::Cow::<'static, str>::Borrowed(ar.str(&t))),
                }
            } else {
                ByteQueue::from(std::borrow::Cow::<'static, [u8]>::Owned(c.clone()))
            }
        }
        5 => ByteQueue::from(std::borrow::Cow::<'static, [u8]>::Borrowed(ar.bytes(&c))),
        6 => {
            let n = 1 + s.usize(9);
            let mut vs = Vec::new();
            for p in c.chunks(n.max(c.len() / 20)) {
                vs.push(gen_bd(s, cx, ar, p).0);
                if s.ratio(1, 8) {
                    vs.push(ByteData::empty());
                }
            }
            vs.into_iter().collect()
        }
        _ => gen_queue(s, cx, ar, &c),
    };
    Q::of(q, c)
}

fn pred(s: &mut Src, m: &[u8]) -> (u8, usize) {
    let k = s.usize(m.len().min(200) + 1);
    let stop = m.get(k).copied().unwrap_or(b'!');
    (stop, m.iter().position(|x| *x == stop).unwrap_or(m.len()))
}

#[inline(never)]
fn step(s: &mut Src, cx: &mut Ctx, ar: &Arena, pool: &mut Vec<Q>) {
    let i = s.usize(pool.len());
    let np = pool.len();
    let e = &mut pool[i];
    let n = e.m.len();
    match s.weighted(&[5, 5, 4, 4, 4, 4, 4, 4, 4, 5, 3, 5, 4, 2, 3, 3, 3, 2]) {
        k @ 0..=1 => {
            let c = gen_bytes_small(s);
            let back = k == 0;
            let ty = s.usize(7);
            note!(cx, "[{i}] push_{} #{ty} {:?}", if back { "back" } else { "front" }, Sh(&c));
            let text = core::str::from_utf8(&c).is_ok();
            let mut at0 = 0;
            macro_rules! psh {
                ($v:expr) => {{
                    let v = $v;
                    if back {
                        e.q.push_back(v)
                    } else {
                        e.q.push_front(v)
                    }
                }};
            }
            match ty {
                0 => psh!(ar.bytes(&c)),
                1 => psh!(c.clone()),
                2 if text => psh!(String::from_utf8(c.clone()).unwrap()),
                3 if text => psh!(gen_sd(s, cx, ar, core::str::from_utf8(&c).unwrap()).0),
                4 => psh!(gen_shared(s, &c).0),
                _ => {
                    let v = gen_bd(s, cx, ar, &c).0;
                    at0 = v.as_slice().as_ptr() as usize;
                    psh!(v)
                }
            }
            let end = if back { e.q.back() } else { e.q.front() };
            if !c.is_empty() {
                ck!(cx, Content, end.is_some_and(|x| x.as_slice() == &c[..]), "the pushed chunk reads {:?}, must be {:?}", end.map(|x| Sh(x)), Sh(&c));
            }
            if at0 == 0 || c.len() <= 14 {
                at0 = end.map_or(0, |x| x.as_slice().as_ptr() as usize);
            }
            let at: Vec<usize> = (0..c.len()).map(|k| if c.len() > 14 { at0 + k } else { 0 }).collect();
            if back {
                e.m.extend_from_slice(&c);
                e.at.extend_from_slice(&at);
            } else {
                e.m.splice(..0, c);
                e.at.splice(..0, at);
            }
        }
        2 => {
            // many small chunks
            let k = s.range(1, 24);
            let seed = s.below(1000);
            let mode = s.usize(3);
            note!(cx, "[{i}] {k} small pushes, mode {mode}");
            for j in 0..k {
                let c = fill(2, seed + j as u64, 1 + j % 3);
                if mode == 0 || (mode == 2 && j % 2 == 0) {
                    e.q.push_back(ByteData::from_chunk_slice(&c));
                    e.m.extend_from_slice(&c);
                    e.at.resize(e.m.len(), 0);
                } else {
                    e.q.push_front(ByteData::from_chunk_slice(&c));
                    e.at.splice(..0, vec![0; c.len()]);
                    e.m.splice(..0, c);
                }
            }
        }
        k @ 3..=4 => {
            let times = s.weighted(&[6, 2, 1, 1]) * 3 + 1;
            note!(cx, "[{i}] pop_{} x{times}", if k == 3 { "front" } else { "back" });
            for _ in 0..times {
                let c0 = e.q.chunk_len();
                let (want, got) = if k == 3 {
                    (e.q.front().map(|x| x.len()), e.q.pop_front())
                } else {
                    (e.q.back().map(|x| x.len()), e.q.pop_back())
                };
                ck!(cx, Content, got.as_ref().map(|x| x.len()) == want, "pop gives {:?} bytes, the end chunk has {want:?}", got.as_ref().map(|x| x.len()));
                ck!(cx, Content, got.is_some() == (c0 > 0), "pop of a queue of {c0} chunks gives {:?}", got.is_some());
                let Some(v) = got else { break };
                let l = v.len();
                ck!(cx, Content, l > 0 && l <= e.m.len(), "pop gives a chunk of {l} bytes");
                let (a, z) = if k == 3 { (0, l) } else { (e.m.len() - l, e.m.len()) };
                ck!(cx, Content, v.as_slice() == &e.m[a..z], "pop gives {:?}, must give {:?}", Sh(&v), Sh(&e.m[a..z]));
                if l > 14 {
                    ck!(cx, Alias, e.at[a] == v.as_slice().as_ptr() as usize, "pop copies the data of a chunk");
                }
                e.m.drain(a..z);
                e.at.drain(a..z);
                if times > 3 {
                    check(cx, e);
                }
            }
        }
        5 => {
            // append another queue, or a clone of this one
            let j = s.usize(np + 1);
            if j == np || j == i {
                if n > 1500 {
                    return;
                }
                note!(cx, "[{i}] append a clone of itself");
                let o = e.q.clone();
                e.q.append(o);
                e.m.extend_from_within(..);
                e.at.extend_from_within(..);
            } else {
                let moved = s.bool();
                note!(cx, "[{i}] append [{j}]{}", if moved { " (moved)" } else { "" });
                if moved {
                    let o = pool.swap_remove(j);
                    let i = if i == pool.len() { j } else { i };
                    let e = &mut pool[i];
                    e.q.append(o.q);
                    e.m.extend_from_slice(&o.m);
                    e.at.extend_from_slice(&o.at);
                } else {
                    let (oq, om, oa) = (pool[j].q.clone(), pool[j].m.clone(), pool[j].at.clone());
                    let e = &mut pool[i];
                    e.q.append(oq);
                    e.m.extend_from_slice(&om);
                    e.at.extend_from_slice(&oa);
                }
            }
        }
        6 => {
            let k = gen_pos(s, n);
            note!(cx, "[{i}] split_off {k}");
            let q = &mut e.q;
            match cx.catch(|| q.split_off(k)) {
                Ok(o) => {
                    ck!(cx, Content, k <= n, "split_off({k}) of {n} bytes does not panic");
                    let mut o = Q::sub(o, e, k, n);
                    e.m.truncate(k);
                    e.at.truncate(k);
                    check(cx, &mut o);
                    pool.push(o);
                }
                Err(p) => ck!(cx, Panic, k > n, "split_off({k}) of {n} bytes panics: {p}"),
            }
        }
        7 => {
            let r = gen_range(s, n);
            note!(cx, "[{i}] slice {r:?}");
            let q = &e.q;
            match (cx.catch(|| with_range!(r.clone(), x, q.slice(x))), r.resolve(n)) {
                (Ok(o), Some((a, z))) => {
                    let mut o = Q::sub(o, e, a, z);
                    check(cx, &mut o);
                    pool.push(o);
                }
                (Err(_), None) => cx.label("range rejected"),
                (Ok(o), None) => ck!(cx, Content, false, "slice({r:?}) of {n} bytes gives {} bytes instead of a panic", o.len()),
                (Err(p), Some(_)) => ck!(cx, Panic, false, "slice({r:?}) of {n} bytes panics: {p}"),
            }
        }
        8 => {
            let k = gen_pos(s, n);
            note!(cx, "[{i}] consume {k}");
            let q = &mut e.q;
            match cx.catch(|| q.consume(k)) {
                Ok(()) => {
                    ck!(cx, Content, k <= n, "consume({k}) of {n} bytes does not panic");
                    e.m.drain(..k);
                    e.at.drain(..k);
                }
                Err(p) => ck!(cx, Panic, k > n, "consume({k}) of {n} bytes panics: {p}"),
            }
        }
        9 => {
            let r = gen_range(s, n);
            let took = s.usize(12);
            let leave = s.ratio(1, 4);
            note!(cx, "[{i}] drain {r:?}, taking {took}{}", if leave { " and the rest" } else { "" });
            let want = r.resolve(n);
            let q = &mut e.q;
            let got = cx.catch(|| {
                with_range!(r.clone(), x, {
                    let mut d = q.drain(x);
                    let mut v = Vec::new();
                    for _ in 0..took {
                        let l = d.len();
                        match d.next() {
                            Some(b) => v.push((l, b)),
                            None => break,
                        }
                    }
                    if leave {
                        let l = d.len();
                        for (k, b) in d.enumerate() {
                            v.push((l.wrapping_sub(k), b));
                        }
                    }
                    v
                })
            });
            match (got, want) {
                (Ok(v), Some((a, z))) => {
                    for (k, (l, b)) in v.iter().enumerate() {
                        ck!(cx, Content, a + k < z && e.m[a + k] == *b, "drain({r:?}) gives {b} as byte {k}");
                        ck!(cx, Content, *l == z - a - k, "drain({r:?}) has length {l} before byte {k}, must be {}", z - a - k);
                    }
                    let want = if leave { z - a } else { took.min(z - a) };
                    ck!(cx, Content, v.len() == want, "drain({r:?}) gives {} bytes, must give {want}", v.len());
                    e.m.drain(a..z);
                    e.at.drain(a..z);
                }
                (Err(_), None) => cx.label("range rejected"),
                (Ok(_), None) => ck!(cx, Content, false, "drain({r:?}) of {n} bytes does not panic"),
                (Err(p), Some(_)) => ck!(cx, Panic, false, "drain({r:?}) of {n} bytes panics: {p}"),
            }
        }
        10 => {
            let counted = s.ratio(1, 2);
            let (stop, k) = if counted { (0, gen_pos_in(s, n)) } else { pred(s, &e.m) };
            note!(cx, "[{i}] take_while {k} bytes (!= {stop})");
            let mut seen = Vec::new();
            let o = e.q.take_while(|x| {
                seen.push(x);
                if counted { seen.len() <= k } else { x != stop }
            });
            ck!(cx, Content, seen == e.m[..(k + 1).min(n)], "take_while calls the condition with {:?}", Sh(&seen));
            let mut o = Q::sub(o, e, 0, k);
            e.m.drain(..k);
            e.at.drain(..k);
            check(cx, &mut o);
            pool.push(o);
        }
        11 => {
            let r = gen_range(s, n);
            let c = gen_bytes_small(s);
            let (v, _) = gen_bd(s, cx, ar, &c);
            note!(cx, "[{i}] replace_range {r:?} with {:?}", Sh(&c));
            let p = v.as_slice().as_ptr() as usize;
            let at: Vec<usize> = (0..c.len()).map(|k| if c.len() > 14 { p + k } else { 0 }).collect();
            let q = &mut e.q;
            match (cx.catch(|| with_range!(r.clone(), x, q.replace_range(x, v))), r.resolve(n)) {
                (Ok(()), Some((a, z))) => {
                    e.m.splice(a..z, c);
                    e.at.splice(a..z, at);
                }
                (Err(_), None) => cx.label("range rejected"),
                (Ok(()), None) => ck!(cx, Content, false, "replace_range({r:?}) of {n} bytes does not panic"),
                (Err(p), Some(_)) => ck!(cx, Panic, false, "replace_range({r:?}) of {n} bytes panics: {p}"),
            }
        }
        12 => {
            let mut c = if s.bool() { gen_text_small(s).into_bytes() } else { gen_bytes_small(s) };
            if n < 1000 && s.ratio(1, 24) {
                c.truncate(6);
                c = if core::str::from_utf8(&c).is_ok() { c.repeat(gen_many(s)) } else { c };
            }
            let k = s.usize(6);
            note!(cx, "[{i}] extend #{k} {:?}", Sh(&c));
            let step = 1 + s.usize(20);
            let text = core::str::from_utf8(&c).ok();
            match (k, text) {
                (0, _) => e.q.extend(gen_hinted(s, c.chunks(step).map(|x| ar.bytes(x)))),
                (1, _) => e.q.extend(gen_hinted(s, c.chunks(step).map(<[u8]>::to_vec))),
                (2, Some(t)) => e.q.extend([ar.str(t), "", "x"]),
                (3, Some(t)) => e.q.extend([t.to_string(), String::new(), "x".to_string()]),
                (4, Some(t)) => e.q.extend([StringData::from_owned(t.to_string()), StringData::empty(), StringData::from_static("x")]),
                _ => {
                    let mut vs = Vec::new();
                    for x in c.chunks(step) {
                        vs.push(gen_bd(s, cx, ar, x).0);
                    }
                    e.q.extend(vs);
                }
            }
            e.m.extend_from_slice(&c);
            if (2..=4).contains(&k) && text.is_some() {
                e.m.push(b'x');
            }
            let old = core::mem::take(&mut e.at);
            let mut fresh = Q::of(e.q.clone(), e.m.clone());
            fresh.at[..old.len().min(e.m.len())].copy_from_slice(&old[..old.len().min(e.m.len())]);
            e.at = fresh.at;
        }
        13 => {
            note!(cx, "[{i}] clone");
            let o = Q { q: e.q.clone(), m: e.m.clone(), at: e.at.clone() };
            pool.push(o);
        }
        14 => {
            let k = s.usize(5);
            note!(cx, "[{i}] convert a clone #{k}");
            let q = e.q.clone();
            match k {
                0 => {
                    let v: Vec<u8> = q.into();
                    ck!(cx, Content, v == e.m, "Vec from a queue is {:?}, must be {:?}", Sh(&v), Sh(&e.m));
                }
                1 => {
                    let one = q.chunk_len() == 1 && n > 14;
                    let v: ByteData<'static> = q.into();
                    ck!(cx, Content, v.as_slice() == &e.m[..], "ByteData from a queue is {:?}, must be {:?}", Sh(&v), Sh(&e.m));
                    ck!(cx, Alias, !one || v.as_slice().as_ptr() as usize == e.at[0], "ByteData from a queue of one chunk is a copy");
                }
                2 => {
                    let v: SharedBytes = q.into();
                    ck!(cx, Content, v.as_slice() == &e.m[..], "SharedBytes from a queue is {:?}, must be {:?}", Sh(&v), Sh(&e.m));
                }
                3 => {
                    // iterate away from both ends
                    let mut it = q.into_iter();
                    let (mut a, mut z) = (0, n);
                    while a < z || s.ratio(1, 2) {
                        let front = s.bool();
                        let c = if front { it.next() } else { it.next_back() };
                        match c {
                            None => {
                                ck!(cx, Content, a == z, "into_iter ends {} bytes too early", z - a);
                                break;
                            }
                            Some(c) => {
                                let l = c.len();
                                ck!(cx, Content, l <= z - a, "into_iter gives too many bytes");
                                let w = if front { &e.m[a..a + l] } else { &e.m[z - l..z] };
                                ck!(cx, Content, c.as_slice() == w, "into_iter gives {:?}, must give {:?}", Sh(&c), Sh(w));
                                if front {
                                    a += l
                                } else {
                                    z -= l
                                }
                            }
                        }
                        if s.ratio(1, 12) {
                            break;
                        }
                    }
                }
                _ => {
                    let v: ByteQueue<'static> = q.into_iter().collect();
                    let mut o = Q { q: v, m: e.m.clone(), at: e.at.clone() };
                    check(cx, &mut o);
                    pool.push(o);
                }
            }
        }
        15 => {
            // move a part to another place within the queue
            let r = gen_range_v(s, n, true);
            let (a, z) = r.resolve(n).unwrap();
            note!(cx, "[{i}] rotate {a} {z}");
            let mut tail = e.q.split_off(z);
            let mid = e.q.split_off(a);
            tail.append(mid);
            e.q.append(tail);
            e.m[a..].rotate_left(z - a);
            e.at[a..].rotate_left(z - a);
        }
        16 => {
            // take the queue apart and put it together again
            note!(cx, "[{i}] moved chunk by chunk");
            let mut o = ByteQueue::new();
            let rev = s.bool();
            loop {
                let Some(c) = (if rev { e.q.pop_back() } else { e.q.pop_front() }) else { break };
                if rev {
                    o.push_front(c)
                } else {
                    o.push_back(c)
                }
            }
            let rest = core::mem::replace(&mut e.q, o);
            ck!(cx, Content, rest.is_empty() && rest.len() == 0 && rest.chunk_len() == 0, "a queue popped empty has {} bytes in {} chunks", rest.len(), rest.chunk_len());
        }
        _ => {
            note!(cx, "[{i}] drop");
            pool.swap_remove(i);
        }
    }
}
