//! Queues of fixed capacity (C20).
use crate::gen::*;
use bytedata::{ByteData, ByteQueue, StringData, StringQueue};
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};

pub const QUEUE: Module = Module {
    name: "naqueue",
    rule: "a case is a history of up to 50 operations over up to 3 ByteQueue or StringQueue values of 23 slots, filled from both ends by single pushes, bursts to just below, at and beyond the capacity, extend, append, with_item and from, and emptied by pop, consume, drain (partly consumed), split_off, slice, take_while, take_line, replace_range and iterating away, with a byte-vector model; after every step bytes, len, chunk count, front, back, is_full (exactly when 23 chunks are held) and iteration from both ends. A push to a full queue must panic and change nothing; every other operation whose result fits must succeed; one whose result does not fit may panic, and then the queue must be consistent. Non-trivial: at least 5 operations and a full queue.",
    run,
    guided: true,
    balance: true,
};
enum Qu {
    B(ByteQueue<'static>),
    T(StringQueue<'static>),
}
impl Qu {
    fn b(&self) -> &ByteQueue<'static> {
        match self {
            Qu::B(q) => q,
            Qu::T(q) => q.as_bytequeue(),
        }
    }
}
struct E {
    q: Qu,
    m: Vec<u8>,
}
#[inline(never)]
fn check(cx: &mut Ctx, e: &E) {
    let (q, m) = (e.q.b(), &e.m[..]);
    ck!(cx, Content, q.len() == m.len(), "len is {}, must be {}", q.len(), m.len());
    ck!(cx, Content, q.is_empty() == m.is_empty(), "is_empty is {} with {} bytes", q.is_empty(), m.len());
    let (mut pos, mut n) = (0, 0);
    for c in q.chunks() {
        n += 1;
        ck!(cx, Content, n <= CAP, "chunks gives more than {CAP} chunks");
        let l = c.len();
        ck!(cx, Content, l != 0, "chunk {n} is empty");
        ck!(cx, Content, m.get(pos..pos + l) == Some(c.as_slice()), "chunk {n} at byte {pos} holds {:?}, must hold {:?}", Sh(c), Sh(&m[pos.min(m.len())..(pos + l).min(m.len())]));
        if let Qu::T(_) = e.q {
            ck!(cx, Utf8, core::str::from_utf8(c).is_ok(), "chunk {n} of a StringQueue is {:?}", Sh(c));
        }
        pos += l;
    }
    ck!(cx, Content, pos == m.len(), "the chunks hold {pos} bytes, must hold {}", m.len());
    ck!(cx, Content, n == q.chunk_len(), "chunk_len is {}, but there are {n} chunks", q.chunk_len());
    ck!(cx, Content, q.is_full() == (n == CAP), "is_full is {} with {n} chunks", q.is_full());
    if let Qu::T(t) = &e.q {
        ck!(cx, Content, t.is_full() == (n == CAP) && t.len() == m.len() && t.chunk_len() == n, "a StringQueue counts {} bytes in {} chunks", t.len(), t.chunk_len());
    }
    let f = q.chunks().next().map(|x| x.as_slice());
    ck!(cx, Content, q.front().map(|x| x.as_slice()) == f, "front is not the first chunk");
    let b = q.chunks().last().map(|x| x.as_slice());
    ck!(cx, Content, q.back().map(|x| x.as_slice()) == b, "back is not the last chunk");
}
fn lens(q: &ByteQueue<'static>) -> Vec<usize> {
    q.chunks().map(|c| c.len()).collect()
}
/// Number of chunks the range `a..z` of a queue with these chunks has.
fn cut(l: &[usize], a: usize, z: usize) -> usize {
    let mut p = 0;
    let mut n = 0;
    for x in l {
        let (b, e) = (p, p + x);
        p = e;
        if b.max(a) < e.min(z) {
            n += 1;
        }
    }
    n
}
fn bound(s: &mut Src, e: &E) -> usize {
    let n = e.m.len();
    let mut k = match s.usize(4) {
        0 => gen_pos_in(s, n),
        1 => {
            // at a chunk
            let l = lens(e.q.b());
            let j = s.usize(l.len() + 1);
            l[..j].iter().sum()
        }
        2 => s.usize(n.min(8) + 1),
        _ => n - s.usize(n.min(8) + 1),
    };
    if let Qu::T(_) = e.q {
        while k < n && e.m[k] & 0xc0 == 0x80 {
            k -= 1;
        }
    }
    k
}
/// After a panic of an operation whose result would not fit: adopts a consistent content.
fn adopt(cx: &mut Ctx, e: &mut E, before: &[u8], what: &str) {
    let mut v = Vec::new();
    for c in e.q.b().chunks() {
        v.extend_from_slice(c);
        ck!(cx, Content, v.len() <= before.len() + 4096, "after a panic of {what} the queue gives too many bytes");
    }
    e.m = v;
    check(cx, e);
    cx.label("did not fit");
}
fn gen_c(s: &mut Src, text: bool) -> Vec<u8> {
    let n = match s.usize(4) {
        0 => s.usize(3),
        1 => s.range(1, 6),
        2 => s.range(12, 18),
        _ => s.usize(40),
    };
    if text {
        gen_text_n(s, n).into_bytes()
    } else {
        gen_bytes_n(s, n)
    }
}
fn st(c: &[u8]) -> &str {
    core::str::from_utf8(c).unwrap()
}
/// Pushes one item; returns false when it panicked.
#[inline(never)]
fn push(s: &mut Src, cx: &mut Ctx, ar: &Arena, e: &mut E, c: &[u8], back: bool) {
    let k0 = e.q.b().chunk_len();
    let fits = c.is_empty() || k0 < CAP;
    let raw = s.usize(3);
    let r = match &mut e.q {
        Qu::B(q) => {
            let v = if raw == 1 { ByteData::from_chunk_slice(&c[..c.len().min(14)]) } else { gen_bd(s, cx, ar, c).0 };
            let v = if v.len() == c.len() { v } else { ByteData::from_borrowed(ar.bytes(c)) };
            let p = ar.bytes(c);
            cx.catch(|| match (back, raw) {
                (true, 0) => q.push_back(p),
                (false, 0) => q.push_front(p),
                (true, _) => q.push_back(v),
                (false, _) => q.push_front(v),
            })
        }
        Qu::T(q) => {
            let v = gen_sd(s, cx, ar, st(c)).0;
            let p = ar.str(st(c));
            cx.catch(|| match (back, raw) {
                (true, 0) => q.push_back(p),
                (false, 0) => q.push_front(p),
                (true, _) => q.push_back(v),
                (false, _) => q.push_front(v),
            })
        }
    };
    match r {
        Ok(()) => {
            ck!(cx, Content, fits, "a push to a full queue does not panic");
            if back {
                e.m.extend_from_slice(c);
            } else {
                e.m.splice(..0, c.iter().copied());
            }
        }
        Err(p) => {
            ck!(cx, Panic, !fits, "a push to a queue of {k0} chunks panics: {p}");
            cx.label("push to a full queue");
            // the model is unchanged
        }
    }
}
fn fresh(s: &mut Src, cx: &mut Ctx, ar: &Arena) -> E {
    let text = s.bool();
    let mut c = gen_c(s, text);
    if s.ratio(1, 4) {
        c.clear();
    }
    let k = s.usize(6);
    note!(cx, "new {} #{k} {:?}", if text { "StringQueue" } else { "ByteQueue" }, Sh(&c));
    let q = if text {
        let t = ar.str(st(&c));
        Qu::T(match k {
            0 => StringQueue::with_item(gen_sd(s, cx, ar, st(&c)).0),
            1 => StringQueue::from(gen_sd(s, cx, ar, st(&c)).0),
            2 => StringQueue::from(t),
            3 => t.split_inclusive('a').map(StringData::from_borrowed).take(CAP).collect(),
            _ => gen_squeue(s, cx, ar, st(&c)),
        })
    } else {
        let t = ar.bytes(&c);
        Qu::B(match k {
            0 => ByteQueue::with_item(gen_bd(s, cx, ar, &c).0),
            1 => ByteQueue::from(gen_bd(s, cx, ar, &c).0),
            2 => ByteQueue::from(t),
            3 => t.chunks(3).map(ByteData::from_borrowed).take(CAP).collect(),
            _ => gen_queue(s, cx, ar, &c),
        })
    };
    if k == 3 {
        let n = q.b().len();
        c.truncate(n);
    }
    E { q, m: c }
}
#[inline(never)]
fn step(s: &mut Src, cx: &mut Ctx, ar: &Arena, pool: &mut Vec<E>) {
    let i = s.usize(pool.len());
    let np = pool.len();
    let text = matches!(pool[i].q, Qu::T(_));
    let e = &mut pool[i];
    let n = e.m.len();
    let l = lens(e.q.b());
    match s.weighted(&[6, 6, 5, 3, 3, 3, 3, 4, 3, 4, 2, 3, 3, 2, 2]) {
        0 => {
            let c = gen_c(s, text);
            let back = s.bool();
            note!(cx, "[{i}] push_{} {:?} ({} chunks)", if back { "back" } else { "front" }, Sh(&c), l.len());
            push(s, cx, ar, e, &c, back);
        }
        1 => {
            // to the limit and past it
            let want = (CAP - l.len()).saturating_sub(2) + s.usize(5);
            let mode = s.usize(3);
            note!(cx, "[{i}] {want} small pushes, mode {mode} ({} chunks)", l.len());
            for j in 0..want {
                let c = [b"ab"[j % 2]];
                push(s, cx, ar, e, &c, mode == 0 || (mode == 2 && j % 2 == 0));
                check(cx, e);
            }
        }
        2 => {
            let times = s.usize(CAP + 2);
            let back = s.bool();
            note!(cx, "[{i}] pop_{} x{times}", if back { "back" } else { "front" });
            for _ in 0..times {
                let g: Option<Vec<u8>> = match &mut e.q {
                    Qu::B(q) => if back { q.pop_back() } else { q.pop_front() }.map(|x| x.as_slice().to_vec()),
                    Qu::T(q) => if back { q.pop_back() } else { q.pop_front() }.map(|x| x.as_bytes().to_vec()),
                };
                ck!(cx, Content, g.is_some() != e.m.is_empty(), "pop gives {:?} with {} bytes left", g.as_ref().map(|x| Sh(x)), e.m.len());
                let Some(g) = g else { break };
                let (a, z) = if back { (e.m.len().wrapping_sub(g.len()), e.m.len()) } else { (0, g.len()) };
                ck!(cx, Content, e.m.get(a..z) == Some(&g[..]), "pop gives {:?}", Sh(&g));
                e.m.drain(a..z);
            }
        }
        3 => {
            let k = bound(s, e);
            note!(cx, "[{i}] split_off {k}");
            let before = e.m.clone();
            let r = match &mut e.q {
                Qu::B(q) => cx.catch(|| Qu::B(q.split_off(k))),
                Qu::T(q) => cx.catch(|| Qu::T(q.split_off(k))),
            };
            match r {
                Ok(o) => {
                    let o = E { q: o, m: before[k..].to_vec() };
                    e.m.truncate(k);
                    check(cx, &o);
                    pool.push(o);
                }
                Err(p) => ck!(cx, Panic, false, "split_off({k}) of {n} bytes panics: {p}"),
            }
        }
        4 => {
            let (mut a, mut z) = (bound(s, e), bound(s, e));
            if a > z {
                (a, z) = (z, a);
            }
            if text && a == z {
                return;
            }
            note!(cx, "[{i}] slice {a} {z}");
            let r = match &e.q {
                Qu::B(q) => cx.catch(|| Qu::B(q.slice(a..z))),
                Qu::T(q) => cx.catch(|| Qu::T(q.slice(a..z))),
            };
            match r {
                Ok(o) => {
                    let o = E { q: o, m: e.m[a..z].to_vec() };
                    check(cx, &o);
                    pool.push(o);
                }
                Err(p) => ck!(cx, Panic, false, "slice({a}..{z}) of {n} bytes panics: {p}"),
            }
        }
        5 => {
            let (mut a, mut z) = (bound(s, e), bound(s, e));
            if a > z {
                (a, z) = (z, a);
            }
            if text && a == z {
                return;
            }
            let took = s.usize(8);
            note!(cx, "[{i}] drain {a} {z}, taking {took}");
            let before = e.m.clone();
            let fits = cut(&l, 0, a) + cut(&l, z, n) <= CAP;
            let r = match &mut e.q {
                Qu::B(q) => cx.catch(|| q.drain(a..z).take(took).collect::<Vec<u8>>()),
                Qu::T(q) => cx.catch(|| q.drain(a..z).take(took).collect::<String>().into_bytes()),
            };
            match r {
                Ok(v) => {
                    let w = &before[a..z];
                    let w = if text {
                        let k = st(w).char_indices().nth(took).map_or(w.len(), |x| x.0);
                        &w[..k]
                    } else {
                        &w[..took.min(w.len())]
                    };
                    ck!(cx, Content, v == w, "drain({a}..{z}) gives {:?}, must give {:?}", Sh(&v), Sh(w));
                    e.m.drain(a..z);
                }
                Err(p) => {
                    ck!(cx, Panic, !fits, "drain({a}..{z}) of {} chunks panics: {p}", l.len());
                    adopt(cx, e, &before, "drain");
                }
            }
        }
        6 => {
            let (mut a, mut z) = (bound(s, e), bound(s, e));
            if a > z {
                (a, z) = (z, a);
            }
            let c = gen_c(s, text);
            note!(cx, "[{i}] replace_range {a} {z} with {:?} ({} chunks)", Sh(&c), l.len());
            let before = e.m.clone();
            let fits = cut(&l, 0, a) + cut(&l, z, n) + usize::from(!c.is_empty()) <= CAP;
            let r = match &mut e.q {
                Qu::B(q) => {
                    let v = gen_bd(s, cx, ar, &c).0;
                    cx.catch(|| q.replace_range(a..z, v))
                }
                Qu::T(q) => {
                    let v = gen_sd(s, cx, ar, st(&c)).0;
                    cx.catch(|| q.replace_range(a..z, v))
                }
            };
            match r {
                Ok(()) => {
                    ck!(cx, Content, fits, "replace_range({a}..{z}) of {} chunks makes more than {CAP}", l.len());
                    e.m.splice(a..z, c);
                }
                Err(p) => {
                    ck!(cx, Panic, !fits, "replace_range({a}..{z}) of {} chunks panics: {p}", l.len());
                    adopt(cx, e, &before, "replace_range");
                }
            }
        }
        7 => {
            let j = s.usize(np);
            let (oq, om) = match &pool[j].q {
                Qu::B(q) => (Qu::B(q.clone()), pool[j].m.clone()),
                Qu::T(q) => (Qu::T(q.clone()), pool[j].m.clone()),
            };
            let lo = lens(oq.b());
            let e = &mut pool[i];
            if e.m.len() + om.len() > 4000 {
                return;
            }
            note!(cx, "[{i}] append a clone of [{j}]: {} and {} chunks", l.len(), lo.len());
            let before = e.m.clone();
            let r = match (&mut e.q, oq) {
                (Qu::B(q), Qu::B(o)) => cx.catch(|| q.append(o)),
                (Qu::B(q), Qu::T(o)) => cx.catch(|| q.append(o.into_bytequeue())),
                (Qu::T(q), Qu::T(o)) => cx.catch(|| q.extend(o.into_iter())),
                _ => return,
            };
            let fits = l.len() + lo.len() <= CAP;
            match r {
                Ok(()) => {
                    ck!(cx, Content, fits, "append of {} and {} chunks does not panic", l.len(), lo.len());
                    e.m.extend_from_slice(&om);
                }
                Err(p) => {
                    ck!(cx, Panic, !fits, "append of {} and {} chunks panics: {p}", l.len(), lo.len());
                    adopt(cx, e, &before, "append");
                    ck!(cx, Content, e.m.starts_with(&before), "a failed append changes what was there");
                }
            }
        }
        8 => {
            let c = gen_c(s, text);
            let w = s.range(1, 6);
            let k = s.usize(3);
            note!(cx, "[{i}] extend #{k} {:?} by {w} ({} chunks)", Sh(&c), l.len());
            let before = e.m.clone();
            let more: Vec<&'static [u8]> = if text {
                let t = ar.str(st(&c));
                t.char_indices().map(|(a, x)| &t.as_bytes()[a..a + x.len_utf8()]).collect()
            } else {
                ar.bytes(&c).chunks(w).collect()
            };
            let fits = l.len() + more.len() <= CAP;
            let r = match (&mut e.q, k) {
                (Qu::B(q), 0) => cx.catch(|| q.extend(more.iter().copied())),
                (Qu::B(q), _) => cx.catch(|| q.extend(more.iter().map(|x| ByteData::from_borrowed(x)))),
                (Qu::T(q), 0) => cx.catch(|| q.extend(more.iter().map(|x| st(x)))),
                (Qu::T(q), _) => cx.catch(|| q.extend(more.iter().map(|x| StringData::from_static(st(x))))),
            };
            match r {
                Ok(()) => {
                    ck!(cx, Content, fits, "extend of {} chunks by {} does not panic", l.len(), more.len());
                    e.m.extend_from_slice(&c);
                }
                Err(p) => {
                    ck!(cx, Panic, !fits, "extend of {} chunks by {} panics: {p}", l.len(), more.len());
                    adopt(cx, e, &before, "extend");
                    ck!(cx, Content, e.m.starts_with(&before) && e.m.len() <= before.len() + c.len() && c.starts_with(&e.m[before.len()..]), "a failed extend leaves {:?}", Sh(&e.m));
                }
            }
        }
        9 => {
            let k = bound(s, e);
            note!(cx, "[{i}] consume or take_while {k}");
            match &mut e.q {
                Qu::B(q) if s.bool() => {
                    if let Err(p) = cx.catch(|| q.consume(k)) {
                        ck!(cx, Panic, false, "consume({k}) of {n} bytes panics: {p}");
                    }
                }
                Qu::B(q) => {
                    let mut left = k;
                    let o = q.take_while(|_| {
                        left = left.wrapping_sub(1);
                        left != usize::MAX
                    });
                    let o = E { q: Qu::B(o), m: e.m[..k].to_vec() };
                    check(cx, &o);
                }
                Qu::T(q) => {
                    let mut left = st(&e.m[..k]).chars().count();
                    let o = q.take_while(|_| {
                        left = left.wrapping_sub(1);
                        left != usize::MAX
                    });
                    let o = E { q: Qu::T(o), m: e.m[..k].to_vec() };
                    check(cx, &o);
                }
            }
            e.m.drain(..k);
        }
        10 => {
            let Qu::T(q) = &mut e.q else { return };
            note!(cx, "[{i}] take_line");
            let k = e.m.iter().position(|x| *x == b'\n').map_or(n, |x| x + 1);
            let o = E { q: Qu::T(q.take_line()), m: e.m[..k].to_vec() };
            e.m.drain(..k);
            check(cx, &o);
        }
        11 => {
            note!(cx, "[{i}] clone, iterate");
            let q = e.q.b().clone();
            let v: Vec<u8> = q.bytes().collect();
            ck!(cx, Content, v == e.m, "bytes gives {:?}, must give {:?}", Sh(&v), Sh(&e.m));
            let v: Vec<u8> = q.clone().into_iter().flat_map(|c| c.as_slice().to_vec()).collect();
            ck!(cx, Content, v == e.m, "into_iter gives {:?}, must give {:?}", Sh(&v), Sh(&e.m));
            // iterate away from both ends, and drop the rest
            let mut it = q.into_iter();
            let (mut a, mut z) = (0, n);
            while let Some(front) = (!s.ratio(1, 10)).then(|| s.bool()) {
                let Some(c) = (if front { it.next() } else { it.next_back() }) else {
                    ck!(cx, Content, a == z, "into_iter ends {} bytes too early", z - a);
                    break;
                };
                let k = c.len();
                ck!(cx, Content, k <= z - a, "into_iter gives too many bytes");
                let w = if front { &e.m[a..a + k] } else { &e.m[z - k..z] };
                ck!(cx, Content, c.as_slice() == w, "into_iter gives {:?}, must give {:?}", Sh(&c), Sh(w));
                if front {
                    a += k
                } else {
                    z -= k
                }
            }
            if let Qu::T(q) = &e.q {
                let t: String = q.chars().collect();
                ck!(cx, Content, t.as_bytes() == e.m, "chars gives {t:?}");
                let x = q.clone().into_chars().collect::<String>();
                ck!(cx, Content, x.as_bytes() == e.m, "into_chars gives {x:?}");
                ck!(cx, Content, q.to_string().as_bytes() == e.m, "to_string gives {:?}", q.to_string());
            }
        }
        12 => {
            // compare with another queue and with bytes
            let j = s.usize(np);
            let (x, y) = (&pool[i], &pool[j]);
            note!(cx, "[{i}] compare with [{j}]");
            let (a, b) = (x.q.b(), y.q.b());
            ck!(cx, Content, (a == b) == (x.m == y.m), "== of {:?} and {:?} is {}", Sh(&x.m), Sh(&y.m), a == b);
            ck!(cx, Content, a.partial_cmp(b) == Some(x.m.cmp(&y.m)), "partial_cmp of {:?} and {:?} is {:?}", Sh(&x.m), Sh(&y.m), a.partial_cmp(b));
            ck!(cx, Content, (*a == y.m[..]) == (x.m == y.m), "== of the queue {:?} and {:?}", Sh(&x.m), Sh(&y.m));
            ck!(cx, Content, hash(a) == hash(&gen_queue(s, cx, ar, &x.m)), "the hash depends on the chunks");
            if x.m == y.m {
                ck!(cx, Content, hash(a) == hash(b), "equal queues hash differently");
            }
        }
        13 => {
            note!(cx, "[{i}] clone");
            let o = match &e.q {
                Qu::B(q) => Qu::B(q.clone()),
                Qu::T(q) if s.bool() => Qu::T(q.clone()),
                Qu::T(q) => Qu::B(q.clone().into_bytequeue()),
            };
            let m = e.m.clone();
            pool.push(E { q: o, m });
        }
        _ => {
            note!(cx, "[{i}] drop");
            pool.swap_remove(i);
        }
    }
}
fn hash<T: core::hash::Hash>(x: &T) -> u64 {
    use core::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
pub fn run(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let mut pool: Vec<E> = Vec::new();
    let steps = s.range(2, 50);
    let (mut worked, mut full) = (0, false);
    for _ in 0..steps {
        if s.exhausted() {
            break;
        }
        if pool.is_empty() || (pool.len() < 3 && s.ratio(1, 12)) {
            let e = fresh(s, cx, &ar);
            pool.push(e);
        } else {
            worked += 1;
            step(s, cx, &ar, &mut pool);
        }
        while pool.len() > 3 {
            let k = s.usize(pool.len());
            pool.swap_remove(k);
        }
        for e in pool.iter_mut() {
            check(cx, e);
            full |= e.q.b().is_full();
        }
        pool.retain(|e| e.m.len() < 3000);
    }
    if worked >= 5 && full {
        cx.nontrivial();
    }
}
