//! Byte and string values without heap support (C20).
use crate::gen::*;
use bytedata::{ByteData, StringData};
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};

pub const VALUE: Module = Module {
    name: "navalue",
    rule: "a case is a history of up to 30 operations over up to 4 ByteData or StringData values held as static, borrowed or inline bytes: clone, slices of every range type by reference, by value and in place, take_bytes, take_while, take_line, trims, split_at, split_once_on, split_on, conversions, comparison, hashing, rendering, use as bytes::Buf and as http body, against byte vectors; pieces longer than 14 bytes must point into the memory handed in, and invalid ranges must panic and change nothing. Non-trivial: at least 5 operations on a value of more than 14 bytes.",
    run,
    guided: true,
    balance: true,
};
enum V {
    B(ByteData<'static>),
    T(StringData<'static>),
}
struct E {
    v: V,
    m: Vec<u8>,
    fixed: bool,
}
impl V {
    fn b(&self) -> &ByteData<'static> {
        match self {
            V::B(b) => b,
            V::T(t) => t.as_bytedata(),
        }
    }
}
fn st(c: &[u8]) -> &str {
    core::str::from_utf8(c).unwrap()
}
#[inline(never)]
fn check(cx: &mut Ctx, ar: &Arena, e: &E) {
    let b = e.v.b();
    let m = &e.m[..];
    ck!(cx, Content, b.as_slice() == m, "the value holds {:?}, must hold {:?}", Sh(b), Sh(m));
    ck!(cx, Content, b.len() == m.len() && b.is_empty() == m.is_empty(), "len is {} and is_empty is {} with {} bytes", b.len(), b.is_empty(), m.len());
    if m.len() > 14 {
        ck!(cx, Alias, ar.contains(b.as_slice().as_ptr()), "{} bytes are not where they were handed in", m.len());
        ck!(cx, Content, b.as_borrowed() == Some(m), "as_borrowed gives {:?}", b.as_borrowed().map(Sh));
    }
    if let Some(x) = b.as_borrowed() {
        ck!(cx, Content, x == m, "as_borrowed gives {:?}", Sh(x));
    }
    if let V::T(t) = &e.v {
        ck!(cx, Utf8, core::str::from_utf8(t.as_bytes()).is_ok(), "a StringData holds {:?}", Sh(t.as_bytes()));
        ck!(cx, Content, t.as_str().as_bytes() == m && t.len() == m.len() && t.is_empty() == m.is_empty(), "the text is {:?}, must be {:?}", t.as_str(), Sh(m));
        ck!(cx, Content, t.as_borrowed().is_none_or(|x| x.as_bytes() == m), "as_borrowed gives {:?}", t.as_borrowed());
    }
}
fn bound(s: &mut Src, e: &E) -> usize {
    let mut k = gen_pos_in(s, e.m.len());
    if let V::T(_) = e.v {
        while k < e.m.len() && e.m[k] & 0xc0 == 0x80 {
            k -= 1;
        }
    }
    k
}
fn fresh(s: &mut Src, cx: &mut Ctx, ar: &Arena) -> E {
    if s.bool() {
        let c = gen_text(s);
        let v = gen_sd(s, cx, ar, &c).0;
        note!(cx, "StringData {:?}", Sh(c.as_bytes()));
        return E { v: V::T(v), m: c.into_bytes(), fixed: false };
    }
    let c = if s.ratio(1, 12) { fill(s.usize(4), 7, s.range(65500, 140000)) } else { gen_bytes(s) };
    let (v, made) = if c.len() == 3 && s.bool() {
        (ByteData::from_chunk(&[c[0], c[1], c[2]]), Made { rep: Rep::Chunk, how: "from_chunk", at: None })
    } else {
        gen_bd(s, cx, ar, &c)
    };
    note!(cx, "ByteData {:?} {:?}", Sh(&c), made.how);
    let fixed = made.rep == Rep::Static;
    if c.len() > 14 && made.rep != Rep::Chunk {
        ck!(cx, Alias, Some(v.as_slice().as_ptr() as usize) == made.at, "{} does not point to what it was given", made.how);
    }
    E { v: V::B(v), m: c, fixed }
}
#[inline(never)]
fn ends(cx: &mut Ctx, v: &V, m: &[u8]) {
    let b = v.b();
    for k in [0, 1, m.len() / 2, m.len()] {
        if k > m.len() {
            continue;
        }
        ck!(cx, Content, b.starts_with(&m[..k]), "starts_with of the first {k} bytes is false");
        ck!(cx, Content, b.ends_with(&m[m.len() - k..]), "ends_with of the last {k} bytes is false");
    }
    let mut w = m.to_vec();
    w.push(b'x');
    ck!(cx, Content, !b.starts_with(&w) && !b.ends_with(&w) && !b.eq_slice(&w), "a longer slice is found to be equal or contained");
    ck!(cx, Content, b.eq_slice(m) && b.eq_const(b), "eq_slice or eq_const is false for the content");
}
#[inline(never)]
fn step(s: &mut Src, cx: &mut Ctx, ar: &Arena, pool: &mut Vec<E>) {
    let i = s.usize(pool.len());
    let j = s.usize(pool.len());
    let text = matches!(pool[i].v, V::T(_));
    let e = &mut pool[i];
    let n = e.m.len();
    match s.weighted(&[3, 5, 3, 3, 3, 3, 2, 2, 2, 3, 2, 2, 2, 2]) {
        0 => {
            note!(cx, "[{i}] clone");
            let o = E { v: match &e.v { V::B(b) => V::B(b.clone()), V::T(t) => V::T(t.clone()) }, m: e.m.clone(), fixed: e.fixed };
            pool.push(o);
        }
        1 => {
            let way = s.usize(3);
            let r = if text { gen_range_str(s, st(&e.m)) } else { gen_range(s, n) };
            let w = if text { r.resolve_str(st(&e.m)) } else { r.resolve(n) };
            note!(cx, "[{i}] slice #{way} {r:?}");
            let g: Result<V, String> = match &mut e.v {
                V::B(b) => with_range!(r.clone(), x, match way {
                    0 => cx.catch(|| b.sliced(x)),
                    1 => cx.catch(|| b.clone().into_sliced(x)),
                    _ => {
                        let mut k = b.clone();
                        cx.catch(move || {
                            k.make_sliced(x);
                            k
                        })
                    }
                }).map(V::B),
                V::T(b) => with_range!(r.clone(), x, match way {
                    0 => cx.catch(|| b.sliced(x)),
                    1 => cx.catch(|| b.clone().into_sliced(x)),
                    _ => {
                        let k = &mut *b;
                        cx.catch(|| k.make_sliced(x)).map(|()| {
                            let o = b.clone();
                            // give the content back: only possible through the model
                            o
                        })
                    }
                }).map(V::T),
            };
            match (g, w) {
                (Ok(v), Some((a, z))) => {
                    let o = E { v, m: e.m[a..z].to_vec(), fixed: e.fixed };
                    check(cx, ar, &o);
                    if z - a > 14 && way != 2 {
                        ck!(cx, Alias, o.v.b().as_slice().as_ptr() as usize == e.v.b().as_slice().as_ptr() as usize + a, "a slice of {} bytes is not within the original", z - a);
                    }
                    if way == 2 && text {
                        e.m = o.m.clone();
                    }
                    pool.push(o);
                }
                (Ok(v), None) => ck!(cx, Content, false, "slicing {n} bytes by {r:?} gives {:?}", Sh(v.b())),
                (Err(p), Some(_)) => ck!(cx, Panic, false, "slicing {n} bytes by {r:?} panics: {p}"),
                (Err(_), None) => cx.label("rejected"),
            }
        }
        2 => {
            let k = if s.ratio(1, 6) { gen_pos(s, n) } else { bound(s, e) };
            note!(cx, "[{i}] take_bytes or split_at {k}");
            let fixed = e.fixed;
            match &mut e.v {
                V::B(b) if s.bool() => {
                    let r = cx.catch(|| b.take_bytes(k));
                    match r {
                        Ok(v) => {
                            ck!(cx, Content, k <= n, "take_bytes({k}) of {n} bytes gives {:?}", Sh(&v));
                            let m: Vec<u8> = e.m.drain(..k).collect();
                            pool.push(E { v: V::B(v), m, fixed });
                        }
                        Err(p) => ck!(cx, Panic, k > n, "take_bytes({k}) of {n} bytes panics: {p}"),
                    }
                }
                V::B(b) => {
                    let v = b.clone();
                    match cx.catch(move || v.split_at(k)) {
                        Ok((x, y)) => {
                            ck!(cx, Content, k <= n, "split_at({k}) of {n} bytes succeeds");
                            let (mx, my) = (e.m[..k].to_vec(), e.m[k..].to_vec());
                            pool.push(E { v: V::B(x), m: mx, fixed });
                            pool.push(E { v: V::B(y), m: my, fixed });
                        }
                        Err(p) => ck!(cx, Panic, k > n, "split_at({k}) of {n} bytes panics: {p}"),
                    }
                }
                V::T(t) => {
                    let v = t.clone();
                    let ok = st(&e.m).is_char_boundary(k);
                    match cx.catch(move || v.split_at(k)) {
                        Ok((x, y)) => {
                            ck!(cx, Utf8, ok, "split_at({k}) of {:?} succeeds", Sh(&e.m));
                            let (mx, my) = (e.m[..k].to_vec(), e.m[k..].to_vec());
                            pool.push(E { v: V::T(x), m: mx, fixed });
                            pool.push(E { v: V::T(y), m: my, fixed });
                        }
                        Err(p) => ck!(cx, Panic, !ok, "split_at({k}) of {:?} panics: {p}", Sh(&e.m)),
                    }
                }
            }
        }
        3 => {
            let k = bound(s, e);
            note!(cx, "[{i}] take_while up to {k}");
            let fixed = e.fixed;
            let v = match &mut e.v {
                V::B(b) => {
                    let mut seen = Vec::new();
                    let m = &e.m;
                    let v = ByteData::take_while(b, |x| {
                        seen.push(x);
                        seen.len() <= k
                    });
                    ck!(cx, Content, seen[..] == m[..(k + 1).min(n)], "take_while asks for {:?}", Sh(&seen));
                    V::B(v)
                }
                V::T(t) => {
                    let left = st(&e.m[..k]).chars().count();
                    let mut seen = String::new();
                    let mut c = 0;
                    let v = StringData::take_while(t, |x| {
                        seen.push(x);
                        c += 1;
                        c <= left
                    });
                    ck!(cx, Content, st(&e.m).starts_with(&seen), "take_while asks for {seen:?}");
                    V::T(v)
                }
            };
            let m: Vec<u8> = e.m.drain(..k).collect();
            pool.push(E { v, m, fixed });
        }
        4 => {
            // needles of the content
            let (mut a, mut z) = (bound(s, e), bound(s, e));
            if a > z {
                (a, z) = (z, a);
            }
            let z = if s.ratio(2, 3) { z.min(a + 3) } else { z };
            let (mut z, m) = (z, e.m.clone());
            if text {
                while !st(&m).is_char_boundary(z) {
                    z += 1;
                }
            }
            let needle = m[a..z].to_vec();
            note!(cx, "[{i}] split on {:?}", Sh(&needle));
            let at = if needle.is_empty() { Some(0) } else { m.windows(needle.len()).position(|w| w == needle) };
            let r: Result<(V, V), V> = match &e.v {
                V::B(b) => b.clone().split_once_on(&needle).map(|(x, y)| (V::B(x), V::B(y))).map_err(V::B),
                V::T(t) => t.clone().split_once_on(st(&needle)).map(|(x, y)| (V::T(x), V::T(y))).map_err(V::T),
            };
            match (r, at) {
                (Ok((x, y)), Some(p)) => {
                    ck!(cx, Content, x.b().as_slice() == &m[..p] && y.b().as_slice() == &m[p..], "split_once_on at {p} gives {:?} and {:?}", Sh(x.b()), Sh(y.b()));
                }
                (Err(x), None) => ck!(cx, Content, x.b().as_slice() == &m[..], "split_once_on without a match gives {:?}", Sh(x.b())),
                (Ok((x, y)), None) => ck!(cx, Content, needle.is_empty(), "split_once_on without a match gives {:?} and {:?}", Sh(x.b()), Sh(y.b())),
                (Err(_), Some(p)) => ck!(cx, Content, needle.is_empty(), "split_once_on does not find the match at {p}"),
            }
            if !needle.is_empty() && n < 3000 {
                let g: Vec<Vec<u8>> = match &e.v {
                    V::B(b) => b.clone().split_on(&needle).take(n + 3).map(|x| x.as_slice().to_vec()).collect(),
                    V::T(t) => t.clone().split_on(st(&needle)).take(n + 3).map(|x| x.as_bytes().to_vec()).collect(),
                };
                let mut w: Vec<Vec<u8>> = Vec::new();
                let mut p = 0;
                let mut cur = Vec::new();
                while p < n {
                    if m[p..].starts_with(&needle) {
                        w.push(core::mem::take(&mut cur));
                        p += needle.len();
                    } else {
                        cur.push(m[p]);
                        p += 1;
                    }
                }
                if n > 0 {
                    w.push(cur);
                }
                ck!(cx, Content, g == w, "split_on {:?} gives {} pieces, must give {}", Sh(&needle), g.len(), w.len());
            }
        }
        5 => {
            let V::T(t) = &mut e.v else { return };
            let k = s.usize(4);
            note!(cx, "[{i}] trim or line #{k}");
            let x = st(&e.m).to_string();
            let (v, w) = match k {
                0 => (t.trim(), x.trim()),
                1 => (t.trim_start(), x.trim_start()),
                2 => (t.trim_end(), x.trim_end()),
                _ => {
                    let w = &x[..x.find('\n').map_or(n, |p| p + 1)];
                    e.m.drain(..w.len());
                    (t.take_line(), w)
                }
            };
            let o = E { v: V::T(v), m: w.as_bytes().to_vec(), fixed: e.fixed };
            check(cx, ar, &o);
            pool.push(o);
        }
        6 => {
            note!(cx, "[{i}] convert");
            let fixed = e.fixed;
            let old = core::mem::replace(&mut e.v, V::B(ByteData::empty()));
            let m = e.m.clone();
            e.v = match old {
                V::B(b) => {
                    let ok = core::str::from_utf8(&m).is_ok();
                    match if s.bool() { StringData::try_from_bytedata(b) } else { StringData::try_from(b) } {
                        Ok(t) => {
                            ck!(cx, Utf8, ok, "try_from_bytedata accepts {:?}", Sh(&m));
                            V::T(t)
                        }
                        Err(b) => {
                            ck!(cx, Utf8, !ok, "try_from_bytedata rejects {:?}", Sh(&m));
                            V::B(b)
                        }
                    }
                }
                V::T(t) => V::B(if s.bool() { t.into_bytedata() } else { ByteData::from(t) }),
            };
            let k = match &e.v {
                V::B(b) => b.clone().statically_borrowed(),
                V::T(t) => t.clone().statically_borrowed().into_bytedata(),
            };
            let _ = fixed;
            ck!(cx, Content, k.as_slice() == &m[..], "statically_borrowed changes the content to {:?}", Sh(&k));
        }
        7 => {
            note!(cx, "[{i}] compare with [{j}]");
            let (x, y) = (&pool[i], &pool[j]);
            let (a, b) = (x.v.b(), y.v.b());
            let (eq, or) = (x.m == y.m, x.m.cmp(&y.m));
            ck!(cx, Content, (a == b) == eq && (*a == y.m[..]) == eq && (x.m[..] == *b) == eq && a.eq_const(b) == eq, "== of {:?} and {:?}", Sh(a), Sh(b));
            ck!(cx, Content, Ord::cmp(a, b) == or && PartialOrd::partial_cmp(a, b) == Some(or) && a.partial_cmp(&y.m[..]) == Some(or), "the order of {:?} and {:?}", Sh(a), Sh(b));
            ck!(cx, Content, hash(a) == hash(&x.m[..]), "the hash of {:?} is not the slice's", Sh(a));
            if let (V::T(a), V::T(b)) = (&x.v, &y.v) {
                ck!(cx, Content, (a == b) == eq && (*a == *st(&y.m)) == eq && (*st(&x.m) == *b) == eq, "== of {a:?} and {b:?}");
                ck!(cx, Content, Ord::cmp(a, b) == or && a.partial_cmp(st(&y.m)) == Some(or), "the order of {a:?} and {b:?}");
                ck!(cx, Content, hash(a) == hash(st(&x.m)), "the hash of {a:?} is not the str's");
            }
        }
        8 => {
            if n > 3000 {
                return;
            }
            note!(cx, "[{i}] render");
            let mut w = String::from("b\"");
            for x in &e.m {
                match x {
                    b'\n' => w += "\\n",
                    b'\r' => w += "\\r",
                    b'\t' => w += "\\t",
                    b'\\' => w += "\\\\",
                    b'"' => w += "\\\"",
                    0 => w += "\\0",
                    0x20..=0x7e => w.push(*x as char),
                    _ => w += &format!("\\x{x:02x}"),
                }
            }
            w.push('"');
            let hx: String = e.m.iter().map(|x| format!("{x:02x}")).collect();
            let b = e.v.b();
            ck!(cx, Content, format!("{b:x}") == hx && format!("{b:X}") == hx.to_uppercase(), "hex of {:?} is {b:x} or {b:X}", Sh(&e.m));
            let g = format!("{b:?}");
            // either escape of NUL is the content
            ck!(cx, Content, g.replace("\\x00", "\\0") == w, "Debug gives {g}, must give {w}");
            if let V::T(t) = &e.v {
                ck!(cx, Content, format!("{t}") == st(&e.m) && format!("{t:?}") == format!("{:?}", st(&e.m)), "Display or Debug gives {t} or {t:?}");
                ck!(cx, Content, format!("{t:>7.3}") == format!("{:>7.3}", st(&e.m)), "padded Display gives {t:>7.3}");
            }
        }
        9 => {
            note!(cx, "[{i}] as Buf");
            use bytes::Buf;
            let mut b = e.v.b().clone();
            let mut p = 0;
            for _ in 0..s.range(1, 6) {
                ck!(cx, Content, b.remaining() == n - p && b.has_remaining() == (p < n) && b.chunk() == &e.m[p..], "remaining is {} and chunk {:?} after {p} of {n} bytes", b.remaining(), Sh(b.chunk()));
                let k = if s.ratio(1, 8) { n - p + 1 + s.usize(3) } else { gen_pos_in(s, n - p) };
                match s.usize(3) {
                    0 => match cx.catch(|| b.advance(k)) {
                        Ok(()) => ck!(cx, Content, k <= n - p, "advance by {k} with {} left succeeds", n - p),
                        Err(x) => {
                            ck!(cx, Panic, k > n - p, "advance by {k} with {} left panics: {x}", n - p);
                            continue;
                        }
                    },
                    1 => match cx.catch(|| b.copy_to_bytes(k)) {
                        Ok(x) => ck!(cx, Content, k <= n - p && x[..] == e.m[p..p + k], "copy_to_bytes({k}) gives {:?}", Sh(&x)),
                        Err(x) => {
                            ck!(cx, Panic, k > n - p, "copy_to_bytes({k}) with {} left panics: {x}", n - p);
                            continue;
                        }
                    },
                    _ => {
                        let mut d = vec![0xa5; k];
                        match cx.catch(|| b.copy_to_slice(&mut d)) {
                            Ok(()) => ck!(cx, Content, k <= n - p && d == e.m[p..p + k], "copy_to_slice({k}) gives {:?}", Sh(&d)),
                            Err(x) => {
                                ck!(cx, Panic, k > n - p, "copy_to_slice({k}) with {} left panics: {x}", n - p);
                                continue;
                            }
                        }
                    }
                }
                p += k;
            }
            let x = bytes::Bytes::from(e.v.b().clone());
            ck!(cx, Content, x[..] == e.m, "Bytes::from gives {:?}", Sh(&x));
        }
        10 => {
            note!(cx, "[{i}] as http body, queue of two");
            let o = pool[j].v.b().clone();
            let mut w = pool[i].m.clone();
            body(cx, pool[i].v.b().clone(), &w);
            w.extend_from_slice(&pool[j].m);
            let mut q = bytedata::ByteQueue::with_item(pool[i].v.b().clone());
            q.push_back(o);
            body(cx, q, &w);
        }
        11 => {
            note!(cx, "[{i}] ends");
            ends(cx, &e.v, &e.m);
            let k = s.usize(n + 2);
            let r = cx.catch(|| e.v.b()[k]);
            ck!(cx, Content, r.as_ref().ok() == e.m.get(k), "index {k} of {n} bytes gives {r:?}");
            let mut it = e.v.b().clone();
            for k in 0..s.usize(5) {
                let g = Iterator::next(&mut it);
                ck!(cx, Content, g == e.m.get(k).copied(), "item {k} is {g:?}");
            }
            ck!(cx, Content, it.size_hint().0 <= it.len() && it.size_hint().1.is_none_or(|u| u >= it.len()), "size_hint is {:?} with {} bytes", it.size_hint(), it.len());
        }
        12 => {
            let V::T(t) = &e.v else { return };
            note!(cx, "[{i}] chars");
            let x: String = t.clone().collect();
            ck!(cx, Content, x.as_bytes() == e.m, "its characters are {x:?}");
            let mut it = t.clone();
            for c in st(&e.m).chars().take(4) {
                let h = it.size_hint();
                let left = it.as_str().chars().count();
                ck!(cx, Content, h.0 <= left && h.1.is_none_or(|u| u >= left), "size_hint is {h:?} with {left} characters");
                let g = Iterator::next(&mut it);
                ck!(cx, Content, g == Some(c), "the next character is {g:?}");
            }
        }
        _ => {
            note!(cx, "[{i}] drop");
            pool.swap_remove(i);
        }
    }
}
#[inline(never)]
fn body<B: http_body_1::Body<Data = ByteData<'static>> + Unpin>(cx: &mut Ctx, mut b: B, m: &[u8]) {
    let w = std::task::Waker::noop();
    let mut t = std::task::Context::from_waker(w);
    let mut p = 0;
    for _ in 0..m.len() / 1000 + 3 {
        let (h, end) = (b.size_hint().exact(), b.is_end_stream());
        ck!(cx, Content, h == Some((m.len() - p) as u64) && end == (p == m.len()), "the size hint is {h:?} and the end {end} with {} bytes to come", m.len() - p);
        match std::pin::Pin::new(&mut b).poll_frame(&mut t) {
            std::task::Poll::Ready(Some(Ok(f))) => {
                let d = f.into_data().ok();
                let Some(d) = d else { cx.fail(covrt::engine::Kind::Content, "a frame which is not data".into()) };
                let k = d.len();
                ck!(cx, Content, k > 0 && m.get(p..p + k) == Some(d.as_slice()), "the frame at {p} holds {:?}", Sh(&d));
                p += k;
            }
            std::task::Poll::Ready(None) => break,
            _ => ck!(cx, Content, false, "a body is pending or fails"),
        }
    }
    ck!(cx, Content, p == m.len(), "the body ends after {p} of {} bytes", m.len());
}
fn hash<T: core::hash::Hash + ?Sized>(x: &T) -> u64 {
    use core::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
pub fn run(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let mut pool: Vec<E> = Vec::new();
    let steps = s.range(2, 30);
    let mut big = 0;
    for _ in 0..steps {
        if s.exhausted() {
            break;
        }
        if pool.is_empty() || (pool.len() < 4 && s.ratio(1, 6)) {
            let e = fresh(s, cx, &ar);
            pool.push(e);
        } else {
            big += usize::from(pool.iter().any(|e| e.m.len() > 14));
            step(s, cx, &ar, &mut pool);
        }
        while pool.len() > 4 {
            let k = s.usize(pool.len());
            pool.swap_remove(k);
        }
        for e in &pool {
            check(cx, &ar, e);
        }
    }
    if big >= 5 {
        cx.nontrivial();
    }
}
