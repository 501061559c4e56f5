//! Where the bytes of every handle lie: sharing never copies, and never lets one handle change another (C18).
use crate::gen::*;
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData, StringQueue};
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};
use std::borrow::Cow;

pub const ALIAS: Module = Module {
    name: "zerocopy",
    rule: "a case is a history of up to 30 operations over up to 8 handles of any type (ByteData, StringData, SharedBytes, ByteQueue, StringQueue) over static, borrowed, shared, external and inline text: cloning, slicing, splitting, trimming, taking lines, converting between the types, pushing, popping, appending, splitting and draining queues, sharing for a longer lifetime, taking back as Cow or static Bytes, and changing the content of one handle through builders, vectors and BytesMut. The model keeps for every byte of every handle the address it must have and whether it is static, borrowed, shared or external; after every step all handles are checked: bytes, addresses of all pieces longer than 14 bytes, and that a piece can be taken back as borrowed exactly when it is. Non-trivial: at least 4 operations and two handles on one buffer of more than 14 bytes.",
    run,
    guided: true,
    balance: true,
};
#[derive(Clone, Copy, PartialEq, Debug)]
enum C {
    Short,
    Static,
    Borrowed,
    Shared,
    Ext,
}
enum V {
    B(ByteData<'static>),
    S(StringData<'static>),
    H(SharedBytes),
    Q(ByteQueue<'static>),
    T(StringQueue<'static>),
}
struct E {
    v: V,
    m: String,
    /// address (0: not known yet or inline) and class of every byte
    a: Vec<(usize, C)>,
}
impl E {
    fn new(v: V, m: &str, c: C) -> E {
        E { v, m: m.to_string(), a: vec![(0, c); m.len()] }
    }
    fn part(&self, v: V, x: usize, z: usize) -> E {
        E { v, m: self.m[x..z].to_string(), a: self.a[x..z].to_vec() }
    }
    fn cls(&self) -> C {
        self.a.first().map_or(C::Short, |x| x.1)
    }
    /// The class of a short piece of it is not known, except in a SharedBytes.
    fn dup(&self) -> V {
        match &self.v {
            V::B(b) => V::B(b.clone()),
            V::S(b) => V::S(b.clone()),
            V::H(b) => V::H(b.clone()),
            V::Q(b) => V::Q(b.clone()),
            V::T(b) => V::T(b.clone()),
        }
    }
}
#[inline(never)]
fn verify(cx: &mut Ctx, ar: &Arena, e: &mut E) {
    let strict = matches!(e.v, V::H(_));
    let chunks: Vec<(&[u8], Option<&[u8]>)> = match &e.v {
        V::B(b) => vec![(b.as_slice(), b.as_borrowed())],
        V::S(b) => vec![(b.as_bytes(), b.as_borrowed().map(str::as_bytes))],
        V::H(b) => vec![(b.as_slice(), None)],
        V::Q(q) => q.chunks().map(|c| (c.as_slice(), c.as_borrowed())).collect(),
        V::T(q) => q.as_bytequeue().chunks().map(|c| (c.as_slice(), c.as_borrowed())).collect(),
    };
    let mut pos = 0;
    for (c, bor) in chunks {
        let l = c.len();
        ck!(cx, Content, e.m.as_bytes().get(pos..pos + l) == Some(c), "a handle holds {:?} at byte {pos}, must hold {:?}", Sh(c), Sh(&e.m.as_bytes()[pos.min(e.m.len())..]));
        let p = c.as_ptr() as usize;
        let a = &mut e.a[pos..pos + l];
        pos += l;
        if l == 0 {
            continue;
        }
        if let Some(x) = bor {
            ck!(cx, Alias, x == c && (x.as_ptr() as usize == p) && ar.contains(x.as_ptr()), "as_borrowed gives other memory");
        }
        if l <= 14 && !strict {
            a.fill((0, C::Short));
            continue;
        }
        for (k, x) in a.iter_mut().enumerate() {
            ck!(cx, Alias, x.0 == 0 || x.0 == p + k, "{l} bytes of {:?} data were copied: byte {k} is not where it was", x.1);
            if x.0 == 0 && x.1 != C::Short {
                let own = matches!(x.1, C::Shared | C::Ext);
                ck!(cx, Alias, own != ar.contains((p + k) as *const u8), "{:?} data lies in {}", x.1, if own { "the memory it must be detached from" } else { "other memory than the borrowed one" });
                x.0 = p + k;
            }
        }
        if !strict {
            let lent = a.iter().all(|x| matches!(x.1, C::Static | C::Borrowed));
            let own = a.iter().all(|x| matches!(x.1, C::Shared | C::Ext));
            ck!(cx, Alias, !lent || bor.is_some(), "a piece of {:?} data cannot be taken back as borrowed", a[0].1);
            ck!(cx, Alias, !own || bor.is_none(), "a piece of {:?} data is given back as borrowed", a[0].1);
        }
    }
    ck!(cx, Content, pos == e.m.len(), "a handle holds {pos} bytes, must hold {}", e.m.len());
}
fn cut(s: &mut Src, m: &str) -> usize {
    let mut k = match s.usize(3) {
        0 => s.usize(m.len() + 1),
        1 => s.usize(m.len().min(20) + 1),
        _ => m.len() - s.usize(m.len().min(20) + 1),
    };
    while !m.is_char_boundary(k) {
        k -= 1;
    }
    k
}
#[inline(never)]
fn gen_e(s: &mut Src, cx: &mut Ctx, ar: &Arena) -> E {
    let t = if s.ratio(2, 3) {
        let n = s.range(15, 80);
        gen_text_n(s, n)
    } else {
        gen_text(s)
    };
    if s.ratio(1, 5) {
        let (h, how) = gen_shared(s, t.as_bytes());
        note!(cx, "new SharedBytes {how} {t:?}");
        return E::new(V::H(h), &t, C::Shared);
    }
    let (v, m) = gen_bd(s, cx, ar, t.as_bytes());
    let c = match m.rep {
        Rep::Chunk => C::Short,
        Rep::Static => C::Static,
        Rep::Borrowed => C::Borrowed,
        Rep::Shared => C::Shared,
        Rep::External => C::Ext,
    };
    note!(cx, "new {c:?} {} {t:?}", m.how);
    let c = if t.len() <= 14 { C::Short } else { c };
    if s.bool() {
        E::new(V::B(v), &t, c)
    } else {
        match StringData::try_from_bytedata(v) {
            Ok(v) => E::new(V::S(v), &t, c),
            Err(_) => cx.fail(covrt::engine::Kind::Utf8, format!("try_from_bytedata rejects the valid text {t:?}")),
        }
    }
}
fn as_b(v: V) -> Option<ByteData<'static>> {
    match v {
        V::B(b) => Some(b),
        V::S(b) => Some(b.into_bytedata()),
        _ => None,
    }
}
fn pos_of<'a>(x: &'a str) -> impl Fn(&str) -> (usize, usize) + 'a {
    move |p| {
        let a = p.as_ptr() as usize - x.as_ptr() as usize;
        (a, a + p.len())
    }
}
/// Parts of a value (B or S), with where they must come from.
#[inline(never)]
fn parts(s: &mut Src, cx: &mut Ctx, e: E, i: usize) -> Vec<E> {
    let m = e.m.clone();
    let n = m.len();
    let (mut x, mut z) = (cut(s, &m), cut(s, &m));
    if x > z {
        (x, z) = (z, x);
    }
    let op = s.usize(11);
    note!(cx, "[{i}] part #{op} {x} {z}");
    let v = e.dup();
    match (op, v) {
        (0, V::B(b)) => vec![e.part(V::B(b.sliced(x..z)), x, z), e],
        (0, V::S(b)) => vec![e.part(V::S(b.sliced(x..z)), x, z), e],
        (1, V::B(b)) => vec![e.part(V::B(b.into_sliced(x..z)), x, z)],
        (1, V::S(b)) => vec![e.part(V::S(b.into_sliced(x..z)), x, z)],
        (2, V::B(mut b)) => {
            b.make_sliced(x..);
            vec![e.part(V::B(b), x, n)]
        }
        (2, V::S(mut b)) => {
            b.make_sliced(..z);
            vec![e.part(V::S(b), 0, z)]
        }
        (3, V::B(b)) => {
            let (p, q) = b.split_at(x);
            vec![e.part(V::B(p), 0, x), e.part(V::B(q), x, n)]
        }
        (3, V::S(b)) => {
            let (p, q) = b.split_at(x);
            vec![e.part(V::S(p), 0, x), e.part(V::S(q), x, n)]
        }
        (4, V::B(mut b)) => {
            let p = b.take_bytes(x);
            vec![e.part(V::B(p), 0, x), e.part(V::B(b), x, n)]
        }
        (4, V::S(mut b)) => {
            let p = b.take_line();
            let k = m.find('\n').map_or(n, |k| k + 1);
            vec![e.part(V::S(p), 0, k), e.part(V::S(b), k, n)]
        }
        (5, V::B(mut b)) => {
            let mut left = x;
            let p = ByteData::take_while(&mut b, |_| {
                left = left.wrapping_sub(1);
                left != usize::MAX
            });
            vec![e.part(V::B(p), 0, x), e.part(V::B(b), x, n)]
        }
        (5, V::S(mut b)) => {
            let mut left = m[..x].chars().count();
            let p = StringData::take_while(&mut b, |_| {
                left = left.wrapping_sub(1);
                left != usize::MAX
            });
            vec![e.part(V::S(p), 0, x), e.part(V::S(b), x, n)]
        }
        (6, V::S(b)) => {
            let (v, t) = match s.usize(3) {
                0 => (b.trim(), m.trim()),
                1 => (b.trim_start(), m.trim_start()),
                _ => (b.trim_end(), m.trim_end()),
            };
            let (x, z) = pos_of(&m)(t);
            vec![e.part(V::S(v), x, z), e]
        }
        (7, V::S(b)) if n > 0 => {
            let c = m[x..].chars().next().unwrap_or('a');
            let nd = c.to_string();
            let f = pos_of(&m);
            let mut want = m.split(c).map(f).collect::<Vec<_>>();
            want.truncate(20);
            let got: Vec<_> = b.split_on(&nd).take(want.len()).collect();
            // which pieces come is settled by C08
            if got.len() != want.len() {
                return vec![e];
            }
            got.into_iter().zip(want).filter(|(g, w)| g.len() == w.1 - w.0).take(4).map(|(g, w)| e.part(V::S(g), w.0, w.1)).collect()
        }
        (7, V::B(b)) if n > 0 => {
            let nd = [m.as_bytes()[x.min(n - 1)]];
            let mut at = 0;
            let mut r = Vec::new();
            for g in b.split_on(&nd).take(20) {
                let w = (at, at + g.len());
                at = w.1 + 1;
                if m.get(w.0..w.1).is_some_and(|t| t.as_bytes() == g.as_slice()) && r.len() < 4 {
                    r.push(e.part(V::B(g), w.0, w.1));
                }
            }
            r
        }
        (8, V::B(b)) => match b.split_once_on(m[x..z].as_bytes()) {
            Ok((p, q)) => {
                let k = p.len();
                if k + q.len() != n || !m.is_char_boundary(k) {
                    return vec![e];
                }
                vec![e.part(V::B(p), 0, k), e.part(V::B(q), k, n)]
            }
            Err(b) => vec![e.part(V::B(b), 0, n)],
        },
        (8, V::S(b)) => match b.split_once_on(&m[x..z]) {
            Ok((p, q)) => {
                let k = p.len();
                if k + q.len() != n {
                    return vec![e];
                }
                vec![e.part(V::S(p), 0, k), e.part(V::S(q), k, n)]
            }
            Err(b) => vec![e.part(V::S(b), 0, n)],
        },
        (9 | 10, v) => {
            // sharing for another lifetime
            let lent = e.cls() == C::Borrowed;
            let (mut r, x, z) = match (op, v) {
                (9, V::B(b)) => (e.part(V::B(b.into_shared()), 0, n), 0, n),
                (_, V::B(b)) => (e.part(V::B(b.into_shared_range(x..z)), x, z), x, z),
                (9, V::S(b)) => (e.part(V::S(b.into_shared()), 0, n), 0, n),
                (_, V::S(b)) => (e.part(V::S(b.into_shared_range(x..z)), x, z), x, z),
                _ => unreachable!(),
            };
            if lent {
                r.a.fill((0, if z - x <= 14 { C::Short } else { C::Shared }));
            }
            vec![r, e]
        }
        _ => vec![e],
    }
}
#[inline(never)]
fn queue_op(s: &mut Src, cx: &mut Ctx, mut e: E, o: Option<E>, i: usize) -> Vec<E> {
    let n = e.m.len();
    let (mut x, mut z) = (cut(s, &e.m), cut(s, &e.m));
    if x > z {
        (x, z) = (z, x);
    }
    let op = s.weighted(&[6, 4, 2, 2, 3, 3, 2, 2, 2]);
    note!(cx, "[{i}] queue #{op} {x} {z}{}", o.as_ref().map_or(String::new(), |o| format!(" with {:?}", o.m)));
    let mut r = Vec::new();
    match (op, o) {
        (0 | 1, Some(o)) => {
            // push, also the parts of another queue
            let E { v, m, a } = o;
            let back = op == 0;
            match (&mut e.v, v) {
                (V::Q(q), V::Q(p)) => q.append(p),
                (V::Q(q), V::T(p)) => q.append(p.into_bytequeue()),
                (V::T(q), V::T(p)) => q.extend(p.into_iter()),
                (V::Q(q), v @ (V::B(_) | V::S(_) | V::H(_))) => {
                    let v = match v {
                        V::H(h) => h.into(),
                        v => as_b(v).unwrap(),
                    };
                    if back {
                        q.push_back(v);
                    } else {
                        e.m.insert_str(0, &m);
                        e.a.splice(0..0, a);
                        q.push_front(v);
                        return vec![e];
                    }
                }
                (V::T(q), V::S(v)) => {
                    if back {
                        q.push_back(v);
                    } else {
                        e.m.insert_str(0, &m);
                        e.a.splice(0..0, a);
                        q.push_front(v);
                        return vec![e];
                    }
                }
                (_, v) => return vec![e, E { v, m, a }],
            }
            e.m.push_str(&m);
            e.a.extend(a);
        }
        (_, Some(o)) => return vec![e, o],
        (0..=2, None) => {
            // pop
            let back = s.bool();
            let g = match &mut e.v {
                V::Q(q) => if back { q.pop_back() } else { q.pop_front() }.map(V::B),
                V::T(q) => if back { q.pop_back() } else { q.pop_front() }.map(V::S),
                _ => None,
            };
            if let Some(g) = g {
                let l = match &g {
                    V::B(b) => b.len(),
                    V::S(b) => b.len(),
                    _ => 0,
                };
                let k = if back { n - l } else { l };
                if !e.m.is_char_boundary(k) {
                    return vec![];
                }
                let (x, z) = if back { (k, n) } else { (0, k) };
                r.push(e.part(g, x, z));
                e.m.drain(x..z);
                e.a.drain(x..z);
            }
        }
        (3, None) => {
            let g = match &mut e.v {
                V::Q(q) => V::Q(q.split_off(x)),
                V::T(q) => V::T(q.split_off(x)),
                _ => return vec![e],
            };
            r.push(e.part(g, x, n));
            e.m.truncate(x);
            e.a.truncate(x);
        }
        (4 | 5, None) => {
            let g = match &e.v {
                V::Q(q) => V::Q(q.slice(x..z)),
                V::T(q) if x < z => V::T(q.slice(x..z)),
                _ => return vec![e],
            };
            r.push(e.part(g, x, z));
        }
        (6, None) => {
            match &mut e.v {
                V::Q(q) => drop(q.drain(x..z)),
                V::T(q) if x < z => drop(q.drain(x..z)),
                _ => return vec![e],
            }
            e.m.drain(x..z);
            e.a.drain(x..z);
        }
        (7, None) => match &mut e.v {
            V::Q(q) => {
                q.consume(x);
                e.m.drain(..x);
                e.a.drain(..x);
            }
            V::T(q) => {
                let l = q.take_line();
                let k = e.m.find('\n').map_or(n, |k| k + 1);
                r.push(e.part(V::T(l), 0, k));
                e.m.drain(..k);
                e.a.drain(..k);
            }
            _ => {}
        },
        _ => {
            // the pieces of a split
            let nd = e.m[x..].chars().next().unwrap_or('a').to_string();
            let mut at = 0;
            let f = |v: V, l: usize| {
                let w = (at, at + l);
                at = w.1 + nd.len();
                e.m.get(w.0..w.1).map(|_| e.part(v, w.0, w.1))
            };
            let g: Vec<E> = match &e.v {
                V::Q(q) => q.split_on(nd.as_bytes()).take(20).map(|p| (p.len(), V::Q(p))).map({
                    let mut f = f;
                    move |(l, v)| f(v, l)
                }).take_while(Option::is_some).flatten().collect(),
                V::T(q) => q.split_on(&nd).take(20).map(|p| (p.len(), V::T(p))).map({
                    let mut f = f;
                    move |(l, v)| f(v, l)
                }).take_while(Option::is_some).flatten().collect(),
                _ => Vec::new(),
            };
            r.extend(g.into_iter().take(3));
        }
    }
    r.push(e);
    r
}
/// Into another type.
#[inline(never)]
fn convert(s: &mut Src, cx: &mut Ctx, e: E, i: usize) -> Vec<E> {
    let E { v, m, mut a } = e;
    let op = s.usize(4);
    note!(cx, "[{i}] convert #{op}");
    let c = a.first().map_or(C::Short, |x| x.1);
    let fresh = |a: &mut Vec<(usize, C)>| a.fill((0, if m.len() <= 14 { C::Short } else { C::Shared }));
    let v = match (v, op) {
        (V::B(b), 0) => match StringData::try_from_bytedata(b) {
            Ok(b) => V::S(b),
            Err(_) => cx.fail(covrt::engine::Kind::Utf8, format!("try_from_bytedata rejects the valid text {m:?}")),
        },
        (V::B(b), 1) => V::Q(b.into()),
        (V::B(b), 2) => V::Q(ByteQueue::with_item(b)),
        (V::B(b), _) => {
            if c != C::Shared {
                a.fill((0, C::Shared));
            }
            V::H(b.into())
        }
        (V::S(b), 0) => V::B(b.into_bytedata()),
        (V::S(b), 1) => V::T(b.into()),
        (V::S(b), 2) => V::B(b.as_bytedata().clone()),
        (V::S(b), _) => V::T(StringQueue::with_item(b)),
        (V::H(h), 0) => V::B(ByteData::from(h)),
        (V::H(h), 1) => match StringData::try_from_shared(h) {
            Ok(b) => V::S(b),
            Err(_) => cx.fail(covrt::engine::Kind::Utf8, format!("try_from_shared rejects the valid text {m:?}")),
        },
        (V::H(h), _) => V::B(ByteData::from_shared(h)),
        (V::Q(q), 0 | 1) => {
            if q.chunk_len() > 1 {
                fresh(&mut a);
            }
            V::B(q.into())
        }
        (V::Q(q), _) => {
            if q.chunk_len() > 1 || c != C::Shared {
                a.fill((0, C::Shared));
            }
            V::H(q.into())
        }
        (V::T(q), 0) => V::Q(q.into_bytequeue()),
        (V::T(q), 1) => V::Q(q.as_bytequeue().clone()),
        (V::T(q), 2) => V::T(q.into_iter().collect()),
        (V::T(q), _) => {
            if q.chunk_len() > 1 {
                fresh(&mut a);
            }
            V::S(q.into())
        }
    };
    vec![E { v, m, a }]
}
/// Takes a handle back as what it is, or changes its content.
#[inline(never)]
fn change(s: &mut Src, cx: &mut Ctx, e: E, i: usize) -> Vec<E> {
    let op = s.usize(8);
    note!(cx, "[{i}] take back or change #{op}");
    let n = e.m.len();
    let c = e.cls();
    let at = e.a.first().map_or(0, |x| x.0);
    // the caller keeps the original in half of the cases
    let v = e.dup();
    let mut keep = Vec::new();
    let m = e.m.clone();
    if s.bool() {
        keep.push(e);
    } else {
        drop(e);
    }
    match (v, op) {
        (V::B(b), 0) => {
            let w = Cow::<[u8]>::from(b);
            let lent = matches!(w, Cow::Borrowed(_));
            ck!(cx, Alias, n <= 14 || lent == matches!(c, C::Static | C::Borrowed), "Cow from {c:?} data is {}", if lent { "borrowed" } else { "owned" });
            ck!(cx, Alias, n <= 14 || !lent || w.as_ptr() as usize == at, "the borrowed Cow is other memory");
            ck!(cx, Content, w[..] == *m.as_bytes(), "Cow holds {:?}, must hold {m:?}", Sh(&w));
            let mut w = w.into_owned();
            w.iter_mut().for_each(|x| *x = 0);
        }
        (V::S(b), 0) => {
            let w = Cow::<str>::from(b);
            let lent = matches!(w, Cow::Borrowed(_));
            ck!(cx, Alias, n <= 14 || lent == matches!(c, C::Static | C::Borrowed), "Cow from {c:?} data is {}", if lent { "borrowed" } else { "owned" });
            ck!(cx, Alias, n <= 14 || !lent || w.as_ptr() as usize == at, "the borrowed Cow is other memory");
            ck!(cx, Content, w == m[..], "Cow holds {w:?}, must hold {m:?}");
            w.into_owned().push_str("more");
        }
        (V::B(b), 1 | 2) => {
            let y = bytes::Bytes::from(b);
            let p = y.as_ptr() as usize;
            ck!(cx, Alias, n <= 14 || c != C::Static || p == at, "static data is copied into Bytes");
            ck!(cx, Alias, n <= 14 || c != C::Borrowed || p != at, "borrowed data is put into Bytes, which may outlive it");
            ck!(cx, Content, y[..] == *m.as_bytes(), "Bytes holds {:?}, must hold {m:?}", Sh(&y));
            let mut y = bytes::BytesMut::from(y);
            y.iter_mut().for_each(|x| *x = 0);
            y.extend_from_slice(b"0123456789");
        }
        (V::B(b), 3) => {
            let mut w = Vec::from(b);
            ck!(cx, Content, w == m.as_bytes(), "Vec holds {:?}, must hold {m:?}", Sh(&w));
            w.iter_mut().for_each(|x| *x = 0);
            w.push(1);
        }
        (V::B(b), 4) => {
            // only for 'static values: borrowed data becomes static
            if c == C::Borrowed {
                let v = b.statically_borrowed();
                let mut r = E { v: V::B(v), m: m.clone(), a: keep.first().map_or(vec![(at, c); 0], |e| e.a.clone()) };
                if r.a.is_empty() {
                    r.a = (0..n).map(|k| (at + k, c)).collect();
                }
                r.a.iter_mut().for_each(|x| x.1 = C::Static);
                keep.push(r);
            } else if !keep.is_empty() {
                let r = E { v: V::B(b.statically_borrowed()), m, a: keep[0].a.clone() };
                keep.push(r);
            }
        }
        (V::B(b), _) => {
            let mut x = SharedBytesBuilder::from(SharedBytes::from(b));
            edit(s, cx, &mut x, &m, &mut keep);
        }
        (V::S(b), 1..=3) => {
            let mut x = SharedStrBuilder::from(b);
            x.push_str("abc");
            x.push('d');
            let t = format!("{m}abcd");
            ck!(cx, Content, x.as_str() == t, "a thawed string holds {:?}, must hold {t:?}", x.as_str());
            let y = StringData::from(x);
            keep.push(E::new(V::S(y), &t, if t.len() <= 14 { C::Short } else { C::Shared }));
        }
        (V::S(b), _) => {
            let mut w = String::from(b);
            ck!(cx, Content, w == m, "String holds {w:?}, must hold {m:?}");
            w.clear();
            w.push_str("abc");
        }
        (V::H(h), 0..=5) => {
            let mut x = SharedBytesBuilder::from(h);
            edit(s, cx, &mut x, &m, &mut keep);
        }
        (V::H(h), _) => {
            let y = bytes::Bytes::from(h);
            ck!(cx, Alias, n == 0 || y.as_ptr() as usize == at, "shared bytes are copied into Bytes");
            match y.try_into_mut() {
                Ok(mut y) => y.iter_mut().for_each(|x| *x = 0),
                Err(y) => drop(y.clone().split_off(n / 2)),
            }
        }
        (V::Q(q), 0..=3) => {
            let mut w = Vec::from(q);
            ck!(cx, Content, w == m.as_bytes(), "Vec holds {:?}, must hold {m:?}", Sh(&w));
            w.iter_mut().for_each(|x| *x = 0);
        }
        (V::Q(q), _) => {
            let y = bytes::Bytes::from(q);
            ck!(cx, Content, y[..] == *m.as_bytes(), "Bytes holds {:?}, must hold {m:?}", Sh(&y));
            bytes::BytesMut::from(y).iter_mut().for_each(|x| *x = 0);
        }
        (V::T(q), _) => {
            let mut w = String::from(q);
            ck!(cx, Content, w == m, "String holds {w:?}, must hold {m:?}");
            w.push_str("abc");
        }
    }
    keep
}
fn edit(s: &mut Src, cx: &mut Ctx, x: &mut SharedBytesBuilder, m: &str, keep: &mut Vec<E>) {
    ck!(cx, Content, x.as_slice() == m.as_bytes(), "a thawed handle holds {:?}, must hold {m:?}", Sh(x.as_slice()));
    let mut t = m.to_string();
    if s.bool() {
        x.as_slice_mut().iter_mut().for_each(|x| *x = b'!');
        t = "!".repeat(t.len());
    }
    if s.bool() {
        let k = s.usize(30);
        let add = "+".repeat(k);
        x.extend_from_slice(add.as_bytes());
        t.push_str(&add);
    }
    if s.ratio(1, 3) {
        let k = cut(s, &t);
        x.truncate(k);
        t.truncate(k);
        x.extend_from_slice(b"abc");
        t.push_str("abc");
    }
    let y = std::mem::take(x).build();
    if s.bool() {
        keep.push(E::new(V::H(y), &t, C::Shared));
    }
}
pub fn run(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let mut pool: Vec<E> = Vec::new();
    let steps = s.range(2, 30);
    let mut shared = false;
    for _ in 0..steps {
        if pool.is_empty() || (pool.len() < 5 && s.ratio(1, 5)) {
            let e = gen_e(s, cx, &ar);
            pool.push(e);
        } else {
            let i = s.usize(pool.len());
            let e = pool.swap_remove(i);
            let r = match s.weighted(&[6, 5, 5, 3, 1]) {
                0 => {
                    // clone or cut a SharedBytes, or a part of a value
                    match &e.v {
                        V::B(_) | V::S(_) => parts(s, cx, e, i),
                        V::H(h) => {
                            let (mut x, mut z) = (cut(s, &e.m), cut(s, &e.m));
                            if x > z {
                                (x, z) = (z, x);
                            }
                            note!(cx, "[{i}] part {x} {z}");
                            let v = match s.usize(4) {
                                0 => h.sliced(x, z - x),
                                1 => h.sliced_range(x..z),
                                2 => h.clone().into_sliced(x, z - x),
                                _ => h.clone().into_sliced_range(x..z),
                            };
                            vec![e.part(V::H(v), x, z), e]
                        }
                        _ => queue_op(s, cx, e, None, i),
                    }
                }
                1 => convert(s, cx, e, i),
                2 => {
                    if matches!(e.v, V::Q(_) | V::T(_)) {
                        let o = if pool.is_empty() || s.ratio(1, 3) {
                            None
                        } else {
                            let j = s.usize(pool.len());
                            Some(if s.bool() {
                                let o = pool.swap_remove(j);
                                verify_into(cx, &ar, o)
                            } else {
                                pool[j].part(pool[j].dup(), 0, pool[j].m.len())
                            })
                        };
                        queue_op(s, cx, e, o, i)
                    } else {
                        note!(cx, "[{i}] clone");
                        vec![e.part(e.dup(), 0, e.m.len()), e]
                    }
                }
                3 => change(s, cx, e, i),
                _ => {
                    note!(cx, "[{i}] drop");
                    vec![]
                }
            };
            pool.extend(r);
            while pool.len() > 8 {
                pool.swap_remove(0);
            }
        }
        for e in pool.iter_mut() {
            verify(cx, &ar, e);
        }
        if !shared {
            let f: Vec<usize> = pool.iter().filter(|e| e.m.len() > 14).map(|e| e.a[0].0).filter(|a| *a != 0).collect();
            shared = f.iter().enumerate().any(|(k, a)| f[..k].iter().any(|b| a.abs_diff(*b) < 15));
        }
    }
    if steps >= 4 && shared {
        cx.nontrivial();
    }
    while let Some(e) = pool.pop() {
        drop(e);
        for e in pool.iter_mut() {
            verify(cx, &ar, e);
        }
    }
    ar.check_owners(cx);
}
fn verify_into(cx: &mut Ctx, ar: &Arena, mut e: E) -> E {
    verify(cx, ar, &mut e);
    e
}
