//! Histories over ByteData and SharedBytes values against plain byte vectors (C01, C02, C18).
use crate::gen::*;
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, StringData};
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};
use std::borrow::{Borrow, Cow};

pub const VALUE: Module = Module {
    name: "value",
    rule: "a case is a history of up to 40 operations (construct in one of 40 ways, clone, slice in place / by value / by reference with every range type, split, take, share, convert to and from Vec, Cow, SharedBytes, StringData, ByteQueue, Bytes and builder, concatenate, iterate, drop) over a pool of up to 8 ByteData and SharedBytes values; in part of the steps with a crowd of clones of one value held meanwhile; each handle has a byte-vector model and, where copying is not documented, the address its data must have. Non-trivial: at least 4 operations on existing values, one of which gave a value longer than 14 bytes; distinct by choice sequence.",
    run,
    guided: true,
    balance: true,
};

pub enum Val {
    B(ByteData<'static>),
    S(SharedBytes),
}
impl Val {
    fn sl(&self) -> &[u8] {
        match self {
            Val::B(b) => b.as_slice(),
            Val::S(b) => b.as_slice(),
        }
    }
}
struct Ent {
    v: Val,
    m: Vec<u8>,
    at: Option<usize>,
    rep: Rep,
}
fn check(cx: &mut Ctx, ar: &Arena, e: &Ent, full: bool) {
    let m = &e.m[..];
    let s = e.v.sl();
    ck!(cx, Content, s == m, "a value holds {:?}, must hold {:?}", Sh(s), Sh(m));
    if let Some(at) = e.at {
        if m.len() > 14 {
            ck!(cx, Alias, s.as_ptr() as usize == at, "the data of a {:?} value was moved or copied ({} bytes)", e.rep, m.len());
        }
    }
    if !full {
        return;
    }
    match &e.v {
        Val::B(b) => {
            ck!(cx, Content, b.len() == m.len(), "len is {}, must be {}", b.len(), m.len());
            ck!(cx, Content, b.is_empty() == m.is_empty(), "is_empty is {} with {} bytes", b.is_empty(), m.len());
            let r: &[u8] = b;
            ck!(cx, Content, r == m, "Deref gives other bytes");
            let r: &[u8] = b.as_ref();
            ck!(cx, Content, r == m, "AsRef gives other bytes");
            let r: &[u8] = b.borrow();
            ck!(cx, Content, r == m, "Borrow gives other bytes");
            match b.as_borrowed() {
                Some(x) => {
                    ck!(cx, Content, x == m, "as_borrowed gives other bytes");
                    ck!(cx, Alias, m.is_empty() || ar.contains(x.as_ptr()), "as_borrowed gives a slice that is not the borrowed one");
                }
                None => ck!(cx, Alias, m.len() <= 14 || !matches!(e.rep, Rep::Static | Rep::Borrowed), "as_borrowed of a {:?} value is None", e.rep),
            }
        }
        Val::S(b) => {
            ck!(cx, Content, b.len() == m.len(), "len is {}, must be {}", b.len(), m.len());
            ck!(cx, Content, b.is_empty() == m.is_empty(), "is_empty is {} with {} bytes", b.is_empty(), m.len());
            ck!(cx, Content, &b[..] == m, "Deref gives other bytes");
            let r: &[u8] = b.as_ref();
            ck!(cx, Content, r == m, "AsRef gives other bytes");
        }
    }
}
fn find(m: &[u8], n: &[u8]) -> Option<usize> {
    (0..=m.len()).find(|i| m[*i..].starts_with(n))
}
/// A needle: a part of the content, or random.
pub fn gen_needle(s: &mut Src, m: &[u8]) -> Vec<u8> {
    match s.weighted(&[6, 2, 1]) {
        0 => {
            let a = s.usize(m.len() + 1);
            let l = s.usize((m.len() - a).min(6) + 1);
            m[a..a + l].to_vec()
        }
        1 => {
            let n = s.range(1, 3);
            let seed = s.below(256);
            fill(1, seed, n)
        }
        _ => Vec::new(),
    }
}

pub fn run(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let mut pool: Vec<Ent> = Vec::new();
    let steps = s.range(2, 40);
    let mut worked = 0;
    let mut long = false;
    for _ in 0..steps {
        if s.exhausted() {
            break;
        }
        let crowd = if s.ratio(1, 12) && !pool.is_empty() { Some(crowd(s, cx, &pool)) } else { None };
        step(s, cx, &ar, &mut pool, &mut worked, &mut long);
        if let Some((mut vs, m)) = crowd {
            for v in &vs {
                ck!(cx, Content, v.sl() == m, "one of {} clones holds {:?}, must hold {:?}", vs.len(), Sh(v.sl()), Sh(&m));
            }
            while !vs.is_empty() {
                let k = s.usize(vs.len());
                vs.truncate(k);
                if let Some(v) = vs.first() {
                    ck!(cx, Content, v.sl() == m, "the first of {k} clones holds {:?}, must hold {:?}", Sh(v.sl()), Sh(&m));
                }
            }
        }
        for e in &pool {
            check(cx, &ar, e, false);
        }
        let pc = &pool;
        ar.check_owner_liveness(cx, &|base, len| pc.iter().any(|e| (base..base + len).contains(&(e.v.sl().as_ptr() as usize)) && !e.m.is_empty()));
    }
    for e in &pool {
        check(cx, &ar, e, true);
    }
    drop(pool);
    ar.check_owners(cx);
    if worked >= 4 && long {
        cx.nontrivial();
    }
}

/// Many clones of a value.
#[inline(never)]
fn crowd(s: &mut Src, cx: &mut Ctx, pool: &[Ent]) -> (Vec<Val>, Vec<u8>) {
    let i = s.usize(pool.len());
    let e = &pool[i];
    let k = if e.m.len() < 200 { gen_many(s) } else { s.range(1, 33) };
    note!(cx, "[{i}] {k} clones during the next step");
    let vs = (0..k)
        .map(|_| match &e.v {
            Val::B(b) => Val::B(b.clone()),
            Val::S(b) => Val::S(b.clone()),
        })
        .collect();
    (vs, e.m.clone())
}

#[inline(never)]
fn push(s: &mut Src, cx: &mut Ctx, ar: &Arena, pool: &mut Vec<Ent>, e: Ent) {
    check(cx, ar, &e, true);
    if pool.len() >= 8 {
        let i = s.usize(pool.len());
        pool.swap_remove(i);
    }
    pool.push(e);
}
fn sub(at: Option<usize>, k: usize) -> Option<usize> {
    at.map(|x| x + k)
}
/// The representation of a part taken out of a value by reference.
fn part_rep(rep: Rep, n: usize) -> Rep {
    if n <= 14 {
        Rep::Chunk
    } else {
        rep
    }
}

#[inline(never)]
fn fresh(s: &mut Src, cx: &mut Ctx, ar: &Arena) -> Ent {
    let c = gen_bytes(s);
    if s.ratio(1, 6) {
        let (v, how) = gen_shared(s, &c);
        note!(cx, "new SharedBytes from {how}: {:?}", Sh(&c));
        let at = Some(v.as_slice().as_ptr() as usize);
        Ent { v: Val::S(v), m: c, at, rep: Rep::Shared }
    } else {
        let (v, m) = gen_bd(s, cx, ar, &c);
        note!(cx, "new ByteData {:?} from {}: {:?}", m.rep, m.how, Sh(&c));
        // where the place is not known from the constructor, it is fixed from now on
        let at = m.at.or(Some(v.as_slice().as_ptr() as usize)).filter(|_| m.rep != Rep::Chunk);
        Ent { v: Val::B(v), m: c, at, rep: m.rep }
    }
}

#[inline(never)]
fn step(s: &mut Src, cx: &mut Ctx, ar: &Arena, pool: &mut Vec<Ent>, worked: &mut usize, long: &mut bool) {
    if pool.is_empty() || s.ratio(1, 8) {
        let e = fresh(s, cx, ar);
        push(s, cx, ar, pool, e);
        return;
    }
    *worked += 1;
    let i = s.usize(pool.len());
    *long |= pool[i].m.len() > 14;
    if matches!(pool[i].v, Val::B(_)) {
        step_b(s, cx, ar, pool, i);
    } else {
        step_s(s, cx, ar, pool, i);
    }
}

#[inline(never)]
fn step_b(s: &mut Src, cx: &mut Ctx, ar: &Arena, pool: &mut Vec<Ent>, i: usize) {
    let Ent { v: Val::B(b), m, at, rep } = &mut pool[i] else { unreachable!() };
    let n = m.len();
    let (at0, rep0) = (*at, *rep);
    let op = s.weighted(&[4, 5, 5, 5, 3, 3, 4, 2, 3, 2, 2, 2, 2, 2, 3, 2, 2, 1, 2, 2, 2, 2, 2, 1, 2]);
    match op {
        0 => {
            let c = b.clone();
            note!(cx, "[{i}] clone");
            let e = Ent { v: Val::B(c), m: m.clone(), at: at0, rep: rep0 };
            push(s, cx, ar, pool, e);
        }
        1 => {
            let r = gen_range(s, n);
            note!(cx, "[{i}] sliced {r:?}");
            let want = r.resolve(n);
            let got = cx.catch(|| with_range!(r.clone(), x, b.sliced(x)));
            match (got, want) {
                (Ok(v), Some((a, z))) => {
                    let e = Ent { v: Val::B(v), m: m[a..z].to_vec(), at: sub(at0, a), rep: part_rep(rep0, z - a) };
                    push(s, cx, ar, pool, e);
                }
                (Err(_), None) => cx.label("range rejected"),
                (Ok(v), None) => ck!(cx, Content, false, "sliced({r:?}) of {n} bytes gives {:?} instead of a panic", Sh(v.as_slice())),
                (Err(p), Some(_)) => ck!(cx, Panic, false, "sliced({r:?}) of {n} bytes panics: {p}"),
            }
        }
        2 => {
            let r = gen_range(s, n);
            note!(cx, "[{i}] into_sliced {r:?}");
            let want = r.resolve(n);
            let keep = want.is_none() || s.bool();
            let v = if keep { b.clone() } else { core::mem::take(b) };
            let got = cx.catch(|| with_range!(r.clone(), x, v.into_sliced(x)));
            match (got, want) {
                (Ok(v), Some((a, z))) => {
                    let e = Ent { v: Val::B(v), m: m[a..z].to_vec(), at: sub(at0, a), rep: rep0 };
                    if !keep {
                        pool.swap_remove(i);
                    }
                    push(s, cx, ar, pool, e);
                }
                (Err(_), None) => cx.label("range rejected"),
                (Ok(v), None) => ck!(cx, Content, false, "into_sliced({r:?}) of {n} bytes gives {:?} instead of a panic", Sh(v.as_slice())),
                (Err(p), Some(_)) => ck!(cx, Panic, false, "into_sliced({r:?}) of {n} bytes panics: {p}"),
            }
        }
        3 => {
            let r = gen_range(s, n);
            note!(cx, "[{i}] make_sliced {r:?}");
            let want = r.resolve(n);
            let got = cx.catch(|| with_range!(r.clone(), x, b.make_sliced(x)));
            match (got, want) {
                (Ok(()), Some((a, z))) => {
                    *m = m[a..z].to_vec();
                    *at = sub(at0, a);
                }
                (Err(_), None) => cx.label("range rejected"),
                (Ok(()), None) => ck!(cx, Content, false, "make_sliced({r:?}) of {n} bytes gives {:?} instead of a panic", Sh(b.as_slice())),
                (Err(p), Some(_)) => ck!(cx, Panic, false, "make_sliced({r:?}) of {n} bytes panics: {p}"),
            }
            check(cx, ar, &pool[i], true);
        }
        4 => {
            note!(cx, "[{i}] into_shared");
            let v: ByteData<'static> = core::mem::take(b).into_shared();
            let p = v.as_slice().as_ptr() as usize;
            if rep0 == Rep::Borrowed {
                ck!(cx, Alias, n == 0 || !ar.contains(p as *const u8), "into_shared of a borrowed value keeps the borrow");
                ck!(cx, Alias, v.as_borrowed().is_none(), "into_shared of a borrowed value is still borrowed");
                *rep = Rep::Shared;
                *at = Some(p);
            }
            *b = v;
            check(cx, ar, &pool[i], true);
        }
        5 => {
            let r = gen_range(s, n);
            note!(cx, "[{i}] into_shared_range {r:?}");
            let want = r.resolve(n);
            let v = b.clone();
            let got = cx.catch(|| -> ByteData<'static> { with_range!(r.clone(), x, v.into_shared_range(x)) });
            match (got, want) {
                (Ok(v), Some((a, z))) => {
                    let p = v.as_slice().as_ptr() as usize;
                    let (mut rep, mut at) = (rep0, sub(at0, a));
                    if rep0 == Rep::Borrowed {
                        ck!(cx, Alias, z == a || !ar.contains(p as *const u8), "into_shared_range of a borrowed value keeps the borrow");
                        rep = Rep::Shared;
                        at = Some(p);
                    }
                    let e = Ent { v: Val::B(v), m: m[a..z].to_vec(), at, rep };
                    push(s, cx, ar, pool, e);
                }
                (Err(_), None) => cx.label("range rejected"),
                (Ok(v), None) => ck!(cx, Content, false, "into_shared_range({r:?}) of {n} bytes gives {:?} instead of a panic", Sh(v.as_slice())),
                (Err(p), Some(_)) => ck!(cx, Panic, false, "into_shared_range({r:?}) of {n} bytes panics: {p}"),
            }
        }
        6 => {
            let k = gen_pos(s, n);
            note!(cx, "[{i}] take_bytes {k}");
            let got = cx.catch(|| b.take_bytes(k));
            match got {
                Ok(v) => {
                    ck!(cx, Content, k <= n, "take_bytes({k}) of {n} bytes gives {:?} instead of a panic", Sh(v.as_slice()));
                    let e = Ent { v: Val::B(v), m: m[..k].to_vec(), at: at0, rep: if k == n { rep0 } else { part_rep(rep0, k) } };
                    m.drain(..k);
                    *at = sub(at0, k);
                    check(cx, ar, &pool[i], true);
                    push(s, cx, ar, pool, e);
                }
                Err(p) => ck!(cx, Panic, k > n, "take_bytes({k}) of {n} bytes panics: {p}"),
            }
        }
        7 => {
            let counted = s.ratio(1, 2);
            let lim = if counted { gen_pos_in(s, n) } else { s.usize(n.min(40) + 2) };
            let stop = m.get(lim).copied().unwrap_or(b'a');
            let want = if counted { lim } else { m.iter().position(|x| *x == stop).unwrap_or(n) };
            note!(cx, "[{i}] take_while {want} bytes (!= {stop})");
            let mut seen = Vec::new();
            let v = b.take_while(|x| {
                seen.push(x);
                if counted { seen.len() <= want } else { x != stop }
            });
            ck!(cx, Content, seen == m[..(want + 1).min(n)], "take_while calls the condition with {:?}", Sh(&seen));
            let e = Ent { v: Val::B(v), m: m[..want].to_vec(), at: at0, rep: if want == n { rep0 } else { part_rep(rep0, want) } };
            m.drain(..want);
            *at = sub(at0, want);
            check(cx, ar, &pool[i], true);
            push(s, cx, ar, pool, e);
        }
        8 => {
            let k = gen_pos(s, n);
            note!(cx, "[{i}] split_at {k}");
            let v = b.clone();
            match cx.catch(|| v.split_at(k)) {
                Ok((x, y)) => {
                    ck!(cx, Content, k <= n, "split_at({k}) of {n} bytes does not panic");
                    let e = Ent { v: Val::B(x), m: m[..k].to_vec(), at: at0, rep: if k == n { rep0 } else { part_rep(rep0, k) } };
                    let f = Ent { v: Val::B(y), m: m[k..].to_vec(), at: sub(at0, k), rep: rep0 };
                    push(s, cx, ar, pool, e);
                    push(s, cx, ar, pool, f);
                }
                Err(p) => ck!(cx, Panic, k > n, "split_at({k}) of {n} bytes panics: {p}"),
            }
        }
        9 => {
            let nd = gen_needle(s, m);
            note!(cx, "[{i}] split_once_on {:?}", Sh(&nd));
            let v = b.clone();
            match (v.split_once_on(&nd), find(m, &nd)) {
                (Ok((x, y)), Some(k)) => {
                    let e = Ent { v: Val::B(x), m: m[..k].to_vec(), at: at0, rep: if k == n { rep0 } else { part_rep(rep0, k) } };
                    let f = Ent { v: Val::B(y), m: m[k..].to_vec(), at: sub(at0, k), rep: rep0 };
                    push(s, cx, ar, pool, e);
                    push(s, cx, ar, pool, f);
                }
                (Err(v), None) => {
                    let e = Ent { v: Val::B(v), m: m.clone(), at: at0, rep: rep0 };
                    push(s, cx, ar, pool, e);
                }
                (g, w) => ck!(cx, Content, false, "split_once_on({:?}) is {}, the needle is at {w:?}", Sh(&nd), if g.is_ok() { "Ok" } else { "Err" }),
            }
        }
        10 => {
            let nd = gen_needle(s, m);
            note!(cx, "[{i}] split_on {:?}", Sh(&nd));
            let got: Vec<ByteData<'static>> = b.clone().split_on(&nd).take(n + 3).collect();
            let mut rest = &m[..];
            let mut want: Vec<(usize, usize)> = Vec::new();
            if n > 0 {
                let mut a = 0;
                while let Some(k) = if nd.is_empty() { None } else { find(rest, &nd) } {
                    want.push((a, a + k));
                    a += k + nd.len();
                    rest = &m[a..];
                }
                want.push((a, n));
            }
            ck!(cx, Content, got.len() == want.len(), "split_on({:?}) of {:?} gives {} pieces, must give {}", Sh(&nd), Sh(m), got.len(), want.len());
            for (g, (a, z)) in got.iter().zip(&want) {
                ck!(cx, Content, g.as_slice() == &m[*a..*z], "split_on({:?}): a piece is {:?}, must be {:?}", Sh(&nd), Sh(g), Sh(&m[*a..*z]));
                if let Some(at) = at0 {
                    ck!(cx, Alias, z - a <= 14 || g.as_slice().as_ptr() as usize == at + a, "split_on copies the data");
                }
            }
        }
        11 => {
            note!(cx, "[{i}] statically_borrowed");
            *b = core::mem::take(b).statically_borrowed();
            if rep0 == Rep::Borrowed {
                // from now on it may be kept without copying
                *rep = Rep::Static;
            }
            check(cx, ar, &pool[i], true);
        }
        12 => {
            note!(cx, "[{i}] into Vec and back");
            let take = s.bool();
            let v: Vec<u8> = if take { core::mem::take(b).into() } else { b.clone().into() };
            ck!(cx, Content, v == *m, "Vec from a value is {:?}, must be {:?}", Sh(&v), Sh(m));
            if take {
                pool.swap_remove(i);
            }
            let m = v.clone();
            let own = s.bool();
            let p = v.as_ptr() as usize;
            let nb = if own { ByteData::from_owned(v) } else { ByteData::from(v) };
            let e = Ent { m, at: (own || n >= 32).then_some(p), rep: if n <= 14 { Rep::Chunk } else if own || n >= 32 { Rep::External } else { Rep::Shared }, v: Val::B(nb) };
            push(s, cx, ar, pool, e);
        }
        13 => {
            note!(cx, "[{i}] into Cow and back");
            let v: Cow<'static, [u8]> = b.clone().into();
            ck!(cx, Content, v[..] == m[..], "Cow from a value is {:?}, must be {:?}", Sh(&v), Sh(m));
            let is_b = matches!(v, Cow::Borrowed(_));
            ck!(cx, Alias, n <= 14 || is_b == matches!(rep0, Rep::Static | Rep::Borrowed), "Cow from a {rep0:?} value is {}", if is_b { "borrowed" } else { "owned" });
            if is_b && n > 14 {
                ck!(cx, Alias, at0.is_none() || Some(v.as_ptr() as usize) == at0, "the borrowed Cow is another slice");
            }
            let p = v.as_ptr() as usize;
            let e = Ent { m: m.clone(), at: Some(p).filter(|_| n > 14), rep: part_rep(if is_b { Rep::Borrowed } else { Rep::External }, n), v: Val::B(ByteData::from_cow(v)) };
            push(s, cx, ar, pool, e);
        }
        14 => {
            note!(cx, "[{i}] into SharedBytes");
            let v: SharedBytes = b.clone().into();
            let p = v.as_slice().as_ptr() as usize;
            if rep0 == Rep::Shared && n > 14 && at0.is_some() {
                ck!(cx, Alias, Some(p) == at0, "SharedBytes from a shared value copies");
            }
            let e = Ent { v: Val::S(v), m: m.clone(), at: Some(p), rep: Rep::Shared };
            push(s, cx, ar, pool, e);
        }
        15 => {
            let k = gen_pos(s, n);
            let got = cx.catch(|| b[k]).ok();
            ck!(cx, Content, got == m.get(k).copied(), "index {k} of {n} bytes is {got:?}, must be {:?}", m.get(k));
            // comparing helpers
            let nd = gen_needle(s, m);
            ck!(cx, Content, b.starts_with(&nd) == m.starts_with(&nd), "starts_with({:?}) of {:?}", Sh(&nd), Sh(m));
            ck!(cx, Content, b.ends_with(&nd) == m.ends_with(&nd), "ends_with({:?}) of {:?}", Sh(&nd), Sh(m));
            ck!(cx, Content, b.eq_slice(&nd) == (m[..] == nd[..]), "eq_slice({:?}) of {:?}", Sh(&nd), Sh(m));
        }
        16 => {
            let k = s.usize(n.min(20) + 2);
            note!(cx, "[{i}] next x{k}");
            for _ in 0..k {
                let w = if m.is_empty() { None } else { Some(m.remove(0)) };
                let g = b.next();
                ck!(cx, Content, g == w, "next is {g:?}, must be {w:?}");
                if w.is_some() {
                    *at = at.map(|x| x + 1);
                }
            }
            check(cx, ar, &pool[i], true);
        }
        17 => {
            let j = s.usize(pool.len());
            let k = s.usize(pool.len());
            let reps = if s.ratio(1, 12) { gen_many(s) } else { 1 };
            let mut parts: Vec<&[u8]> = [i, j, k][..s.range(1, 3)].iter().map(|x| pool[*x].v.sl()).collect();
            if parts.concat().len() < 24 {
                parts = parts.repeat(reps);
            }
            let m = parts.concat();
            let v = ByteData::from_concat(&parts).into_shared();
            note!(cx, "from_concat of [{i}] [{j}] [{k}], {} parts", parts.len());
            let p = v.as_slice().as_ptr() as usize;
            let e = Ent { rep: part_rep(Rep::Shared, m.len()), v: Val::B(v), at: Some(p).filter(|_| m.len() > 14), m };
            ck!(cx, Content, e.v.sl() == e.m, "from_concat gives {:?}, must give {:?}", Sh(e.v.sl()), Sh(&e.m));
            if e.m.len() < 2000 {
                push(s, cx, ar, pool, e);
            }
        }
        18 => {
            note!(cx, "[{i}] StringData::try_from_bytedata and back");
            let ok = core::str::from_utf8(m).is_ok();
            let (v, was) = match StringData::try_from_bytedata(b.clone()) {
                Ok(sd) => (sd.into_bytedata(), true),
                Err(b) => (b, false),
            };
            ck!(cx, Utf8, was == ok, "try_from_bytedata accepts: {was}, valid: {ok}");
            let e = Ent { v: Val::B(v), m: m.clone(), at: at0, rep: rep0 };
            push(s, cx, ar, pool, e);
        }
        19 => {
            note!(cx, "[{i}] through a ByteQueue");
            let mut q = ByteQueue::from(b.clone());
            ck!(cx, Content, q.len() == n, "the queue has {} bytes", q.len());
            let other = s.bool();
            if other {
                let e2 = fresh(s, cx, ar);
                if let Val::B(b2) = &e2.v {
                    q.push_back(b2.clone());
                }
            }
            match q.pop_front() {
                Some(v) if n > 0 => {
                    let e = Ent { v: Val::B(v), m: m.clone(), at: at0, rep: rep0 };
                    push(s, cx, ar, pool, e);
                }
                Some(_) => ck!(cx, Content, other, "an empty chunk in a queue"),
                None => ck!(cx, Content, n == 0, "the queue made from {n} bytes is empty"),
            }
        }
        20 => {
            note!(cx, "[{i}] through bytes::Bytes");
            let x: bytes::Bytes = b.clone().into();
            ck!(cx, Content, x[..] == m[..], "Bytes from a value is {:?}, must be {:?}", Sh(&x), Sh(m));
            let a = s.usize(n + 1);
            let z = a + s.usize(n - a + 1);
            let v = ByteData::from(x.slice(a..z));
            ck!(cx, Content, v.as_slice() == &m[a..z], "a value from Bytes is {:?}, must be {:?}", Sh(&v), Sh(&m[a..z]));
            drop(x);
            // may be of any representation: static data may come back as static
            ck!(cx, Content, v.as_slice() == &m[a..z], "a value from Bytes is {:?}, must be {:?}", Sh(&v), Sh(&m[a..z]));
            drop(v);
        }
        21 => {
            note!(cx, "[{i}] drop");
            pool.swap_remove(i);
        }
        22 => {
            note!(cx, "[{i}] iterate");
            let v: Vec<u8> = b.clone().collect();
            ck!(cx, Content, v == *m, "iterating gives {:?}, must give {:?}", Sh(&v), Sh(m));
            let v: ByteData<'_> = gen_hinted(s, m.iter().copied()).collect();
            ck!(cx, Content, v.as_slice() == &m[..], "collecting gives {:?}, must give {:?}", Sh(&v), Sh(m));
        }
        23 => {
            note!(cx, "[{i}] Vec from a queue of clones");
            let mut q = ByteQueue::new();
            q.push_back(b.clone());
            q.push_back(b.clone());
            let v: Vec<u8> = q.into();
            ck!(cx, Content, v.len() == 2 * n && v[..n] == m[..] && v[n..] == m[..], "Vec from a queue");
        }
        _ => {
            // borrowed for a limited time
            note!(cx, "[{i}] detach a borrow of a temporary");
            let tmp: Vec<u8> = m.clone();
            let v = ByteData::from_borrowed(&tmp);
            let r = gen_range_v(s, n, true);
            let (a, z) = r.resolve(n).unwrap();
            let short = s.bool();
            let det: ByteData<'static> = if short { with_range!(r.clone(), x, v.into_shared_range(x)) } else { v.into_shared() };
            let (a, z) = if short { (a, z) } else { (0, n) };
            drop(tmp);
            let p = det.as_slice().as_ptr() as usize;
            let e = Ent { m: m[a..z].to_vec(), at: Some(p).filter(|_| z - a > 14), rep: part_rep(Rep::Shared, z - a), v: Val::B(det) };
            push(s, cx, ar, pool, e);
        }
    }
}

#[inline(never)]
fn step_s(s: &mut Src, cx: &mut Ctx, ar: &Arena, pool: &mut Vec<Ent>, i: usize) {
    let Ent { v: Val::S(b), m, at, .. } = &mut pool[i] else { unreachable!() };
    let n = m.len();
    let at0 = *at;
    let rep0 = Rep::Shared;
    match s.weighted(&[4, 3, 3, 2, 2, 3, 3, 3, 2, 2, 2, 2, 1]) {
        0 => {
            note!(cx, "[{i}] clone");
            let e = Ent { v: Val::S(b.clone()), m: m.clone(), at: at0, rep: rep0 };
            push(s, cx, ar, pool, e);
        }
        k @ 1..=3 => {
            let (o, l) = (gen_pos(s, n), gen_pos(s, n));
            let l = if s.ratio(4, 5) && o <= n { s.usize(n - o + 1) } else { l };
            note!(cx, "[{i}] {} {o} {l}", ["", "sliced", "into_sliced", "make_sliced"][k]);
            let want = (o <= n && l <= n - o).then(|| m[o..o + l].to_vec());
            let got = match k {
                1 => cx.catch(|| b.sliced(o, l)),
                2 => {
                    let c = b.clone();
                    cx.catch(|| c.into_sliced(o, l))
                }
                _ => {
                    let mut c = b.clone();
                    cx.catch(move || {
                        c.make_sliced(o, l);
                        c
                    })
                }
            };
            match (got, want) {
                (Ok(v), Some(w)) => {
                    let e = Ent { v: Val::S(v), m: w, at: sub(at0, o), rep: rep0 };
                    push(s, cx, ar, pool, e);
                }
                (Err(_), None) => cx.label("range rejected"),
                (Ok(v), None) => ck!(cx, Content, false, "slicing ({o}, {l}) of {n} bytes gives {:?} instead of a panic", Sh(v.as_slice())),
                (Err(p), Some(_)) => ck!(cx, Panic, false, "slicing ({o}, {l}) of {n} bytes panics: {p}"),
            }
        }
        4 => {
            let r = gen_range(s, n);
            note!(cx, "[{i}] make_sliced_range {r:?} in place");
            let got = cx.catch(|| {
                with_range!(r.clone(), x, b.make_sliced_range(x));
            });
            match (got, r.resolve(n)) {
                (Ok(()), Some((a, z))) => {
                    *m = m[a..z].to_vec();
                    *at = sub(at0, a);
                }
                (Err(_), None) => cx.label("range rejected"),
                (Ok(()), None) => ck!(cx, Content, false, "make_sliced_range({r:?}) of {n} bytes does not panic"),
                (Err(p), Some(_)) => ck!(cx, Panic, false, "make_sliced_range({r:?}) of {n} bytes panics: {p}"),
            }
            check(cx, ar, &pool[i], true);
        }
        k @ 5..=6 => {
            let r = gen_range(s, n);
            note!(cx, "[{i}] {} {r:?}", if k == 5 { "sliced_range" } else { "into_sliced_range" });
            let got = if k == 5 {
                cx.catch(|| with_range!(r.clone(), x, b.sliced_range(x)))
            } else {
                let c = b.clone();
                cx.catch(|| with_range!(r.clone(), x, c.into_sliced_range(x)))
            };
            match (got, r.resolve(n)) {
                (Ok(v), Some((a, z))) => {
                    let e = Ent { v: Val::S(v), m: m[a..z].to_vec(), at: sub(at0, a), rep: rep0 };
                    push(s, cx, ar, pool, e);
                }
                (Err(_), None) => cx.label("range rejected"),
                (Ok(v), None) => ck!(cx, Content, false, "slicing {r:?} of {n} bytes gives {:?} instead of a panic", Sh(v.as_slice())),
                (Err(p), Some(_)) => ck!(cx, Panic, false, "slicing {r:?} of {n} bytes panics: {p}"),
            }
        }
        7 => {
            let take = s.bool();
            note!(cx, "[{i}] into ByteData{}", if take { " (moved)" } else { "" });
            let v = if take { core::mem::take(b) } else { b.clone() };
            let short = s.bool();
            let nb = if short { ByteData::from(v) } else { ByteData::from_shared(v) };
            let e = Ent { v: Val::B(nb), m: m.clone(), at: at0.filter(|_| n > 14), rep: if short && n <= 14 { Rep::Chunk } else { Rep::Shared } };
            if take {
                pool.swap_remove(i);
            }
            push(s, cx, ar, pool, e);
        }
        8 => {
            note!(cx, "[{i}] thaw, extend, freeze");
            let ext = gen_bytes_small(s);
            let take = s.bool();
            let v = if take { core::mem::take(b) } else { b.clone() };
            let mut bu = SharedBytesBuilder::from(v);
            ck!(cx, Content, bu.as_slice() == &m[..], "thawing gives {:?}, must give {:?}", Sh(bu.as_slice()), Sh(m));
            bu.extend_from_slice(&ext);
            let mut m2 = m.clone();
            m2.extend_from_slice(&ext);
            for (k, x) in bu.as_slice_mut().iter_mut().enumerate() {
                *x ^= k as u8;
                m2[k] ^= k as u8;
            }
            if take {
                pool.swap_remove(i);
            }
            let v = bu.build();
            let at = Some(v.as_slice().as_ptr() as usize);
            let e = Ent { v: Val::S(v), m: m2, at, rep: rep0 };
            if e.m.len() < 2000 {
                push(s, cx, ar, pool, e);
            }
        }
        9 => {
            let k = gen_pos(s, n);
            let got = cx.catch(|| b[k]).ok();
            ck!(cx, Content, got == m.get(k).copied(), "index {k} of {n} bytes is {got:?}, must be {:?}", m.get(k));
            let (x, y) = (gen_pos(s, n), gen_pos(s, n));
            let got = cx.catch(|| b[x..y].to_vec()).ok();
            ck!(cx, Content, got.as_deref() == m.get(x..y), "index {x}..{y} of {n} bytes is {got:?}");
            let got = cx.catch(|| b[x..].to_vec()).ok();
            ck!(cx, Content, got.as_deref() == m.get(x..), "index {x}.. of {n} bytes is {got:?}");
            let got = cx.catch(|| b[..y].to_vec()).ok();
            ck!(cx, Content, got.as_deref() == m.get(..y), "index ..{y} of {n} bytes is {got:?}");
            ck!(cx, Content, b[..] == m[..], "index .. of {n} bytes");
            let nd = gen_needle(s, m);
            ck!(cx, Content, b.starts_with(&nd) == m.starts_with(&nd), "starts_with({:?}) of {:?}", Sh(&nd), Sh(m));
            ck!(cx, Content, b.ends_with(&nd) == m.ends_with(&nd), "ends_with({:?}) of {:?}", Sh(&nd), Sh(m));
            ck!(cx, Content, b.eq_slice(&nd) == (m[..] == nd[..]), "eq_slice({:?}) of {:?}", Sh(&nd), Sh(m));
        }
        10 => {
            // dropping every other handle of the buffer leaves this one unique
            note!(cx, "[{i}] is_unique");
            let c = b.clone();
            if n > 0 {
                ck!(cx, Content, !b.is_unique() && !c.is_unique(), "is_unique is true with two handles");
            }
            drop(c);
            let solo = SharedBytes::from(m.clone());
            ck!(cx, Content, solo.is_unique(), "is_unique is false for the only handle");
            let c = solo.clone();
            drop(solo);
            ck!(cx, Content, c.is_unique(), "is_unique is false after the other handle is gone");
        }
        11 => {
            note!(cx, "[{i}] drop");
            pool.swap_remove(i);
        }
        _ => {
            note!(cx, "[{i}] through bytes::Bytes");
            let x: bytes::Bytes = b.clone().into();
            ck!(cx, Content, x[..] == m[..], "Bytes from SharedBytes is {:?}, must be {:?}", Sh(&x), Sh(m));
            let a = s.usize(n + 1);
            let v = SharedBytes::from(ByteData::from(x.slice(a..)));
            drop(x);
            let at = Some(v.as_slice().as_ptr() as usize);
            let e = Ent { v: Val::S(v), m: m[a..].to_vec(), at, rep: rep0 };
            push(s, cx, ar, pool, e);
        }
    }
}
