//! Searching and splitting against a naive search of the contiguous bytes (C08).
use crate::gen::*;
use bytedata::{ByteData, ByteQueue, StringData, StringQueue};
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};

pub const SEARCH: Module = Module {
    name: "search",
    rule: "a case is one content (random, or self-similar over 1 to 3 symbols so that partial matches abound), held as a ByteData, a ByteQueue in a random (often very fine) chunking, and, when it is text, a StringData and a StringQueue, with up to 12 needles (parts of the content possibly extended or with a changed byte, self-overlapping, empty, longer than the content); for each: starts_with, ends_with, exists_at at and beyond the ends, find_byte, find_slice, find_slice_after from and beyond every kind of position, split_on, splitn_on with limits 0 to huge, split_once_on, on every holder, against a naive left-to-right search; every iterator must end within the number of bytes plus two pieces. Non-trivial: a needle of at least 2 bytes occurs across a chunk boundary.",
    run,
    guided: true,
    balance: true,
};

fn naive(m: &[u8], nd: &[u8], start: usize) -> Option<usize> {
    (start..=m.len()).find(|i| m[*i..].starts_with(nd))
}
/// The pieces as (start, end); `max` 0 is no limit; an empty needle never matches; an empty input has no pieces.
fn pieces(m: &[u8], nd: &[u8], max: usize) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    if m.is_empty() {
        return out;
    }
    let mut a = 0;
    loop {
        if max != 0 && out.len() + 1 == max {
            break;
        }
        match if nd.is_empty() { None } else { naive(m, nd, a) } {
            Some(k) => {
                out.push((a, k));
                a = k + nd.len();
            }
            None => break,
        }
    }
    out.push((a, m.len()));
    out
}
fn content(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[3, 5, 3, 2]) {
        0 => gen_bytes(s),
        1 => {
            // periodic with a few disturbances
            let p = s.range(1, 5);
            let base: Vec<u8> = (0..p).map(|_| b"abc"[s.usize(3)]).collect();
            let n = s.range(0, 120);
            let mut v: Vec<u8> = (0..n).map(|i| base[i % p]).collect();
            for _ in 0..s.usize(4) {
                if n > 0 {
                    let k = s.usize(n);
                    v[k] = b"abcx"[s.usize(4)];
                }
            }
            v
        }
        2 => {
            let n = s.range(0, 80);
            let seed = s.below(1 << 16);
            fill(1, seed, n)
        }
        _ => gen_text(s).into_bytes(),
    }
}
fn needle(s: &mut Src, m: &[u8]) -> Vec<u8> {
    let a = s.usize(m.len() + 1);
    let most = m.len() - a;
    let l = match s.weighted(&[5, 3, 2, 1]) {
        0 => s.usize(most.min(4) + 1),
        1 => s.usize(most.min(20) + 1),
        2 => s.usize(most + 1),
        _ => most,
    };
    let mut nd = m[a..a + l].to_vec();
    match s.weighted(&[8, 2, 2, 1, 1]) {
        1 if l > 0 => {
            let k = s.usize(l);
            nd[k] = if s.bool() { b'b' } else { nd[k].wrapping_add(1) };
        }
        2 => nd.push(b"ab\n"[s.usize(3)]),
        3 => nd.clear(),
        4 => {
            let n = s.range(1, 4);
            nd = fill(5, u64::from(b'a'), n);
        }
        _ => {}
    }
    nd
}

macro_rules! splits {
    ($cx:expr, $what:expr, $it:expr, $m:expr, $nd:expr, $want:expr, $bytes:expr, $check:expr) => {{
        let (m, want): (&[u8], &[(usize, usize)]) = ($m, $want);
        let mut it = $it;
        let mut k = 0;
        loop {
            let h = it.size_hint();
            let left = want.len() - k;
            ck!($cx, Content, h.0 <= left && h.1.is_none_or(|x| x >= left), "{}({:?}) has size hint {h:?} with {left} pieces of {:?} left", $what, Sh($nd), Sh(m));
            let Some(p) = it.next() else { break };
            ck!($cx, Content, k < want.len(), "{}({:?}) of {:?} gives more than {} pieces", $what, Sh($nd), Sh(m), want.len());
            let (a, z) = want[k];
            let b = $bytes(&p);
            ck!($cx, Content, b == &m[a..z], "{}({:?}) of {:?}: piece {k} is {:?}, must be {:?}", $what, Sh($nd), Sh(m), Sh(&b), Sh(&m[a..z]));
            $check(&mut *$cx, p, a, z);
            k += 1;
        }
        ck!($cx, Content, k == want.len(), "{}({:?}) of {:?} gives {k} pieces, must give {}", $what, Sh($nd), Sh(m), want.len());
        for _ in 0..2 {
            ck!($cx, Content, it.next().is_none(), "{}({:?}) of {:?} gives a piece after its end", $what, Sh($nd), Sh(m));
        }
    }};
}
fn flat(q: &ByteQueue<'_>) -> Vec<u8> {
    let mut v = Vec::new();
    for c in q.chunks() {
        v.extend_from_slice(c);
    }
    v
}

#[inline(never)]
pub fn run(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let mut c = content(s);
    c.truncate(1100);
    let n = c.len();
    let text = core::str::from_utf8(&c).ok();
    note!(cx, "content {:?}", Sh(&c));
    let mut q: ByteQueue<'static> = if s.ratio(1, 3) && n <= 200 {
        let k = (1 + s.usize(4)).max(n.div_ceil(CAP));
        let front = s.bool();
        let mut q = ByteQueue::new();
        let ch: Vec<&[u8]> = c.chunks(k).collect();
        if front {
            ch.iter().rev().for_each(|x| q.push_front(ByteData::from_chunk_slice(x)));
        } else {
            ch.iter().for_each(|x| q.push_back(ByteData::from_chunk_slice(x)));
        }
        q
    } else {
        gen_queue(s, cx, &ar, &c)
    };
    if s.ratio(1, 4) {
        // leave an offset within the first inner node
        for _ in 0..s.range(1, 9).min(CAP - q.chunk_len()) {
            q.push_front(ByteData::from_byte(b'!'));
        }
        while q.len() > n {
            let _ = q.pop_front();
        }
    }
    let at = {
        let mut at = Vec::new();
        for x in q.chunks() {
            let p = x.as_slice().as_ptr() as usize;
            (0..x.len()).for_each(|k| at.push(p + k));
        }
        at
    };
    let sq: Option<StringQueue<'static>> = text.map(|t| gen_squeue(s, cx, &ar, t));
    let bd = gen_bd(s, cx, &ar, &c).0;
    let sd: Option<StringData<'static>> = text.map(|t| gen_sd(s, cx, &ar, t).0);
    note!(cx, "chunks {:?}", q.chunks().map(|x| x.len()).collect::<Vec<_>>());
    let m = &c[..];
    for _ in 0..s.range(1, 12) {
        if s.exhausted() {
            break;
        }
        let nd = needle(s, m);
        let nd = &nd[..];
        let ndt = core::str::from_utf8(nd).ok();
        let first = naive(m, nd, 0);
        note!(cx, "needle {:?} first at {first:?}", Sh(nd));
        let mut pos = 0;
        for x in q.chunks() {
            if let Some(k) = first {
                if nd.len() >= 2 && k < pos && pos < k + nd.len() {
                    cx.nontrivial();
                }
            }
            pos += x.len();
        }
        // prefix, suffix, position
        ck!(cx, Content, q.starts_with(nd) == m.starts_with(nd), "ByteQueue::starts_with({:?}) is {} on {:?}", Sh(nd), q.starts_with(nd), Sh(m));
        ck!(cx, Content, q.ends_with(nd) == m.ends_with(nd), "ByteQueue::ends_with({:?}) is {} on {:?}", Sh(nd), q.ends_with(nd), Sh(m));
        ck!(cx, Content, bd.starts_with(nd) == m.starts_with(nd), "ByteData::starts_with({:?}) on {:?}", Sh(nd), Sh(m));
        ck!(cx, Content, bd.ends_with(nd) == m.ends_with(nd), "ByteData::ends_with({:?}) on {:?}", Sh(nd), Sh(m));
        if let Some(sq) = &sq {
            ck!(cx, Content, sq.starts_with(nd) == m.starts_with(nd), "StringQueue::starts_with({:?}) on {:?}", Sh(nd), Sh(m));
            ck!(cx, Content, sq.ends_with(nd) == m.ends_with(nd), "StringQueue::ends_with({:?}) on {:?}", Sh(nd), Sh(m));
        }
        if let (Some(sd), Some(t)) = (&sd, ndt) {
            ck!(cx, Content, sd.starts_with(t) == m.starts_with(nd), "StringData::starts_with({t:?}) on {:?}", Sh(m));
            ck!(cx, Content, sd.ends_with(t) == m.ends_with(nd), "StringData::ends_with({t:?}) on {:?}", Sh(m));
        }
        for k in 0..4 {
            let p = match (k, first) {
                (0, Some(k)) => k,
                (1, Some(k)) => k + 1,
                _ => gen_pos(s, n),
            };
            let want = p <= n && m[p..].starts_with(nd);
            ck!(cx, Content, q.exists_at(p, nd) == want, "exists_at({p}, {:?}) is {} on {:?}", Sh(nd), !want, Sh(m));
            let got = q.find_slice_after(nd, p);
            let want = if p <= n { naive(m, nd, p) } else { None };
            ck!(cx, Content, got == want, "find_slice_after({:?}, {p}) is {got:?}, must be {want:?} on {:?}", Sh(nd), Sh(m));
        }
        let got = q.find_slice(nd);
        ck!(cx, Content, got == first, "find_slice({:?}) is {got:?}, must be {first:?} on {:?}", Sh(nd), Sh(m));
        let b = nd.first().copied().unwrap_or(b'a');
        let mut seen = 0;
        let got = q.find_byte(|x| {
            seen += 1;
            x == b
        });
        let want = m.iter().position(|x| *x == b);
        ck!(cx, Content, got == want, "find_byte({b}) is {got:?}, must be {want:?} on {:?}", Sh(m));
        ck!(cx, Content, seen == want.map_or(n, |x| x + 1), "find_byte looked at {seen} bytes");
        // splitting
        let want = pieces(m, nd, 0);
        splits!(cx, "ByteQueue::split_on", q.split_on(nd), m, nd, &want, |p: &ByteQueue<'static>| flat(p), |cx: &mut Ctx, p: ByteQueue<'static>, a: usize, _| {
            let mut k = a;
            for x in p.chunks() {
                ck!(cx, Alias, x.len() <= 14 || x.as_slice().as_ptr() as usize == at[k], "split_on copies the data");
                ck!(cx, Content, !x.is_empty(), "split_on gives a queue with an empty chunk");
                k += x.len();
            }
            ck!(cx, Content, p.len() == k - a && p.chunk_len() == p.chunks().count(), "split_on gives a queue of inconsistent length");
        });
        splits!(cx, "ByteData::split_on", bd.clone().split_on(nd), m, nd, &want, |p: &ByteData<'static>| p.to_vec(), |_: &mut Ctx, _, _, _| ());
        let max = match s.usize(4) {
            0 => s.usize(4),
            1 => want.len() + s.usize(3) - usize::from(!want.is_empty()),
            2 => usize::MAX,
            _ => s.usize(10),
        };
        let wantn = pieces(m, nd, max);
        splits!(cx, format!("ByteQueue::splitn_on[{max}]"), q.splitn_on(nd, max), m, nd, &wantn, |p: &ByteQueue<'static>| flat(p), |_: &mut Ctx, _, _, _| ());
        if let Some(sq) = &sq {
            splits!(cx, "StringQueue::split_on_bytes", sq.split_on_bytes(nd), m, nd, &want, |p: &ByteQueue<'static>| flat(p), |_: &mut Ctx, _, _, _| ());
            splits!(cx, format!("StringQueue::splitn_on_bytes[{max}]"), sq.splitn_on_bytes(nd, max), m, nd, &wantn, |p: &ByteQueue<'static>| flat(p), |_: &mut Ctx, _, _, _| ());
            if let Some(t) = ndt {
                let utf = |cx: &mut Ctx, p: StringQueue<'static>, _, _| {
                    for x in p.chunks() {
                        ck!(cx, Utf8, core::str::from_utf8(x.as_bytes()).is_ok(), "split_on gives a chunk of invalid UTF-8");
                    }
                };
                splits!(cx, "StringQueue::split_on", sq.split_on(t), m, nd, &want, |p: &StringQueue<'static>| flat(p.as_bytequeue()), utf);
                splits!(cx, format!("StringQueue::splitn_on[{max}]"), sq.splitn_on(t, max), m, nd, &wantn, |p: &StringQueue<'static>| flat(p.as_bytequeue()), utf);
            }
        }
        // once: cut right before the first occurrence
        let cut = |got: Result<(Vec<u8>, Vec<u8>), Vec<u8>>, cx: &mut Ctx, what: &str| match (got, first) {
            (Ok((a, b)), Some(k)) => ck!(cx, Content, a == m[..k] && b == m[k..], "{what}::split_once_on({:?}) of {:?} gives {:?} and {:?}", Sh(nd), Sh(m), Sh(&a), Sh(&b)),
            (Err(a), None) => ck!(cx, Content, a == m, "{what}::split_once_on({:?}) hands back {:?}", Sh(nd), Sh(&a)),
            (g, w) => ck!(cx, Content, false, "{what}::split_once_on({:?}) of {:?} is {}, the needle is at {w:?}", Sh(nd), Sh(m), if g.is_ok() { "Ok" } else { "Err" }),
        };
        cut(bd.clone().split_once_on(nd).map(|(a, b)| (a.to_vec(), b.to_vec())).map_err(|a| a.to_vec()), cx, "ByteData");
        if let (Some(sd), Some(t)) = (&sd, ndt) {
            cut(sd.clone().split_once_on(t).map(|(a, b)| (a.as_bytes().to_vec(), b.as_bytes().to_vec())).map_err(|a| a.as_bytes().to_vec()), cx, "StringData");
            splits!(cx, "StringData::split_on", sd.clone().split_on(t), m, nd, &want, |p: &StringData<'static>| p.as_bytes().to_vec(), |_: &mut Ctx, _, _, _| ());
        }
    }
    drop((q, sq, bd, sd));
    ar.check_owners(cx);
}
