//! Values and queues as a cursor of the bytes crate (C12, C20).
use crate::gen::*;
#[cfg(not(feature = "na"))]
use bytedata::{SharedBytes, SharedBytesBuilder};
use bytedata::{ByteData, ByteQueue};
use bytes::{Buf, BufMut, Bytes};
use covrt::engine::{Ctx, Kind, Module, Src};
use covrt::{ck, note};

pub const BUF: Module = Module {
    name: "buf",
    rule: "a case is a ByteData, SharedBytes or ByteQueue and a history of up to 16 Buf calls (advance, chunk, copy_to_slice, copy_to_bytes, every get_* and try_get_* integer and float width, take, chain, reader, chunks_vectored, put into a BufMut, over-advancing), against &[u8] as the reference Buf, including which calls panic and what is left afterwards; bytes handed out stay right after the cursor moved on. Non-trivial: at least 4 calls moved the cursor.",
    run: run_buf,
    guided: true,
    balance: true,
};
trait Bf: Buf + Clone {
    fn all(&self) -> Vec<u8>;
}
impl Bf for ByteData<'static> {
    fn all(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
}
#[cfg(not(feature = "na"))]
impl Bf for SharedBytes {
    fn all(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
}
impl Bf for ByteQueue<'static> {
    fn all(&self) -> Vec<u8> {
        let mut v = Vec::new();
        let mut n = 0;
        for c in self.chunks() {
            v.extend_from_slice(c);
            n += 1;
        }
        if v.len() != self.len() || self.chunks().any(|c| c.is_empty()) || self.chunk_len() != n {
            v.extend_from_slice(b"!inconsistent");
        }
        v
    }
}
#[inline(never)]
pub fn run_buf(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let c = gen_bytes(s);
    let mut kept = Vec::new();
    match s.weighted(&[3, 2, 4]) {
        0 => {
            let r = gen_bd(s, cx, &ar, &c).0;
            drive(s, cx, r, &c, "ByteData", &mut kept);
        }
        #[cfg(not(feature = "na"))]
        1 => {
            let r = gen_shared(s, &c).0;
            drive(s, cx, r, &c, "SharedBytes", &mut kept);
        }
        _ => {
            let r = gen_queue(s, cx, &ar, &c);
            note!(cx, "chunks {:?}", r.chunks().map(|c| c.len()).collect::<Vec<_>>());
            drive(s, cx, r, &c, "ByteQueue", &mut kept);
        }
    }
    for (b, m) in &kept {
        ck!(cx, Content, b[..] == m[..], "bytes copied out earlier hold {:?}, must hold {:?}", Sh(b), Sh(m));
    }
    drop(kept);
    ar.check_owners(cx);
}
fn drive<T: Bf>(s: &mut Src, cx: &mut Ctx, r: T, c: &[u8], ty: &str, kept: &mut Vec<(Bytes, Vec<u8>)>) {
    note!(cx, "{ty} of {:?}", Sh(c));
    let mut rs: Vec<(T, usize)> = vec![(r, 0)];
    let mut moved = 0;
    for _ in 0..s.range(1, 16) {
        if s.exhausted() {
            break;
        }
        let i = s.usize(rs.len());
        let (r, pos) = &mut rs[i];
        let mut m = &c[*pos..];
        let before = m.len();
        step(s, cx, r, &mut m, kept);
        *pos += before - m.len();
        moved += usize::from(before != m.len());
        let p = *pos;
        if rs.len() < 3 && s.ratio(1, 8) {
            let n = rs[i].0.clone();
            note!(cx, "clone of [{i}]");
            rs.push((n, p));
        }
        for (k, (r, pos)) in rs.iter().enumerate() {
            let a = r.all();
            ck!(cx, Content, a == c[*pos..], "{ty} [{k}] holds {:?} after a call on [{i}], must hold {:?}", Sh(&a), Sh(&c[*pos..]));
            ck!(cx, Content, r.remaining() == a.len() && r.has_remaining() != a.is_empty(), "{ty} [{k}]: remaining is {}, has_remaining {}, with {} bytes left", r.remaining(), r.has_remaining(), a.len());
            let ch = r.chunk();
            ck!(cx, Content, a.starts_with(ch) && ch.is_empty() == a.is_empty(), "{ty} [{k}]: chunk is {:?} with {:?} left", Sh(ch), Sh(&a));
        }
    }
    if moved >= 4 {
        cx.nontrivial();
    }
}
/// Calls the same on both and compares what comes back; floats by their bits.
macro_rules! both {
    ($cx:expr, $r:expr, $m:expr, $what:expr, |$x:ident| $e:expr) => {{
        let g = {
            let $x = &mut *$r;
            $cx.catch(|| $e)
        };
        let w = {
            let $x = &mut *$m;
            $cx.catch(|| $e)
        };
        match (&g, &w) {
            (Ok(g), Ok(w)) => ck!($cx, Content, g == w, "{} gives {g:x?}, must give {w:x?}", $what),
            (Err(_), Err(_)) => {}
            (Ok(g), Err(_)) => $cx.fail(Kind::Content, format!("{} gives {g:x?}, must panic", $what)),
            (Err(g), Ok(w)) => $cx.fail(Kind::Content, format!("{} panics ({g}), must give {w:x?}", $what)),
        }
    }};
}
#[inline(never)]
fn step<T: Bf>(s: &mut Src, cx: &mut Ctx, r: &mut T, m: &mut &[u8], kept: &mut Vec<(Bytes, Vec<u8>)>) {
    let n = m.len();
    match s.weighted(&[5, 4, 5, 8, 3, 2, 2, 2, 1, 3, 2]) {
        0 => {
            let k = gen_pos(s, n);
            note!(cx, "advance {k} of {n}");
            both!(cx, r, m, "advance", |x| x.advance(k));
        }
        1 => {
            let k = gen_pos(s, n).min(n + 40);
            note!(cx, "copy_to_slice {k} of {n}");
            both!(cx, r, m, "copy_to_slice", |x| {
                let mut b = vec![0xA5; k].into_boxed_slice();
                x.copy_to_slice(&mut b);
                b
            });
        }
        2 => {
            let k = gen_pos(s, n);
            note!(cx, "copy_to_bytes {k} of {n}");
            let got = cx.catch(|| r.copy_to_bytes(k));
            match got {
                Ok(b) => {
                    ck!(cx, Content, k <= n, "copy_to_bytes of {k} with {n} left gives {} bytes instead of a panic", b.len());
                    ck!(cx, Content, b[..] == m[..k], "copy_to_bytes gives {:?}, must give {:?}", Sh(&b), Sh(&m[..k]));
                    if kept.len() < 4 {
                        kept.push((b, m[..k].to_vec()));
                    }
                    *m = &m[k..];
                }
                Err(e) => ck!(cx, Content, k > n, "copy_to_bytes of {k} with {n} left panics: {e}"),
            }
        }
        3 => {
            let w = s.usize(22);
            note!(cx, "get #{w} of {n}");
            both!(cx, r, m, "get", |x| {
                let v: u128 = match w {
                    0 => x.get_u8().into(),
                    1 => x.get_i8() as u128,
                    2 => x.get_u16().into(),
                    3 => x.get_u16_le().into(),
                    4 => x.get_i16() as u128,
                    5 => x.get_i16_le() as u128,
                    6 => x.get_u32().into(),
                    7 => x.get_u32_le().into(),
                    8 => x.get_i32() as u128,
                    9 => x.get_u64().into(),
                    10 => x.get_u64_le().into(),
                    11 => x.get_i64_le() as u128,
                    12 => x.get_u128(),
                    13 => x.get_u128_le(),
                    14 => x.get_i128() as u128,
                    15 => x.get_f32().to_bits().into(),
                    16 => x.get_f64_le().to_bits().into(),
                    17 => x.get_u16_ne().into(),
                    18 => x.get_uint(3).into(),
                    19 => x.get_uint_le(7).into(),
                    20 => x.get_int(5) as u128,
                    _ => x.get_int_le(1) as u128,
                };
                v
            });
        }
        4 => {
            let w = s.usize(5);
            note!(cx, "try_get #{w} of {n}");
            both!(cx, r, m, "try_get", |x| match w {
                0 => x.try_get_u8().map(u128::from).map_err(|e| (e.requested, e.available)),
                1 => x.try_get_u32_le().map(u128::from).map_err(|e| (e.requested, e.available)),
                2 => x.try_get_u64().map(u128::from).map_err(|e| (e.requested, e.available)),
                3 => x.try_get_u128().map_err(|e| (e.requested, e.available)),
                _ => {
                    let mut b = [0; 5];
                    x.try_copy_to_slice(&mut b).map(|_| b.iter().map(|x| u128::from(*x)).sum()).map_err(|e| (e.requested, e.available))
                }
            });
        }
        5 => {
            let k = gen_pos(s, n);
            let j = s.usize(k.min(n) + 1);
            note!(cx, "take {k} advance {j}");
            both!(cx, r, m, "take", |x| {
                let mut t = (&mut *x).take(k);
                let a = t.remaining();
                let l = t.chunk().len() <= a;
                t.advance(j);
                (a, l, t.remaining(), t.limit())
            });
        }
        6 => {
            let k = s.usize(n + 4).min(n);
            note!(cx, "take {k} put into a vector and a builder");
            both!(cx, r, m, "put of a taken part", |x| {
                let mut v = vec![b'<'];
                v.put((&mut *x).take(k / 2));
                #[cfg(not(feature = "na"))]
                let mut b = SharedBytesBuilder::with_capacity(3);
                #[cfg(feature = "na")]
                let mut b = Vec::new();
                b.put((&mut *x).take(k - k / 2));
                (v, b[..].to_vec())
            });
        }
        7 => {
            let k = s.usize(n + 8);
            note!(cx, "chain with 5 bytes, copy {k}");
            both!(cx, r, m, "chain", |x| {
                let mut t = (&mut *x).chain(&b"tail!"[..]);
                let a = t.remaining();
                let mut b = vec![0; k];
                t.copy_to_slice(&mut b);
                (a, b, t.remaining())
            });
        }
        8 => {
            use std::io::Read;
            let k = s.usize(n + 4);
            note!(cx, "reader, read {k}");
            both!(cx, r, m, "reader", |x| {
                let mut b = vec![0; k];
                let mut t = (&mut *x).reader();
                let mut at = 0;
                while at < k {
                    let g = t.read(&mut b[at..]).unwrap();
                    if g == 0 {
                        break;
                    }
                    at += g;
                }
                (at, b)
            });
        }
        9 => {
            let k = s.usize(9);
            note!(cx, "chunks_vectored into {k}");
            let pad = *b"padding";
            let mut v = vec![std::io::IoSlice::new(&pad); k];
            let g = r.chunks_vectored(&mut v);
            ck!(cx, Content, g <= k, "chunks_vectored into {k} entries reports {g}");
            let flat: Vec<u8> = v[..g].iter().flat_map(|x| x.iter().copied()).collect();
            ck!(cx, Content, m.starts_with(&flat), "chunks_vectored gives {:?}, the bytes left are {:?}", Sh(&flat), Sh(m));
            ck!(cx, Content, k == 0 || n == 0 || !flat.is_empty(), "chunks_vectored gives nothing with {n} bytes left");
            ck!(cx, Content, g == k || flat.len() == n || flat.len() == r.chunk().len(), "chunks_vectored fills {g} of {k} entries with {} of {n} bytes", flat.len());
            ck!(cx, Content, v[g..].iter().all(|x| x.as_ptr() == pad.as_ptr() && x.len() == pad.len()), "chunks_vectored changes entries beyond the {g} it reports");
        }
        _ => {
            let k = r.chunk().len();
            note!(cx, "advance one chunk of {k}");
            r.advance(k);
            *m = &m[k..];
        }
    }
}

