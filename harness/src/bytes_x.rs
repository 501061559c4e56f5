//! Conversions to and from bytes::Bytes, Buf and BufMut (C12).
use crate::gen::*;
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, StringQueue};
use bytes::{Buf, BufMut, Bytes, BytesMut};
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};

pub const CONV: Module = Module {
    name: "bytesconv",
    rule: "a case is a content made into a ByteData (any representation), SharedBytes, builder, ByteQueue, StringQueue, Bytes, BytesMut or vector, and a history of up to 24 steps over up to 7 such handles: converting one into another type in place or from a clone, clone, slice, split_to, split_off, truncate, clear, slice_ref, try_into_mut, writing into BytesMut and vectors, comparing, hashing, dropping, in part of the steps with many clones held meanwhile; each handle with a vector model. After every step all handles hold their models, and a Bytes which says it is unique shares no memory with another handle. Non-trivial: at least 3 conversions between types.",
    run: run_conv,
    guided: true,
    balance: true,
};
pub const BUFMUT: Module = Module {
    name: "bufmut",
    rule: "a case is a SharedBytesBuilder (fresh, with capacity, aligned, or thawed) and a history of up to 16 BufMut calls (put of every Buf, put_slice, put_bytes, every put_* integer and float width, chunk_mut and advance_mut, limit, writer, chain_mut) against Vec<u8> as the reference BufMut. Non-trivial: at least 4 calls appended something.",
    run: run_bufmut,
    guided: true,
    balance: true,
};

enum H {
    D(ByteData<'static>),
    S(SharedBytes),
    Q(ByteQueue<'static>),
    T(StringQueue<'static>),
    B(Bytes),
    M(BytesMut),
    V(Vec<u8>),
    W(SharedBytesBuilder),
}
impl H {
    fn ty(&self) -> &'static str {
        match self {
            H::D(_) => "ByteData",
            H::S(_) => "SharedBytes",
            H::Q(_) => "ByteQueue",
            H::T(_) => "StringQueue",
            H::B(_) => "Bytes",
            H::M(_) => "BytesMut",
            H::V(_) => "Vec",
            H::W(_) => "SharedBytesBuilder",
        }
    }
    fn all(&self) -> Vec<u8> {
        let mut v = Vec::new();
        match self {
            H::D(x) => v.extend_from_slice(x.as_slice()),
            H::S(x) => v.extend_from_slice(x.as_slice()),
            H::B(x) => v.extend_from_slice(x),
            H::M(x) => v.extend_from_slice(x),
            H::V(x) => v.extend_from_slice(x),
            H::W(x) => v.extend_from_slice(x.as_slice()),
            H::Q(x) => x.chunks().for_each(|c| v.extend_from_slice(c)),
            H::T(x) => x.chunks().for_each(|c| v.extend_from_slice(c.as_bytes())),
        }
        v
    }
    fn len(&self) -> usize {
        match self {
            H::D(x) => x.len(),
            H::S(x) => x.len(),
            H::B(x) => x.len(),
            H::M(x) => x.len(),
            H::V(x) => x.len(),
            H::W(x) => x.len(),
            H::Q(x) => x.len(),
            H::T(x) => x.len(),
        }
    }
    fn overlaps(&self, a: usize, n: usize) -> bool {
        let o = |s: &[u8]| {
            let p = s.as_ptr() as usize;
            !s.is_empty() && p < a + n && a < p + s.len()
        };
        match self {
            H::D(x) => o(x),
            H::S(x) => o(x.as_slice()),
            H::B(x) => o(x),
            H::M(x) => o(x),
            H::V(x) => o(x),
            H::W(x) => o(x.as_slice()),
            H::Q(x) => x.chunks().any(|c| o(c)),
            H::T(x) => x.chunks().any(|c| o(c.as_bytes())),
        }
    }
    /// Another handle on the same bytes.
    fn dup(&self) -> H {
        match self {
            H::D(x) => H::D(x.clone()),
            H::S(x) => H::S(x.clone()),
            H::B(x) => H::B(x.clone()),
            H::M(x) => H::M(x.clone()),
            H::V(x) => H::V(x.clone()),
            H::W(x) => H::S(SharedBytes::from_slice(x.as_slice())),
            H::Q(x) => H::Q(x.clone()),
            H::T(x) => H::T(x.clone()),
        }
    }
}
/// A piece of memory of a Bytes which views it.
fn span(b: &[u8]) -> (usize, usize) {
    (b.as_ptr() as usize, b.len())
}
#[inline(never)]
fn gen_bytes_crate(s: &mut Src, ar: &Arena, c: &[u8]) -> Bytes {
    match s.usize(6) {
        0 => Bytes::from_static(ar.bytes(c)),
        1 => Bytes::from(c.to_vec()),
        2 => Bytes::copy_from_slice(c),
        3 => {
            let mut v = vec![b'#'];
            v.extend_from_slice(c);
            v.push(b'#');
            Bytes::from(v).slice(1..1 + c.len())
        }
        4 => {
            let mut m = BytesMut::with_capacity(c.len() + s.usize(20));
            m.extend_from_slice(c);
            m.freeze()
        }
        _ => {
            let x = Bytes::from(c.to_vec());
            let y = x.clone();
            drop(x);
            y
        }
    }
}
#[inline(never)]
fn gen_h(s: &mut Src, cx: &mut Ctx, ar: &Arena, c: &[u8]) -> H {
    match s.weighted(&[6, 5, 4, 1, 4, 1, 1, 1]) {
        0 => H::D(gen_bd(s, cx, ar, c).0),
        1 => H::S(gen_shared(s, c).0),
        2 => H::Q(gen_queue(s, cx, ar, c)),
        3 => match core::str::from_utf8(c) {
            Ok(t) => H::T(gen_squeue(s, cx, ar, t)),
            Err(_) => H::Q(gen_queue(s, cx, ar, c)),
        },
        4 => H::B(gen_bytes_crate(s, ar, c)),
        5 => H::M(c.into()),
        6 => H::V(c.to_vec()),
        _ => {
            let mut b = SharedBytesBuilder::with_alignment(gen_align(s).min(512));
            b.extend_from_slice(c);
            H::W(b)
        }
    }
}
/// Converts into another type; the flag says a conversion took place.
#[inline(never)]
fn convert(s: &mut Src, cx: &mut Ctx, h: H) -> H {
    let safe = cfg!(feature = "safe");
    match h {
        H::D(x) => match s.weighted(&[8, 2, 2, 1]) {
            0 => {
                let (p, n) = span(&x);
                let how = x.clone();
                let y = Bytes::from(x);
                // what does not have to be copied is not
                if !safe && n > 14 && span(SharedBytes::from(how).as_slice()).0 == p {
                    ck!(cx, Alias, span(&y) == (p, n), "converting a shared value of {n} bytes into Bytes copies it");
                }
                H::B(y)
            }
            1 => H::S(SharedBytes::from(x)),
            2 => H::Q(x.into()),
            _ => H::V(Vec::from(x)),
        },
        H::S(x) => match s.weighted(&[8, 4, 1]) {
            0 => {
                let at = span(x.as_slice());
                let y = Bytes::from(x);
                if !safe && at.1 != 0 {
                    ck!(cx, Alias, span(&y) == at, "converting shared bytes into Bytes copies them");
                }
                H::B(y)
            }
            1 => H::D(x.into()),
            _ => H::W(SharedBytesBuilder::from(x)),
        },
        H::Q(x) => match s.weighted(&[6, 2, 1, 1]) {
            0 => H::B(x.into()),
            1 => H::D(x.into()),
            2 => H::V(x.into()),
            _ => H::V(x.into_bytes().collect()),
        },
        H::T(x) => match s.usize(2) {
            0 => H::B(x.into_bytequeue().into()),
            _ => H::Q(x.into_bytequeue()),
        },
        H::B(x) => match s.weighted(&[6, 4, 4, 2, 2, 1]) {
            0 => H::D(x.into()),
            1 => H::S(x.into()),
            2 => H::Q(x.into()),
            3 => H::V(x.into()),
            4 => H::M(x.into()),
            _ => {
                let at = span(&x);
                let y = ByteData::from_external(x);
                if at.1 > 14 {
                    ck!(cx, Alias, span(&y) == at, "from_external copies a Bytes");
                }
                H::D(y)
            }
        },
        H::M(x) => H::B(x.freeze()),
        H::V(x) => match s.usize(3) {
            0 => H::D(x.into()),
            1 => H::B(x.into()),
            _ => H::S(x.into()),
        },
        H::W(x) => match s.usize(3) {
            0 => H::S(x.build()),
            1 => H::D(x.into()),
            _ => H::B(x.build().into()),
        },
    }
}
#[inline(never)]
pub fn run_conv(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let mut hs: Vec<(H, Vec<u8>)> = Vec::new();
    let c = gen_bytes(s);
    let h = gen_h(s, cx, &ar, &c);
    note!(cx, "[0] {} of {:?}", h.ty(), Sh(&c));
    hs.push((h, c));
    let mut convs = 0;
    for _ in 0..s.range(2, 24) {
        if s.exhausted() {
            break;
        }
        if hs.is_empty() || (hs.len() < 3 && s.ratio(1, 10)) {
            let c = gen_bytes_small(s);
            let h = gen_h(s, cx, &ar, &c);
            note!(cx, "[{}] {} of {:?}", hs.len(), h.ty(), Sh(&c));
            hs.push((h, c));
        }
        let i = s.usize(hs.len());
        // many handles of one content during the step
        let crowd: Vec<H> = if s.ratio(1, 12) && hs[i].1.len() < 200 && hs.len() < 8 {
            let k = gen_many(s).min(300);
            note!(cx, "[{i}] {k} clones");
            let j = if s.bool() { i } else { s.usize(hs.len()) };
            (0..k).map(|_| hs[j].0.dup()).collect()
        } else {
            Vec::new()
        };
        let held = crowd.first().map(H::all);
        match s.weighted(&[10, 6, 3, 4, 4, 3, 3, 2, 3]) {
            0 => {
                let (h, m) = hs.swap_remove(i);
                let from = h.ty();
                let h = convert(s, cx, h);
                convs += usize::from(from != h.ty());
                note!(cx, "[{i}] {from} into {} (now last)", h.ty());
                hs.push((h, m));
            }
            1 if hs.len() < 7 => {
                let d = hs[i].0.dup();
                let m = hs[i].1.clone();
                let from = d.ty();
                let d = if s.bool() { convert(s, cx, d) } else { d };
                convs += usize::from(from != d.ty());
                note!(cx, "[{i}] {from} cloned into [{}] {}", hs.len(), d.ty());
                hs.push((d, m));
            }
            2 => {
                note!(cx, "[{i}] dropped");
                hs.swap_remove(i);
            }
            3 if hs.len() < 7 => {
                // a part as another handle
                let n = hs[i].1.len();
                let a = s.usize(n + 1);
                let z = a + s.usize(n - a + 1);
                let h = match &hs[i].0 {
                    H::D(x) => Some(H::D(x.sliced(a..z))),
                    H::S(x) => Some(H::S(x.sliced_range(a..z))),
                    H::B(x) => {
                        let p = x.slice(a..z);
                        Some(H::B(if s.ratio(1, 3) && a < z { x.slice_ref(&p) } else { p }))
                    }
                    H::Q(x) => Some(H::Q(x.slice(a..z))),
                    _ => None,
                };
                if let Some(h) = h {
                    note!(cx, "[{i}] {}[{a}..{z}] into [{}]", h.ty(), hs.len());
                    let m = hs[i].1[a..z].to_vec();
                    hs.push((h, m));
                }
            }
            4 => {
                // splitting in place
                let (h, m) = &mut hs[i];
                let k = s.usize(m.len() + 1);
                let to = s.bool();
                note!(cx, "[{i}] {} split_{} {k}", h.ty(), if to { "to" } else { "off" });
                let other = match h {
                    H::B(x) => Some(H::B(if to { x.split_to(k) } else { x.split_off(k) })),
                    H::M(x) => Some(H::M(if to { x.split_to(k) } else { x.split_off(k) })),
                    H::Q(x) if !to => Some(H::Q(x.split_off(k))),
                    H::D(x) => {
                        let (l, r) = x.clone().split_at(k);
                        if to {
                            *x = r;
                            Some(H::D(l))
                        } else {
                            *x = l;
                            Some(H::D(r))
                        }
                    }
                    _ => None,
                };
                if let Some(o) = other {
                    let om = if to { m.drain(..k).collect() } else { m.split_off(k) };
                    if hs.len() < 7 {
                        hs.push((o, om));
                    }
                }
            }
            5 => {
                let (h, m) = &mut hs[i];
                let k = s.usize(m.len() + 3);
                if let H::B(x) = h {
                    note!(cx, "[{i}] truncate {k}");
                    if k == 0 && s.bool() {
                        x.clear();
                    } else {
                        x.truncate(k);
                    }
                    m.truncate(k);
                }
            }
            6 => {
                // exclusive access
                if matches!(hs[i].0, H::B(_)) {
                    let (h, mut m) = hs.swap_remove(i);
                    let H::B(x) = h else { unreachable!() };
                    let (a, n) = span(&x);
                    let u = x.is_unique();
                    note!(cx, "[{i}] try_into_mut of {n} bytes, is_unique says {u}");
                    let shared = hs.iter().any(|(o, _)| o.overlaps(a, n)) || crowd.iter().any(|o| o.overlaps(a, n));
                    ck!(cx, Alias, !(u && shared), "is_unique is true for a Bytes whose memory another handle views");
                    match x.try_into_mut() {
                        Ok(mut y) => {
                            ck!(cx, Content, y[..] == m[..], "try_into_mut gives {:?}, must give {:?}", Sh(&y), Sh(&m));
                            for (k, b) in m.iter_mut().enumerate() {
                                *b = b.wrapping_add(k as u8).wrapping_add(1);
                                y[k] = *b;
                            }
                            y.extend_from_slice(b"xyz");
                            m.extend_from_slice(b"xyz");
                            hs.push((H::M(y), m));
                        }
                        Err(y) => {
                            ck!(cx, Content, !u, "try_into_mut fails on a unique Bytes");
                            hs.push((H::B(y), m));
                        }
                    }
                }
            }
            7 => {
                let (h, m) = &mut hs[i];
                match h {
                    H::M(x) => {
                        note!(cx, "[{i}] write");
                        if let Some(b) = m.first_mut() {
                            *b ^= 0x20;
                            x[0] = *b;
                        }
                        x.put_u8(7);
                        m.push(7);
                    }
                    H::V(x) => {
                        note!(cx, "[{i}] write");
                        x.push(9);
                        m.push(9);
                    }
                    H::W(x) => {
                        note!(cx, "[{i}] write");
                        x.put_u8(3);
                        m.push(3);
                        if let Some(b) = m.first_mut() {
                            *b ^= 0x20;
                            x[0] = *b;
                        }
                    }
                    _ => {}
                }
            }
            8 => {
                // comparing across types
                let j = s.usize(hs.len());
                let (x, y) = (&hs[i], &hs[j]);
                if let (H::D(a), H::B(b)) = (&x.0, &y.0) {
                    ck!(cx, Content, (a.as_slice() == &b[..]) == (x.1 == y.1), "[{i}] and [{j}] compare wrongly");
                    ck!(cx, Content, (b == a.as_slice()) == (x.1 == y.1), "[{i}] and [{j}] compare wrongly");
                }
            }
            _ => {}
        }
        if let Some(m) = held {
            for (k, h) in crowd.iter().enumerate() {
                let a = h.all();
                ck!(cx, Content, a == m, "clone {k} of {} holds {:?}, must hold {:?}", crowd.len(), Sh(&a), Sh(&m));
            }
        }
        drop(crowd);
        for (k, (h, m)) in hs.iter().enumerate() {
            ck!(cx, Content, h.len() == m.len(), "[{k}] {} has length {}, must have {}", h.ty(), h.len(), m.len());
            let a = h.all();
            ck!(cx, Content, a == *m, "[{k}] {} holds {:?}, must hold {:?}", h.ty(), Sh(&a), Sh(m));
            if let H::B(x) = h {
                let (p, n) = span(x);
                if n != 0 && x.is_unique() {
                    ck!(cx, Alias, !hs.iter().enumerate().any(|(j, (o, _))| j != k && o.overlaps(p, n)), "is_unique is true for the Bytes [{k}], whose memory another handle views");
                }
            }
        }
        ar.check_owner_liveness(cx, &|a, n| hs.iter().any(|(h, _)| h.overlaps(a, n)));
    }
    if convs >= 3 {
        cx.nontrivial();
    }
    drop(hs);
    ar.check_owners(cx);
}

// ------------------------------------------------------------------ BufMut
#[inline(never)]
pub fn run_bufmut(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let mut m: Vec<u8> = Vec::new();
    let mut b = match s.usize(4) {
        0 => SharedBytesBuilder::new(),
        1 => SharedBytesBuilder::with_capacity(s.usize(40)),
        2 => SharedBytesBuilder::with_alignment(gen_align(s).min(512)),
        _ => {
            m = gen_bytes_small(s);
            SharedBytesBuilder::from(gen_shared(s, &m).0)
        }
    };
    note!(cx, "builder of {:?}", Sh(&m));
    let mut moved = 0;
    for _ in 0..s.range(1, 16) {
        if s.exhausted() {
            break;
        }
        let before = m.len();
        put_step(s, cx, &ar, &mut b, &mut m);
        moved += usize::from(before != m.len());
        ck!(cx, Content, b.as_slice() == &m[..], "the builder holds {:?}, must hold {:?}", Sh(b.as_slice()), Sh(&m));
        ck!(cx, Content, b.len() == m.len() && b.capacity() >= m.len(), "length {}, capacity {} with {} bytes", b.len(), b.capacity(), m.len());
    }
    if moved >= 4 {
        cx.nontrivial();
    }
    let f = b.build();
    ck!(cx, Content, f.as_slice() == &m[..], "the frozen builder holds {:?}, must hold {:?}", Sh(f.as_slice()), Sh(&m));
    drop(f);
    ar.check_owners(cx);
}
#[inline(never)]
fn put_step(s: &mut Src, cx: &mut Ctx, ar: &Arena, b: &mut SharedBytesBuilder, m: &mut Vec<u8>) {
    let rm = b.remaining_mut();
    let before = m.len();
    macro_rules! same {
        (|$x:ident| $e:expr) => {{
            {
                let $x = &mut *b;
                $e;
            }
            {
                let $x = &mut *m;
                $e;
            }
        }};
    }
    match s.weighted(&[4, 3, 3, 6, 4, 2, 2, 1, 2]) {
        0 => {
            let c = gen_bytes_small(s);
            let k = s.usize(c.len() + 1);
            let w = s.usize(7);
            note!(cx, "put #{w} {:?}", Sh(&c));
            m.extend_from_slice(&c);
            match w {
                0 => b.put(&c[..]),
                1 => b.put(gen_bd(s, cx, ar, &c).0),
                2 => b.put(gen_shared(s, &c).0),
                3 => b.put(gen_queue(s, cx, ar, &c)),
                4 => b.put((&c[..k]).chain(&c[k..])),
                5 => b.put(gen_bytes_crate(s, ar, &c)),
                _ => {
                    let mut q = gen_queue(s, cx, ar, &c);
                    b.put((&mut q).take(k));
                    ck!(cx, Content, q.len() == c.len() - k, "put of {k} bytes of a queue of {} leaves {}", c.len(), q.len());
                    b.put(&mut q);
                    ck!(cx, Content, q.is_empty(), "put of a queue leaves {} bytes in it", q.len());
                }
            }
        }
        1 => {
            let c = gen_bytes(s);
            note!(cx, "put_slice {:?}", Sh(&c));
            same!(|x| x.put_slice(&c));
        }
        2 => {
            let k = gen_len(s);
            let v = s.below(256) as u8;
            note!(cx, "put_bytes {v} x {k}");
            same!(|x| x.put_bytes(v, k));
        }
        3 => {
            let w = s.usize(20);
            let v = s.below(u64::MAX);
            let v128 = u128::from(v).wrapping_mul(0x1_0000_0001_0000_0001);
            note!(cx, "put_* #{w} {v:x}");
            same!(|x| match w {
                0 => x.put_u8(v as u8),
                1 => x.put_i8(v as i8),
                2 => x.put_u16(v as u16),
                3 => x.put_u16_le(v as u16),
                4 => x.put_i16(v as i16),
                5 => x.put_u32(v as u32),
                6 => x.put_u32_le(v as u32),
                7 => x.put_i32_le(v as i32),
                8 => x.put_u64(v),
                9 => x.put_u64_le(v),
                10 => x.put_i64(v as i64),
                11 => x.put_u128(v128),
                12 => x.put_u128_le(v128),
                13 => x.put_f32(f32::from_bits(v as u32)),
                14 => x.put_f64_le(f64::from_bits(v)),
                15 => x.put_u16_ne(v as u16),
                16 => x.put_uint(v & 0xff_ffff, 3),
                17 => x.put_uint_le(v & 0xff_ffff_ffff, 5),
                18 => x.put_int((v & 0x7fff) as i64, 2),
                _ => x.put_int_le(-1, 7),
            });
        }
        4 => {
            let ch = b.chunk_mut();
            let room = ch.len();
            ck!(cx, Content, room != 0, "chunk_mut is empty");
            let k = s.usize(room.min(64) + 1);
            let c = gen_bytes_n(s, k);
            let cut = s.usize(k + 1);
            note!(cx, "chunk_mut of {room}, advance_mut {k}");
            ch[..cut].copy_from_slice(&c[..cut]);
            for (j, x) in c.iter().enumerate().skip(cut) {
                ch.write_byte(j, *x);
            }
            // everything in it may be written to
            for j in k..room.min(4096) {
                ch.write_byte(j, 0x5A);
            }
            if room > 0 {
                ch.write_byte(room - 1, if k == room { c[k - 1] } else { 0x5A });
            }
            unsafe { b.advance_mut(k) };
            m.extend_from_slice(&c);
        }
        5 => {
            let c = gen_bytes_small(s);
            let k = c.len() + s.usize(5);
            note!(cx, "limit {k} put {:?}", Sh(&c));
            same!(|x| {
                let mut l = (&mut *x).limit(k);
                l.put_slice(&c);
                ck!(cx, Content, l.remaining_mut() == k - c.len(), "the room of a limit is {} after putting {} of {k}", l.remaining_mut(), c.len());
            });
        }
        6 => {
            use std::io::Write;
            let c = gen_bytes_small(s);
            note!(cx, "writer {:?}", Sh(&c));
            same!(|x| {
                let mut w = (&mut *x).writer();
                w.write_all(&c).unwrap();
            });
        }
        7 => {
            let c = gen_bytes_small(s);
            let k = s.usize(4);
            note!(cx, "chain_mut after {k} bytes {:?}", Sh(&c));
            let mut a = [0_u8; 3];
            let k = k.min(3);
            {
                let mut first = &mut a[..k];
                let mut t = BufMut::chain_mut(&mut first, &mut *b);
                t.put_slice(&c);
            }
            let f = k.min(c.len());
            ck!(cx, Content, a[..f] == c[..f], "the first part of a chain holds {:?}", a);
            m.extend_from_slice(&c[f..]);
        }
        _ => {
            note!(cx, "put of nothing");
            b.put(Bytes::new());
            b.put_slice(&[]);
            b.put_bytes(0, 0);
            b.put(ByteQueue::new());
            unsafe { b.advance_mut(0) };
        }
    }
    let put = m.len() - before;
    ck!(cx, Content, b.remaining_mut() <= rm - put && b.remaining_mut() > u32::MAX as usize - 8300 - m.len(), "remaining_mut is {} after putting {put}, was {rm}", b.remaining_mut());
}
