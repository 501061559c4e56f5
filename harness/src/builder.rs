//! Histories over builders and the buffers they freeze into (C04).
use crate::gen::*;
use bytedata::{ByteData, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData};
use bytes::BufMut;
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};
use std::borrow::Borrow;
use std::fmt::Write as _;
use std::io::Write as _;

pub const BUILDER: Module = Module {
    name: "builder",
    rule: "a case is a history of up to 40 operations over up to 3 SharedBytesBuilder values and up to 5 frozen SharedBytes handles (creation with capacity/alignment (also invalid and huge alignments), appends through every append interface, reserve, either with a reallocation which fails at first, clear, truncate, in-place edits, apply_unfilled, its async form, apply_borrowed_buf, BufMut and io::Write calls, freezing, thawing moved and shared handles), each with a vector model, the alignment requested and, for frozen handles, the data address. Non-trivial: at least 5 operations on builders, one of which grew a non-empty builder or thawed a handle.",
    run,
    guided: true,
    balance: true,
};
pub const STRBUILDER: Module = Module {
    name: "strbuilder",
    rule: "a case is a history of up to 30 operations on a SharedStrBuilder (push, push_str, reserve, clear, truncate at any position, formatted writes, appends whose reallocation fails at first, conversion to and from SharedBytesBuilder, StringData, &str) with a String model. Non-trivial: at least 4 operations and a content with a multi-byte character.",
    run: run_str,
    guided: true,
    balance: true,
};

struct Bld {
    b: SharedBytesBuilder,
    m: Vec<u8>,
    align: usize,
    /// capacity made available by reserve or the constructor, and the address it must stay at while it suffices
    room: usize,
}
struct Frz {
    v: SharedBytes,
    m: Vec<u8>,
    at: usize,
    align: usize,
    /// starts at the start of the buffer
    whole: bool,
}
fn check(cx: &mut Ctx, e: &Bld) {
    let (b, m) = (&e.b, &e.m[..]);
    let s = b.as_slice();
    ck!(cx, Content, s == m, "the builder holds {:?}, must hold {:?}", Sh(s), Sh(m));
    ck!(cx, Content, b.len() == m.len(), "len is {}, must be {}", b.len(), m.len());
    ck!(cx, Content, b.is_empty() == m.is_empty(), "is_empty is {} with {} bytes", b.is_empty(), m.len());
    ck!(cx, Content, b.capacity() >= m.len(), "capacity {} is below the length {}", b.capacity(), m.len());
    ck!(cx, Content, b.capacity() >= e.room, "capacity {} is below the {} bytes asked for", b.capacity(), e.room);
    if !m.is_empty() {
        ck!(cx, Content, s.as_ptr() as usize % e.align == 0, "the data is at {:x}, not aligned to {}", s.as_ptr() as usize & 0xffff, e.align);
    }
}
fn check_frz(cx: &mut Ctx, e: &Frz) {
    ck!(cx, Alias, e.v.as_slice() == &e.m[..], "a frozen handle holds {:?}, must hold {:?}", Sh(e.v.as_slice()), Sh(&e.m));
    ck!(cx, Content, e.v.len() == e.m.len() && e.v.is_empty() == e.m.is_empty(), "len of a frozen handle is {}, must be {}", e.v.len(), e.m.len());
    if !e.m.is_empty() {
        ck!(cx, Alias, e.v.as_slice().as_ptr() as usize == e.at, "the data of a frozen handle moved");
        ck!(cx, Content, !e.whole || e.at % e.align == 0, "frozen data at {:x} is not aligned to {}", e.at & 0xffff, e.align);
    }
}
fn frz(v: SharedBytes, m: Vec<u8>, align: usize) -> Frz {
    Frz { at: v.as_slice().as_ptr() as usize, v, m, align, whole: true }
}
/// Bytes to append.
fn ext(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[2, 10, 6, 3, 1]) {
        0 => 0,
        1 => s.range(1, 12),
        2 => s.usize(60),
        3 => s.usize(600),
        _ => {
            if s.ratio(1, 30) {
                gen_len_big(s)
            } else if s.ratio(1, 6) {
                *s.pick(&[32_750, 32_756, 32_768, 65_536, 98_304, 32_767])
            } else {
                s.usize(5000)
            }
        }
    };
    gen_bytes_n(s, n)
}
fn new_builder(s: &mut Src, cx: &mut Ctx) -> Bld {
    let cap = match s.weighted(&[3, 5, 3, 1]) {
        0 => 0,
        1 => s.usize(40),
        2 => s.usize(600),
        _ => *s.pick(&[32_752, 32_756, 32_768, 65_536, 65_524]),
    };
    match s.weighted(&[3, 4, 3, 4, 1, 1, 1]) {
        0 => {
            note!(cx, "new builder");
            Bld { b: SharedBytesBuilder::new(), m: Vec::new(), align: 4, room: 0 }
        }
        1 => {
            note!(cx, "new builder with_capacity({cap})");
            Bld { b: SharedBytesBuilder::with_capacity(cap), m: Vec::new(), align: 4, room: cap }
        }
        2 => {
            let a = 1 << s.usize(10);
            note!(cx, "new builder with_alignment({a})");
            Bld { b: SharedBytesBuilder::with_alignment(a), m: Vec::new(), align: a, room: 0 }
        }
        3 => {
            let a = 1 << s.usize(10);
            note!(cx, "new builder with_aligned_capacity({cap}, {a})");
            Bld { b: SharedBytesBuilder::with_aligned_capacity(cap, a), m: Vec::new(), align: a, room: cap }
        }
        4 => {
            note!(cx, "new builder by default");
            Bld { b: SharedBytesBuilder::default(), m: Vec::new(), align: 4, room: 0 }
        }
        5 => {
            // requests that must be refused
            let a = *s.pick(&[3_usize, 6, 1000, 1024, 4096, 513, 100]);
            let c = *s.pick(&[0_usize, 1, 10, 1000, 0xFFFF_FFFF, 0x1_0000_0000, 0x1_0000_0010, usize::MAX, usize::MAX - 16]);
            note!(cx, "refused requests: alignment {a}, capacity {c}");
            let r = cx.catch(|| SharedBytesBuilder::with_alignment(a).len());
            ck!(cx, Content, r.is_err(), "with_alignment({a}) does not panic");
            let r = cx.catch(|| SharedBytesBuilder::with_aligned_capacity(c, a).len());
            ck!(cx, Content, r.is_err(), "with_aligned_capacity({c}, {a}) does not panic");
            if c > 0xFFFF_FFF3 {
                let r = cx.catch(|| SharedBytesBuilder::with_capacity(c).len());
                ck!(cx, Content, r.is_err(), "with_capacity({c}) does not panic");
            }
            Bld { b: SharedBytesBuilder::new(), m: Vec::new(), align: 4, room: 0 }
        }
        _ => {
            note!(cx, "SharedBytes::builder()");
            Bld { b: SharedBytes::builder(), m: Vec::new(), align: 4, room: 0 }
        }
    }
}

pub fn run(s: &mut Src, cx: &mut Ctx) {
    let mut bs: Vec<Bld> = Vec::new();
    let mut fs: Vec<Frz> = Vec::new();
    let steps = s.range(2, 40);
    let mut worked = 0;
    let mut grew = false;
    for _ in 0..steps {
        if s.exhausted() {
            break;
        }
        if bs.is_empty() || (bs.len() < 3 && s.ratio(1, 10)) {
            let b = new_builder(s, cx);
            bs.push(b);
        } else if s.ratio(1, 6) && !fs.is_empty() {
            frozen_step(s, cx, &mut bs, &mut fs, &mut grew);
        } else {
            worked += 1;
            step(s, cx, &mut bs, &mut fs, &mut grew);
        }
        for b in &bs {
            check(cx, b);
        }
        for f in &fs {
            check_frz(cx, f);
        }
    }
    if worked >= 5 && grew {
        cx.nontrivial();
    }
}

/// Alignments which are none, or which no allocator gives.
fn gen_align_odd(s: &mut Src) -> usize {
    match s.usize(4) {
        0 => s.usize(40),
        1 => 1 << s.range(10, 16),
        2 => (1 << s.range(32, 35)) + *s.pick(&[0, 0, 4]),
        _ => *s.pick(&[1 << 63, usize::MAX, (1 << 63) + 1, (1 << 16) + 1, 1000]),
    }
}

#[inline(never)]
fn frozen_step(s: &mut Src, cx: &mut Ctx, bs: &mut Vec<Bld>, fs: &mut Vec<Frz>, grew: &mut bool) {
    let i = s.usize(fs.len());
    match s.weighted(&[3, 3, 4, 1, 2, 2]) {
        0 => {
            note!(cx, "<{i}> clone");
            let f = &fs[i];
            let n = Frz { v: f.v.clone(), m: f.m.clone(), at: f.at, align: f.align, whole: f.whole };
            fs.push(n);
        }
        1 => {
            let f = &fs[i];
            let a = gen_pos_in(s, f.m.len());
            let l = gen_pos_in(s, f.m.len() - a);
            note!(cx, "<{i}> slice {a}+{l}");
            let n = Frz { v: f.v.sliced(a, l), m: f.m[a..a + l].to_vec(), at: f.at + a, align: f.align, whole: a == 0 && f.whole };
            fs.push(n);
        }
        2 => {
            let moved = s.bool();
            note!(cx, "<{i}> thaw {}", if moved { "moved" } else { "a clone" });
            let f = &fs[i];
            let (m, align) = (f.m.clone(), if f.whole && !f.m.is_empty() { f.align } else { 4 });
            let v = if moved { fs.swap_remove(i).v } else { f.v.clone() };
            let b = SharedBytesBuilder::from(v);
            *grew = true;
            if bs.len() >= 3 {
                bs.swap_remove(0);
            }
            bs.push(Bld { b, m, align, room: 0 });
        }
        3 => {
            let c = gen_bytes_small(s);
            let a = if s.ratio(1, 6) { gen_align_odd(s) } else { gen_align(s) };
            note!(cx, "frozen from_slice_aligned({:?}, {a})", Sh(&c));
            // any alignment is either rejected or gives a sound value; no alignment, and any reasonable one, is not rejected
            match cx.catch(|| SharedBytes::from_slice_aligned(&c, a)) {
                Ok(v) => {
                    ck!(cx, Content, v.as_slice() == c, "from_slice_aligned({:?}, {a}) holds {:?}", Sh(&c), Sh(v.as_slice()));
                    ck!(cx, Content, v.is_unique(), "from_slice_aligned({:?}, {a}) is not unique", Sh(&c));
                    fs.push(frz(v, c, if a.is_power_of_two() { a } else { 1 }));
                }
                Err(p) => ck!(cx, Content, a > 4 && (!a.is_power_of_two() || a > 1 << 20), "from_slice_aligned({:?}, {a}) panics: {p}", Sh(&c)),
            }
        }
        4 => {
            note!(cx, "<{i}> drop");
            fs.swap_remove(i);
        }
        _ => {
            // unique exactly when no other handle views the same buffer
            let f = &fs[i];
            if !f.m.is_empty() {
                let c = f.v.clone();
                ck!(cx, Content, !c.is_unique() && !f.v.is_unique(), "is_unique with two handles");
            }
        }
    }
    if fs.len() > 5 {
        let k = s.usize(fs.len());
        fs.swap_remove(k);
    }
}

/// Polls a future which is ready after a few polls.
fn block<F: core::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = std::task::Waker::noop();
    let mut cx = std::task::Context::from_waker(w);
    loop {
        if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
}
struct Later(u8);
impl core::future::Future for Later {
    type Output = ();
    fn poll(mut self: core::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 == 0 {
            return std::task::Poll::Ready(());
        }
        self.0 -= 1;
        std::task::Poll::Pending
    }
}

#[inline(never)]
fn step(s: &mut Src, cx: &mut Ctx, bs: &mut Vec<Bld>, fs: &mut Vec<Frz>, grew: &mut bool) {
    let i = s.usize(bs.len());
    let e = &mut bs[i];
    let cap0 = e.b.capacity();
    match s.weighted(&[8, 3, 4, 2, 2, 4, 3, 3, 2, 2, 3, 2, 2, 4, 2]) {
        0 => {
            let x = ext(s);
            let refuse = s.ratio(1, 6);
            note!(cx, "[{i}] extend_from_slice {:?}{}", Sh(&x), if refuse { ", the buffer cannot be reallocated" } else { "" });
            let g = refuse.then(|| covrt::refuse_reallocs(1));
            e.b.extend_from_slice(&x);
            drop(g);
            e.m.extend_from_slice(&x);
        }
        1 => {
            let x = if s.bool() { gen_bytes_small(s) } else { gen_text_small(s).into_bytes() };
            let k = s.usize(6);
            note!(cx, "[{i}] Extend #{k} {:?}", Sh(&x));
            match (k, core::str::from_utf8(&x)) {
                (0, _) => e.b.extend(gen_hinted(s, x.iter().copied())),
                (1, _) => e.b.extend(gen_hinted(s, x.iter())),
                (2, _) => e.b.extend(gen_hinted(s, x.chunks(3))),
                (3, Ok(t)) => e.b.extend(t.split_inclusive('a')),
                (4, Ok(t)) => ck!(cx, Content, e.b.write_str(t).is_ok(), "write_str fails"),
                (_, Ok(t)) => ck!(cx, Content, core::fmt::Write::write_fmt(&mut e.b, format_args!("{t}")).is_ok(), "write! fails"),
                _ => e.b.extend([&x[..], &[], &[]]),
            }
            e.m.extend_from_slice(&x);
        }
        2 => {
            let n = match s.weighted(&[6, 3, 1, 1]) {
                0 => s.usize(100),
                1 => s.usize(3000),
                2 => *s.pick(&[32_768, 32_756, 65_536, 40_000, 1 << 20, (1 << 20) - 12, 3 << 20]),
                _ => *s.pick(&[0xFFFF_FFFF, 0x1_0000_0000, 0x1_0000_0001, usize::MAX, usize::MAX - 12, usize::MAX - 4096, 0x2_0000_0000]),
            };
            let refuse = s.ratio(1, 6) && n < 1 << 20;
            note!(cx, "[{i}] reserve {n}{}", if refuse { ", the buffer cannot be reallocated" } else { "" });
            let b = &mut e.b;
            match cx.catch(|| {
                let _g = refuse.then(|| covrt::refuse_reallocs(1));
                b.reserve(n)
            }) {
                Ok(()) => {
                    ck!(cx, Content, n <= 0xFFFF_FFFF && e.b.capacity() - e.b.len() >= n, "reserve({n}) leaves room for {} bytes", e.b.capacity() - e.b.len());
                    e.room = e.room.max(e.m.len() + n);
                }
                Err(p) => ck!(cx, Panic, n > 0xFFFF_FF00, "reserve({n}) panics: {p}"),
            }
        }
        3 => {
            note!(cx, "[{i}] clear");
            e.b.clear();
            e.m.clear();
            ck!(cx, Content, e.b.capacity() == cap0, "clear changes the capacity from {cap0} to {}", e.b.capacity());
        }
        4 => {
            let k = gen_pos(s, e.m.len());
            note!(cx, "[{i}] truncate {k}");
            e.b.truncate(k);
            e.m.truncate(k);
            ck!(cx, Content, e.b.capacity() == cap0, "truncate changes the capacity from {cap0} to {}", e.b.capacity());
        }
        5 => {
            note!(cx, "[{i}] edit in place");
            let x = s.below(256) as u8;
            let st = 1 + s.usize(5);
            let way = s.usize(3);
            let d: &mut [u8] = match way {
                0 => e.b.as_slice_mut(),
                1 => e.b.as_mut(),
                _ => &mut e.b,
            };
            ck!(cx, Content, d.len() == e.m.len(), "the mutable slice has {} bytes instead of {}", d.len(), e.m.len());
            for (k, b) in d.iter_mut().enumerate().step_by(st) {
                *b ^= x.wrapping_add(k as u8);
            }
            for (k, b) in e.m.iter_mut().enumerate().step_by(st) {
                *b ^= x.wrapping_add(k as u8);
            }
            let r: &[u8] = e.b.as_ref();
            ck!(cx, Content, r == &e.m[..] && e.b[..] == e.m[..], "AsRef or Deref gives other bytes");
        }
        6 => {
            let n = s.usize(40);
            let over = s.ratio(1, 8);
            let seed = s.below(256);
            note!(cx, "[{i}] apply_unfilled {n} bytes{}", if over { ", reporting too many" } else { "" });
            let free = cap0 - e.m.len();
            let x = fill(2, seed, n.min(free));
            let mut seen = usize::MAX;
            let b = &mut e.b;
            let r = cx.catch(|| {
                b.apply_unfilled(|d| {
                    seen = d.len();
                    for (d, x) in d.iter_mut().zip(&x) {
                        d.write(*x);
                    }
                    (seed, if over { d.len() + 1 + seed as usize } else { x.len().min(d.len()) })
                })
            });
            ck!(cx, Content, seen == free, "apply_unfilled gives {seen} bytes, the free capacity is {free}");
            match r {
                Ok(v) => {
                    ck!(cx, Content, !over, "apply_unfilled accepts more bytes than there are");
                    ck!(cx, Content, v == seed, "apply_unfilled returns another value");
                    e.m.extend_from_slice(&x);
                }
                Err(p) => ck!(cx, Panic, over, "apply_unfilled panics: {p}"),
            }
        }
        7 => {
            let n = s.usize(40);
            let over = s.ratio(1, 8);
            let polls = s.usize(3) as u8;
            let abandon = s.ratio(1, 6);
            let seed = s.below(256);
            note!(cx, "[{i}] apply_unfilled_async {n} bytes");
            let free = cap0 - e.m.len();
            let x = fill(2, seed, n.min(free));
            let b = &mut e.b;
            let xs = &x[..];
            if abandon {
                // the future is dropped before it is done: nothing is added
                let mut f = Box::pin(b.apply_unfilled_async(|d| async move {
                    let d = core::pin::Pin::into_inner(d);
                    for (d, x) in d.iter_mut().zip(xs) {
                        d.write(*x);
                    }
                    Later(3).await;
                    ((), xs.len())
                }));
                let w = std::task::Waker::noop();
                let r = f.as_mut().poll(&mut std::task::Context::from_waker(w));
                ck!(cx, Content, r.is_pending(), "the future is ready too early");
                use core::future::Future;
                drop(f);
            } else {
                let r = cx.catch(|| {
                    block(b.apply_unfilled_async(|d| async move {
                        let seen = d.len();
                        let d = core::pin::Pin::into_inner(d);
                        for (d, x) in d.iter_mut().zip(xs) {
                            d.write(*x);
                        }
                        Later(polls).await;
                        (seen, if over { seen + 1 } else { xs.len() })
                    }))
                });
                match r {
                    Ok(v) => {
                        ck!(cx, Content, !over, "apply_unfilled_async accepts more bytes than there are");
                        ck!(cx, Content, v == free, "apply_unfilled_async gives {v} bytes, the free capacity is {free}");
                        e.m.extend_from_slice(&x);
                    }
                    Err(p) => ck!(cx, Panic, over, "apply_unfilled_async panics: {p}"),
                }
            }
        }
        8 => {
            let n = s.usize(40);
            let seed = s.below(256);
            let undo = s.ratio(1, 4);
            note!(cx, "[{i}] apply_borrowed_buf {n} bytes{}", if undo { " after clearing others" } else { "" });
            let free = cap0 - e.m.len();
            let x = fill(2, seed, n.min(free));
            // the toolchain with Miri has another BorrowedBuf
            #[cfg(miri)]
            let seen = {
                let _ = undo;
                e.b.extend_from_slice(&x);
                free
            };
            #[cfg(not(miri))]
            let seen = e.b.apply_borrowed_buf(|bb| {
                let c = bb.capacity();
                if undo {
                    bb.unfilled().append(&vec![b'!'; c.min(7)]);
                    bb.clear();
                }
                bb.unfilled().append(&x);
                c
            });
            ck!(cx, Content, seen == free, "apply_borrowed_buf gives {seen} bytes, the free capacity is {free}");
            e.m.extend_from_slice(&x);
        }
        9 => {
            let x = ext(s);
            let k = s.usize(3);
            note!(cx, "[{i}] io::Write #{k} {:?}", Sh(&x));
            match k {
                0 => {
                    let r = std::io::Write::write(&mut e.b, &x);
                    ck!(cx, Content, matches!(r, Ok(n) if n == x.len()), "write of {} bytes returns {r:?}", x.len());
                    e.m.extend_from_slice(&x);
                }
                1 => {
                    ck!(cx, Content, e.b.write_all(&x).is_ok() && e.b.flush().is_ok(), "write_all fails");
                    e.m.extend_from_slice(&x);
                }
                _ => {
                    let h = x.len() / 3;
                    let sl = [std::io::IoSlice::new(&x[..h]), std::io::IoSlice::new(&[]), std::io::IoSlice::new(&x[h..])];
                    let r = e.b.write_vectored(&sl);
                    match r {
                        Ok(n) => {
                            ck!(cx, Content, n <= x.len() && (n > 0 || x.is_empty()), "write_vectored of {} bytes returns {n}", x.len());
                            e.m.extend_from_slice(&x[..n]);
                        }
                        Err(_) => ck!(cx, Content, false, "write_vectored fails"),
                    }
                }
            }
        }
        10 => {
            let x = ext(s);
            let k = s.usize(6);
            note!(cx, "[{i}] BufMut #{k} {:?}", Sh(&x));
            let rem = e.b.remaining_mut();
            ck!(cx, Content, rem <= 0xFFFF_FFFF - e.m.len() && rem >= 0xFFFE_FFFF - e.m.len(), "remaining_mut is {rem} with {} bytes", e.m.len());
            match k {
                0 => e.b.put_slice(&x),
                1 => e.b.put(&x[..]),
                2 => e.b.put(bytes::Buf::chain(&x[..x.len() / 2], &x[x.len() / 2..])),
                3 => {
                    e.b.put_bytes(7, x.len());
                    e.m.resize(e.m.len() + x.len(), 7);
                }
                4 => {
                    e.b.put_u16(0x1234);
                    e.b.put_u64_le(0x0102_0304_0506_0708);
                    e.b.put_i8(-1);
                    e.m.extend_from_slice(&[0x12, 0x34, 8, 7, 6, 5, 4, 3, 2, 1, 255]);
                }
                _ => {
                    // through the raw interface, until everything is written
                    let mut left = &x[..];
                    let mut rounds = 0;
                    while !left.is_empty() {
                        let d = e.b.chunk_mut();
                        let n = d.len().min(left.len());
                        ck!(cx, Content, n > 0, "chunk_mut is empty although there is room");
                        d[..n].copy_from_slice(&left[..n]);
                        unsafe { e.b.advance_mut(n) };
                        left = &left[n..];
                        rounds += 1;
                        ck!(cx, Content, rounds < 200_000, "chunk_mut does not come to an end");
                    }
                }
            }
            if !(3..=4).contains(&k) {
                e.m.extend_from_slice(&x);
            }
        }
        11 => {
            let mut e = bs.swap_remove(i);
            let k = s.usize(3);
            note!(cx, "[{i}] freeze #{k}");
            let at = e.b.as_slice().as_ptr() as usize;
            let v = match k {
                0 => e.b.build(),
                1 => SharedBytes::from(e.b),
                _ => {
                    let bd = ByteData::from(e.b);
                    ck!(cx, Content, bd.as_slice() == &e.m[..], "ByteData from a builder holds {:?}, must hold {:?}", Sh(bd.as_slice()), Sh(&e.m));
                    let v = SharedBytes::from(bd);
                    if e.m.len() <= 14 {
                        e.align = 4;
                        fs.push(frz(v, e.m, 4));
                        return;
                    }
                    v
                }
            };
            ck!(cx, Alias, e.m.is_empty() || v.as_slice().as_ptr() as usize == at, "freezing moves the data");
            ck!(cx, Content, v.is_unique() || e.m.is_empty(), "a freshly frozen buffer is not unique");
            fs.push(frz(v, e.m, e.align));
            if fs.len() > 5 {
                let k = s.usize(fs.len());
                fs.swap_remove(k);
            }
            return;
        }
        12 => {
            note!(cx, "[{i}] drop");
            bs.swap_remove(i);
            return;
        }
        13 => {
            // appends up to the capacity do not move the data
            let free = e.b.capacity() - e.m.len();
            if e.m.is_empty() || free == 0 || free > 5000 {
                return;
            }
            let n = s.range(1, free);
            note!(cx, "[{i}] append {n} of {free} free bytes");
            let at = e.b.as_slice().as_ptr();
            let x = fill(2, n as u64, n);
            e.b.extend_from_slice(&x);
            e.m.extend_from_slice(&x);
            ck!(cx, Content, e.b.as_slice().as_ptr() == at && e.b.capacity() == cap0, "an append within the capacity reallocates");
        }
        _ => {
            note!(cx, "[{i}] as text");
            let old = core::mem::take(&mut e.b);
            match SharedStrBuilder::try_from(old) {
                Ok(t) => {
                    ck!(cx, Utf8, core::str::from_utf8(&e.m).is_ok(), "SharedStrBuilder accepts {:?}", Sh(&e.m));
                    ck!(cx, Content, t.as_bytes() == &e.m[..], "SharedStrBuilder from a builder holds {:?}", Sh(t.as_bytes()));
                    e.b = t.into();
                }
                Err(u) => {
                    let w = core::str::from_utf8(&e.m);
                    ck!(cx, Utf8, w == Err(u), "SharedStrBuilder reports {u:?} for {:?}, must be {w:?}", Sh(&e.m));
                    bs.swap_remove(i);
                    return;
                }
            }
        }
    }
    if bs[i].b.capacity() > cap0 && cap0 > 0 {
        *grew = true;
    }
    // keep the cost bounded
    if bs[i].m.len() > 300_000 {
        bs.swap_remove(i);
    }
}

pub fn run_str(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let mut m = String::new();
    let mut b = match s.usize(5) {
        0 => SharedStrBuilder::new(),
        1 => SharedStrBuilder::default(),
        2 => SharedStrBuilder::with_capacity(s.usize(100)),
        3 => {
            m = gen_text_small(s);
            SharedStrBuilder::from(&m[..])
        }
        _ => {
            m = gen_text_small(s);
            let Ok(b) = m.parse::<SharedStrBuilder>();
            b
        }
    };
    let steps = s.range(2, 30);
    let (mut worked, mut multi) = (0, false);
    for _ in 0..steps {
        if s.exhausted() {
            break;
        }
        worked += 1;
        match s.weighted(&[6, 5, 2, 1, 5, 3, 3, 2, 2]) {
            0 => {
                let c = if s.bool() {
                    *s.pick(CHARS)
                } else {
                    char::from_u32(s.below(0x11_0000) as u32).unwrap_or('x')
                };
                note!(cx, "push {c:?}");
                b.push(c);
                m.push(c);
            }
            1 => {
                let t = gen_text_small(s);
                let refuse = s.ratio(1, 6);
                note!(cx, "push_str {t:?}{}", if refuse { ", the buffer cannot be reallocated" } else { "" });
                let g = refuse.then(|| covrt::refuse_reallocs(1));
                b.push_str(&t);
                drop(g);
                m.push_str(&t);
            }
            2 => {
                let n = s.usize(300);
                note!(cx, "reserve {n}");
                b.reserve(n);
                ck!(cx, Content, b.capacity() - b.len() >= n, "reserve({n}) leaves room for {}", b.capacity() - b.len());
            }
            3 => {
                note!(cx, "clear");
                b.clear();
                m.clear();
            }
            4 => {
                let k = gen_pos(s, m.len());
                note!(cx, "truncate {k}");
                let r = cx.catch(|| b.truncate(k));
                if k <= m.len() && !m.is_char_boundary(k) {
                    ck!(cx, Utf8, r.is_err(), "truncate({k}) within a character of {m:?} does not panic");
                } else {
                    ck!(cx, Panic, r.is_ok(), "truncate({k}) of {m:?} panics");
                    m.truncate(k);
                }
            }
            5 => {
                let t = gen_text_small(s);
                let n = s.below(1000);
                note!(cx, "write!");
                let r = write!(b, "{t:>5}|{n:04x}");
                ck!(cx, Content, r.is_ok(), "write! fails");
                write!(m, "{t:>5}|{n:04x}").unwrap();
            }
            6 => {
                let k = s.usize(5);
                note!(cx, "convert #{k}");
                let old = core::mem::take(&mut b);
                b = match k {
                    0 => {
                        let x = old.build_str();
                        ck!(cx, Content, x.as_str() == m, "build_str gives {:?}, must give {m:?}", x.as_str());
                        SharedStrBuilder::from(x)
                    }
                    1 => {
                        let x = StringData::from(old);
                        ck!(cx, Content, x.as_str() == m, "StringData from a builder is {:?}, must be {m:?}", x.as_str());
                        let keep = x.clone();
                        let mut n = SharedStrBuilder::from(x);
                        n.push_str("zz");
                        ck!(cx, Alias, keep.as_str() == m, "thawing a shared string changes another handle");
                        m.push_str("zz");
                        n
                    }
                    2 => {
                        let x = old.into_shared_bytes_builder();
                        match SharedStrBuilder::try_from(x) {
                            Ok(x) => x,
                            Err(e) => cx.fail(covrt::engine::Kind::Utf8, format!("SharedStrBuilder holds invalid text: {e:?}")),
                        }
                    }
                    3 => {
                        let x = if s.bool() { old.build() } else { SharedBytes::from(old) };
                        ck!(cx, Content, x.as_slice() == m.as_bytes(), "build gives {:?}, must give {m:?}", Sh(&x));
                        match SharedStrBuilder::try_from(SharedBytesBuilder::from(x)) {
                            Ok(x) => x,
                            Err(e) => cx.fail(covrt::engine::Kind::Utf8, format!("SharedStrBuilder holds invalid text: {e:?}")),
                        }
                    }
                    _ => {
                        let x = ByteData::from(old);
                        ck!(cx, Content, x.as_slice() == m.as_bytes(), "ByteData from a builder is {:?}, must be {m:?}", Sh(&x));
                        SharedStrBuilder::from(&m[..])
                    }
                };
            }
            7 => {
                let t = gen_text_small(s);
                let (v, _) = gen_sd(s, cx, &ar, &t);
                note!(cx, "replaced by a builder from StringData {t:?}");
                let keep = v.clone();
                b = SharedStrBuilder::from(v);
                m = t;
                b.push('€');
                m.push('€');
                ck!(cx, Alias, keep.as_str() == &m[..m.len() - 3], "thawing a string changes another handle");
            }
            _ => {
                let bytes = gen_bytes_small(s);
                let mut x = SharedBytesBuilder::new();
                x.extend_from_slice(&bytes);
                let r = SharedStrBuilder::try_from(x);
                match (r, core::str::from_utf8(&bytes)) {
                    (Ok(x), Ok(t)) => ck!(cx, Content, x.as_str() == t, "try_from gives {:?}", x.as_str()),
                    (Err(a), Err(w)) => ck!(cx, Utf8, a == w, "try_from reports {a:?}, must be {w:?}"),
                    (r, _) => ck!(cx, Utf8, false, "try_from of {:?} is {}", Sh(&bytes), r.is_ok()),
                }
            }
        }
        ck!(cx, Utf8, core::str::from_utf8(b.as_bytes()).is_ok(), "the string builder holds invalid text {:?}", Sh(b.as_bytes()));
        ck!(cx, Content, b.as_bytes() == m.as_bytes(), "the string builder holds {:?}, must hold {m:?}", Sh(b.as_bytes()));
        ck!(cx, Content, b.as_str() == m, "as_str gives other text");
        ck!(cx, Content, b.len() == m.len() && b.is_empty() == m.is_empty() && b.capacity() >= b.len(), "len, is_empty or capacity of the string builder");
        let r: &str = b.borrow();
        ck!(cx, Content, r == m, "Borrow gives other text");
        multi |= m.len() != m.chars().count();
    }
    let d = format!("{b}");
    ck!(cx, Content, d == m, "Display gives {d:?}, must give {m:?}");
    let d = format!("{b:?}");
    let w = format!("SharedStrBuilder {{ len: {}, capacity: {}, as_str: {m:?} }}", m.len(), b.capacity());
    ck!(cx, Content, d == w, "Debug gives {d:?}, must give {w:?}");
    if worked >= 4 && multi {
        cx.nontrivial();
    }
}
