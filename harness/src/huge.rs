//! Values and queues longer than 2^32 bytes, over a region of memory which is mapped many times from one small file.
use crate::gen::*;
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, StringData, StringQueue};
use bytes::{Buf, BufMut, Bytes};
use core::ffi::c_void;
use core::ops::Range;
use covrt::engine::{mix, Ctx, Module, Src};
use covrt::{ck, note};
use std::future::Future;
use std::io::{BufRead, Read, Write};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};
use std::sync::Arc;

pub const HUGEVAL: Module = Module {
    name: "hugeval",
    rule: "a case is a pool of static, borrowed and external values of lengths around 2^31, 2^32 and 2^33 (and some short ones) over a mapped region whose content is a function of the position, and a history of up to 14 steps: slicing in place, into a new value and by split_at, take_bytes and ranges, cloning, sharing short ranges, StringData round trips, prefixes and suffixes, and requests to copy more than a shared buffer can hold, which must be refused. After every step each handle has its modelled length, start and content at both ends and in the middle; owners are dropped once and not before their last handle. Non-trivial: at least 3 steps on values longer than 2^32 bytes.",
    run: run_val,
    guided: true,
    balance: true,
};
pub const HUGEQUEUE: Module = Module {
    name: "hugequeue",
    rule: "a case is a ByteQueue or StringQueue of chunks which are together up to 2^36 bytes long, and a history of up to 14 steps: pushing, popping, consume, slice, split_off, drain (unread, or read at a few positions), append, replace_range, exists_at, starts_with, ends_with, find_slice_after close to the match, and byte iterators stepped by nth, skip and take; the model is the list of chunks. After every step length, chunk count, the position of each chunk and its ends are compared. Non-trivial: at least 3 steps on a queue longer than 2^32 bytes.",
    run: run_queue,
    guided: true,
    balance: true,
};
pub const HUGEIO: Module = Module {
    name: "hugeio",
    rule: "a case is a ByteData or ByteQueue of up to 2^36 bytes, or a SharedBytesBuilder, and a history of up to 10 calls of Read and BufRead into small buffers, consume of any amount, or Write of more than a builder can hold; the model is a cursor. Non-trivial: at least 2 calls on more than 2^32 bytes.",
    run: run_io,
    guided: true,
    balance: true,
};
pub const HUGEBUF: Module = Module {
    name: "hugebuf",
    rule: "a case is a ByteData or ByteQueue of up to 2^36 bytes as a Buf or http body, or a SharedBytesBuilder as a BufMut, and a history of up to 10 calls (remaining, advance within and beyond the end, chunk, copy_to_bytes, copy_to_slice, get_*, take, chain, size hints, puts of more than the builder can hold), or a Bytes of that length converted to ByteData and back. Non-trivial: at least 2 calls on more than 2^32 bytes.",
    run: run_buf,
    guided: true,
    balance: true,
};

pub const HUGELIMIT: Module = Module {
    name: "hugelimit",
    rule: "a case is a SharedBytesBuilder with any alignment whose buffer, of lazily mapped memory, is up to the limit of 2^32 bytes, and a history of up to 12 steps: reserving, filling any part of the spare capacity (apply_unfilled, its async form, chunk_mut with advance_mut), appending in every way, truncating, clearing, and requests beyond the limit, which must be refused without effect; then freezing it and up to 8 steps on SharedBytes, ByteData and Bytes of it: slicing in all ways, splitting, cloning, thawing. The model is the length and the fragments which were written. Non-trivial: the builder held at least 2^31 bytes.",
    run: run_limit,
    guided: true,
    balance: true,
};

// ------------------------------------------------------------------ the region
extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn memfd_create(name: *const core::ffi::c_char, flags: u32) -> i32;
    fn close(fd: i32) -> i32;
    fn ftruncate(fd: i32, n: i64) -> i32;
}
const LEN: usize = 12 << 30;
/// an odd number of pages, so that positions which differ by a power of two have different content
const PERIOD: usize = 1021 * 4096;
static BASE: AtomicUsize = AtomicUsize::new(0);
fn base() -> usize {
    BASE.load(Ordering::Relaxed)
}
/// Maps the region; false where the system refuses (then the case says so and ends).
fn ready(cx: &mut Ctx) -> bool {
    if base() == 0 {
        BASE.store(map().unwrap_or(1), Ordering::Relaxed);
    }
    if base() == 1 {
        note!(cx, "the system does not map the region");
    }
    base() != 1
}
#[inline(never)]
fn map() -> Option<usize> {
    unsafe {
        let fd = memfd_create(c"huge".as_ptr(), 0);
        if fd < 0 || ftruncate(fd, PERIOD as i64) != 0 {
            return None;
        }
        let w = mmap(core::ptr::null_mut(), PERIOD, 3, 1, fd, 0).cast::<u8>();
        if w as isize == -1 {
            return None;
        }
        for i in 0..PERIOD {
            *w.add(i) = (mix(i as u64) % 95) as u8 + 32;
        }
        // reserve, then map the file again and again: PROT_READ, MAP_SHARED | MAP_FIXED
        let r = mmap(core::ptr::null_mut(), LEN, 0, 0x4022, -1, 0);
        if r as isize == -1 {
            return None;
        }
        let mut o = 0;
        while o < LEN {
            let n = PERIOD.min(LEN - o);
            let p = mmap(r.cast::<u8>().add(o).cast(), n, 1, 0x11, fd, 0);
            if p as isize == -1 {
                return None;
            }
            o += n;
        }
        close(fd);
        Some(r as usize)
    }
}
fn region(off: usize, len: usize) -> &'static [u8] {
    assert!(off + len <= LEN);
    unsafe { core::slice::from_raw_parts((base() as *const u8).add(off), len) }
}
const G4: usize = 1 << 32;
fn gen_hlen(s: &mut Src) -> usize {
    match s.weighted(&[6, 2, 2, 3, 3, 1]) {
        0 => G4 - 20 + s.usize(40),
        1 => (1 << 31) - 20 + s.usize(40),
        2 => 2 * G4 - 20 + s.usize(40),
        3 => s.below(LEN as u64 / 2) as usize,
        4 => s.usize(60),
        _ => s.usize(100_000),
    }
}
fn gen_part(s: &mut Src) -> (usize, usize) {
    let len = gen_hlen(s);
    let off = if s.ratio(1, 4) { 0 } else { s.below((LEN - len) as u64) as usize };
    (off, len)
}
/// A position in `0..=n`, often at the ends or around a power of two.
fn gen_hpos(s: &mut Src, n: usize) -> usize {
    let p = match s.weighted(&[4, 2, 2, 1, 4, 2, 2, 1]) {
        0 => s.below(n as u64 + 1) as usize,
        1 => s.usize(40),
        2 => n.saturating_sub(s.usize(40)),
        3 => 0,
        4 => G4 - 8 + s.usize(16),
        5 => 2 * G4 - 8 + s.usize(16),
        6 => (1 << 31) - 8 + s.usize(16),
        _ => n,
    };
    p.min(n)
}
fn gen_hrange(s: &mut Src, n: usize) -> (usize, usize) {
    let (a, b) = (gen_hpos(s, n), gen_hpos(s, n));
    (a.min(b), a.max(b))
}
/// Content and position of a slice which must be the region from `off`.
#[inline(never)]
fn check_at(cx: &mut Ctx, what: &str, x: &[u8], off: usize, len: usize) {
    ck!(cx, Content, x.len() == len, "{what} has {} bytes, must have {len}", x.len());
    let r = region(off, len);
    let h = len.min(40);
    ck!(cx, Content, x[..h] == r[..h], "{what} starts with other bytes");
    ck!(cx, Content, x[len - h..] == r[len - h..], "{what} ends with other bytes");
    ck!(cx, Content, x.get(len / 2) == r.get(len / 2), "{what} has another byte in the middle");
}
fn placed(cx: &mut Ctx, what: &str, x: &[u8], off: usize) {
    if x.len() > 100 {
        ck!(cx, Alias, x.as_ptr() as usize == base() + off, "{what} ({} bytes) does not view the original memory", x.len());
    }
}
struct Owner {
    off: usize,
    len: usize,
    drops: Arc<AtomicU32>,
}
impl Drop for Owner {
    fn drop(&mut self) {
        self.drops.fetch_add(1, Ordering::Relaxed);
    }
}
impl bytedata::external::ExternalBytes for Owner {
    const OPS: bytedata::external::ExternalOps<Self> = bytedata::external::ExternalOps::new(|x: &Self| region(x.off, x.len));
}
impl AsRef<[u8]> for Owner {
    fn as_ref(&self) -> &[u8] {
        region(self.off, self.len)
    }
}
#[derive(Clone, Copy, PartialEq, Eq)]
enum How {
    Static,
    Borrowed,
    External(usize),
    /// a copy
    Small,
}
struct H {
    d: ByteData<'static>,
    off: usize,
    len: usize,
    how: How,
}
#[derive(Default)]
struct Owners(Vec<Arc<AtomicU32>>);
impl Owners {
    fn gen(&mut self, s: &mut Src, cx: &mut Ctx) -> H {
        let (off, len) = gen_part(s);
        let (d, how) = match s.usize(3) {
            0 => (ByteData::from_static(region(off, len)), How::Static),
            1 => (ByteData::from_borrowed(region(off, len)), How::Borrowed),
            _ => {
                let drops = Arc::new(AtomicU32::new(0));
                self.0.push(drops.clone());
                (ByteData::from_external(Owner { off, len, drops }), How::External(self.0.len() - 1))
            }
        };
        note!(cx, "a {} value at {off:#x} of {len:#x} bytes", ["static", "borrowed", "external"][match how { How::Static => 0, How::Borrowed => 1, _ => 2 }]);
        H { d, off, len, how }
    }
}

// ------------------------------------------------------------------ values
macro_rules! ranged {
    ($s:expr, $n:expr, $a:expr, $b:expr, $f:expr) => {{
        let (a, b): (usize, usize) = ($a, $b);
        match $s.usize(5) {
            0 if a == 0 => $f(..b),
            1 if b == $n => $f(a..),
            2 if b > a => $f(a..=b - 1),
            3 if a == 0 && b > 0 => $f(..=b - 1),
            _ => $f(a..b),
        }
    }};
}
fn run_val(s: &mut Src, cx: &mut Ctx) {
    if !ready(cx) {
        return;
    }
    let mut ow = Owners::default();
    let mut hs: Vec<H> = Vec::new();
    let mut big = 0;
    for _ in 0..s.range(2, 14) {
        if s.exhausted() {
            break;
        }
        if hs.is_empty() || s.ratio(1, 6) {
            let h = ow.gen(s, cx);
            hs.push(h);
        } else {
            let i = s.usize(hs.len());
            big += usize::from(hs[i].len > 0xFFFF_FFFF);
            step_val(s, cx, &mut hs, i);
        }
        if hs.len() > 6 {
            let k = s.usize(hs.len());
            hs.swap_remove(k);
        }
        for (k, h) in hs.iter().enumerate() {
            let what = "a value";
            check_at(cx, what, h.d.as_slice(), h.off, h.len);
            ck!(cx, Content, h.d.len() == h.len && h.d.is_empty() == (h.len == 0), "[{k}] len() is {}, must be {}", h.d.len(), h.len);
            if h.how != How::Small {
                placed(cx, what, h.d.as_slice(), h.off);
            }
        }
        for (k, o) in ow.0.iter().enumerate() {
            let used = hs.iter().any(|h| h.how == How::External(k) && h.len > 14);
            let n = o.load(Ordering::Relaxed);
            ck!(cx, Memory, n <= 1 && !(used && n == 1), "owner {k} was dropped {n} times, still used: {used}");
        }
    }
    drop(hs);
    for (k, o) in ow.0.iter().enumerate() {
        let n = o.load(Ordering::Relaxed);
        ck!(cx, Memory, n == 1, "owner {k} was dropped {n} times at the end");
    }
    if big >= 3 {
        cx.nontrivial();
    }
}
#[inline(never)]
fn step_val(s: &mut Src, cx: &mut Ctx, hs: &mut Vec<H>, i: usize) {
    let (off, n, how) = (hs[i].off, hs[i].len, hs[i].how);
    match s.weighted(&[4, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 1]) {
        0 => {
            let (a, b) = gen_hrange(s, n);
            note!(cx, "[{i}] sliced {a:#x}..{b:#x}");
            let d = ranged!(s, n, a, b, |r| call_sliced(&hs[i].d, r));
            hs.push(H { d, off: off + a, len: b - a, how });
        }
        1 => {
            let (a, b) = gen_hrange(s, n);
            note!(cx, "[{i}] into_sliced {a:#x}..{b:#x}");
            let h = hs.swap_remove(i);
            let d = ranged!(s, n, a, b, |r| call_into(h.d, r));
            hs.push(H { d, off: off + a, len: b - a, how });
        }
        2 => {
            let (a, b) = gen_hrange(s, n);
            note!(cx, "[{i}] make_sliced {a:#x}..{b:#x}");
            let h = &mut hs[i];
            ranged!(s, n, a, b, |r| call_make(&mut h.d, r));
            h.off = off + a;
            h.len = b - a;
        }
        3 => {
            let p = gen_hpos(s, n);
            note!(cx, "[{i}] take_bytes {p:#x}");
            let h = &mut hs[i];
            let d = h.d.take_bytes(p);
            h.off += p;
            h.len -= p;
            hs.push(H { d, off, len: p, how });
        }
        4 => {
            let p = gen_hpos(s, n);
            note!(cx, "[{i}] split_at {p:#x}");
            let h = hs.swap_remove(i);
            let (a, b) = h.d.split_at(p);
            hs.push(H { d: a, off, len: p, how });
            hs.push(H { d: b, off: off + p, len: n - p, how });
        }
        5 => {
            note!(cx, "[{i}] clone");
            let d = hs[i].d.clone();
            hs.push(H { d, off, len: n, how });
        }
        6 => {
            // a short range may be copied
            let a = gen_hpos(s, n);
            let b = (a + s.usize(300)).min(n);
            note!(cx, "[{i}] into_shared_range {a:#x}..{b:#x}");
            let d = hs[i].d.clone().into_shared_range(a..b);
            hs.push(H { d, off: off + a, len: b - a, how: if matches!(how, How::External(_)) { how } else { How::Small } });
        }
        7 => {
            // more than a shared buffer can hold must be shared as it is or refused, but never cut
            if n > 0xFFFF_FFFF || n < 1000 {
                let way = s.usize(7);
                note!(cx, "[{i}] copy to a shared buffer, way {way}");
                let x = hs[i].d.clone();
                let r = cx.catch(|| {
                    let d: ByteData<'static> = match way {
                        0 => x.into_shared(),
                        1 => x.into_shared_range(..),
                        2 => ByteData::from_shared(SharedBytes::from_slice(&x)),
                        3 => ByteData::from_shared(SharedBytes::from(x)),
                        4 => ByteData::from_concat(&[region(off, n), region(0, 20)]).into_sliced(..n),
                        5 => {
                            let mut b = SharedBytesBuilder::new();
                            b.extend_from_slice(&x);
                            b.into()
                        }
                        _ => ByteData::from_shared(SharedBytes::from_slice_aligned(&x, 64)),
                    };
                    d
                });
                match r {
                    Ok(d) => {
                        check_at(cx, "the shared copy", &d, off, n);
                        ck!(cx, Content, n < 1000 || way < 2, "{n} bytes in a shared buffer");
                    }
                    Err(p) => ck!(cx, Panic, deliberate(&p) && n > 0xFFFF_FF00 && !(way < 2 && how == How::Static), "copying {n} bytes panics: {p}"),
                }
            }
        }
        8 => {
            let p = gen_hpos(s, n);
            let m = s.usize(40).min(n - p);
            let bad = m > 0 && s.ratio(1, 3);
            let mut nd = region(off + n - m, m).to_vec();
            let mut st = region(off, m).to_vec();
            if bad {
                let k = s.usize(m);
                nd[k] ^= 1;
                st[k] ^= 1;
            }
            note!(cx, "[{i}] ends_with and starts_with {m} bytes");
            ck!(cx, Content, hs[i].d.ends_with(&nd) != bad, "ends_with is {bad}");
            ck!(cx, Content, hs[i].d.starts_with(&st) != bad, "starts_with is {bad}");
            ck!(cx, Content, p == n || hs[i].d[p] == region(off + p, 1)[0], "the byte at {p:#x} is wrong");
        }
        9 => {
            let (a, b) = gen_hrange(s, n);
            note!(cx, "[{i}] as a string, {a:#x}..{b:#x}");
            // SAFETY: the region is ASCII
            let t = unsafe { StringData::from_bytedata_unchecked(hs[i].d.clone()) };
            ck!(cx, Content, t.len() == n && t.as_str().len() == n, "the string has {} bytes", t.len());
            let u = match s.usize(4) {
                0 => t.sliced(a..b),
                1 => t.into_sliced(a..b),
                2 => {
                    let mut t = t;
                    t.make_sliced(a..b);
                    t
                }
                _ => {
                    let (x, _) = t.split_at(b);
                    x.split_at(a).1
                }
            };
            check_at(cx, "the part of a string", u.as_bytes(), off + a, b - a);
            hs.push(H { d: u.into_bytedata(), off: off + a, len: b - a, how });
        }
        10 => {
            // ranges outside must be refused or give nothing, and leave the value
            let x = n + 1 + s.usize(20);
            note!(cx, "[{i}] ranges up to {x:#x}");
            let r = cx.catch(|| hs[i].d.sliced(..x).len());
            ck!(cx, Content, r.is_err() || r == Ok(0), "sliced(..{x:#x}) of {n:#x} bytes gives {r:?}");
            let r = cx.catch(|| hs[i].d.sliced(x..x + G4).len());
            ck!(cx, Content, r.is_err() || r == Ok(0), "sliced beyond the end gives {r:?}");
        }
        _ => {
            note!(cx, "[{i}] drop");
            hs.swap_remove(i);
        }
    }
}
fn call_sliced<R: core::ops::RangeBounds<usize> + core::slice::SliceIndex<[u8], Output = [u8]>>(d: &ByteData<'static>, r: R) -> ByteData<'static> {
    d.sliced(r)
}
fn call_into<R: core::ops::RangeBounds<usize> + core::slice::SliceIndex<[u8], Output = [u8]>>(d: ByteData<'static>, r: R) -> ByteData<'static> {
    d.into_sliced(r)
}
fn call_make<R: core::ops::RangeBounds<usize> + core::slice::SliceIndex<[u8], Output = [u8]>>(d: &mut ByteData<'static>, r: R) {
    d.make_sliced(r);
}

// ------------------------------------------------------------------ queues
/// The model: parts of the region one after the other.
#[derive(Clone, Default)]
struct Rope(Vec<(usize, usize)>);
impl Rope {
    fn len(&self) -> usize {
        self.0.iter().map(|x| x.1).sum()
    }
    fn push_back(&mut self, off: usize, len: usize) {
        if len > 0 {
            self.0.push((off, len));
        }
    }
    fn push_front(&mut self, off: usize, len: usize) {
        if len > 0 {
            self.0.insert(0, (off, len));
        }
    }
    fn slice(&self, a: usize, b: usize) -> Rope {
        let mut p = 0;
        let mut r = Rope::default();
        for &(o, l) in &self.0 {
            let (x, y) = (a.max(p), b.min(p + l));
            if x < y {
                r.push_back(o + x - p, y - x);
            }
            p += l;
        }
        r
    }
    fn append(&mut self, o: Rope) {
        self.0.extend(o.0);
    }
    /// up to `n` bytes from `at`
    fn bytes(&self, at: usize, n: usize) -> Vec<u8> {
        let e = (at + n).min(self.len());
        let mut v = Vec::new();
        for (o, l) in self.slice(at.min(e), e).0 {
            v.extend_from_slice(region(o, l));
        }
        v
    }
}
trait Qu: Clone {
    const NAME: &'static str;
    fn new() -> Self;
    fn bq(&self) -> &ByteQueue<'static>;
    fn push_back(&mut self, d: ByteData<'static>);
    fn push_front(&mut self, d: ByteData<'static>);
    fn pop_back(&mut self) -> Option<ByteData<'static>>;
    fn pop_front(&mut self) -> Option<ByteData<'static>>;
    fn slice(&self, r: Range<usize>) -> Self;
    fn split_off(&mut self, at: usize) -> Self;
    fn drain(&mut self, r: Range<usize>, at: Option<usize>) -> Option<u8>;
    fn append(&mut self, o: Self);
    fn replace(&mut self, r: Range<usize>, d: ByteData<'static>);
    fn consume(&mut self, n: usize);
}
impl Qu for ByteQueue<'static> {
    const NAME: &'static str = "ByteQueue";
    fn new() -> Self {
        ByteQueue::new()
    }
    fn bq(&self) -> &ByteQueue<'static> {
        self
    }
    fn push_back(&mut self, d: ByteData<'static>) {
        self.push_back(d);
    }
    fn push_front(&mut self, d: ByteData<'static>) {
        self.push_front(d);
    }
    fn pop_back(&mut self) -> Option<ByteData<'static>> {
        self.pop_back()
    }
    fn pop_front(&mut self) -> Option<ByteData<'static>> {
        self.pop_front()
    }
    fn slice(&self, r: Range<usize>) -> Self {
        self.slice(r)
    }
    fn split_off(&mut self, at: usize) -> Self {
        self.split_off(at)
    }
    fn drain(&mut self, r: Range<usize>, at: Option<usize>) -> Option<u8> {
        let mut d = self.drain(r);
        at.and_then(|k| d.nth(k))
    }
    fn append(&mut self, o: Self) {
        self.append(o);
    }
    fn replace(&mut self, r: Range<usize>, d: ByteData<'static>) {
        self.replace_range(r, d);
    }
    fn consume(&mut self, n: usize) {
        ByteQueue::consume(self, n);
    }
}
fn text(d: ByteData<'static>) -> StringData<'static> {
    // SAFETY: the region is ASCII
    unsafe { StringData::from_bytedata_unchecked(d) }
}
impl Qu for StringQueue<'static> {
    const NAME: &'static str = "StringQueue";
    fn new() -> Self {
        StringQueue::new()
    }
    fn bq(&self) -> &ByteQueue<'static> {
        self.as_bytequeue()
    }
    fn push_back(&mut self, d: ByteData<'static>) {
        self.push_back(text(d));
    }
    fn push_front(&mut self, d: ByteData<'static>) {
        self.push_front(text(d));
    }
    fn pop_back(&mut self) -> Option<ByteData<'static>> {
        self.pop_back().map(StringData::into_bytedata)
    }
    fn pop_front(&mut self) -> Option<ByteData<'static>> {
        self.pop_front().map(StringData::into_bytedata)
    }
    fn slice(&self, r: Range<usize>) -> Self {
        self.slice(r)
    }
    fn split_off(&mut self, at: usize) -> Self {
        self.split_off(at)
    }
    fn drain(&mut self, r: Range<usize>, _: Option<usize>) -> Option<u8> {
        drop(self.drain(r));
        None
    }
    fn append(&mut self, o: Self) {
        self.extend(o.into_iter());
    }
    fn replace(&mut self, r: Range<usize>, d: ByteData<'static>) {
        self.replace_range(r, text(d));
    }
    fn consume(&mut self, n: usize) {
        drop(self.drain(..n));
    }
}
#[inline(never)]
fn check_q(cx: &mut Ctx, q: &ByteQueue<'static>, m: &Rope) {
    let n = m.len();
    ck!(cx, Content, q.len() == n && q.is_empty() == (n == 0), "len() is {:#x}, must be {n:#x}", q.len());
    let mut p = 0;
    let mut k = 0;
    // the part of the model which holds position `p`, and where in it
    let (mut j, mut in_j) = (0, 0);
    for c in q.chunks() {
        k += 1;
        let x = c.as_slice();
        ck!(cx, Content, !x.is_empty() && x.len() <= n - p, "chunk {k} at {p:#x} has {:#x} bytes", x.len());
        let h = x.len().min(12);
        ck!(cx, Content, x[..h] == m.bytes(p, h)[..], "chunk {k} at {p:#x} starts with other bytes");
        ck!(cx, Content, x[x.len() - h..] == m.bytes(p + x.len() - h, h)[..], "chunk {k} at {p:#x} ends with other bytes");
        while in_j >= m.0[j].1 {
            in_j -= m.0[j].1;
            j += 1;
        }
        if in_j + x.len() <= m.0[j].1 {
            placed(cx, "a chunk", x, m.0[j].0 + in_j);
        }
        in_j += x.len();
        p += x.len();
    }
    ck!(cx, Content, p == n, "the chunks have {p:#x} bytes together, must be {n:#x}");
    ck!(cx, Content, q.chunk_len() == k, "chunk_len() is {}, there are {k}", q.chunk_len());
}
fn gen_queue<Q: Qu>(s: &mut Src, cx: &mut Ctx, ow: &mut Owners, top: usize) -> (Q, Rope) {
    let mut q = Q::new();
    let mut m = Rope::default();
    for _ in 0..s.range(1, top) {
        let h = ow.gen(s, cx);
        if s.ratio(1, 3) {
            q.push_front(h.d);
            m.push_front(h.off, h.len);
        } else {
            q.push_back(h.d);
            m.push_back(h.off, h.len);
        }
    }
    (q, m)
}
fn run_queue(s: &mut Src, cx: &mut Ctx) {
    if !ready(cx) {
        return;
    }
    if s.ratio(1, 3) {
        drive_queue::<StringQueue<'static>>(s, cx);
    } else {
        drive_queue::<ByteQueue<'static>>(s, cx);
    }
}
fn drive_queue<Q: Qu>(s: &mut Src, cx: &mut Ctx) {
    let mut ow = Owners::default();
    let (mut q, mut m) = gen_queue::<Q>(s, cx, &mut ow, 8);
    let mut big = 0;
    note!(cx, "a {} of them", Q::NAME);
    for _ in 0..s.range(1, 14) {
        if s.exhausted() {
            break;
        }
        let n = m.len();
        big += usize::from(n > 0xFFFF_FFFF);
        match s.weighted(&[3, 2, 3, 3, 3, 3, 2, 2, 3, 2, 3]) {
            0 => {
                let h = ow.gen(s, cx);
                if s.bool() {
                    q.push_back(h.d);
                    m.push_back(h.off, h.len);
                } else {
                    q.push_front(h.d);
                    m.push_front(h.off, h.len);
                }
            }
            1 => {
                let f = s.bool();
                note!(cx, "pop from the {}", if f { "front" } else { "back" });
                let d = if f { q.pop_front() } else { q.pop_back() };
                let l = d.as_ref().map_or(0, |d| d.len());
                ck!(cx, Content, d.is_some() == (n > 0) && l <= n, "pop gives {l:#x} bytes of {n:#x}");
                if let Some(d) = d {
                    let at = if f { 0 } else { n - l };
                    let h = l.min(12);
                    let x = d.as_slice();
                    ck!(cx, Content, x[..h] == m.bytes(at, h)[..] && x[l - h..] == m.bytes(at + l - h, h)[..], "pop gives other bytes");
                    m = if f { m.slice(l, n) } else { m.slice(0, n - l) };
                }
            }
            2 => {
                let k = gen_hpos(s, n);
                note!(cx, "consume {k:#x}");
                q.consume(k);
                m = m.slice(k, n);
            }
            3 => {
                let (a, b) = gen_hrange(s, n);
                note!(cx, "slice {a:#x}..{b:#x}");
                let x = q.slice(a..b);
                check_q(cx, x.bq(), &m.slice(a, b));
                if s.ratio(1, 3) {
                    q = x;
                    m = m.slice(a, b);
                }
            }
            4 => {
                let k = gen_hpos(s, n);
                let keep = s.bool();
                note!(cx, "split_off {k:#x}");
                let x = q.split_off(k);
                check_q(cx, q.bq(), &m.slice(0, k));
                check_q(cx, x.bq(), &m.slice(k, n));
                if keep {
                    q.append(x);
                } else {
                    m = m.slice(0, k);
                }
            }
            5 => {
                let (a, b) = gen_hrange(s, n);
                let at = s.bool().then(|| gen_hpos(s, b - a + 2));
                note!(cx, "drain {a:#x}..{b:#x}, reading at {at:x?}");
                let g = q.drain(a..b, at);
                if Q::NAME == "ByteQueue" {
                    let want = at.and_then(|k| if k < b - a { m.bytes(a + k, 1).first().copied() } else { None });
                    ck!(cx, Content, g == want, "the drained byte is {g:?}, must be {want:?}");
                }
                let mut t = m.slice(0, a);
                t.append(m.slice(b, n));
                m = t;
            }
            6 => {
                let (x, y) = gen_queue::<Q>(s, cx, &mut ow, 3);
                note!(cx, "append them");
                q.append(x);
                m.append(y);
            }
            7 => {
                let (a, b) = gen_hrange(s, n);
                let h = ow.gen(s, cx);
                note!(cx, "replace {a:#x}..{b:#x} by it");
                q.replace(a..b, h.d);
                let mut t = m.slice(0, a);
                t.push_back(h.off, h.len);
                t.append(m.slice(b, n));
                m = t;
            }
            8 => {
                let at = gen_hpos(s, n);
                let l = s.usize(40);
                let mut nd = m.bytes(at, l);
                let bad = !nd.is_empty() && s.ratio(1, 3);
                if bad {
                    let k = s.usize(nd.len());
                    nd[k] ^= 1;
                }
                note!(cx, "exists_at {at:#x}, {} bytes{}", nd.len(), if bad { ", one changed" } else { "" });
                let b = q.bq();
                ck!(cx, Content, b.exists_at(at, &nd) != bad, "exists_at is {bad}");
                let e = m.bytes(n.saturating_sub(nd.len()), nd.len());
                ck!(cx, Content, b.ends_with(&e), "ends_with its own end is false");
                ck!(cx, Content, b.starts_with(&m.bytes(0, l)), "starts_with its own start is false");
                ck!(cx, Content, b.starts_with(&nd) == (m.bytes(0, nd.len()) == nd), "starts_with is wrong");
            }
            9 => {
                // a match close to where the search starts
                let at = gen_hpos(s, n);
                let w = m.bytes(at, 500);
                let k = s.usize(450).min(w.len());
                let l = (1 + s.usize(30)).min(w.len() - k);
                let nd = &w[k..k + l];
                if l > 0 {
                    note!(cx, "find_slice_after({:?}, {at:#x})", Sh(nd));
                    let want = w.windows(l).position(|x| x == nd).map(|x| x + at);
                    let g = q.bq().find_slice_after(nd, at);
                    ck!(cx, Content, g == want, "find_slice_after is {g:x?}, must be {want:x?}");
                }
                let past = n + 1 + s.usize(5);
                ck!(cx, Content, q.bq().find_slice_after(b"x", past).is_none(), "a match after the end");
            }
            _ => {
                let owned = s.ratio(1, 4);
                let (a, k) = (gen_hpos(s, n), gen_hpos(s, n));
                note!(cx, "bytes: skip {a:#x}, nth({k:#x})");
                let want = if a + k < n { Some(m.bytes(a + k, 1)[0]) } else { None };
                let left = (n - a).saturating_sub(k.saturating_add(1));
                let b = q.bq();
                let (g, l) = if owned {
                    let mut it = b.clone().into_bytes().skip(a);
                    ck!(cx, Content, it.len() == n - a && it.size_hint() == (n - a, Some(n - a)), "{:#x} bytes are left, must be {:#x}", it.len(), n - a);
                    (it.nth(k), it.len())
                } else {
                    let mut it = b.bytes().skip(a);
                    ck!(cx, Content, it.len() == n - a && it.size_hint() == (n - a, Some(n - a)), "{:#x} bytes are left, must be {:#x}", it.len(), n - a);
                    (it.nth(k), it.len())
                };
                ck!(cx, Content, g == want, "nth gives {g:?}, must be {want:?}");
                ck!(cx, Content, l == left, "{l:#x} bytes are left after nth, must be {left:#x}");
                let t = gen_hpos(s, n - a);
                let it = if owned { None } else { Some(b.bytes().skip(a).take(t)) };
                let (c, z) = match it {
                    Some(it) => (it.len(), it.last()),
                    None => {
                        let it = b.clone().into_bytes().skip(a).take(t);
                        (it.len(), it.last())
                    }
                };
                let want = if t > 0 { m.bytes(a + t - 1, 1).first().copied() } else { None };
                ck!(cx, Content, c == t && z == want, "skip({a:#x}).take({t:#x}) has {c:#x} bytes, last {z:?}, must be {want:?}");
                ck!(cx, Content, b.bytes().count() == n, "count() is not {n:#x}");
                // SAFETY: not even needed: the queue is text already
                if Q::NAME == "StringQueue" {
                    let t = q.clone();
                    let h = as_chars(&t);
                    ck!(cx, Content, h.0 == h.2 && h.0 .0 <= n && h.0 .1.is_none_or(|x| x >= n) && h.1 .0 <= n && h.1 .1.is_none_or(|x| x >= n), "chars() has size hint {h:x?} for {n:#x} characters");
                }
            }
        }
        check_q(cx, q.bq(), &m);
        if m.0.len() > 40 {
            break;
        }
    }
    let c = q.clone();
    check_q(cx, c.bq(), &m);
    drop(q);
    check_q(cx, c.bq(), &m);
    drop(c);
    for (k, o) in ow.0.iter().enumerate() {
        let n = o.load(Ordering::Relaxed);
        ck!(cx, Memory, n == 1, "owner {k} was dropped {n} times at the end");
    }
    if big >= 3 {
        cx.nontrivial();
    }
}
type Hint = (usize, Option<usize>);
fn as_chars<Q: Qu>(q: &Q) -> (Hint, Hint, Hint) {
    let mut t = StringQueue::new();
    for c in q.bq().chunks() {
        t.push_back(text(c.clone()));
    }
    let r = (t.chars().size_hint(), t.chars_indecies().size_hint(), t.chars().size_hint());
    r
}

// ------------------------------------------------------------------ cursors
#[derive(Clone)]
enum Cur {
    D(ByteData<'static>),
    Q(ByteQueue<'static>),
}
macro_rules! cur {
    ($c:expr, $x:ident => $e:expr) => {
        match $c {
            Cur::D($x) => $e,
            Cur::Q($x) => $e,
        }
    };
}
fn gen_cur(s: &mut Src, cx: &mut Ctx, ow: &mut Owners) -> (Cur, Rope) {
    if s.bool() {
        let h = ow.gen(s, cx);
        let mut m = Rope::default();
        m.push_back(h.off, h.len);
        (Cur::D(h.d), m)
    } else {
        let (q, m) = gen_queue::<ByteQueue<'static>>(s, cx, ow, 6);
        note!(cx, "a queue of them");
        (Cur::Q(q), m)
    }
}
#[inline(never)]
fn check_cur(cx: &mut Ctx, c: &Cur, m: &Rope) {
    match c {
        Cur::D(d) => {
            ck!(cx, Content, d.len() == m.len(), "{:#x} bytes are left, must be {:#x}", d.len(), m.len());
            if let Some(&(o, l)) = m.0.first() {
                check_at(cx, "what is left", d, o, l);
            }
        }
        Cur::Q(q) => check_q(cx, q, m),
    }
}
/// More than a builder can hold, which it must refuse and stay as it is.
#[inline(never)]
fn overfill(s: &mut Src, cx: &mut Ctx, io: bool) {
    let c = gen_bytes_small(s);
    let mut b = SharedBytesBuilder::from(SharedBytes::from_slice(&c));
    let mut m = c;
    for _ in 0..s.range(1, 4) {
        let l = 0xFFFF_FFFF - m.len() + s.usize(40) + if s.ratio(1, 4) { G4 } else { 0 };
        // below the limit it would need all that memory
        let l = l.max(0x1_0000_0000 - 12 - m.len());
        let off = s.below((LEN - l) as u64) as usize;
        let x = region(off, l);
        let way = if io { 5 + s.usize(3) } else { s.usize(5) };
        note!(cx, "{} bytes, then {l:#x} more, way {way}", m.len());
        let r = cx.catch(|| match way {
            0 => b.extend_from_slice(x),
            1 => b.put_slice(x),
            2 => b.put_bytes(7, l),
            3 => b.put(x),
            4 => b.reserve(l),
            5 => assert!(b.write(x).is_ok(), "refused"),
            6 => assert!(b.write_all(x).is_ok(), "refused"),
            _ => assert!(b.write_vectored(&[std::io::IoSlice::new(&x[..l / 2]), std::io::IoSlice::new(&x[l / 2..])]).is_ok(), "refused"),
        });
        ck!(cx, Content, matches!(&r, Err(p) if deliberate(p)), "{l:#x} bytes were put into a builder of {:#x} bytes", m.len());
        ck!(cx, Content, b.len() == m.len() && b.as_slice() == &m[..], "the refused bytes changed the builder");
        let y = gen_bytes_small(s);
        b.extend_from_slice(&y);
        m.extend_from_slice(&y);
        ck!(cx, Content, b.as_slice() == &m[..], "appending after a refusal gives other bytes");
    }
}
/// A small number of bytes, often the length there is modulo 4 GiB.
fn small(s: &mut Src, n: usize, max: usize) -> usize {
    let k = n as u32 as usize;
    if s.ratio(1, 3) && k <= 1000 {
        k
    } else {
        s.usize(max)
    }
}
fn run_io(s: &mut Src, cx: &mut Ctx) {
    if !ready(cx) {
        return;
    }
    if s.ratio(1, 8) {
        overfill(s, cx, true);
        cx.nontrivial();
        return;
    }
    let mut ow = Owners::default();
    let (mut c, mut m) = gen_cur(s, cx, &mut ow);
    let mut big = 0;
    for _ in 0..s.range(1, 10) {
        if s.exhausted() {
            break;
        }
        let n = m.len();
        big += usize::from(n > 0xFFFF_FFFF);
        match s.weighted(&[3, 4, 2, 2, 2, 2]) {
            0 => {
                let k = small(s, n, 60).max(1);
                let mut b = vec![0xEE; k];
                let g = cur!(&mut c, x => x.read(&mut b)).unwrap_or(usize::MAX);
                note!(cx, "read {k} bytes gives {g}");
                ck!(cx, Content, g <= k && (g > 0 || n == 0) && b[..g] == m.bytes(0, g)[..], "read gives {g} or other bytes");
                m = m.slice(g, n);
            }
            1 => {
                let k = gen_hpos(s, n);
                note!(cx, "consume {k:#x}");
                cur!(&mut c, x => BufRead::consume(x, k));
                m = m.slice(k, n);
            }
            2 => {
                let x = cur!(&mut c, x => x.fill_buf().map(|x| (x.len(), x[..x.len().min(20)].to_vec(), x[x.len().saturating_sub(20)..].to_vec()))).unwrap();
                note!(cx, "fill_buf gives {:#x}", x.0);
                ck!(cx, Content, x.0 <= n && (x.0 > 0 || n == 0), "fill_buf gives {:#x} bytes", x.0);
                ck!(cx, Content, x.1 == m.bytes(0, x.1.len()) && x.2 == m.bytes(x.0 - x.2.len(), x.2.len()), "fill_buf gives other bytes");
            }
            3 => {
                let k = small(s, n, 200);
                let mut b = vec![0; k];
                note!(cx, "read_exact {k}");
                let r = cur!(&mut c, x => x.read_exact(&mut b)).is_ok();
                ck!(cx, Content, r == (k <= n) && (!r || b == m.bytes(0, k)), "read_exact gives {r} or other bytes");
                if !r {
                    break;
                }
                m = m.slice(k, n);
            }
            4 => {
                // a delimiter which is near
                let w = m.bytes(0, 300);
                if let Some(&z) = w.last() {
                    let k = w.iter().position(|x| *x == z).unwrap() + 1;
                    let mut b = b"old".to_vec();
                    let g = cur!(&mut c, x => x.read_until(z, &mut b)).unwrap();
                    note!(cx, "read_until gives {g:#x}");
                    ck!(cx, Content, g == k && b[..3] == b"old"[..] && b[3..] == w[..k], "read_until gives {g}, must give {k}");
                    m = m.slice(k, n);
                }
            }
            _ => {
                let (j, k) = (s.usize(20), small(s, n, 40));
                let (mut x, mut y) = (vec![0; j], vec![0; k]);
                let g = cur!(&mut c, c => c.read_vectored(&mut [std::io::IoSliceMut::new(&mut x), std::io::IoSliceMut::new(&mut y)])).unwrap();
                note!(cx, "read_vectored of {j} and {k} gives {g}");
                x.extend_from_slice(&y);
                ck!(cx, Content, g <= j + k && (g > 0 || n == 0 || j + k == 0), "read_vectored gives {g}");
                ck!(cx, Content, x[..g] == m.bytes(0, g)[..], "read_vectored gives other bytes");
                m = m.slice(g, n);
            }
        }
        check_cur(cx, &c, &m);
    }
    if big >= 2 {
        cx.nontrivial();
    }
}
fn run_buf(s: &mut Src, cx: &mut Ctx) {
    if !ready(cx) {
        return;
    }
    match s.weighted(&[1, 1, 7]) {
        0 => {
            overfill(s, cx, false);
            cx.nontrivial();
            return;
        }
        1 => {
            conv(s, cx);
            return;
        }
        _ => {}
    }
    let mut ow = Owners::default();
    let (mut c, mut m) = gen_cur(s, cx, &mut ow);
    let mut big = 0;
    for _ in 0..s.range(1, 10) {
        if s.exhausted() {
            break;
        }
        let n = m.len();
        big += usize::from(n > 0xFFFF_FFFF);
        let rem = cur!(&c, x => (x.remaining(), x.has_remaining()));
        ck!(cx, Content, rem == (n, n > 0), "remaining is {rem:x?}, must be {n:#x}");
        match s.weighted(&[4, 2, 2, 2, 2, 2, 2, 2]) {
            0 => {
                let k = gen_hpos(s, n);
                note!(cx, "advance {k:#x}");
                cur!(&mut c, x => x.advance(k));
                m = m.slice(k, n);
            }
            1 => {
                let k = if s.bool() { n + 1 + s.usize(9) } else { n + G4 };
                note!(cx, "advance {k:#x} of {n:#x}");
                let r = cx.catch(|| cur!(&mut c, x => x.advance(k)));
                ck!(cx, Content, matches!(&r, Err(p) if deliberate(p)), "advance({k:#x}) of {n:#x} bytes does not panic");
            }
            2 => {
                let k = s.usize(200).min(n);
                note!(cx, "copy_to_bytes {k}");
                let b = cur!(&mut c, x => x.copy_to_bytes(k));
                ck!(cx, Content, b[..] == m.bytes(0, k)[..], "copy_to_bytes gives other bytes");
                m = m.slice(k, n);
            }
            3 => {
                let k = s.usize(100).min(n);
                note!(cx, "copy_to_slice {k}");
                let mut b = vec![0; k];
                cur!(&mut c, x => x.copy_to_slice(&mut b));
                ck!(cx, Content, b == m.bytes(0, k), "copy_to_slice gives other bytes");
                m = m.slice(k, n);
            }
            4 => {
                if n >= 8 {
                    note!(cx, "get_u64");
                    let g = cur!(&mut c, x => x.get_u64());
                    ck!(cx, Content, g.to_be_bytes()[..] == m.bytes(0, 8)[..], "get_u64 gives {g:#x}");
                    m = m.slice(8, n);
                }
            }
            5 => {
                let k = gen_hpos(s, n);
                let j = gen_hpos(s, k);
                note!(cx, "take {k:#x}, then advance {j:#x} of it");
                let left = cur!(&mut c, x => {
                    let mut t = Buf::take(&mut *x, k);
                    t.advance(j);
                    t.remaining()
                });
                ck!(cx, Content, left == k - j, "take has {left:#x} left, must be {:#x}", k - j);
                m = m.slice(j, n);
            }
            6 => {
                let x = cur!(&c, x => {
                    let x = x.chunk();
                    (x.len(), x[..x.len().min(20)].to_vec())
                });
                ck!(cx, Content, x.0 <= n && (x.0 > 0 || n == 0) && x.1 == m.bytes(0, x.1.len()), "chunk gives {:#x} bytes or other ones", x.0);
                let d = cur!(&c, x => Buf::chain(x.clone(), &b"tail"[..]).remaining());
                ck!(cx, Content, d == n + 4, "a chain has {d:#x} remaining");
            }
            _ => {
                let n = n as u64;
                let want = (n, Some(n), Some(n));
                let a = cur!(&c, x => http_body_1::Body::size_hint(x));
                let a = (a.lower(), a.upper(), a.exact());
                ck!(cx, Content, a == want, "the size hint of the body is {a:x?}, must be {want:x?}");
                if let Cur::D(x) = &c {
                    let b = http_body_04::Body::size_hint(x);
                    let b = (b.lower(), b.upper(), b.exact());
                    ck!(cx, Content, b == want, "the size hint of the body (http 0.4) is {b:x?}, must be {want:x?}");
                }
            }
        }
        check_cur(cx, &c, &m);
    }
    if big >= 2 {
        cx.nontrivial();
    }
}
/// Bytes over such memory, to ByteData and back.
#[inline(never)]
fn conv(s: &mut Src, cx: &mut Ctx) {
    let (off, len) = gen_part(s);
    let drops = Arc::new(AtomicU32::new(0));
    // bytes with an owner are copied into memory of ByteData's own, which holds less than 4 GiB
    let owned = len <= 1 << 20 && s.bool();
    let x = if owned { Bytes::from_owner(Owner { off, len, drops: drops.clone() }) } else { Bytes::from_static(region(off, len)) };
    note!(cx, "Bytes from {} of {len:#x} bytes at {off:#x}", if owned { "an owner" } else { "a static slice" });
    let (a, b) = gen_hrange(s, len);
    let y = x.slice(a..b);
    drop(x);
    let x = y;
    let (off, len) = (off + a, b - a);
    let d = ByteData::from(x);
    check_at(cx, "the value", &d, off, len);
    if !owned {
        placed(cx, "the value", &d, off);
    }
    let (a, b) = gen_hrange(s, len);
    let d = d.into_sliced(a..b);
    let (off, len) = (off + a, b - a);
    let y = Bytes::from(d.clone());
    check_at(cx, "the Bytes", &y, off, len);
    if !owned {
        placed(cx, "the Bytes", &y, off);
    }
    drop(d);
    let (a, b) = gen_hrange(s, len);
    let z = y.slice(a..b);
    drop(y);
    check_at(cx, "a slice of the Bytes", &z, off + a, b - a);
    drop(z);
    let n = drops.load(Ordering::Relaxed);
    ck!(cx, Memory, !owned || n == 1, "the owner was dropped {n} times");
    if len > 0xFFFF_FFFF {
        cx.nontrivial();
    }
}

// ------------------------------------------------------------------ buffers up to the limit of 2^32 bytes
/// The written fragments of a buffer (nothing else of it is read), by position.
#[derive(Default, Clone)]
struct Known {
    len: usize,
    at: Vec<(usize, Vec<u8>)>,
}
impl Known {
    fn put(&mut self, b: &[u8]) {
        if !b.is_empty() {
            self.at.push((self.len, b.to_vec()));
        }
        self.len += b.len();
    }
    fn slice(&self, a: usize, b: usize) -> Known {
        let mut r = Known { len: b - a, at: Vec::new() };
        for (p, d) in &self.at {
            let (x, y) = ((*p).max(a), (p + d.len()).min(b));
            if x < y {
                r.at.push((x - a, d[x - p..y - p].to_vec()));
            }
        }
        r
    }
}
#[inline(never)]
fn check_known(cx: &mut Ctx, what: &str, x: &[u8], m: &Known) {
    ck!(cx, Content, x.len() == m.len, "{what} has {:#x} bytes, must have {:#x}", x.len(), m.len);
    for (p, d) in &m.at {
        ck!(cx, Content, x[*p..p + d.len()] == d[..], "{what} has other bytes at {p:#x}..{:#x} of {:#x}", p + d.len(), m.len);
    }
}
/// The longest content a builder can have is between these, depending on its alignment.
const SURE: usize = 0xFFFF_FFF0;
const MOST: usize = 0xFFFF_FFFF;
/// How much room to ask for, with `n` bytes there already.
fn gen_room(s: &mut Src, n: usize) -> usize {
    let t = match s.weighted(&[4, 4, 3, 2, 2, 2]) {
        0 => SURE - 530 + s.usize(560),
        1 => SURE - 20 + s.usize(45),
        2 => (1 << 31) - 30 + s.usize(60),
        3 => s.below(MOST as u64) as usize,
        4 => n + s.usize(400),
        _ => n + (1 << (15 + s.usize(17))) - 20 + s.usize(40),
    };
    t.saturating_sub(n)
}
/// Writes some fragments of `k` bytes which were just made part of the buffer (by the caller), all in front of its end.
fn patches(s: &mut Src, k: usize) -> Vec<(usize, Vec<u8>)> {
    let mut r = Vec::new();
    for _ in 0..s.range(1, 3) {
        let d = gen_bytes_small(s);
        let d = d[..d.len().min(k)].to_vec();
        let p = match s.below(4) {
            0 => 0,
            1 | 2 => k - d.len(),
            _ => s.below((k - d.len()) as u64 + 1) as usize,
        };
        if !d.is_empty() && r.iter().all(|(q, e): &(usize, Vec<u8>)| p + d.len() <= *q || q + e.len() <= p) {
            r.push((p, d));
        }
    }
    r
}
struct Lim {
    v: LimV,
    m: Known,
    /// the address it must be at
    at: usize,
    /// the address where the content of its buffer starts
    root: usize,
}
enum LimV {
    S(SharedBytes),
    D(ByteData<'static>),
    B(Bytes),
}
impl LimV {
    fn get(&self) -> &[u8] {
        match self {
            LimV::S(x) => x.as_slice(),
            LimV::D(x) => x.as_slice(),
            LimV::B(x) => x,
        }
    }
}
/// A refusal, not an arithmetic overflow which only some builds check for.
fn deliberate(p: &str) -> bool {
    !p.contains("attempt to ")
}
fn run_limit(s: &mut Src, cx: &mut Ctx) {
    let _lazily = covrt::lazy_blocks();
    let big = limit(s, cx);
    if big >= 1 << 31 {
        cx.nontrivial();
    }
}
#[inline(never)]
fn limit_builder(s: &mut Src, cx: &mut Ctx) -> (SharedBytesBuilder, usize) {
    loop {
        let align = if s.bool() { 4 } else { 1 << s.usize(10) };
        let c = if s.ratio(1, 4) { s.usize(300) } else { gen_room(s, 0) };
        let sure = SURE - if align > 4 { align } else { 0 };
        note!(cx, "a builder with capacity {c:#x}, alignment {align}");
        let r = cx.catch(|| if align == 4 { SharedBytesBuilder::with_capacity(c) } else { SharedBytesBuilder::with_aligned_capacity(c, align) });
        match r {
            Ok(b) => {
                ck!(cx, Content, c <= MOST && b.capacity() >= c && b.is_empty(), "asked for a capacity of {c:#x}, got {:#x}", b.capacity());
                return (b, align);
            }
            Err(p) => ck!(cx, Panic, deliberate(&p) && c > sure, "a capacity of {c:#x} is refused: {p}"),
        }
    }
}
#[inline(never)]
fn limit(s: &mut Src, cx: &mut Ctx) -> usize {
    let (mut b, align) = limit_builder(s, cx);
    let sure = SURE - if align > 4 { align } else { 0 };
    let mut m = Known::default();
    let mut big = 0;
    for _ in 0..s.range(1, 12) {
        if s.exhausted() {
            break;
        }
        let n = m.len;
        let spare = b.capacity().saturating_sub(n);
        match s.weighted(&[4, 5, 3, 4, 2, 1, 1, 2, 1]) {
            0 => {
                let k = gen_room(s, n);
                let refuse = s.ratio(1, 8);
                note!(cx, "reserve {k:#x}{}", if refuse { ", without a realloc" } else { "" });
                // growing without realloc copies the content
                let refuse = refuse && n < 1 << 20 && n + k <= sure;
                let r = {
                    let _r = covrt::refuse_reallocs(usize::from(refuse));
                    cx.catch(|| b.reserve(k))
                };
                match r {
                    Ok(()) => ck!(cx, Content, n + k <= MOST && b.capacity() - b.len() >= k, "reserve({k:#x}) with {n:#x} bytes leaves room for {:#x}", b.capacity() - b.len()),
                    Err(p) => ck!(cx, Panic, deliberate(&p) && n + k > sure, "reserve({k:#x}) with {n:#x} bytes panics: {p}"),
                }
            }
            1 => {
                let k = match s.below(4) {
                    0 => spare,
                    1 => spare.saturating_sub(s.usize(40)),
                    2 => s.below(spare as u64 + 1) as usize,
                    _ => (1 << s.usize(33)).min(spare),
                };
                let way = s.usize(3);
                let ps = patches(s, k);
                note!(cx, "fill {k:#x} of {spare:#x} spare bytes, way {way}");
                let at = b.as_slice().as_ptr() as usize + n;
                let fill = |x: &mut [core::mem::MaybeUninit<u8>]| {
                    for (p, d) in &ps {
                        for (i, c) in d.iter().enumerate() {
                            x[p + i].write(*c);
                        }
                    }
                    (x.len(), x.as_ptr() as usize)
                };
                let g = match way {
                    0 => b.apply_unfilled(|x| (fill(x), k)),
                    1 => {
                        let fill = &fill;
                        let mut f = Box::pin(b.apply_unfilled_async(|mut x| core::future::ready((fill(&mut x), k))));
                        match f.as_mut().poll(&mut core::task::Context::from_waker(core::task::Waker::noop())) {
                            core::task::Poll::Ready(g) => g,
                            core::task::Poll::Pending => {
                                drop(f);
                                cx.fail(covrt::engine::Kind::Content, "apply_unfilled_async stays pending".to_string());
                            }
                        }
                    }
                    _ if spare > 0 => {
                        let c = b.chunk_mut();
                        let g = (c.len(), c.as_mut_ptr() as usize);
                        for (p, d) in &ps {
                            c[*p..p + d.len()].copy_from_slice(d);
                        }
                        unsafe { b.advance_mut(k) };
                        g
                    }
                    _ => (0, at),
                };
                ck!(cx, Content, g.0 == spare && (n == 0 || g.0 == 0 || g.1 == at), "the spare bytes are {:#x} at {:#x}, must be {spare:#x} at {at:#x}", g.0, g.1);
                for (p, d) in ps {
                    m.at.push((n + p, d));
                }
                m.len = n + k;
            }
            2 => {
                let d = gen_bytes_small(s);
                let way = s.usize(5);
                note!(cx, "append {} bytes to {n:#x}, way {way}", d.len());
                let r = cx.catch(|| match way {
                    0 => b.extend_from_slice(&d),
                    1 => b.put_slice(&d),
                    2 => b.put(&d[..]),
                    3 => assert!(b.write_all(&d).is_ok(), "refused"),
                    _ => assert!(d.is_empty() || matches!(b.write_vectored(&[std::io::IoSlice::new(&d[..d.len() / 2]), std::io::IoSlice::new(&d[d.len() / 2..])]), Ok(g) if g == d.len()), "refused"),
                });
                match r {
                    Ok(()) => {
                        ck!(cx, Content, n + d.len() <= MOST, "{} bytes are appended to {n:#x}", d.len());
                        m.put(&d);
                    }
                    Err(p) => ck!(cx, Panic, deliberate(&p) && n + d.len() > sure, "appending {} bytes to {n:#x} panics: {p}", d.len()),
                }
            }
            3 => {
                // to the very end of what a builder can hold, and on
                let r = b.remaining_mut();
                ck!(cx, Content, r <= MOST - n && r + n >= sure - 1000, "remaining_mut is {r:#x} with {n:#x} bytes");
                let c = b.chunk_mut().len();
                note!(cx, "{n:#x} bytes: remaining_mut {r:#x}, chunk_mut {c:#x}");
                ck!(cx, Content, (c > 0) == (r > 0) && c <= r, "chunk_mut gives {c:#x} bytes, {r:#x} remain");
                if r < 300 {
                    let d = vec![7; r + 1 + s.usize(3)];
                    let x = cx.catch(|| b.extend_from_slice(&d));
                    ck!(cx, Content, matches!(&x, Err(p) if deliberate(p)), "{} bytes are appended to {n:#x} where {r} remain", d.len());
                    let x = cx.catch(|| b.put_bytes(1, r + 1));
                    ck!(cx, Content, matches!(&x, Err(p) if deliberate(p)), "{} bytes are put to {n:#x} where {r} remain", r + 1);
                    let x = cx.catch(|| unsafe { b.advance_mut(r + 1) });
                    ck!(cx, Content, matches!(&x, Err(p) if deliberate(p)), "advanced by {} where {r} remain", r + 1);
                    if s.bool() {
                        note!(cx, "then exactly these");
                        let d = &d[..r];
                        match s.below(5) {
                            0 => b.extend_from_slice(d),
                            1 => b.put(d),
                            2 => b.put_bytes(7, r),
                            3 => b.put_slice(d),
                            _ => {
                                b.reserve(r);
                                let l = b.apply_unfilled(|x| (x.len(), 0));
                                ck!(cx, Content, l >= r, "{l} spare bytes after reserve({r})");
                                b.write_all(d).expect("write_all");
                            }
                        }
                        m.put(d);
                    }
                }
            }
            4 => {
                let k = gen_hpos(s, n);
                note!(cx, "truncate to {k:#x}");
                b.truncate(k);
                m = m.slice(0, k);
            }
            5 => {
                note!(cx, "clear");
                b.clear();
                m = Known::default();
            }
            6 => {
                let k = n + s.usize(40) + if s.bool() { G4 } else { 0 };
                note!(cx, "truncate to {k:#x} of {n:#x}");
                b.truncate(k);
            }
            7 => {
                // some bytes of the known ones are overwritten
                if n > 0 {
                    let d = gen_bytes_small(s);
                    let d = d[..d.len().min(n)].to_vec();
                    let p = n - d.len() - s.usize(9).min(n - d.len());
                    note!(cx, "overwrite {} bytes at {p:#x}", d.len());
                    b.as_slice_mut()[p..p + d.len()].copy_from_slice(&d);
                    let mut r = m.slice(0, p);
                    r.put(&d);
                    for (q, e) in m.slice(p + d.len(), n).at {
                        r.at.push((p + d.len() + q, e));
                    }
                    r.len = n;
                    m = r;
                }
            }
            _ => {
                let k = MOST - n + 1 + s.usize(9) + if s.bool() { G4 } else { 0 };
                note!(cx, "reserve {k:#x} with {n:#x} bytes");
                let r = cx.catch(|| b.reserve(k));
                ck!(cx, Content, matches!(&r, Err(p) if deliberate(p)), "reserve({k:#x}) with {n:#x} bytes does not panic");
            }
        }
        big = big.max(m.len);
        check_known(cx, "the builder", b.as_slice(), &m);
        ck!(cx, Content, b.len() == m.len && b.is_empty() == (m.len == 0) && b.capacity() >= m.len, "len {:#x}, is_empty {}, capacity {:#x}, must hold {:#x}", b.len(), b.is_empty(), b.capacity(), m.len);
    }
    let v = b.build();
    let at = v.as_slice().as_ptr() as usize;
    ck!(cx, Content, m.len == 0 || at % align == 0, "the content of a buffer aligned to {align} is at {at:#x}");
    let mut vs = vec![Lim { v: LimV::S(v), m, at, root: at }];
    for _ in 0..s.usize(9) {
        if s.exhausted() {
            break;
        }
        let i = s.usize(vs.len());
        let n = vs[i].m.len;
        let (x, y) = if s.bool() { gen_hrange(s, n) } else { (0, gen_hpos(s, n)) };
        match s.weighted(&[3, 3, 2, 2, 2, 2]) {
            0 => {
                note!(cx, "slice {i} to {x:#x}..{y:#x}");
                let way = s.usize(4);
                let v = match &vs[i].v {
                    LimV::S(v) => LimV::S(match way {
                        0 => v.sliced(x, y - x),
                        1 => v.sliced_range(x..y),
                        2 => v.clone().into_sliced(x, y - x),
                        _ => v.clone().into_sliced_range(x..y),
                    }),
                    LimV::D(v) => LimV::D(match way {
                        0 | 1 => v.sliced(x..y),
                        2 => v.clone().into_sliced(x..y),
                        _ => {
                            let mut v = v.clone();
                            v.make_sliced(x..y);
                            v
                        }
                    }),
                    LimV::B(v) => LimV::B(v.slice(x..y)),
                };
                let l = Lim { v, m: vs[i].m.slice(x, y), at: vs[i].at + x, root: vs[i].root };
                vs.push(l);
            }
            1 => {
                note!(cx, "cut {i} to {x:#x}..{y:#x} in place");
                match &mut vs[i].v {
                    LimV::S(v) => {
                        if s.bool() {
                            v.make_sliced(x, y - x);
                        } else {
                            v.make_sliced_range(x..y);
                        }
                    }
                    LimV::D(v) => v.make_sliced(x..y),
                    LimV::B(v) => {
                        v.truncate(y);
                        v.advance(x);
                    }
                }
                vs[i].m = vs[i].m.slice(x, y);
                vs[i].at += x;
            }
            2 => {
                note!(cx, "split {i} at {y:#x}");
                let Lim { v, m, at, root } = vs.swap_remove(i);
                let (a, b) = match v {
                    LimV::S(v) => {
                        let w = v.sliced(y, n - y);
                        (LimV::S(v.into_sliced(0, y)), LimV::S(w))
                    }
                    LimV::D(v) => {
                        let (a, b) = v.split_at(y);
                        (LimV::D(a), LimV::D(b))
                    }
                    LimV::B(mut v) => {
                        let w = v.split_off(y);
                        (LimV::B(v), LimV::B(w))
                    }
                };
                vs.push(Lim { v: a, m: m.slice(0, y), at, root });
                vs.push(Lim { v: b, m: m.slice(y, n), at: at + y, root });
            }
            3 => {
                note!(cx, "convert {i}");
                let Lim { v, m, at, root } = vs.swap_remove(i);
                let v = match v {
                    LimV::S(v) if s.bool() => LimV::D(ByteData::from(v)),
                    LimV::S(v) => LimV::B(Bytes::from(v)),
                    LimV::D(v) if s.bool() => LimV::B(Bytes::from(v)),
                    // a short value would be copied
                    LimV::D(v) if n > 100 => LimV::S(SharedBytes::from(v)),
                    v => v,
                };
                vs.push(Lim { v, m, at, root });
            }
            4 => {
                let sole = vs.len() == 1;
                let front = vs[i].at == vs[i].root;
                let LimV::S(v) = &vs[i].v else { continue };
                let u = v.is_unique();
                ck!(cx, Content, !sole || u, "the only handle is not unique");
                // moving or copying a long content would touch all of it
                if n <= 1 << 16 || (u && front) {
                    let Lim { v: LimV::S(v), mut m, .. } = vs.swap_remove(i) else { unreachable!() };
                    note!(cx, "thaw {i} ({n:#x} bytes, unique {u}), append and freeze");
                    let mut b = SharedBytesBuilder::from(v);
                    check_known(cx, "the thawed builder", b.as_slice(), &m);
                    let d = gen_bytes_small(s);
                    if n + d.len() <= sure {
                        b.extend_from_slice(&d);
                        m.put(&d);
                    }
                    let v = b.build();
                    let at = v.as_slice().as_ptr() as usize;
                    vs.push(Lim { v: LimV::S(v), m, at, root: at });
                }
            }
            _ => {
                if vs.len() > 1 {
                    note!(cx, "drop {i}");
                    vs.swap_remove(i);
                }
            }
        }
        for l in &vs {
            check_known(cx, "a handle", l.v.get(), &l.m);
            if l.m.len > 100 {
                ck!(cx, Alias, l.v.get().as_ptr() as usize == l.at, "a handle of {:#x} bytes was moved", l.m.len);
            }
        }
        if vs.is_empty() {
            break;
        }
    }
    while !vs.is_empty() {
        let i = s.usize(vs.len());
        drop(vs.swap_remove(i));
    }
    big
}
