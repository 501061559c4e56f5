//! Generators of contents, ranges and values in every representation.
use bytedata::{ByteData, SharedBytes, SharedBytesBuilder, StringData};
use covrt::engine::{Ctx, Src};
use covrt::exempt;
use std::cell::RefCell;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Mutex};
include!("gen_base.rs");

// ------------------------------------------------------------------ static and borrowed memory
/// Chunks a queue can hold.
#[allow(dead_code)]
pub const CAP: usize = usize::MAX;
/// Memory given out as `'static`, in heap blocks of the exact size, released at the end of the case.
/// Declared before every value of the case, so that it is dropped last.
pub struct Arena {
    blocks: RefCell<Vec<Box<[u8]>>>,
    pub owners: RefCell<Vec<Arc<OwnerState>>>,
}
impl Arena {
    pub fn new() -> Self {
        Arena { blocks: RefCell::new(Vec::new()), owners: RefCell::new(Vec::new()) }
    }
    pub fn bytes(&self, b: &[u8]) -> &'static [u8] {
        if b.is_empty() {
            return &[];
        }
        let x: Box<[u8]> = b.into();
        let p = unsafe { core::slice::from_raw_parts(x.as_ptr(), x.len()) };
        self.blocks.borrow_mut().push(x);
        p
    }
    pub fn str(&self, b: &str) -> &'static str {
        unsafe { core::str::from_utf8_unchecked(self.bytes(b.as_bytes())) }
    }
    /// True when the pointer lies in memory given out by this arena.
    pub fn contains(&self, p: *const u8) -> bool {
        self.blocks.borrow().iter().any(|b| b.as_ptr_range().contains(&p))
    }
    /// Every external owner made in this case must be dropped exactly once by now.
    pub fn check_owners(&self, cx: &mut Ctx) {
        for o in self.owners.borrow().iter() {
            let d = o.drops.load(Ordering::Relaxed);
            covrt::ck!(cx, Memory, d == 1, "an external owner was dropped {d} times in all");
        }
    }
    pub fn owner(&self, data: &[u8]) -> Own {
        let data: Box<[u8]> = data.into();
        let mut all = self.owners.borrow_mut();
        let (base, len) = (data.as_ptr() as usize, data.len());
        let st = Arc::new(OwnerState { drops: AtomicU32::new(0), base, len, keeps: all.len() % 2 == 0, kept: Mutex::new(None) });
        all.push(Arc::clone(&st));
        Own { data, state: st }
    }
    /// External owners are alive exactly while a handle points into them.
    pub fn check_owner_liveness(&self, cx: &mut Ctx, handles: &dyn Fn(usize, usize) -> bool) {
        for o in self.owners.borrow().iter() {
            let d = o.drops.load(Ordering::Relaxed);
            if o.len <= 14 {
                continue;
            }
            let used = handles(o.base, o.len);
            if d == 1 && used && !o.keeps {
                continue; // its memory was released, and may belong to another value now
            }
            covrt::ck!(cx, Memory, d == u32::from(!used), "an external owner of {} bytes was dropped {d} times while {} handle points into it", o.len, if used { "a" } else { "no" });
        }
    }
}
pub struct OwnerState {
    pub drops: AtomicU32,
    pub base: usize,
    pub len: usize,
    /// Every other owner keeps its memory, with other bytes in it, until the end of the case, so that no other value
    /// can lie there; the rest release it, so that an access after it is seen.
    keeps: bool,
    kept: Mutex<Option<Box<[u8]>>>,
}
/// An external owner which counts its drops.
pub struct Own {
    data: Box<[u8]>,
    state: Arc<OwnerState>,
}
impl Drop for Own {
    fn drop(&mut self) {
        self.state.drops.fetch_add(1, Ordering::Relaxed);
        if self.state.keeps {
            if let Ok(mut k) = self.state.kept.lock() {
                let mut d = core::mem::take(&mut self.data);
                d.iter_mut().for_each(|b| *b = !*b);
                *k = Some(d);
            }
        }
    }
}
impl bytedata::external::ExternalBytes for Own {
    const OPS: bytedata::external::ExternalOps<Self> = bytedata::external::ExternalOps::new(|x: &Self| &x.data);
}
/// The same with an alignment above that of its header.
#[repr(align(64))]
pub struct OwnAligned(pub Own);
impl bytedata::external::ExternalBytes for OwnAligned {
    const OPS: bytedata::external::ExternalOps<Self> = bytedata::external::ExternalOps::new(|x: &Self| {
        assert_eq!((x as *const Self as usize) % 64, 0, "external owner is misaligned");
        &x.0.data
    });
}
/// An owner which exposes memory inside itself, without a destructor.
#[repr(align(16))]
pub struct OwnInline(pub [u8; 48], pub usize);
impl bytedata::external::ExternalBytes for OwnInline {
    const OPS: bytedata::external::ExternalOps<Self> = bytedata::external::ExternalOps::new(|x: &Self| {
        assert_eq!((x as *const Self as usize) % 16, 0, "external owner is misaligned");
        &x.0[..x.1]
    });
}

// ------------------------------------------------------------------ values
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rep {
    Static,
    Borrowed,
    Chunk,
    Shared,
    External,
}
/// How a value was made: its representation, and the memory it must view when it does not copy.
#[derive(Clone, Copy, Debug)]
pub struct Made {
    pub rep: Rep,
    pub how: &'static str,
    /// address of the data where the constructor is documented not to copy
    pub at: Option<usize>,
}
fn made(rep: Rep, how: &'static str, at: Option<usize>, n: usize) -> Made {
    // short data is stored inline, except where it was handed in as a SharedBytes
    let rep = if n <= 14 && rep != Rep::Shared { Rep::Chunk } else { rep };
    Made { rep, how, at: if rep == Rep::Chunk { None } else { at } }
}
/// A `SharedBytes` with the given content.
pub fn gen_shared(s: &mut Src, c: &[u8]) -> (SharedBytes, &'static str) {
    match s.weighted(&[4, 2, 3, 3, 2, 1, 1, 1]) {
        0 => match core::str::from_utf8(c) {
            Ok(t) if s.ratio(1, 4) => (t.parse().unwrap(), "SharedBytes::from_str"),
            _ => (SharedBytes::from_slice(c), "SharedBytes::from_slice"),
        },
        1 => (SharedBytes::from_slice_aligned(c, gen_align(s)), "SharedBytes::from_slice_aligned"),
        2 => {
            let mut b = SharedBytesBuilder::with_capacity(c.len() + s.usize(40));
            b.extend_from_slice(c);
            (b.build(), "SharedBytesBuilder::with_capacity")
        }
        3 => {
            let pre = s.range(1, 40);
            let post = s.usize(20);
            let mut b = vec![b'#'; pre];
            b.extend_from_slice(c);
            b.resize(b.len() + post, b'$');
            let sh = SharedBytes::from_slice(&b);
            (sh.into_sliced(pre, c.len()), "SharedBytes::into_sliced")
        }
        4 => {
            let a = gen_align(s).min(512);
            let mut b = SharedBytesBuilder::with_alignment(a);
            let at = s.usize(c.len() + 1);
            b.extend_from_slice(&c[..at]);
            b.extend_from_slice(&c[at..]);
            (b.build(), "SharedBytesBuilder::with_alignment")
        }
        5 => (SharedBytes::from(c.to_vec()), "SharedBytes::from(Vec)"),
        6 => {
            let mut b = vec![b'#'; 3];
            b.extend_from_slice(c);
            b.push(b'$');
            let sh = SharedBytes::from_slice(&b);
            (sh.sliced_range(3..3 + c.len()), "SharedBytes::sliced_range")
        }
        _ => {
            let mut b = SharedBytesBuilder::new();
            for x in c {
                b.extend([*x]);
            }
            (SharedBytes::from(b), "SharedBytesBuilder byte by byte")
        }
    }
}
/// A `ByteData` with the given content, in any representation.
#[inline(never)]
pub fn gen_bd(s: &mut Src, cx: &mut Ctx, ar: &Arena, c: &[u8]) -> (ByteData<'static>, Made) {
    let n = c.len();
    let text = core::str::from_utf8(c).is_ok();
    let (v, m) = match s.weighted(&[4, 4, 4, 5, 3, 4, 2, 2, 4, 3, 2, 2, 2, 2, 1, 1, 1, 2, 2, 1, 1, 1]) {
        0 => {
            let p = ar.bytes(c);
            (ByteData::from_static(p), made(Rep::Static, "from_static", Some(p.as_ptr() as usize), n))
        }
        1 => {
            let p = ar.bytes(c);
            (ByteData::from_borrowed(p), made(Rep::Borrowed, "from_borrowed", Some(p.as_ptr() as usize), n))
        }
        2 => match n {
            0 => (ByteData::empty(), made(Rep::Chunk, "empty", None, n)),
            1 => (ByteData::from_byte(c[0]), made(Rep::Chunk, "from_byte", None, n)),
            2..=14 => (ByteData::from_chunk_slice(c), made(Rep::Chunk, "from_chunk_slice", None, n)),
            _ => {
                let p = ar.bytes(c);
                (ByteData::from(p), made(Rep::Borrowed, "From<&[u8]>", Some(p.as_ptr() as usize), n))
            }
        },
        3 => {
            let (sh, how) = gen_shared(s, c);
            let at = sh.as_slice().as_ptr() as usize;
            (ByteData::from_shared(sh), made(Rep::Shared, how, Some(at), n))
        }
        4 => {
            let (sh, how) = gen_shared(s, c);
            let at = sh.as_slice().as_ptr() as usize;
            let m = if n <= 14 { made(Rep::Chunk, how, None, n) } else { made(Rep::Shared, how, Some(at), n) };
            (ByteData::from(sh), m)
        }
        5 => {
            let mut v = Vec::with_capacity(n + s.usize(20));
            v.extend_from_slice(c);
            let at = v.as_ptr() as usize;
            (ByteData::from_owned(v), made(Rep::External, "from_owned", Some(at), n))
        }
        6 => {
            let v = c.to_vec();
            let at = v.as_ptr() as usize;
            let m = if n > 14 && n < 32 { made(Rep::Shared, "From<Vec>", None, n) } else { made(Rep::External, "From<Vec>", Some(at), n) };
            (ByteData::from(v), m)
        }
        7 => {
            let v: Box<[u8]> = c.into();
            let at = v.as_ptr() as usize;
            (ByteData::from_external(v), made(Rep::External, "from_external(Box<[u8]>)", Some(at), n))
        }
        8 => {
            let o = ar.owner(c);
            let at = o.data.as_ptr() as usize;
            (ByteData::from_external(o), made(Rep::External, "from_external(Own)", Some(at), n))
        }
        9 => {
            // a part of a bigger external buffer
            let pre = s.usize(5);
            let post = s.usize(30);
            let mut b = vec![b'#'; pre];
            b.extend_from_slice(c);
            b.resize(b.len() + post, b'$');
            let o = ar.owner(&b);
            let at = o.data.as_ptr() as usize + pre;
            (ByteData::from_external(o).into_sliced(pre..pre + n), made(Rep::External, "from_external(Own).into_sliced", Some(at), n))
        }
        10 => {
            let o = ar.owner(c);
            let at = o.data.as_ptr() as usize;
            (ByteData::from_external(OwnAligned(o)), made(Rep::External, "from_external(OwnAligned)", Some(at), n))
        }
        11 => {
            let v: Arc<[u8]> = c.into();
            let at = v.as_ptr() as usize;
            (ByteData::from_external(v), made(Rep::External, "from_external(Arc<[u8]>)", Some(at), n))
        }
        12 => {
            if text && s.bool() {
                let v = std::borrow::Cow::<'static, str>::Owned(String::from_utf8(c.to_vec()).unwrap());
                return (ByteData::from(v), made(Rep::Shared, "From<Cow<str>>(Owned)", None, n));
            }
            let v = std::borrow::Cow::<'static, [u8]>::Owned(c.to_vec());
            let at = v.as_ptr() as usize;
            match s.usize(3) {
                0 => (ByteData::from_cow(v), made(Rep::External, "from_cow(Owned)", Some(at), n)),
                1 => (ByteData::from_cow_static(v), made(Rep::External, "from_cow_static(Owned)", Some(at), n)),
                _ => (ByteData::from(v), made(Rep::External, "From<Cow>(Owned)", Some(at), n)),
            }
        }
        13 => {
            let p = ar.bytes(c);
            let cow = std::borrow::Cow::Borrowed(p);
            match s.usize(if text { 4 } else { 3 }) {
                3 => {
                    let t = core::str::from_utf8(p).unwrap();
                    (ByteData::from(std::borrow::Cow::Borrowed(t)), made(Rep::Borrowed, "From<Cow<str>>(Borrowed)", Some(p.as_ptr() as usize), n))
                }
                0 => (ByteData::from_cow(cow), made(Rep::Borrowed, "from_cow(Borrowed)", Some(p.as_ptr() as usize), n)),
                1 => (ByteData::from_cow_static(cow), made(Rep::Static, "from_cow_static(Borrowed)", Some(p.as_ptr() as usize), n)),
                _ => (ByteData::from(cow), made(Rep::Borrowed, "From<Cow>", Some(p.as_ptr() as usize), n)),
            }
        }
        14 => {
            if s.ratio(1, 4) {
                // any number of parts, down to none
                let mut parts: Vec<&[u8]> = Vec::new();
                let mut at = 0;
                while at < n || s.ratio(1, 4) {
                    let k = if s.bool() { n - at } else { s.usize(n - at + 1) };
                    parts.push(ar.bytes(&c[at..at + k]));
                    at += k;
                }
                let one = (parts.len() == 1).then(|| parts[0].as_ptr() as usize);
                let rep = if one.is_some() { Rep::Borrowed } else if n <= 14 { Rep::Chunk } else { Rep::Shared };
                return (ByteData::from_concat(&parts), made(rep, "from_concat of any number", one, n));
            }
            let k = s.usize(n + 1);
            let l = k + s.usize(n - k + 1);
            let (a, b, d) = (ar.bytes(&c[..k]), ar.bytes(&c[k..l]), ar.bytes(&c[l..]));
            (ByteData::from_concat(&[a, b, d]), Made { rep: if n <= 14 { Rep::Chunk } else { Rep::Shared }, how: "from_concat", at: None })
        }
        15 => {
            let v: ByteData<'static> = c.iter().copied().collect();
            (v, Made { rep: if n <= 14 { Rep::Chunk } else { Rep::Shared }, how: "from_iter", at: None })
        }
        16 if n <= 48 => {
            let mut b = [0_u8; 48];
            b[..n].copy_from_slice(c);
            (ByteData::from_external(OwnInline(b, n)), made(Rep::External, "from_external(OwnInline)", None, n))
        }
        17 if text => {
            let t = String::from_utf8(c.to_vec()).unwrap();
            match s.usize(4) {
                0 => {
                    let at = t.as_ptr() as usize;
                    (ByteData::from_external(t), made(Rep::External, "from_external(String)", Some(at), n))
                }
                1 => {
                    let b = t.into_boxed_str();
                    let at = b.as_ptr() as usize;
                    (ByteData::from_external(b), made(Rep::External, "from_external(Box<str>)", Some(at), n))
                }
                2 => {
                    let b: Arc<str> = t.into();
                    let at = b.as_ptr() as usize;
                    (ByteData::from_external(b), made(Rep::External, "from_external(Arc<str>)", Some(at), n))
                }
                _ => (ByteData::from(t), made(Rep::Shared, "From<String>", None, n)),
            }
        }
        18 => {
            // a part of a bigger static or borrowed block
            let mut b = vec![b'#'; 2];
            b.extend_from_slice(c);
            b.push(b'$');
            let p = ar.bytes(&b);
            let at = p.as_ptr() as usize + 2;
            if s.bool() {
                (ByteData::from_static(p).into_sliced(2..2 + n), Made { rep: Rep::Static, how: "from_static.into_sliced", at: (n > 14).then_some(at) })
            } else {
                (ByteData::from_borrowed(p).into_sliced(2..2 + n), Made { rep: Rep::Borrowed, how: "from_borrowed.into_sliced", at: (n > 14).then_some(at) })
            }
        }
        19 => {
            let b = bytes::Bytes::copy_from_slice(c);
            (ByteData::from(b), made(Rep::External, "From<Bytes>", None, n))
        }
        20 => {
            let mut q = bytedata::ByteQueue::new();
            let k = s.usize(n + 1);
            q.push_back(ByteData::from_borrowed(ar.bytes(&c[..k])));
            q.push_back(ByteData::from_borrowed(ar.bytes(&c[k..])));
            let rep = if n <= 14 { Rep::Chunk } else if k == 0 || k == n { Rep::Borrowed } else { Rep::Shared };
            (ByteData::from(q), Made { rep, how: "From<ByteQueue>", at: None })
        }
        _ => {
            let p = ar.bytes(c);
            (ByteData::from_static(p), made(Rep::Static, "from_static", Some(p.as_ptr() as usize), n))
        }
    };
    cx.label(m.how);
    (v, m)
}
/// A `StringData` with the given content, in any representation.
#[inline(never)]
pub fn gen_sd(s: &mut Src, cx: &mut Ctx, ar: &Arena, c: &str) -> (StringData<'static>, &'static str) {
    let (v, how) = match s.weighted(&[3, 3, 2, 2, 2, 1, 1, 8]) {
        0 => (StringData::from_static(ar.str(c)), "StringData::from_static"),
        1 => (StringData::from_borrowed(ar.str(c)), "StringData::from_borrowed"),
        2 => (StringData::from_owned(c.to_string()), "StringData::from_owned"),
        3 => {
            let (sh, _) = gen_shared(s, c.as_bytes());
            match StringData::try_from_shared(sh) {
                Ok(v) => (v, "StringData::try_from_shared"),
                Err(_) => cx.fail(covrt::engine::Kind::Utf8, format!("try_from_shared rejects the valid text {c:?}")),
            }
        }
        4 => match s.usize(6) {
            4 => (StringData::from_cow_static(std::borrow::Cow::Owned(c.to_string())), "StringData::from_cow_static(Owned)"),
            5 => (StringData::from(std::borrow::Cow::<str>::Owned(c.to_string())), "StringData::From<Cow>(Owned)"),
            0 => (StringData::from_cow(std::borrow::Cow::Owned(c.to_string())), "StringData::from_cow(Owned)"),
            1 => (StringData::from_cow(std::borrow::Cow::Borrowed(ar.str(c))), "StringData::from_cow(Borrowed)"),
            2 => (StringData::from_cow_static(std::borrow::Cow::Borrowed(ar.str(c))), "StringData::from_cow_static(Borrowed)"),
            _ => (StringData::from(std::borrow::Cow::Borrowed(ar.str(c))), "StringData::From<Cow>"),
        },
        5 if s.ratio(1, 4) => {
            let mut parts: Vec<&str> = Vec::new();
            let mut at = 0;
            while at < c.len() || s.ratio(1, 4) {
                let mut k = if s.bool() { c.len() } else { at + s.usize(c.len() - at + 1) };
                while !c.is_char_boundary(k) {
                    k += 1;
                }
                parts.push(ar.str(&c[at..k]));
                at = k;
            }
            (StringData::from_concat(&parts), "StringData::from_concat of any number")
        }
        5 => {
            let mut k = s.usize(c.len() + 1);
            while !c.is_char_boundary(k) {
                k -= 1;
            }
            (StringData::from_concat(&[ar.str(&c[..k]), ar.str(&c[k..])]), "StringData::from_concat")
        }
        6 => (StringData::from(c.to_string()), "StringData::From<String>"),
        _ => {
            let (b, m) = gen_bd(s, cx, ar, c.as_bytes());
            match StringData::try_from_bytedata(b) {
                Ok(v) => (v, m.how),
                Err(_) => cx.fail(covrt::engine::Kind::Utf8, format!("try_from_bytedata rejects the valid text {c:?}")),
            }
        }
    };
    cx.label(how);
    (v, how)
}

// ------------------------------------------------------------------ queues
use bytedata::{ByteQueue, StringQueue};
/// A queue with the given content in a random chunking. Pushes at both ends.
#[inline(never)]
pub fn gen_queue(s: &mut Src, cx: &mut Ctx, ar: &Arena, c: &[u8]) -> ByteQueue<'static> {
    let cuts = gen_cuts(s, c.len());
    let mut pieces = Vec::new();
    let mut a = 0;
    for b in cuts.iter().copied().chain([c.len()]) {
        pieces.push(&c[a..b]);
        a = b;
    }
    // sometimes very fine pieces
    if s.ratio(1, 8) && c.len() <= 60 {
        pieces = c.chunks(1 + s.usize(3)).collect();
    }
    let start = s.usize(pieces.len().max(1));
    let mut q = if s.bool() { ByteQueue::new() } else { ByteQueue::default() };
    for p in pieces.iter().skip(start) {
        let (v, _) = gen_bd(s, cx, ar, p);
        q.push_back(v);
    }
    for p in pieces.iter().take(start).rev() {
        let (v, _) = gen_bd(s, cx, ar, p);
        q.push_front(v);
    }
    let _ = exempt;
    q
}
/// A string queue with the given content in a random chunking.
#[inline(never)]
pub fn gen_squeue(s: &mut Src, cx: &mut Ctx, ar: &Arena, c: &str) -> StringQueue<'static> {
    let fl = |mut p: usize| {
        while !c.is_char_boundary(p) {
            p -= 1;
        }
        p
    };
    let mut pieces = Vec::new();
    let mut a = 0;
    for b in gen_cuts(s, c.len()).into_iter().map(fl).chain([c.len()]) {
        pieces.push(&c[a..b]);
        a = b;
    }
    let start = s.usize(pieces.len().max(1));
    let mut q = StringQueue::new();
    for p in pieces.iter().skip(start) {
        let (v, _) = gen_sd(s, cx, ar, p);
        q.push_back(v);
    }
    for p in pieces.iter().take(start).rev() {
        let (v, _) = gen_sd(s, cx, ar, p);
        q.push_front(v);
    }
    q
}
