//! Values, strings and queues as they exist without alloc.
use bytedata::{ByteData, ByteQueue, StringData, StringQueue};
use covrt::engine::{Ctx, Src};
use std::cell::RefCell;
include!("../../harness/src/gen_base.rs");

/// Chunks a queue can hold.
pub const CAP: usize = 23;
/// Memory given out as `'static`, in heap blocks of the exact size, released at the end of the case.
pub struct Arena {
    blocks: RefCell<Vec<Box<[u8]>>>,
}
impl Arena {
    pub fn new() -> Self {
        Arena { blocks: RefCell::new(Vec::new()) }
    }
    pub fn bytes(&self, b: &[u8]) -> &'static [u8] {
        if b.is_empty() {
            return &[];
        }
        let x: Box<[u8]> = b.into();
        let p = unsafe { core::slice::from_raw_parts(x.as_ptr(), x.len()) };
        self.blocks.borrow_mut().push(x);
        p
    }
    pub fn str(&self, b: &str) -> &'static str {
        unsafe { core::str::from_utf8_unchecked(self.bytes(b.as_bytes())) }
    }
    pub fn contains(&self, p: *const u8) -> bool {
        self.blocks.borrow().iter().any(|b| b.as_ptr_range().contains(&p))
    }
    pub fn check_owners(&self, _: &mut Ctx) {}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rep {
    Static,
    Borrowed,
    Chunk,
}
#[derive(Clone, Copy, Debug)]
pub struct Made {
    pub rep: Rep,
    pub how: &'static str,
    pub at: Option<usize>,
}
#[inline(never)]
pub fn gen_bd(s: &mut Src, cx: &mut Ctx, ar: &Arena, c: &[u8]) -> (ByteData<'static>, Made) {
    let n = c.len();
    let p = ar.bytes(c);
    let (v, rep, how) = match s.weighted(&[3, 3, 3, 1, 2, 2]) {
        0 => (ByteData::from_static(p), Rep::Static, "from_static"),
        1 => (ByteData::from_borrowed(p), Rep::Borrowed, "from_borrowed"),
        2 if n <= 14 => match n {
            0 => (ByteData::empty(), Rep::Chunk, "empty"),
            1 => (ByteData::from_byte(c[0]), Rep::Chunk, "from_byte"),
            _ => (ByteData::from_chunk_slice(c), Rep::Chunk, "from_chunk_slice"),
        },
        3 => (ByteData::from(p), Rep::Borrowed, "From<&[u8]>"),
        4 if n <= 14 && n > 0 => {
            let mut b = vec![b'#'; 14 - n.min(12)];
            b.truncate(14 - n);
            let k = b.len();
            b.extend_from_slice(c);
            (ByteData::from_chunk_slice(&b).into_sliced(k..), Rep::Chunk, "from_chunk_slice.into_sliced")
        }
        _ => {
            let mut b = vec![b'#'; 2];
            b.extend_from_slice(c);
            b.push(b'$');
            let q = ar.bytes(&b);
            let at = q.as_ptr() as usize + 2;
            let (v, rep, how) = if s.bool() {
                (ByteData::from_static(q).into_sliced(2..2 + n), Rep::Static, "from_static.into_sliced")
            } else {
                (ByteData::from_borrowed(q).into_sliced(2..2 + n), Rep::Borrowed, "from_borrowed.into_sliced")
            };
            cx.label(how);
            return (v, Made { rep: if n <= 14 { Rep::Chunk } else { rep }, how, at: (n > 14).then_some(at) });
        }
    };
    cx.label(how);
    (v, Made { rep: if n <= 14 { Rep::Chunk } else { rep }, how, at: (n > 14).then_some(p.as_ptr() as usize) })
}
#[inline(never)]
pub fn gen_sd(s: &mut Src, cx: &mut Ctx, ar: &Arena, c: &str) -> (StringData<'static>, &'static str) {
    match s.usize(4) {
        0 => (StringData::from_static(ar.str(c)), "StringData::from_static"),
        1 => (StringData::from_borrowed(ar.str(c)), "StringData::from_borrowed"),
        2 => (StringData::from(ar.str(c)), "StringData::from"),
        _ => {
            let (b, m) = gen_bd(s, cx, ar, c.as_bytes());
            match StringData::try_from_bytedata(b) {
                Ok(v) => (v, m.how),
                Err(_) => cx.fail(covrt::engine::Kind::Utf8, format!("try_from_bytedata rejects the valid text {c:?}")),
            }
        }
    }
}
/// At most 16 pieces of `n` bytes, none of them empty.
fn pieces(s: &mut Src, n: usize) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut a = 0;
    for b in gen_cuts(s, n).into_iter().chain([n]) {
        v.push((a, b));
        a = b;
    }
    v
}
#[inline(never)]
pub fn gen_queue(s: &mut Src, cx: &mut Ctx, ar: &Arena, c: &[u8]) -> ByteQueue<'static> {
    let v = pieces(s, c.len());
    let start = s.usize(v.len().max(1));
    let mut q = if s.bool() { ByteQueue::new() } else { ByteQueue::default() };
    turn(s, &mut q);
    for (a, b) in v.iter().skip(start) {
        q.push_back(gen_bd(s, cx, ar, &c[*a..*b]).0);
    }
    for (a, b) in v.iter().take(start).rev() {
        q.push_front(gen_bd(s, cx, ar, &c[*a..*b]).0);
    }
    q
}
/// Moves the beginning of the ring.
pub fn turn(s: &mut Src, q: &mut ByteQueue<'static>) {
    if s.bool() {
        let k = s.usize(CAP + 1);
        for j in 0..k {
            q.push_back(ByteData::from_byte(j as u8));
            assert!(q.pop_front().is_some());
        }
    }
}
#[inline(never)]
pub fn gen_squeue(s: &mut Src, cx: &mut Ctx, ar: &Arena, c: &str) -> StringQueue<'static> {
    let fl = |mut p: usize| {
        while !c.is_char_boundary(p) {
            p -= 1;
        }
        p
    };
    let v = pieces(s, c.len());
    let start = s.usize(v.len().max(1));
    let mut q = StringQueue::new();
    if s.bool() {
        let k = s.usize(CAP + 1);
        for _ in 0..k {
            q.push_back("x");
            assert!(q.pop_front().is_some());
        }
    }
    for (a, b) in v.iter().skip(start) {
        q.push_back(gen_sd(s, cx, ar, &c[fl(*a)..fl(*b)]).0);
    }
    for (a, b) in v.iter().take(start).rev() {
        q.push_front(gen_sd(s, cx, ar, &c[fl(*a)..fl(*b)]).0);
    }
    q
}
