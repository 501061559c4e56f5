//! Equality, ordering and hashing of every pair of types against the plain bytes (C09).
use crate::gen::*;
use bytedata::{ByteData, ByteQueue, SharedBytes, StringData, StringQueue};
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};

pub const CMP: Module = Module {
    name: "cmp",
    rule: "a case is a pair of contents (equal, one a prefix of the other, differing in one byte at any position by any amount, differing only beyond a chunk boundary, or unrelated; bytes on both sides of 0x80), each held as ByteData, SharedBytes, ByteQueue and, when text, StringData and StringQueue, in random representations and chunkings; ==, !=, partial_cmp, <, <=, >, >= and cmp in every supported pairing and operand order (including &[u8], [u8], Vec, &str, str, String) against comparing the plain bytes; for equal contents the complete call sequence given to a Hasher must be the same in every representation of a type, and for values with a Borrow implementation the same as that of the borrowed form; map lookups by the borrowed form. Non-trivial: both contents are non-empty, and a queue of at least 2 chunks takes part.",
    run,
    guided: true,
    balance: true,
};

/// Records the exact calls, so that two values hash equally under every hasher.
#[derive(Default, PartialEq, Debug)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(1);
        self.0.extend_from_slice(&(b.len() as u32).to_le_bytes());
        self.0.extend_from_slice(b);
    }
    fn write_u8(&mut self, i: u8) {
        self.0.push(2);
        self.0.push(i);
    }
    fn write_usize(&mut self, i: usize) {
        self.0.push(3);
        self.0.extend_from_slice(&i.to_le_bytes());
    }
    fn write_u64(&mut self, i: u64) {
        self.0.push(4);
        self.0.extend_from_slice(&i.to_le_bytes());
    }
}
fn rec<T: Hash + ?Sized>(x: &T) -> Rec {
    let mut r = Rec::default();
    x.hash(&mut r);
    r
}
fn sip<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
macro_rules! eq {
    ($cx:expr, $what:expr, $a:expr, $b:expr, $w:expr) => {{
        ck!($cx, Content, ($a == $b) == $w, "{} == is {}", $what, !$w);
        ck!($cx, Content, ($a != $b) != $w, "{} != is {}", $what, $w);
    }};
}
macro_rules! ord {
    ($cx:expr, $what:expr, $a:expr, $b:expr, $w:expr) => {{
        let w: Ordering = $w;
        let g = PartialOrd::partial_cmp($a, $b);
        ck!($cx, Content, g == Some(w), "{} partial_cmp is {g:?}, must be {w:?}", $what);
        ck!($cx, Content, PartialOrd::lt($a, $b) == w.is_lt() && PartialOrd::le($a, $b) == w.is_le() && PartialOrd::gt($a, $b) == w.is_gt() && PartialOrd::ge($a, $b) == w.is_ge(), "{}: <, <=, >, >= disagree with {w:?}", $what);
    }};
}

struct Held {
    b: Vec<u8>,
    bd: ByteData<'static>,
    sh: SharedBytes,
    q: ByteQueue<'static>,
    t: Option<(StringData<'static>, StringQueue<'static>)>,
}
fn hold(s: &mut Src, cx: &mut Ctx, ar: &Arena, c: &[u8]) -> Held {
    Held {
        b: c.to_vec(),
        bd: gen_bd(s, cx, ar, c).0,
        sh: gen_shared(s, c).0,
        q: if s.ratio(1, 4) && c.len() < 80 {
            let k = 1 + s.usize(3);
            c.chunks(k).map(ByteData::from_chunk_slice).collect()
        } else {
            gen_queue(s, cx, ar, c)
        },
        t: core::str::from_utf8(c).ok().map(|t| (gen_sd(s, cx, ar, t).0, gen_squeue(s, cx, ar, t))),
    }
}

#[inline(never)]
pub fn run(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let (x, y) = if s.ratio(1, 5) { same_memory(s, cx, &ar) } else { two(s, cx, &ar) };
    let (a, b) = (&x.b, &y.b);
    note!(cx, "chunks {:?} and {:?}", x.q.chunks().map(|c| c.len()).collect::<Vec<_>>(), y.q.chunks().map(|c| c.len()).collect::<Vec<_>>());
    if !a.is_empty() && !b.is_empty() && x.q.chunk_len() + y.q.chunk_len() > 2 {
        cx.nontrivial();
    }
    bytes_pairs(cx, &x, &y);
    text_pairs(cx, &x, &y);
    hashes(s, cx, &ar, &x, &y);
    drop((x, y));
    ar.check_owners(cx);
}

/// Two values whose pieces are ranges of one piece of memory: the same pieces, pieces with the same start or the same
/// end but another length, the same bytes cut elsewhere, or pieces of a second copy of that memory.
#[inline(never)]
fn same_memory(s: &mut Src, cx: &mut Ctx, ar: &Arena) -> (Held, Held) {
    let n = 1 + gen_len(s).min(400);
    let m = if s.bool() {
        // periodic, so that different ranges hold equal bytes
        let k = 1 + s.usize(24);
        (0..n).map(|i| b'a' + (i % k) as u8).collect::<Vec<u8>>()
    } else if s.bool() {
        fill_text(s.usize(2), s.below(1 << 16), n).into_bytes()
    } else {
        gen_bytes_n(s, n)
    };
    let m = if m.is_empty() { vec![b'x'] } else { m };
    let n = m.len();
    // what the pieces are taken from
    let of = match s.usize(3) {
        0 => ByteData::from_static(ar.bytes(&m)),
        1 => ByteData::from_borrowed(ar.bytes(&m)),
        _ => ByteData::from_shared(SharedBytes::from_slice(&m)),
    };
    let piece = |r: &(usize, usize)| of.sliced(r.0..r.1);
    let k = 1 + s.usize(4);
    let mut xs: Vec<(usize, usize)> = Vec::new();
    for _ in 0..k {
        let a = if s.bool() { xs.last().map_or(0, |r| r.1) } else { s.usize(n + 1) };
        xs.push((a, s.range(a, n)));
    }
    let mut ys = xs.clone();
    for _ in 0..s.usize(3) {
        if ys.is_empty() {
            break;
        }
        let i = s.usize(ys.len());
        let (a, b) = ys[i];
        match s.usize(5) {
            0 => ys[i].1 = s.range(a, n), // the same start
            1 => ys[i].0 = s.usize(b + 1),                        // the same end
            2 => {
                // the same bytes, cut once more
                let c = s.range(a, b);
                ys[i].1 = c;
                ys.insert(i + 1, (c, b));
            }
            3 => {
                ys.remove(i);
            }
            _ => {
                // the boundary with the next piece moves
                let c = s.range(a, b);
                ys[i].1 = c;
                if i + 1 < ys.len() {
                    ys[i + 1].0 = c.min(ys[i + 1].1);
                }
            }
        }
    }
    note!(cx, "ranges {xs:?} and {ys:?} of {:?}", Sh(&m));
    let a: Vec<u8> = xs.iter().flat_map(|r| &m[r.0..r.1]).copied().collect();
    let b: Vec<u8> = ys.iter().flat_map(|r| &m[r.0..r.1]).copied().collect();
    let (mut x, mut y) = (hold(s, cx, ar, &a), hold(s, cx, ar, &b));
    x.q = xs.iter().map(piece).collect();
    y.q = ys.iter().map(piece).collect();
    if xs.len() == 1 && ys.len() == 1 {
        x.bd = piece(&xs[0]);
        y.bd = piece(&ys[0]);
        let whole = SharedBytes::from_slice(&m);
        x.sh = whole.sliced_range(xs[0].0..xs[0].1);
        y.sh = whole.sliced_range(ys[0].0..ys[0].1);
    }
    for h in [&mut x, &mut y] {
        let pieces: Option<Vec<StringData<'static>>> = h.q.chunks().map(|c| StringData::try_from_bytedata(c.clone()).ok()).collect();
        if let (Some(t), Some(p)) = (&mut h.t, pieces) {
            t.1 = p.into_iter().collect();
        }
    }
    (x, y)
}

#[inline(never)]
fn two(s: &mut Src, cx: &mut Ctx, ar: &Arena) -> (Held, Held) {
    let text = s.ratio(2, 3);
    let a = if text { gen_text(s).into_bytes() } else { gen_bytes(s) };
    let n = a.len();
    let b = match s.weighted(&[5, 3, 5, 2, 1]) {
        0 => a.clone(),
        1 => {
            let k = s.usize(n + 1);
            a[..k].to_vec()
        }
        2 => {
            let mut b = a.clone();
            if n > 0 {
                let k = if s.bool() { n - 1 } else { s.usize(n) };
                b[k] = match s.usize(4) {
                    0 => b[k].wrapping_add(1),
                    1 => b[k].wrapping_sub(1),
                    2 => b[k] ^ 0x80,
                    _ => s.below(256) as u8,
                };
            }
            b
        }
        3 => {
            let mut b = a.clone();
            b.push(s.below(256) as u8);
            b
        }
        _ => gen_bytes(s),
    };
    let (a, b) = if s.bool() { (a, b) } else { (b, a) };
    note!(cx, "{:?} and {:?}", Sh(&a), Sh(&b));
    (hold(s, cx, ar, &a), hold(s, cx, ar, &b))
}

#[inline(never)]
fn bytes_pairs(cx: &mut Ctx, x: &Held, y: &Held) {
    let (xs, ys) = (&x.b[..], &y.b[..]);
    let (w, o) = (xs == ys, xs.cmp(ys));
    eq!(cx, "ByteData, ByteData", x.bd, y.bd, w);
    eq!(cx, "ByteData, [u8]", x.bd, *ys, w);
    eq!(cx, "ByteData, &[u8]", x.bd, ys, w);
    eq!(cx, "[u8], ByteData", *xs, y.bd, w);
    eq!(cx, "&[u8], ByteData", xs, y.bd, w);
    eq!(cx, "ByteData, Vec", x.bd, y.b, w);
    eq!(cx, "Vec, ByteData", x.b, y.bd, w);
    ck!(cx, Content, x.bd.eq_const(&y.bd) == w, "eq_const is {}", !w);
    ck!(cx, Content, x.bd.eq_slice(ys) == w, "eq_slice is {}", !w);
    ord!(cx, "ByteData, ByteData", &x.bd, &y.bd, o);
    ord!(cx, "ByteData, [u8]", &x.bd, ys, o);
    ord!(cx, "[u8], ByteData", xs, &y.bd, o);
    ord!(cx, "ByteData, Vec", &x.bd, &y.b, o);
    ord!(cx, "Vec, ByteData", &x.b, &y.bd, o);
    ck!(cx, Content, Ord::cmp(&x.bd, &y.bd) == o, "ByteData cmp is {:?}, must be {o:?}", Ord::cmp(&x.bd, &y.bd));

    eq!(cx, "SharedBytes, SharedBytes", x.sh, y.sh, w);
    ck!(cx, Content, x.sh.eq_const(&y.sh) == w, "eq_const of SharedBytes is {}", !w);
    eq!(cx, "[u8], SharedBytes", *xs, y.sh, w);
    eq!(cx, "Vec, SharedBytes", x.b, y.sh, w);
    eq!(cx, "SharedBytes, [u8]", x.sh, *ys, w);
    eq!(cx, "SharedBytes, &[u8]", x.sh, ys, w);
    eq!(cx, "SharedBytes, Vec", x.sh, y.b, w);
    ord!(cx, "SharedBytes, SharedBytes", &x.sh, &y.sh, o);
    ord!(cx, "[u8], SharedBytes", xs, &y.sh, o);
    ord!(cx, "Vec, SharedBytes", &x.b, &y.sh, o);
    ord!(cx, "SharedBytes, [u8]", &x.sh, ys, o);
    ord!(cx, "SharedBytes, &[u8]", &x.sh, &ys, o);
    ord!(cx, "SharedBytes, Vec", &x.sh, &y.b, o);
    ck!(cx, Content, Ord::cmp(&x.sh, &y.sh) == o, "SharedBytes cmp is {:?}, must be {o:?}", Ord::cmp(&x.sh, &y.sh));

    eq!(cx, "ByteQueue, ByteQueue", x.q, y.q, w);
    eq!(cx, "ByteQueue, [u8]", x.q, *ys, w);
    eq!(cx, "ByteQueue, &[u8]", x.q, ys, w);
    eq!(cx, "ByteQueue, ByteData", x.q, y.bd, w);
    eq!(cx, "ByteData, ByteQueue", x.bd, y.q, w);
    eq!(cx, "[u8], ByteQueue", *xs, y.q, w);
    eq!(cx, "&[u8], ByteQueue", xs, y.q, w);
    eq!(cx, "ByteQueue, Vec", x.q, y.b, w);
    eq!(cx, "Vec, ByteQueue", x.b, y.q, w);
    ord!(cx, "ByteQueue, ByteQueue", &x.q, &y.q, o);
    ord!(cx, "ByteQueue, [u8]", &x.q, ys, o);
    ord!(cx, "[u8], ByteQueue", xs, &y.q, o);
    ord!(cx, "ByteQueue, Vec", &x.q, &y.b, o);
    ord!(cx, "Vec, ByteQueue", &x.b, &y.q, o);
    ck!(cx, Content, Ord::cmp(&x.q, &y.q) == o, "ByteQueue cmp is {:?}, must be {o:?}", Ord::cmp(&x.q, &y.q));
}

#[inline(never)]
fn text_pairs(cx: &mut Ctx, x: &Held, y: &Held) {
    let (xs, ys) = (&x.b[..], &y.b[..]);
    let (w, o) = (xs == ys, xs.cmp(ys));
    if let Some((d, q)) = &x.t {
        let xt = d.as_str();
        let _ = xt;
        eq!(cx, "StringData, [u8]", *d, *ys, w);
        eq!(cx, "StringData, &[u8]", *d, ys, w);
        eq!(cx, "StringData, Vec", *d, y.b, w);
        eq!(cx, "StringData, ByteData", *d, y.bd, w);
        ord!(cx, "StringData, [u8]", d, ys, o);
        ord!(cx, "StringData, Vec", d, &y.b, o);
        ord!(cx, "StringData, ByteData", d, &y.bd, o);
        ck!(cx, Content, d.eq_slice(ys) == w, "StringData::eq_slice is {}", !w);
        eq!(cx, "StringQueue, ByteQueue", *q, y.q, w);
        eq!(cx, "StringQueue, ByteData", *q, y.bd, w);
        eq!(cx, "StringQueue, [u8]", *q, *ys, w);
        eq!(cx, "StringQueue, &[u8]", *q, ys, w);
        ord!(cx, "StringQueue, ByteQueue", q, &y.q, o);
        ord!(cx, "StringQueue, ByteData", q, &y.bd, o);
        ord!(cx, "StringQueue, [u8]", q, ys, o);
        ord!(cx, "StringQueue, &[u8]", q, &ys, o);
    }
    if let Some((d, q)) = &y.t {
        eq!(cx, "[u8], StringData", *xs, *d, w);
        eq!(cx, "&[u8], StringData", xs, *d, w);
        eq!(cx, "Vec, StringData", x.b, *d, w);
        eq!(cx, "ByteData, StringData", x.bd, *d, w);
        ord!(cx, "[u8], StringData", xs, d, o);
        ord!(cx, "Vec, StringData", &x.b, d, o);
        ord!(cx, "ByteData, StringData", &x.bd, d, o);
        eq!(cx, "ByteQueue, StringData", x.q, *d, w);
        eq!(cx, "ByteQueue, StringQueue", x.q, *q, w);
        eq!(cx, "ByteData, StringQueue", x.bd, *q, w);
        eq!(cx, "[u8], StringQueue", *xs, *q, w);
        eq!(cx, "&[u8], StringQueue", xs, *q, w);
        ord!(cx, "ByteQueue, StringQueue", &x.q, q, o);
        ord!(cx, "ByteData, StringQueue", &x.bd, q, o);
        ord!(cx, "[u8], StringQueue", xs, q, o);
        let yt = core::str::from_utf8(ys).unwrap();
        eq!(cx, "ByteQueue, str", x.q, *yt, w);
        eq!(cx, "ByteQueue, &str", x.q, yt, w);
    }
    if let Some((_, _)) = &x.t {
        let xt = core::str::from_utf8(xs).unwrap();
        eq!(cx, "str, ByteQueue", *xt, y.q, w);
        eq!(cx, "&str, ByteQueue", xt, y.q, w);
        let Some((yd, yq)) = &y.t else { return };
        let (xd, xq) = x.t.as_ref().unwrap();
        eq!(cx, "StringData, ByteQueue", *xd, y.q, w);
        let (yt, ysg) = (core::str::from_utf8(ys).unwrap(), String::from_utf8(ys.to_vec()).unwrap());
        let xsg = xt.to_string();
        eq!(cx, "StringData, StringData", *xd, *yd, w);
        eq!(cx, "StringData, str", *xd, *yt, w);
        eq!(cx, "StringData, &str", *xd, yt, w);
        eq!(cx, "str, StringData", *xt, *yd, w);
        eq!(cx, "&str, StringData", xt, *yd, w);
        eq!(cx, "StringData, String", *xd, ysg, w);
        eq!(cx, "String, StringData", xsg, *yd, w);
        ck!(cx, Content, xd.eq_const(yd) == w && xd.eq_str(yt) == w, "StringData::eq_const or eq_str is {}", !w);
        ord!(cx, "StringData, StringData", xd, yd, o);
        ord!(cx, "StringData, str", xd, yt, o);
        ord!(cx, "str, StringData", xt, yd, o);
        ord!(cx, "StringData, String", xd, &ysg, o);
        ord!(cx, "String, StringData", &xsg, yd, o);
        ck!(cx, Content, Ord::cmp(xd, yd) == o, "StringData cmp is {:?}, must be {o:?}", Ord::cmp(xd, yd));
        eq!(cx, "StringQueue, StringQueue", *xq, *yq, w);
        eq!(cx, "StringQueue, StringData", *xq, *yd, w);
        eq!(cx, "StringData, StringQueue", *xd, *yq, w);
        eq!(cx, "StringQueue, str", *xq, *yt, w);
        eq!(cx, "StringQueue, &str", *xq, yt, w);
        eq!(cx, "str, StringQueue", *xt, *yq, w);
        eq!(cx, "&str, StringQueue", xt, *yq, w);
        ord!(cx, "StringQueue, StringQueue", xq, yq, o);
        ord!(cx, "StringQueue, StringData", xq, yd, o);
        ord!(cx, "StringData, StringQueue", xd, yq, o);
        ord!(cx, "StringQueue, str", xq, yt, o);
        ord!(cx, "StringQueue, &str", xq, &yt, o);
        ord!(cx, "str, StringQueue", xt, yq, o);
        ck!(cx, Content, Ord::cmp(xq, yq) == o, "StringQueue cmp is {:?}, must be {o:?}", Ord::cmp(xq, yq));
    }
}

#[inline(never)]
fn hashes(s: &mut Src, cx: &mut Ctx, ar: &Arena, x: &Held, y: &Held) {
    let (xs, ys) = (&x.b[..], &y.b[..]);
    let r = rec(xs);
    ck!(cx, Content, rec(&x.bd) == r && sip(&x.bd) == sip(xs), "ByteData hashes differently from its bytes");
    ck!(cx, Content, rec(&x.sh) == r && sip(&x.sh) == sip(xs), "SharedBytes hashes differently from its bytes");
    // the same content in another chunking
    let q2 = gen_queue(s, cx, ar, xs);
    ck!(cx, Content, rec(&x.q) == rec(&q2) && sip(&x.q) == sip(&q2), "equal queues of {:?} and {:?} chunks hash differently", x.q.chunk_len(), q2.chunk_len());
    if xs == ys {
        ck!(cx, Content, rec(&x.bd) == rec(&y.bd) && rec(&x.sh) == rec(&y.sh) && rec(&x.q) == rec(&y.q), "equal values hash differently");
        if let (Some((a, _)), Some((b, _))) = (&x.t, &y.t) {
            ck!(cx, Content, rec(a) == rec(b), "equal StringData values hash differently");
        }
    }
    if let Some((d, _)) = &x.t {
        let t = core::str::from_utf8(xs).unwrap();
        ck!(cx, Content, rec(d) == rec(t) && sip(d) == sip(t), "StringData hashes differently from its text");
    }
    if s.ratio(1, 4) {
        let mut h: HashMap<ByteData<'static>, u8> = HashMap::new();
        h.insert(x.bd.clone(), 1);
        h.insert(y.bd.clone(), 2);
        ck!(cx, Content, h.get(xs) == Some(if xs == ys { &2 } else { &1 }) && h.get(ys) == Some(&2), "HashMap lookup by slice");
        let mut t: BTreeMap<ByteData<'static>, u8> = BTreeMap::new();
        t.insert(x.bd.clone(), 1);
        t.insert(y.bd.clone(), 2);
        ck!(cx, Content, t.get(xs) == Some(if xs == ys { &2 } else { &1 }) && t.get(ys) == Some(&2), "BTreeMap lookup by slice");
        if let (Some((a, _)), Some((b, _))) = (&x.t, &y.t) {
            let (at, bt) = (core::str::from_utf8(xs).unwrap(), core::str::from_utf8(ys).unwrap());
            let mut h: HashMap<StringData<'static>, u8> = HashMap::new();
            h.insert(a.clone(), 1);
            h.insert(b.clone(), 2);
            ck!(cx, Content, h.get(at) == Some(if xs == ys { &2 } else { &1 }) && h.get(bt) == Some(&2), "HashMap lookup by str");
        }
        let mut h: HashMap<ByteQueue<'static>, u8> = HashMap::new();
        h.insert(x.q.clone(), 1);
        h.insert(y.q.clone(), 2);
        ck!(cx, Content, h.get(&q2) == Some(if xs == ys { &2 } else { &1 }), "HashMap lookup by a queue in another chunking");
    }
}
