// Contents, positions and ranges; shared with the crate for the configuration without alloc.
use covrt::engine::mix;

// ------------------------------------------------------------------ contents
/// A length, weighted towards the limits of the inline representation and other boundaries.
pub fn gen_len(s: &mut Src) -> usize {
    match s.weighted(&[6, 12, 20, 12, 16, 6, 3]) {
        0 => 0,
        1 => s.range(1, 6),
        2 => s.range(12, 18),
        3 => s.range(28, 36),
        4 => s.usize(100),
        5 => s.usize(400),
        _ => {
            // around the powers of two
            let k = if s.ratio(1, 30) { *s.pick(&[13, 16, 16, 14, 15, BIG]) } else { s.range(6, 12) };
            if k == BIG {
                return gen_len_big(s);
            }
            if s.bool() {
                return s.range((1 << k) - 1, (1 << k) + 1);
            }
            s.range((1 << k) - 6, (1 << k) + 9)
        }
    }
}
const BIG: usize = 17;
/// Around 128 KiB to 1 MiB; a case may then take more steps.
#[inline(never)]
pub fn gen_len_big(s: &mut Src) -> usize {
    let k = *s.pick(&[17, 18, 18, 20]);
    covrt::cov_more(6000 << k);
    s.range((1 << k) - 6, (1 << k) + 9) + if s.bool() { s.usize(1 << (k - 1)) } else { 0 }
}
/// As `gen_len`, without the big ones.
pub fn gen_len_small(s: &mut Src) -> usize {
    match s.weighted(&[2, 6, 8, 4, 3]) {
        0 => 0,
        1 => s.range(1, 6),
        2 => s.range(12, 18),
        3 => s.range(19, 40),
        _ => s.usize(80),
    }
}
#[inline(never)]
pub fn fill(style: usize, seed: u64, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        let r = mix(seed.wrapping_mul(0x1_0001).wrapping_add(i as u64));
        v.push(match style {
            0 => (i as u8).wrapping_add(seed as u8).wrapping_mul(1),
            1 => b"ab"[(r & 1) as usize],
            2 => r as u8,
            3 => b"a\nb\r"[(r & 3) as usize],
            4 => (r % 95) as u8 + 32,
            _ => seed as u8,
        });
    }
    v
}
/// Bytes of length `n`.
pub fn gen_bytes_n(s: &mut Src, n: usize) -> Vec<u8> {
    let style = s.weighted(&[4, 2, 4, 1, 2, 1]);
    let seed = s.below(1 << 16);
    fill(style, seed, n)
}
pub fn gen_bytes(s: &mut Src) -> Vec<u8> {
    if s.ratio(1, 6) {
        return gen_text(s).into_bytes();
    }
    let n = gen_len(s);
    gen_bytes_n(s, n)
}
pub fn gen_bytes_small(s: &mut Src) -> Vec<u8> {
    if s.ratio(1, 6) {
        return gen_text_small(s).into_bytes();
    }
    let n = gen_len_small(s);
    gen_bytes_n(s, n)
}
pub const CHARS: &[char] = &[
    'a', 'b', 'c', 'd', '\n', ' ', 'é', 'ß', '€', '한', '😀', '\u{0}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}',
    '\u{ffff}', '\u{10000}', '\u{10ffff}', '\r', '\t', '"', '\\', '\'', 'Z', '0', '9', '\u{a0}', '\u{2003}', 'İ',
];
#[inline(never)]
pub fn fill_text(style: usize, seed: u64, n: usize) -> String {
    let mut t = String::with_capacity(n);
    let mut i = 0_u64;
    while t.len() < n {
        let r = mix(seed.wrapping_mul(0x1_0001).wrapping_add(i));
        i += 1;
        let c = match style {
            0 => (b'a' + (i.wrapping_add(seed) % 26) as u8) as char,
            1 => CHARS[(r % CHARS.len() as u64) as usize],
            2 => ['a', 'b', '\n'][(r % 3) as usize],
            3 => ['é', '€', '😀', 'x'][(r % 4) as usize],
            4 => [' ', '\t', 'a', '\u{a0}', '\u{2003}'][(r % 5) as usize],
            5 => [' ', '\n', '\u{3000}', '\u{85}', '\u{2003}', '\t'][(r % 6) as usize],
            _ => {
                let mut x = (r >> 8) as u32 & 0x1f_ffff;
                loop {
                    if let Some(c) = char::from_u32(x) {
                        break c;
                    }
                    x >>= 1;
                }
            }
        };
        if t.len() + c.len_utf8() <= n {
            t.push(c);
        } else {
            while t.len() < n {
                t.push('.');
            }
        }
    }
    t
}
pub fn gen_text_n(s: &mut Src, n: usize) -> String {
    let style = s.weighted(&[3, 5, 3, 4, 1, 1, 1]);
    let seed = s.below(1 << 16);
    fill_text(style, seed, n)
}
pub fn gen_text(s: &mut Src) -> String {
    let n = gen_len(s);
    gen_text_n(s, n)
}
pub fn gen_text_small(s: &mut Src) -> String {
    let n = gen_len_small(s);
    gen_text_n(s, n)
}

/// How many times something is repeated: around a power of two.
pub fn gen_many(s: &mut Src) -> usize {
    let k = 1 << s.range(1, 10);
    s.range(k - 1, k + 1)
}

// ------------------------------------------------------------------ positions and ranges
/// A position in `0..=n`, sometimes beyond.
pub fn gen_pos(s: &mut Src, n: usize) -> usize {
    match s.weighted(&[12, 3, 3, 1, 1]) {
        0 => s.usize(n + 1),
        1 => n,
        2 => 0,
        3 => n + 1 + s.usize(3),
        _ => *s.pick(&[usize::MAX, usize::MAX - 1, 1 << 32, (1 << 32) + 1, (1 << 32) - 1, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 56]),
    }
}
/// A position in `0..=n`.
pub fn gen_pos_in(s: &mut Src, n: usize) -> usize {
    match s.weighted(&[10, 2, 2]) {
        0 => s.usize(n + 1),
        1 => n,
        _ => 0,
    }
}
#[derive(Clone, Debug)]
pub enum R {
    Full,
    From(usize),
    To(usize),
    ToIncl(usize),
    Range(usize, usize),
    Incl(usize, usize),
    Bounds(core::ops::Bound<usize>, core::ops::Bound<usize>),
}
/// A range over a sequence of `n` items: mostly valid, sometimes not.
pub fn gen_range(s: &mut Src, n: usize) -> R {
    let valid = s.ratio(7, 8);
    gen_range_v(s, n, valid)
}
pub fn gen_range_v(s: &mut Src, n: usize, valid: bool) -> R {
    use core::ops::Bound::{Excluded, Included, Unbounded};
    let kind = s.weighted(&[6, 1, 4, 4, 2, 3, 3]);
    let (mut a, mut b) = if valid { (gen_pos_in(s, n), gen_pos_in(s, n)) } else { (gen_pos(s, n), gen_pos(s, n)) };
    if (valid || s.bool()) && a > b {
        core::mem::swap(&mut a, &mut b);
    }
    match kind {
        0 => R::Range(a, b),
        1 => R::Full,
        2 => R::From(a),
        3 => R::To(b),
        4 => {
            if valid && b == 0 {
                R::To(0)
            } else {
                R::ToIncl(if valid { b - 1 } else { b })
            }
        }
        5 => {
            if valid && b == 0 {
                R::Range(0, 0)
            } else {
                R::Incl(a, if valid { b - 1 } else { b })
            }
        }
        _ => {
            let st = match s.usize(3) {
                0 => Included(a),
                1 if a > 0 => Excluded(a - 1),
                1 => Included(a),
                _ => Unbounded,
            };
            let en = match s.usize(3) {
                0 => Excluded(b),
                1 if b > 0 => Included(b - 1),
                1 => Excluded(b),
                _ => Unbounded,
            };
            R::Bounds(st, en)
        }
    }
}
/// A range over a text, mostly at character boundaries.
pub fn gen_range_str(s: &mut Src, t: &str) -> R {
    let r = gen_range(s, t.len());
    if s.ratio(1, 8) {
        return r;
    }
    let fl = |mut p: usize| {
        if p <= t.len() {
            while !t.is_char_boundary(p) {
                p -= 1;
            }
        }
        p
    };
    match r {
        R::Full => R::Full,
        R::From(a) => R::From(fl(a)),
        R::To(b) => R::To(fl(b)),
        R::Range(a, b) => R::Range(fl(a), fl(b)),
        R::ToIncl(b) => match fl(b.saturating_add(1)) {
            0 => R::To(0),
            x => R::ToIncl(x - 1),
        },
        R::Incl(a, b) => match fl(b.saturating_add(1)) {
            0 => R::Range(fl(a), 0),
            x => R::Incl(fl(a), x - 1),
        },
        R::Bounds(a, b) => R::Bounds(a, b),
    }
}
/// Evaluates `$e` with `$r` bound to a range of the type the value stands for.
macro_rules! with_range {
    ($v:expr, $r:ident, $e:expr) => {
        match $v {
            $crate::gen::R::Full => { let $r = ..; $e }
            $crate::gen::R::From(a) => { let $r = a..; $e }
            $crate::gen::R::To(b) => { let $r = ..b; $e }
            $crate::gen::R::ToIncl(b) => { let $r = ..=b; $e }
            $crate::gen::R::Range(a, b) => { let $r = a..b; $e }
            $crate::gen::R::Incl(a, b) => { let $r = a..=b; $e }
            $crate::gen::R::Bounds(a, b) => { let $r = (a, b); $e }
        }
    };
}
#[allow(unused_imports)]
pub(crate) use with_range;
impl R {
    /// The positions this range stands for in a sequence of `n` items, if it is within it.
    pub fn resolve(&self, n: usize) -> Option<(usize, usize)> {
        use core::ops::Bound::{Excluded, Included, Unbounded};
        let (a, b) = match *self {
            R::Full => (0, n),
            R::From(a) => (a, n),
            R::To(b) => (0, b),
            R::ToIncl(b) => (0, b.checked_add(1)?),
            R::Range(a, b) => (a, b),
            R::Incl(a, b) => (a, b.checked_add(1)?),
            R::Bounds(a, b) => (
                match a {
                    Included(x) => x,
                    Excluded(x) => x.checked_add(1)?,
                    Unbounded => 0,
                },
                match b {
                    Included(x) => x.checked_add(1)?,
                    Excluded(x) => x,
                    Unbounded => n,
                },
            ),
        };
        (a <= b && b <= n).then_some((a, b))
    }
    pub fn resolve_str(&self, t: &str) -> Option<(usize, usize)> {
        let (a, b) = self.resolve(t.len())?;
        (t.is_char_boundary(a) && t.is_char_boundary(b)).then_some((a, b))
    }
}

/// Cuts `n` items into pieces; zero-length pieces are possible.
pub fn gen_cuts(s: &mut Src, n: usize) -> Vec<usize> {
    let mut v = Vec::new();
    let k = s.weighted(&[2, 3, 4, 4, 3, 3, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1]);
    for _ in 0..k {
        v.push(s.usize(n + 1));
    }
    v.sort_unstable();
    v
}
pub fn gen_align(s: &mut Src) -> usize {
    1 << s.weighted(&[2, 2, 4, 3, 3, 2, 1, 1, 1, 1, 1, 1, 1])
}
/// Shows bytes shortly.
pub struct Sh<'a>(pub &'a [u8]);
impl core::fmt::Debug for Sh<'_> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        if self.0.len() <= 48 {
            write!(f, "b\"{}\"", self.0.escape_ascii())
        } else {
            write!(f, "b\"{}..\"[{}]", self.0[..40].escape_ascii(), self.0.len())
        }
    }
}
/// An iterator with a valid, but drawn, size hint (a lower bound at most, an upper bound at least what it yields).
pub struct Hinted<I>(I, usize, Option<usize>);
pub fn gen_hinted<I: ExactSizeIterator>(s: &mut Src, it: I) -> Hinted<I> {
    let n = it.len();
    let lo = [n, 0, n / 2][s.usize(3)];
    let hi = match s.usize(6) {
        0 => Some(n),
        1 => None,
        2 => Some(usize::MAX),
        3 => Some(usize::MAX / 2),
        4 => Some(n + s.usize(40)),
        _ => Some(1 << 33),
    };
    Hinted(it, lo, hi)
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.1 = self.1.saturating_sub(1);
        self.2 = self.2.map(|h| h.saturating_sub(1));
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, self.2)
    }
}
