//! The constant-evaluable helpers and the character decoders against the standard library (C10, C05).
use crate::gen::*;
use bytedata::StrSliceResult;
use bytedata::Utf8CharIndices;
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};

pub const CONSTS: Module = Module {
    name: "consts",
    rule: "a case calls every constant helper (const_eq, const_starts_with, const_ends_with, const_slice, const_slice_str, const_or_str, const_or_bytes, const_find_bytes, const_split_once_byte, const_split_once_bytes, const_split_once_str, build_const_bytes with sizes 0 to 64) on one haystack, several needles (parts, near misses, empty, longer than the haystack) and several ranges (valid, reversed, out of bounds, at and inside characters, at the very end) and compares with the standard library; haystacks lie in heap blocks of their exact size, so a read past the end is seen. Non-trivial: the haystack has at least 2 bytes and a needle or range is neither empty nor whole.",
    run,
    guided: true,
    balance: true,
};
pub const UTF8: Module = Module {
    name: "utf8dec",
    rule: "a case decodes one byte string (valid text, in part of many kilobytes, text with changed, inserted, removed or cut bytes, all 256 last bytes after a boundary-weighted prefix, a block of 1024 consecutive scalar values in their canonical and overlong forms) with const_utf8_char_next and Utf8CharIndices (iterator and next_const), step by step against std::str::from_utf8: the same characters at the same positions, an error exactly where std cannot decode, resumption after one byte, the size hint bracketing what is still to come. Non-trivial: the input is not ASCII.",
    run: run_utf8,
    guided: true,
    balance: true,
};

fn find(m: &[u8], nd: &[u8]) -> Option<usize> {
    (0..=m.len()).find(|i| m[*i..].starts_with(nd))
}

#[inline(never)]
pub fn run(s: &mut Src, cx: &mut Ctx) {
    let text = s.ratio(2, 3);
    let v: Box<[u8]> = if text { gen_text_small(s).into_bytes() } else { gen_bytes_small(s) }.into();
    let h = &v[..];
    let n = h.len();
    note!(cx, "haystack {:?}", Sh(h));
    for _ in 0..s.range(1, 6) {
        let a = s.usize(n + 1);
        let l = s.usize(n - a + 1);
        let mut nd = h[a..a + l].to_vec();
        match s.weighted(&[6, 2, 2, 1, 1, 2]) {
            1 if l > 0 => {
                let k = s.usize(l);
                nd[k] = nd[k].wrapping_add(1 + s.usize(255) as u8);
            }
            2 => nd.push(s.below(256) as u8),
            3 => nd.clear(),
            4 => nd = gen_bytes_small(s),
            5 => nd.truncate(1 + s.usize(3)),
            _ => {}
        }
        if n >= 2 && !nd.is_empty() && nd.len() < n {
            cx.nontrivial();
        }
        let nd: Box<[u8]> = nd.into();
        let nd = &nd[..];
        note!(cx, "needle {:?}", Sh(nd));
        ck!(cx, Content, bytedata::const_eq(h, nd) == (h == nd) && bytedata::const_eq(nd, h) == (h == nd), "const_eq({:?}, {:?}) is {}", Sh(h), Sh(nd), h != nd);
        ck!(cx, Content, bytedata::const_starts_with(h, nd) == h.starts_with(nd), "const_starts_with({:?}, {:?})", Sh(h), Sh(nd));
        ck!(cx, Content, bytedata::const_ends_with(h, nd) == h.ends_with(nd), "const_ends_with({:?}, {:?})", Sh(h), Sh(nd));
        let want = find(h, nd);
        let got = bytedata::const_find_bytes(h, nd);
        ck!(cx, Content, got == want, "const_find_bytes({:?}, {:?}) is {got:?}, must be {want:?}", Sh(h), Sh(nd));
        let got = bytedata::const_split_once_bytes(h, nd);
        ck!(cx, Content, got == want.map(|k| h.split_at(k)), "const_split_once_bytes({:?}, {:?}) is {got:?}", Sh(h), Sh(nd));
        let b = nd.first().copied().unwrap_or(0);
        let got = bytedata::const_split_once_byte(h, b);
        let wb = h.iter().position(|x| *x == b).map(|k| h.split_at(k));
        ck!(cx, Content, got == wb, "const_split_once_byte({:?}, {b}) is {got:?}", Sh(h));
        if let (Ok(t), Ok(nt)) = (core::str::from_utf8(h), core::str::from_utf8(nd)) {
            let got = bytedata::const_split_once_str(t, nt);
            ck!(cx, Content, got.map(|(a, b)| (a.as_bytes(), b.as_bytes())) == t.find(nt).map(|k| h.split_at(k)), "const_split_once_str({t:?}, {nt:?}) is {got:?}");
            if let Some((a, b)) = got {
                ck!(cx, Utf8, core::str::from_utf8(a.as_bytes()).is_ok() && core::str::from_utf8(b.as_bytes()).is_ok(), "const_split_once_str({t:?}, {nt:?}) cuts a character");
            }
            let (o, d) = if s.bool() { (Some(nt), t) } else { (None, t) };
            ck!(cx, Content, bytedata::const_or_str(o, d) == o.unwrap_or(d), "const_or_str");
        }
        let (o, d) = if s.bool() { (Some(nd), h) } else { (None, h) };
        ck!(cx, Content, bytedata::const_or_bytes(o, d) == o.unwrap_or(d), "const_or_bytes");
        // ranges
        let (a, z) = match s.weighted(&[6, 2, 2]) {
            0 => {
                let (a, z) = (s.usize(n + 1), s.usize(n + 1));
                (a.min(z), a.max(z))
            }
            1 => (gen_pos(s, n), gen_pos(s, n)),
            _ => (n, gen_pos(s, n)),
        };
        note!(cx, "range {a}..{z}");
        let got = cx.catch(|| bytedata::const_slice(h, a..z));
        match got {
            Ok(g) => {
                ck!(cx, Content, g == h.get(a..z), "const_slice({:?}, {a}..{z}) is {g:?}", Sh(h));
                ck!(cx, Alias, g.is_none_or(|g| g.as_ptr() as usize == h.as_ptr() as usize + a), "const_slice gives other memory");
            }
            Err(p) => ck!(cx, Panic, false, "const_slice({:?}, {a}..{z}) panics: {p}", Sh(h)),
        }
        if let Ok(t) = core::str::from_utf8(h) {
            match cx.catch(|| bytedata::const_slice_str(t, a..z)) {
                Err(p) => ck!(cx, Panic, false, "const_slice_str({t:?}, {a}..{z}) panics: {p}"),
                Ok(g) => {
                    let want = if a > z || z > n {
                        StrSliceResult::OutOfBounds
                    } else {
                        t.get(a..z).map_or(StrSliceResult::InvalidUtf8, StrSliceResult::Success)
                    };
                    if let StrSliceResult::Success(x) = g {
                        ck!(cx, Utf8, core::str::from_utf8(x.as_bytes()).is_ok(), "const_slice_str({t:?}, {a}..{z}) gives invalid UTF-8");
                    }
                    ck!(cx, Content, g == want, "const_slice_str({t:?}, {a}..{z}) is {g:?}, must be {want:?}");
                    let x = t.get(a..z);
                    ck!(cx, Content, g.ok() == x && g.is_ok() == x.is_some() && g.is_err() == x.is_none() && g.err() == if x.is_some() { None } else { Some(g) }, "StrSliceResult accessors for {g:?}");
                    let u = cx.catch(|| g.unwrap());
                    ck!(cx, Content, u.as_ref().ok().copied() == x, "StrSliceResult::unwrap of {g:?}");
                }
            }
        }
        // building
        let parts: Vec<&[u8]> = match s.usize(4) {
            0 => vec![],
            1 => vec![nd],
            2 => vec![nd, b"", &h[..n.min(20)]],
            _ => vec![&h[..n.min(9)], nd, &h[..n.min(3)]],
        };
        let cat: Vec<u8> = parts.concat();
        macro_rules! build {
            ($n:literal) => {{
                let got = cx.catch(|| bytedata::build_const_bytes([0xEE_u8; $n], &parts));
                match got {
                    Ok((arr, l)) => {
                        ck!(cx, Content, cat.len() <= $n, "build_const_bytes of {} bytes into {} does not panic", cat.len(), $n);
                        ck!(cx, Content, l == cat.len() && arr[..l] == cat[..] && arr[l..].iter().all(|x| *x == 0xEE), "build_const_bytes gives {:?} ({l})", Sh(&arr));
                    }
                    Err(p) => ck!(cx, Panic, cat.len() > $n, "build_const_bytes of {} bytes into {} panics: {p}", cat.len(), $n),
                }
            }};
        }
        match s.usize(5) {
            0 => build!(0),
            1 => build!(1),
            2 => build!(14),
            3 => build!(33),
            _ => build!(64),
        }
    }
    // the macros, evaluated at compile time
    const A: &[u8] = b"ab";
    const T: &str = "é€";
    static X: &[u8] = bytedata::concat_bytes_static!(A, b"", b"\xff\x00", A);
    static Y: &str = bytedata::concat_str_static!(T, "", "x", T, "😀",);
    static Z: &str = bytedata::concat_str_static!();
    ck!(cx, Content, X == b"ab\xff\x00ab" && Y == "é€xé€😀" && Z.is_empty(), "concat macros give {X:?} {Y:?} {Z:?}");
    const E: bool = bytedata::const_eq(A, b"ab");
    const F: Option<usize> = bytedata::const_find_bytes(b"xaab", A);
    const G: StrSliceResult<'static> = bytedata::const_slice_str(T, 0..2);
    const H: (u32, u32) = bytedata::const_utf8_char_next(T.as_bytes());
    ck!(cx, Content, E && F == Some(2) && G == StrSliceResult::Success("é") && H == (0xe9, 2), "constant evaluation gives {E} {F:?} {G:?} {H:?}");
}

/// The first character of `b` as std decodes it.
fn first(b: &[u8]) -> Option<char> {
    let b = &b[..b.len().min(4)];
    let ok = match core::str::from_utf8(b) {
        Ok(t) => t,
        Err(e) => core::str::from_utf8(&b[..e.valid_up_to()]).unwrap(),
    };
    ok.chars().next()
}
fn decode(cx: &mut Ctx, data: &[u8], deep: bool) {
    let v: Box<[u8]> = data.into();
    let v = &v[..];
    let got = bytedata::const_utf8_char_next(v);
    let want = first(v).map_or((0, 0), |c| (c as u32, c.len_utf8() as u32));
    ck!(cx, Content, got == want, "const_utf8_char_next({:?}) is {got:?}, must be {want:?}", Sh(v));
    if !deep {
        return;
    }
    let mut it = Utf8CharIndices::new(v);
    let mut c = Utf8CharIndices::new(v);
    let mut off = 0;
    // what is to come
    let mut plan: Vec<Result<(usize, char), usize>> = Vec::new();
    while off < v.len() {
        match first(&v[off..]) {
            Some(ch) => {
                plan.push(Ok((off, ch)));
                off += ch.len_utf8();
            }
            None => {
                plan.push(Err(off));
                off += 1;
            }
        }
    }
    off = 0;
    for (k, w) in plan.iter().enumerate() {
        let left = plan.len() - k;
        let h = Iterator::size_hint(&it);
        ck!(cx, Content, h.0 <= left && h.1.is_none_or(|x| x >= left), "size hint {h:?} with {left} items of {:?} to come", Sh(v));
        let h = c.size_hint();
        ck!(cx, Content, h.0 <= left && h.1 >= left, "size hint {h:?} with {left} items of {:?} to come", Sh(v));
        ck!(cx, Content, core::ptr::eq(c.remaining(), &v[off..]) || c.remaining() == &v[off..], "remaining of {:?} at {off} is {:?}", Sh(v), Sh(c.remaining()));
        let got = it.next();
        let gc = c.next_const();
        let ok = match (w, &got, gc) {
            (Ok(w), Some(Ok(g)), Ok((n, o, ch))) => {
                c = n;
                off += w.1.len_utf8();
                g == w && (o, ch) == *w
            }
            (Err(w), Some(Err(g)), Err((n, e))) => {
                c = n;
                off += 1;
                g.valid_up_to == *w && (1..=4).contains(&g.error_len) && e == *g
            }
            _ => false,
        };
        ck!(cx, Content, ok, "decoding {:?} at {:?} gives {got:?} and {:?}", Sh(v), w, gc.map(|x| (x.1, x.2)).map_err(|x| x.1));
    }
    for _ in 0..2 {
        let g = it.next();
        ck!(cx, Content, g.is_none(), "decoding {:?} gives {g:?} at the end", Sh(v));
    }
    match c.next_const() {
        Err((_, e)) => ck!(cx, Content, e.error_len == 0 && e.valid_up_to == v.len(), "next_const of {:?} at the end gives {e:?}", Sh(v)),
        Ok(x) => ck!(cx, Content, false, "next_const of {:?} at the end gives {:?}", Sh(v), (x.1, x.2)),
    }
}
fn enc(x: u32, w: usize) -> Vec<u8> {
    match w {
        1 => vec![x as u8],
        2 => vec![0xC0 | (x >> 6) as u8 & 0x1f, 0x80 | (x & 63) as u8],
        3 => vec![0xE0 | (x >> 12) as u8 & 0xf, 0x80 | (x >> 6 & 63) as u8, 0x80 | (x & 63) as u8],
        _ => vec![0xF0 | (x >> 18) as u8 & 0xf, 0x80 | (x >> 12 & 63) as u8, 0x80 | (x >> 6 & 63) as u8, 0x80 | (x & 63) as u8],
    }
}

#[inline(never)]
pub fn run_utf8(s: &mut Src, cx: &mut Ctx) {
    match s.weighted(&[4, 4, 3]) {
        0 => {
            let mut b = match s.weighted(&[5, 1, 5]) {
                0 => gen_text_small(s).into_bytes(),
                1 => gen_text(s).into_bytes(),
                _ => (0..s.range(1, 6)).map(|_| *s.pick(CHARS)).collect::<String>().into_bytes(),
            };
            for _ in 0..s.usize(4) {
                let n = b.len();
                if n == 0 {
                    break;
                }
                let k = s.usize(n);
                match s.usize(5) {
                    0 => b[k] = s.below(256) as u8,
                    1 => {
                        b.remove(k);
                    }
                    2 => b.truncate(k),
                    3 => b.insert(k, *s.pick(&[0x80, 0xbf, 0xc0, 0xc1, 0xe0, 0xed, 0xf0, 0xf4, 0xf5, 0xf8, 0xff, 0xc2])),
                    _ => b[k] ^= 1 << s.usize(8),
                }
            }
            note!(cx, "{:?}", Sh(&b));
            if !b.is_ascii() {
                cx.nontrivial();
            }
            decode(cx, &b, true);
        }
        1 => {
            // every last byte after a prefix
            let n = s.usize(4);
            let mut b = Vec::new();
            for k in 0..n {
                b.push(if k == 0 {
                    *s.pick(&[0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xc0, 0xc1, 0xf7, 0xf8, 0xfb, 0xfc, 0xfe, 0xff, 0x80, 0xbf, 0x7f])
                } else if s.bool() {
                    *s.pick(&[0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0x7f, 0xc0])
                } else {
                    0x80 + s.below(64) as u8
                });
            }
            note!(cx, "{:?} and every byte", Sh(&b));
            cx.nontrivial();
            let tail = s.bool();
            for x in 0..=255 {
                b.push(x);
                if tail {
                    b.push(b'z');
                }
                decode(cx, &b, true);
                b.truncate(n);
            }
        }
        _ => {
            let base = (s.below(1088 + 16) as u32) << 10;
            let short = s.usize(5);
            note!(cx, "values {base:#x} to {:#x} in every width, {short}", base + 1023);
            cx.nontrivial();
            for x in base..base + 1024 {
                for w in 1..=4 {
                    let lim = [0, 0x100, 0x800, 0x1_0000, 0x40_0000][w];
                    if x < lim {
                        let mut e = enc(x, w);
                        match short {
                            0 => e.truncate(w - 1),
                            1 => e.push(b'a'),
                            _ => {}
                        }
                        decode(cx, &e, x % 7 == 0);
                    }
                }
            }
        }
    }
}
