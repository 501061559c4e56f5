//! std::io::Read, BufRead and Write against a cursor over the plain bytes (C11).
use crate::gen::*;
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder};
use covrt::engine::{Ctx, Kind, Module, Src};
use covrt::{ck, note};
use std::io::{BufRead, IoSlice, IoSliceMut, Read, Write};

pub const READ: Module = Module {
    name: "ioread",
    rule: "a case is one content in a ByteData, SharedBytes or ByteQueue and a history of up to 16 read calls in any mix (read and read_vectored with buffers of size 0 to beyond the rest, several empty buffers among them, read_exact, read_to_end and read_to_string into a vector already holding data, read_until, read_line, fill_buf with partial consume, bytes, take, chained copy, clones read independently), against a cursor over the bytes; buffers are pre-filled and lie in heap blocks of their exact size. Checked: the count, the bytes stored, the rest of the buffer untouched, what is left in the reader, the reader it was cloned from unchanged. Non-trivial: at least 3 calls moved data.",
    run,
    guided: true,
    balance: true,
};
pub const WRITE: Module = Module {
    name: "iowrite",
    rule: "a case is a SharedBytesBuilder (fresh, with capacity, aligned, or thawed) or a ByteQueue and a history of up to 16 write calls (write, write_all, write_vectored with empty and many buffers, write_fmt, flush, io::copy), against a byte vector: the reported number of leading bytes is appended and nothing else changes. Non-trivial: at least 3 calls wrote data.",
    run: run_write,
    guided: true,
    balance: true,
};

trait Rd: BufRead + Clone {
    fn all(&self) -> Vec<u8>;
}
impl Rd for ByteData<'static> {
    fn all(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
}
impl Rd for SharedBytes {
    fn all(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
}
impl Rd for ByteQueue<'static> {
    fn all(&self) -> Vec<u8> {
        let mut v = Vec::new();
        for c in self.chunks() {
            v.extend_from_slice(c);
        }
        if v.len() != self.len() || self.chunks().any(|c| c.is_empty()) || self.chunk_len() != self.chunks().count() {
            v.push(b'!');
            v.extend(self.len().to_le_bytes());
        }
        v
    }
}

fn size(s: &mut Src, left: usize) -> usize {
    match s.weighted(&[2, 6, 3, 2, 2]) {
        0 => 0,
        1 => s.usize(left + 1),
        2 => s.usize(20),
        3 => left,
        _ => left + 1 + s.usize(40),
    }
}

#[inline(never)]
pub fn run(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let c = gen_bytes(s);
    match s.weighted(&[3, 2, 4]) {
        0 => {
            let r = gen_bd(s, cx, &ar, &c).0;
            drive(s, cx, r, &c, "ByteData");
        }
        1 => {
            let r = gen_shared(s, &c).0;
            drive(s, cx, r, &c, "SharedBytes");
        }
        _ => {
            let r = gen_queue(s, cx, &ar, &c);
            note!(cx, "chunks {:?}", r.chunks().map(|c| c.len()).collect::<Vec<_>>());
            drive(s, cx, r, &c, "ByteQueue");
        }
    }
    ar.check_owners(cx);
}

fn drive<T: Rd>(s: &mut Src, cx: &mut Ctx, r: T, c: &[u8], ty: &str) {
    note!(cx, "{ty} of {:?}", Sh(c));
    let mut rs: Vec<(T, usize)> = vec![(r, 0)];
    let mut moved = 0;
    for _ in 0..s.range(1, 16) {
        if s.exhausted() {
            break;
        }
        let i = s.usize(rs.len());
        let (r, pos) = &mut rs[i];
        let m = &c[*pos..];
        let took = step(s, cx, r, m);
        *pos += took;
        moved += usize::from(took != 0);
        let p = *pos;
        if rs.len() < 3 && s.ratio(1, 8) {
            let n = rs[i].0.clone();
            note!(cx, "clone of [{i}]");
            rs.push((n, p));
        }
        for (k, (r, pos)) in rs.iter().enumerate() {
            let a = r.all();
            ck!(cx, Content, a == c[*pos..], "{ty} reader [{k}] holds {:?} after reading from [{i}], must hold {:?}", Sh(&a), Sh(&c[*pos..]));
        }
    }
    if moved >= 3 {
        cx.nontrivial();
    }
}

/// One call on a reader with `m` left; gives how many bytes were taken.
#[inline(never)]
fn step<T: Rd>(s: &mut Src, cx: &mut Ctx, r: &mut T, m: &[u8]) -> usize {
    let n = m.len();
    match s.weighted(&[6, 5, 2, 2, 4, 5, 2, 2, 2, 1, 1]) {
        0 => {
            let k = size(s, n);
            note!(cx, "read {k} of {n}");
            let mut b = vec![0xA5; k].into_boxed_slice();
            let got = r.read(&mut b);
            let Ok(g) = got else { cx.fail(Kind::Content, format!("read fails: {got:?}")) };
            ck!(cx, Content, g == k.min(n), "read into {k} bytes with {n} left gives {g}");
            ck!(cx, Content, b[..g] == m[..g], "read gives {:?}, must give {:?}", Sh(&b[..g]), Sh(&m[..g]));
            ck!(cx, Content, b[g..].iter().all(|x| *x == 0xA5), "read changes the buffer beyond the {g} bytes it reports");
            g
        }
        1 => {
            let k = s.usize(6);
            let mut bufs: Vec<Box<[u8]>> = (0..k).map(|_| vec![0xA5; if s.ratio(1, 4) { 0 } else { size(s, n / 2) }].into_boxed_slice()).collect();
            let total: usize = bufs.iter().map(|b| b.len()).sum();
            note!(cx, "read_vectored {:?} of {n}", bufs.iter().map(|b| b.len()).collect::<Vec<_>>());
            let got = {
                let mut v: Vec<IoSliceMut<'_>> = bufs.iter_mut().map(|b| IoSliceMut::new(b)).collect();
                r.read_vectored(&mut v)
            };
            let Ok(g) = got else { cx.fail(Kind::Content, format!("read_vectored fails: {got:?}")) };
            ck!(cx, Content, g <= total.min(n) && (g != 0 || total.min(n) == 0), "read_vectored into {total} bytes with {n} left gives {g}");
            let flat: Vec<u8> = bufs.concat();
            ck!(cx, Content, flat[..g] == m[..g], "read_vectored gives {:?}, must give {:?}", Sh(&flat[..g]), Sh(&m[..g]));
            ck!(cx, Content, flat[g..].iter().all(|x| *x == 0xA5), "read_vectored changes the buffers beyond the {g} bytes it reports");
            g
        }
        2 => {
            let k = size(s, n);
            note!(cx, "read_exact {k} of {n}");
            let mut b = vec![0xA5; k].into_boxed_slice();
            let got = r.read_exact(&mut b);
            ck!(cx, Content, got.is_ok() == (k <= n), "read_exact of {k} with {n} left gives {got:?}");
            if got.is_ok() {
                ck!(cx, Content, b[..] == m[..k], "read_exact gives {:?}, must give {:?}", Sh(&b), Sh(&m[..k]));
                k
            } else {
                n - r.all().len().min(n)
            }
        }
        3 => {
            let mut v = gen_bytes_small(s);
            let pre = v.clone();
            let utf = s.bool();
            note!(cx, "read_to_{} of {n}", if utf { "string" } else { "end" });
            if utf {
                let mut t = String::from("é|");
                let got = r.read_to_string(&mut t);
                match core::str::from_utf8(m) {
                    Ok(w) => {
                        ck!(cx, Content, matches!(got, Ok(g) if g == n), "read_to_string gives {got:?}, must give {n}");
                        ck!(cx, Content, t.strip_prefix("é|") == Some(w), "read_to_string gives {t:?}");
                    }
                    Err(_) => {
                        ck!(cx, Utf8, got.is_err(), "read_to_string accepts {:?}", Sh(m));
                        ck!(cx, Utf8, core::str::from_utf8(t.as_bytes()).is_ok(), "read_to_string leaves invalid UTF-8 behind");
                        return n - r.all().len().min(n);
                    }
                }
            } else {
                let got = r.read_to_end(&mut v);
                ck!(cx, Content, matches!(got, Ok(g) if g == n), "read_to_end gives {got:?}, must give {n}");
                ck!(cx, Content, v.starts_with(&pre) && v[pre.len()..] == *m, "read_to_end gives {:?}", Sh(&v));
            }
            n
        }
        4 => {
            let k = s.usize(n + 1);
            let b = m.get(k).copied().unwrap_or(s.below(256) as u8);
            let w = m.iter().position(|x| *x == b).map_or(n, |x| x + 1);
            let pre = gen_bytes_small(s);
            let mut v = pre.clone();
            note!(cx, "read_until {b}, at {w} of {n}");
            let got = r.read_until(b, &mut v);
            ck!(cx, Content, matches!(got, Ok(g) if g == w), "read_until({b}) gives {got:?}, must give {w}");
            ck!(cx, Content, v.starts_with(&pre) && v[pre.len()..] == m[..w], "read_until({b}) gives {:?}, must append {:?}", Sh(&v), Sh(&m[..w]));
            w
        }
        5 => {
            let Ok(f) = r.fill_buf() else { cx.fail(Kind::Content, "fill_buf fails".to_string()) };
            ck!(cx, Content, f.is_empty() == (n == 0) && m.starts_with(f), "fill_buf gives {:?}, there is {:?} left", Sh(f), Sh(m));
            let k = gen_pos_in(s, f.len());
            note!(cx, "fill_buf gives {}, consume {k}", f.len());
            r.consume(k);
            k
        }
        6 => {
            note!(cx, "read_line");
            let mut t = String::from("x");
            let w = m.iter().position(|x| *x == b'\n').map_or(n, |x| x + 1);
            let got = r.read_line(&mut t);
            match core::str::from_utf8(&m[..w]) {
                Ok(l) => {
                    ck!(cx, Content, matches!(got, Ok(g) if g == w) && &t[1..] == l, "read_line gives {got:?} and {t:?}");
                }
                Err(_) => ck!(cx, Utf8, got.is_err() && core::str::from_utf8(t.as_bytes()).is_ok(), "read_line accepts {:?}", Sh(&m[..w])),
            }
            w
        }
        7 => {
            let k = s.usize(5);
            note!(cx, "{k} of bytes()");
            for (j, b) in r.by_ref().bytes().take(k).enumerate() {
                ck!(cx, Content, b.as_ref().ok() == m.get(j), "bytes() gives {b:?} as byte {j}");
            }
            k.min(n)
        }
        8 => {
            let k = size(s, n);
            note!(cx, "take({k}) read to the end");
            let mut v = Vec::new();
            let got = r.by_ref().take(k as u64).read_to_end(&mut v);
            let w = k.min(n);
            ck!(cx, Content, matches!(got, Ok(g) if g == w) && v == m[..w], "take({k}) gives {got:?} and {:?}", Sh(&v));
            w
        }
        9 => {
            note!(cx, "io::copy into a builder");
            let mut b = SharedBytesBuilder::new();
            let got = std::io::copy(r, &mut b);
            ck!(cx, Content, matches!(got, Ok(g) if g == n as u64) && b.as_slice() == m, "io::copy gives {got:?}");
            n
        }
        _ => {
            note!(cx, "split lines of a clone");
            let b = if s.bool() { b'\n' } else { m.first().copied().unwrap_or(0) };
            let got: Vec<Vec<u8>> = r.clone().split(b).map(|x| x.unwrap_or_default()).collect();
            let mut want: Vec<&[u8]> = m.split(|x| *x == b).collect();
            if want.last().is_some_and(|x| x.is_empty()) {
                want.pop();
            }
            ck!(cx, Content, got == want, "split({b}) gives {} parts, must give {}", got.len(), want.len());
            0
        }
    }
}

enum W {
    B(SharedBytesBuilder),
    Q(ByteQueue<'static>),
}
#[inline(never)]
pub fn run_write(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let mut m = Vec::new();
    let mut keep = None;
    let mut w = match s.weighted(&[2, 2, 1, 2, 2, 3]) {
        0 => W::B(SharedBytesBuilder::new()),
        1 => W::B(SharedBytesBuilder::with_capacity(s.usize(200))),
        2 => W::B(SharedBytesBuilder::with_alignment(gen_align(s).min(512))),
        3 => {
            m = gen_bytes(s);
            let sh = gen_shared(s, &m).0;
            if s.bool() {
                keep = Some((sh.clone(), m.clone()));
            }
            W::B(SharedBytesBuilder::from(sh))
        }
        4 => W::Q(ByteQueue::new()),
        _ => {
            m = gen_bytes(s);
            W::Q(gen_queue(s, cx, &ar, &m))
        }
    };
    note!(cx, "{} of {:?}", if matches!(w, W::B(_)) { "builder" } else { "queue" }, Sh(&m));
    let mut wrote = 0;
    for _ in 0..s.range(1, 16) {
        if s.exhausted() {
            break;
        }
        let before = m.len();
        write_step(s, cx, &mut w, &mut m);
        wrote += usize::from(m.len() > before);
        let all = match &w {
            W::B(b) => {
                ck!(cx, Content, b.len() == m.len() && b.capacity() >= m.len(), "the builder has length {}, must have {}", b.len(), m.len());
                b.as_slice().to_vec()
            }
            W::Q(q) => q.all(),
        };
        ck!(cx, Content, all == m, "after writing, the content is {:?}, must be {:?}", Sh(&all), Sh(&m));
        if let Some((k, c)) = &keep {
            ck!(cx, Alias, k.as_slice() == &c[..], "writing changes another handle");
        }
        if m.len() > 70_000 {
            break;
        }
    }
    if wrote >= 3 {
        cx.nontrivial();
    }
    drop((w, keep));
    ar.check_owners(cx);
}
#[inline(never)]
fn write_step(s: &mut Src, cx: &mut Ctx, w: &mut W, m: &mut Vec<u8>) {
    let op = s.weighted(&[5, 3, 5, 2, 1, 1]);
    let io: &mut dyn Write = match w {
        W::B(b) => b,
        W::Q(q) => q,
    };
    match op {
        0 => {
            let c = gen_bytes(s);
            note!(cx, "write {:?}", Sh(&c));
            match io.write(&c) {
                Ok(g) => {
                    ck!(cx, Content, g <= c.len() && (g > 0 || c.is_empty()), "write of {} bytes gives {g}", c.len());
                    m.extend_from_slice(&c[..g]);
                }
                Err(e) => ck!(cx, Content, false, "write fails: {e}"),
            }
        }
        1 => {
            let c = gen_bytes(s);
            note!(cx, "write_all {:?}", Sh(&c));
            let g = io.write_all(&c);
            ck!(cx, Content, g.is_ok(), "write_all fails: {g:?}");
            m.extend_from_slice(&c);
        }
        2 => {
            let k = s.usize(8);
            let cs: Vec<Box<[u8]>> = (0..k).map(|_| match s.weighted(&[4, 11, 1]) {
                0 => Vec::new(),
                1 => gen_bytes_small(s),
                _ => gen_bytes(s),
            }
            .into_boxed_slice()).collect();
            note!(cx, "write_vectored {:?}", cs.iter().map(|c| c.len()).collect::<Vec<_>>());
            let v: Vec<IoSlice<'_>> = cs.iter().map(|c| IoSlice::new(c)).collect();
            let flat = cs.concat();
            match io.write_vectored(&v) {
                Ok(g) => {
                    ck!(cx, Content, g <= flat.len() && (g > 0 || flat.is_empty()), "write_vectored of {} bytes gives {g}", flat.len());
                    m.extend_from_slice(&flat[..g]);
                }
                Err(e) => ck!(cx, Content, false, "write_vectored of {} bytes fails: {e}", flat.len()),
            }
        }
        3 => {
            let t = gen_text_small(s);
            let x = s.below(100_000);
            note!(cx, "write_fmt");
            let g = io.write_fmt(format_args!("{t}-{x:>8}"));
            ck!(cx, Content, g.is_ok(), "write_fmt fails: {g:?}");
            m.extend_from_slice(format!("{t}-{x:>8}").as_bytes());
        }
        4 => {
            let g = io.flush();
            ck!(cx, Content, g.is_ok(), "flush fails: {g:?}");
        }
        _ => {
            let c = gen_bytes_small(s);
            let mut r: &[u8] = &c;
            note!(cx, "io::copy {:?}", Sh(&c));
            let g = std::io::copy(&mut r, &mut { io });
            ck!(cx, Content, matches!(g, Ok(k) if k == c.len() as u64), "io::copy gives {g:?}");
            m.extend_from_slice(&c);
        }
    }
}
