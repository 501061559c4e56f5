//! Inline chunks on their own (C01).
use crate::gen::*;
use bytedata::ByteChunk;
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};

pub const CHUNK: Module = Module {
    name: "chunk",
    rule: "a case is a ByteChunk made by each of its constructors from 0 to 20 bytes (more than 14 must panic) and a history of up to 12 slicings (by reference, by value, in place, with valid, reversed and outside ranges of every range type) and copies, against a byte slice; a rejected range must panic and leave the chunk. Non-trivial: at least 3 slicings of which one starts after the beginning.",
    run,
    guided: true,
    balance: true,
};
#[inline(never)]
fn check(cx: &mut Ctx, c: &ByteChunk, m: &[u8], what: &str) {
    ck!(cx, Content, c.as_slice() == m, "{what} holds {:?}, must hold {:?}", Sh(c.as_slice()), Sh(m));
    ck!(cx, Content, c.len() == m.len() && c.is_empty() == m.is_empty(), "{what} reports len {} and is_empty {} with {} bytes", c.len(), c.is_empty(), m.len());
}
fn arr(c: &[u8]) -> ByteChunk {
    macro_rules! of {
        ($($n:literal)*) => { match c.len() { $($n => ByteChunk::from_array::<$n>(c.try_into().unwrap()),)* _ => unreachable!() } };
    }
    of!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20)
}
pub fn run(s: &mut Src, cx: &mut Ctx) {
    let n = s.usize(21);
    let c = gen_bytes_n(s, n);
    let c = &c[..c.len().min(20)];
    let how = s.usize(3);
    note!(cx, "#{how} {:?}", Sh(c));
    let r = cx.catch(|| match how {
        0 => ByteChunk::from_slice(c),
        1 => arr(c),
        _ if c.len() == 1 => ByteChunk::from_byte(c[0]),
        _ if c.is_empty() => ByteChunk::default(),
        _ => ByteChunk::from_slice(c),
    });
    let mut ch = match r {
        Ok(x) => x,
        Err(p) => {
            ck!(cx, Panic, c.len() > ByteChunk::LEN, "making a chunk of {} bytes panics: {p}", c.len());
            return;
        }
    };
    ck!(cx, Content, c.len() <= 14 && ByteChunk::LEN == 14, "a chunk of {} bytes can be made", c.len());
    let mut m = c.to_vec();
    check(cx, &ch, &m, "the new chunk");
    let steps = s.range(1, 12);
    let mut off = false;
    let mut did = 0;
    for _ in 0..steps {
        if s.exhausted() {
            break;
        }
        let r = gen_range(s, m.len());
        let w = r.resolve(m.len());
        let way = s.usize(3);
        note!(cx, "slice #{way} {r:?}");
        let g = with_range!(r.clone(), x, match way {
            0 => cx.catch(|| ch.sliced(x)),
            1 => cx.catch(|| ch.into_sliced(x)),
            _ => {
                let mut k = ch;
                let g = cx.catch(|| k.make_sliced(x));
                if g.is_err() {
                    check(cx, &k, &m, "a chunk after a rejected make_sliced");
                }
                g.map(|()| k)
            }
        });
        check(cx, &ch, &m, "the sliced chunk");
        match (g, w) {
            (Ok(g), Some((a, z))) => {
                check(cx, &g, &m[a..z], "the slice");
                off |= a > 0 && a < z;
                did += 1;
                if s.bool() {
                    ch = g;
                    m = m[a..z].to_vec();
                }
            }
            (Ok(g), None) => ck!(cx, Content, false, "slicing {} bytes by {r:?} gives {:?}", m.len(), Sh(g.as_slice())),
            (Err(p), Some(_)) => ck!(cx, Panic, false, "slicing {} bytes by {r:?} panics: {p}", m.len()),
            (Err(_), None) => cx.label("rejected"),
        }
    }
    if did >= 3 && off {
        cx.nontrivial();
    }
}
