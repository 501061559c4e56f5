//! Histories over StringData values against String (C01, C05, C07, C18).
use crate::gen::*;
use bytedata::{ByteData, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData};
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};
use std::borrow::{Borrow, Cow};

pub const STRING: Module = Module {
    name: "string",
    rule: "a case is a history of up to 30 operations over up to 6 StringData values made in every representation (clone, slice by value / reference / in place with every range type at and off character boundaries, split_at, split_once_on, split_on, take_while, take_line, trims, sharing with and without a range, conversions to and from String, Cow, Vec, ByteData, SharedBytes, builders, character iteration), each with a String model; every value and piece is validated as UTF-8. Non-trivial: at least 4 operations on existing values and a multi-byte character present.",
    run,
    guided: true,
    balance: true,
};
pub const UTF8IN: Module = Module {
    name: "utf8in",
    rule: "a case gives one byte string (text with a mutated, inserted, removed or truncated byte, assembled ill-formed sequences, or random bytes) to every checked string constructor in several representations: accepted exactly when std accepts it, and handed back unchanged where the constructor returns its input. Non-trivial: the bytes are not ASCII.",
    run: run_utf8,
    guided: true,
    balance: true,
};

struct Ent {
    v: StringData<'static>,
    m: String,
}
fn check(cx: &mut Ctx, e: &Ent, full: bool) {
    let b = e.v.as_bytes();
    ck!(cx, Utf8, core::str::from_utf8(b).is_ok(), "a string value holds invalid UTF-8 {:?}", Sh(b));
    ck!(cx, Content, b == e.m.as_bytes(), "a string value holds {:?}, must hold {:?}", e.v.as_str(), e.m);
    if !full {
        return;
    }
    let (v, m) = (&e.v, &e.m[..]);
    ck!(cx, Content, v.as_str() == m && v.len() == m.len() && v.is_empty() == m.is_empty(), "as_str, len or is_empty of a string value");
    let r: &str = v;
    ck!(cx, Content, r == m, "Deref gives other text");
    let r: &str = v.as_ref();
    ck!(cx, Content, r == m, "AsRef<str> gives other text");
    let r: &[u8] = v.as_ref();
    ck!(cx, Content, r == m.as_bytes(), "AsRef<[u8]> gives other bytes");
    let r: &str = v.borrow();
    ck!(cx, Content, r == m, "Borrow gives other text");
    let r: &ByteData<'static> = v.as_ref();
    ck!(cx, Content, r.as_slice() == m.as_bytes() && v.as_bytedata().as_slice() == m.as_bytes(), "as_bytedata gives other bytes");
    if let Some(x) = v.as_borrowed() {
        ck!(cx, Content, x == m, "as_borrowed gives other text");
    }
    ck!(cx, Content, v.iter().eq(m.chars()), "iter gives other characters");
    ck!(cx, Content, v.into_iter().eq(m.chars()), "into_iter gives other characters");
}
fn push(s: &mut Src, cx: &mut Ctx, pool: &mut Vec<Ent>, e: Ent) {
    check(cx, &e, true);
    if pool.len() >= 6 {
        let i = s.usize(pool.len());
        pool.swap_remove(i);
    }
    pool.push(e);
}
/// A needle: a part of the text at character boundaries, a short text, or nothing.
pub fn gen_needle_str(s: &mut Src, m: &str) -> String {
    match s.weighted(&[6, 2, 1]) {
        0 if !m.is_empty() => {
            let idx: Vec<usize> = m.char_indices().map(|x| x.0).chain([m.len()]).collect();
            let a = s.usize(idx.len());
            let z = (a + s.usize(4)).min(idx.len() - 1);
            m[idx[a]..idx[z]].to_string()
        }
        2 => String::new(),
        _ => {
            let n = s.range(1, 2);
            (0..n).map(|_| *s.pick(CHARS)).collect()
        }
    }
}

pub fn run(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let mut pool: Vec<Ent> = Vec::new();
    let steps = s.range(2, 30);
    let (mut worked, mut multi) = (0, false);
    for _ in 0..steps {
        if s.exhausted() {
            break;
        }
        if pool.is_empty() || s.ratio(1, 8) {
            let t = gen_text(s);
            let (v, how) = gen_sd(s, cx, &ar, &t);
            note!(cx, "new from {how}: {t:?}");
            multi |= t.len() != t.chars().count();
            push(s, cx, &mut pool, Ent { v, m: t });
        } else {
            worked += 1;
            step(s, cx, &ar, &mut pool);
        }
        for e in &pool {
            check(cx, e, false);
        }
    }
    drop(pool);
    ar.check_owners(cx);
    if worked >= 4 && multi {
        cx.nontrivial();
    }
}

/// The result of a slicing call which must give `want`, or panic when there is none.
/// An empty range inside a character may be refused or give nothing.
fn sliced_ok(cx: &mut Ctx, what: &str, m: &str, r: &R, got: &Result<StringData<'static>, String>) -> Option<String> {
    match (got, r.resolve_str(m)) {
        (Ok(v), Some((a, z))) => {
            ck!(cx, Content, v.as_bytes() == m[a..z].as_bytes(), "{what}({r:?}) of {m:?} gives {:?}", Sh(v.as_bytes()));
            Some(m[a..z].to_string())
        }
        (Err(_), None) => {
            cx.label("range rejected");
            None
        }
        (Ok(v), None) => {
            let empty = matches!(r.resolve(m.len()), Some((a, z)) if a == z);
            ck!(cx, Utf8, v.is_empty() && empty, "{what}({r:?}) of {m:?} gives {:?} instead of a panic", Sh(v.as_bytes()));
            Some(String::new())
        }
        (Err(p), Some(_)) => {
            ck!(cx, Panic, false, "{what}({r:?}) of {m:?} panics: {p}");
            None
        }
    }
}

#[inline(never)]
fn step(s: &mut Src, cx: &mut Ctx, ar: &Arena, pool: &mut Vec<Ent>) {
    let i = s.usize(pool.len());
    let Ent { v, m } = &mut pool[i];
    let n = m.len();
    match s.weighted(&[3, 5, 4, 4, 4, 4, 3, 3, 3, 4, 4, 3, 3, 2, 2, 3, 2, 3, 2]) {
        0 => {
            note!(cx, "[{i}] clone");
            let e = Ent { v: v.clone(), m: m.clone() };
            push(s, cx, pool, e);
        }
        1 => {
            let r = gen_range_str(s, m);
            note!(cx, "[{i}] sliced {r:?}");
            let got = cx.catch(|| with_range!(r.clone(), x, v.sliced(x)));
            if let Some(w) = sliced_ok(cx, "sliced", m, &r, &got) {
                push(s, cx, pool, Ent { v: got.unwrap(), m: w });
            }
        }
        2 => {
            let r = gen_range_str(s, m);
            note!(cx, "[{i}] into_sliced {r:?}");
            let c = v.clone();
            let got = cx.catch(|| with_range!(r.clone(), x, c.into_sliced(x)));
            if let Some(w) = sliced_ok(cx, "into_sliced", m, &r, &got) {
                push(s, cx, pool, Ent { v: got.unwrap(), m: w });
            }
        }
        3 => {
            let r = gen_range_str(s, m);
            note!(cx, "[{i}] make_sliced {r:?}");
            let got = cx.catch(|| with_range!(r.clone(), x, v.make_sliced(x)));
            let got = got.map(|()| v.clone());
            if let Some(w) = sliced_ok(cx, "make_sliced", m, &r, &got) {
                *m = w;
            }
            check(cx, &pool[i], true);
        }
        4 => {
            let r = gen_range_str(s, m);
            note!(cx, "[{i}] into_shared_range {r:?}");
            let c = v.clone();
            let got = cx.catch(|| -> StringData<'static> { with_range!(r.clone(), x, c.into_shared_range(x)) });
            if let Some(w) = sliced_ok(cx, "into_shared_range", m, &r, &got) {
                push(s, cx, pool, Ent { v: got.unwrap(), m: w });
            }
        }
        5 => {
            let k = gen_pos(s, n);
            note!(cx, "[{i}] split_at {k}");
            let c = v.clone();
            match cx.catch(|| c.split_at(k)) {
                Ok((a, b)) => {
                    ck!(cx, Utf8, m.is_char_boundary(k), "split_at({k}) of {m:?} does not panic");
                    let (x, y) = (m[..k].to_string(), m[k..].to_string());
                    push(s, cx, pool, Ent { v: a, m: x });
                    push(s, cx, pool, Ent { v: b, m: y });
                }
                Err(p) => ck!(cx, Panic, !m.is_char_boundary(k), "split_at({k}) of {m:?} panics: {p}"),
            }
        }
        6 => {
            let nd = gen_needle_str(s, m);
            note!(cx, "[{i}] split_once_on {nd:?}");
            match (v.clone().split_once_on(&nd), m.find(&nd)) {
                (Ok((a, b)), Some(k)) => {
                    let (x, y) = (m[..k].to_string(), m[k..].to_string());
                    push(s, cx, pool, Ent { v: a, m: x });
                    push(s, cx, pool, Ent { v: b, m: y });
                }
                (Err(c), None) => {
                    let e = Ent { v: c, m: m.clone() };
                    push(s, cx, pool, e);
                }
                (g, w) => ck!(cx, Content, false, "split_once_on({nd:?}) of {m:?} is {}, the needle is at {w:?}", g.is_ok()),
            }
        }
        7 => {
            let nd = gen_needle_str(s, m);
            note!(cx, "[{i}] split_on {nd:?}");
            let got: Vec<StringData<'static>> = v.clone().split_on(&nd).take(n + 3).collect();
            let want: Vec<&str> = if m.is_empty() {
                Vec::new()
            } else if nd.is_empty() {
                vec![&m[..]]
            } else {
                m.split(&nd[..]).collect()
            };
            for g in &got {
                ck!(cx, Utf8, core::str::from_utf8(g.as_bytes()).is_ok(), "split_on({nd:?}) of {m:?} gives the invalid piece {:?}", Sh(g.as_bytes()));
            }
            // whether a separator at the end is followed by an empty piece is checked in the search module
            let same = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.as_str() == *b);
            ck!(cx, Content, same, "split_on({nd:?}) of {m:?} gives {:?}, must give {want:?}", got.iter().map(|x| x.as_str()).collect::<Vec<_>>());
        }
        8 => {
            let counted = s.ratio(1, 2);
            let nth = s.usize(m.chars().count() + 1);
            let stop = m.chars().nth(nth).unwrap_or('\u{1}');
            note!(cx, "[{i}] take_while {nth} (!= {stop:?})");
            let want: String = if counted { m.chars().take(nth).collect() } else { m.chars().take_while(|c| *c != stop).collect() };
            let k = want.len();
            let mut seen = String::new();
            let a = v.take_while(|c| {
                seen.push(c);
                if counted { seen.len() <= k } else { c != stop }
            });
            let see: String = m.chars().take(want.chars().count() + 1).collect();
            ck!(cx, Content, seen == see, "take_while calls the condition with {seen:?}, must with {see:?}");
            *m = m[k..].to_string();
            check(cx, &pool[i], true);
            push(s, cx, pool, Ent { v: a, m: want });
        }
        9 => {
            note!(cx, "[{i}] take_line");
            let k = m.find('\n').map_or(n, |x| x + 1);
            let a = v.take_line();
            let w = m[..k].to_string();
            ck!(cx, Content, a.as_bytes() == w.as_bytes(), "take_line of {m:?} gives {:?}", Sh(a.as_bytes()));
            *m = m[k..].to_string();
            check(cx, &pool[i], true);
            push(s, cx, pool, Ent { v: a, m: w });
        }
        10 => {
            let k = s.usize(3);
            note!(cx, "[{i}] trim #{k}");
            let (a, w) = match k {
                0 => (v.trim(), m.trim()),
                1 => (v.trim_start(), m.trim_start()),
                _ => (v.trim_end(), m.trim_end()),
            };
            let w = w.to_string();
            push(s, cx, pool, Ent { v: a, m: w });
        }
        11 => {
            note!(cx, "[{i}] into_shared");
            *v = core::mem::take(v).into_shared();
            check(cx, &pool[i], true);
        }
        12 => {
            let k = s.usize(6);
            note!(cx, "[{i}] convert #{k}");
            let c = v.clone();
            let nv = match k {
                0 => {
                    let t = String::from(c);
                    ck!(cx, Content, t.as_bytes() == m.as_bytes(), "String from a value is {:?}, must be {m:?}", Sh(t.as_bytes()));
                    StringData::from(t)
                }
                1 => {
                    let t: Cow<'static, str> = c.into();
                    ck!(cx, Content, t.as_bytes() == m.as_bytes(), "Cow from a value is {:?}, must be {m:?}", Sh(t.as_bytes()));
                    StringData::from_cow(t)
                }
                2 => {
                    let t: Vec<u8> = c.into();
                    ck!(cx, Content, t == m.as_bytes(), "Vec from a value is {:?}, must be {m:?}", Sh(&t));
                    StringData::from_owned(String::from_utf8(t).unwrap())
                }
                3 => {
                    let t = c.into_bytedata();
                    ck!(cx, Content, t.as_slice() == m.as_bytes(), "into_bytedata gives {:?}, must give {m:?}", Sh(&t));
                    StringData::try_from(t).unwrap_or_default()
                }
                4 => {
                    let t = SharedBytes::from(ByteData::from(c));
                    ck!(cx, Content, t.as_slice() == m.as_bytes(), "SharedBytes from a value is {:?}, must be {m:?}", Sh(&t));
                    StringData::try_from(t).unwrap_or_default()
                }
                _ => {
                    let mut b = SharedStrBuilder::from(c);
                    b.push('é');
                    m.push('é');
                    let r = StringData::from(b);
                    *v = r.clone();
                    r
                }
            };
            let e = Ent { v: nv, m: m.clone() };
            push(s, cx, pool, e);
        }
        13 => {
            note!(cx, "[{i}] statically_borrowed");
            let a = v.clone().statically_borrowed();
            let e = Ent { v: a, m: m.clone() };
            push(s, cx, pool, e);
        }
        14 => {
            note!(cx, "[{i}] drop");
            pool.swap_remove(i);
        }
        15 => {
            let k = s.usize(4);
            note!(cx, "[{i}] {k} characters as an iterator");
            for _ in 0..k {
                let c = m.chars().count();
                let (lo, hi) = v.size_hint();
                ck!(cx, Content, lo <= c && hi.is_none_or(|h| h >= c), "size_hint ({lo}, {hi:?}) does not bracket {c}");
                let got = v.next();
                let want = m.chars().next();
                ck!(cx, Content, got == want, "next gives {got:?}, must give {want:?}");
                if let Some(c) = want {
                    m.drain(..c.len_utf8());
                }
            }
            check(cx, &pool[i], true);
        }
        16 => {
            let nd = gen_needle_str(s, m);
            note!(cx, "[{i}] tests against {nd:?}");
            ck!(cx, Content, v.starts_with(&nd) == m.starts_with(&nd), "starts_with({nd:?}) of {m:?}");
            ck!(cx, Content, v.ends_with(&nd) == m.ends_with(&nd), "ends_with({nd:?}) of {m:?}");
            ck!(cx, Content, v.eq_str(&nd) == (*m == nd), "eq_str({nd:?}) of {m:?}");
            ck!(cx, Content, v.eq_slice(nd.as_bytes()) == (*m == nd), "eq_slice({nd:?}) of {m:?}");
            ck!(cx, Content, v.eq_str(m) && v.eq_slice(m.as_bytes()), "eq_str or eq_slice with the own content");
            let o = s.usize(pool.len());
            let (a, b) = (&pool[i], &pool[o]);
            ck!(cx, Content, a.v.eq_const(&b.v) == (a.m == b.m), "eq_const of {:?} and {:?}", a.m, b.m);
        }
        17 => {
            // borrowed for a limited time
            note!(cx, "[{i}] detach a borrow of a temporary");
            let tmp = m.clone();
            let d: StringData<'static> = StringData::from_borrowed(&tmp).into_shared();
            drop(tmp);
            let e = Ent { v: d, m: m.clone() };
            push(s, cx, pool, e);
        }
        _ => {
            let t = gen_text_small(s);
            let (o, _) = gen_sd(s, cx, ar, &t);
            note!(cx, "[{i}] concatenated with {t:?}");
            let mut parts = vec![v.as_str(), o.as_str()];
            let mut w = format!("{m}{t}");
            if s.ratio(1, 12) && w.len() < 24 {
                let k = gen_many(s);
                parts = parts.repeat(k);
                w = w.repeat(k);
            }
            let c = StringData::from_concat(&parts).into_shared();
            ck!(cx, Content, c.as_str() == w, "from_concat of {} parts gives {:?}, must give {:?}", parts.len(), Sh(c.as_bytes()), Sh(w.as_bytes()));
            if w.len() < 3000 {
                push(s, cx, pool, Ent { v: c, m: w });
            }
        }
    }
}

/// Bytes which are nearly text.
pub fn gen_nearly(s: &mut Src) -> Vec<u8> {
    let mut b = match s.usize(4) {
        0 => gen_text_small(s).into_bytes(),
        1 => {
            let n = s.range(1, 6);
            (0..n).map(|_| *s.pick(CHARS)).collect::<String>().into_bytes()
        }
        2 => Vec::new(),
        _ => gen_bytes_small(s),
    };
    let k = s.usize(4);
    for _ in 0..k {
        let n = b.len();
        match s.usize(6) {
            0 if n > 0 => {
                let i = s.usize(n);
                b[i] = s.below(256) as u8;
            }
            1 if n > 0 => {
                let i = s.usize(n);
                b.remove(i);
            }
            2 if n > 0 => {
                let i = s.usize(n);
                b.truncate(i);
            }
            3 if n > 0 => {
                let i = s.usize(n);
                b[i] ^= 1 << s.usize(8);
            }
            _ => {
                let seq: &[u8] = s.pick::<&[u8]>(&[
                    b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xe0\xa0\x80", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xed\x9f\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf",
                    b"\xf0\x90\x80\x80", b"\xf4\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xff", b"\xfe", b"\x80", b"\xbf", b"\xc2", b"\xe2\x82", b"\xf0\x9f\x98",
                    b"\xc2\x80", b"\xdf\xbf", b"\xef\xbf\xbf", b"\xee\x80\x80", b"\xf0\x9f\x98\x80", b"a", b"\xe2\x28\xa1",
                ]);
                let i = s.usize(n + 1);
                b.splice(i..i, seq.iter().copied());
            }
        }
    }
    b
}
pub fn run_utf8(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let b = gen_nearly(s);
    note!(cx, "bytes {:?}", Sh(&b));
    let want = core::str::from_utf8(&b);
    let rounds = s.range(1, 3);
    for _ in 0..rounds {
        let (v, m) = gen_bd(s, cx, &ar, &b);
        let at = v.as_slice().as_ptr() as usize;
        let long = b.len() > 14;
        note!(cx, "as ByteData from {}", m.how);
        match s.usize(5) {
            k @ 0..=1 => {
                let r = if k == 0 { StringData::try_from_bytedata(v) } else { StringData::try_from(v) };
                match r {
                    Ok(t) => {
                        ck!(cx, Utf8, want.is_ok(), "a string is made of the invalid {:?}", Sh(&b));
                        ck!(cx, Content, t.as_bytes() == &b[..], "the string holds {:?}, must hold {:?}", Sh(t.as_bytes()), Sh(&b));
                    }
                    Err(v) => {
                        ck!(cx, Utf8, want.is_err(), "the valid {:?} is refused", Sh(&b));
                        ck!(cx, Content, v.as_slice() == &b[..], "the refused input comes back as {:?} instead of {:?}", Sh(&v), Sh(&b));
                        ck!(cx, Alias, !long || v.as_slice().as_ptr() as usize == at, "the refused input comes back copied");
                    }
                }
            }
            k @ 2..=3 => {
                let (sh, _) = gen_shared(s, &b);
                let at = sh.as_slice().as_ptr() as usize;
                let r = if k == 2 { StringData::try_from_shared(sh) } else { StringData::try_from(sh) };
                match r {
                    Ok(t) => {
                        ck!(cx, Utf8, want.is_ok(), "a string is made of the invalid {:?}", Sh(&b));
                        ck!(cx, Content, t.as_bytes() == &b[..], "the string holds {:?}, must hold {:?}", Sh(t.as_bytes()), Sh(&b));
                    }
                    Err(v) => {
                        ck!(cx, Utf8, want.is_err(), "the valid {:?} is refused", Sh(&b));
                        ck!(cx, Content, v.as_slice() == &b[..], "the refused input comes back as {:?} instead of {:?}", Sh(&v), Sh(&b));
                        ck!(cx, Alias, b.is_empty() || v.as_slice().as_ptr() as usize == at, "the refused input comes back copied");
                    }
                }
            }
            _ => {
                let r = SharedStrBuilder::try_from(SharedBytesBuilder::from(SharedBytes::from(v)));
                match r {
                    Ok(t) => {
                        ck!(cx, Utf8, want.is_ok(), "a string builder is made of the invalid {:?}", Sh(&b));
                        ck!(cx, Content, t.as_bytes() == &b[..], "the string builder holds {:?}, must hold {:?}", Sh(t.as_bytes()), Sh(&b));
                    }
                    Err(e) => ck!(cx, Utf8, want == Err(e), "the string builder reports {e:?} for {:?}, must be {want:?}", Sh(&b)),
                }
            }
        }
    }
    if !b.is_ascii() {
        cx.nontrivial();
    }
}
