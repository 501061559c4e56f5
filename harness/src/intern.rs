//! The interning table (C16).
use crate::gen::*;
use bytedata::interning::{ByteInterning, StaticInterning};
use bytedata::{ByteData, StringData};
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};
use std::collections::HashMap;

pub const INTERN: Module = Module {
    name: "intern",
    rule: "a case is a history of up to 40 operations on one to three tables and their clones (intern, intern_always and get, each for bytes and strings, as methods and through a trait object; clear; clone, drop and re-create tables; drop values handed out), over a pool of 2 to 6 contents around the inline limit and the tables' limits, given in any representation or as a borrow that is gone right afterwards. Model: a map from content to the address of the first instance. Non-trivial: a hit in a table of content longer than 14 bytes.",
    run,
    // the tables hash with random keys
    guided: false,
    balance: true,
};
struct Table {
    /// handles: the table and its clones
    h: Vec<StaticInterning>,
    max: usize,
    /// content => address of the instance
    m: HashMap<Vec<u8>, usize>,
}
fn mk(s: &mut Src, cx: &mut Ctx) -> Table {
    let max = *s.pick(&[0, 5, 14, 15, 16, 20, 33, 128, 300, usize::MAX]);
    let (t, max) = match s.usize(4) {
        0 => (StaticInterning::new_const(max), max),
        1 => (StaticInterning::default(), 128),
        _ => (StaticInterning::new(max), max),
    };
    note!(cx, "table with limit {max}");
    Table { h: vec![t], max, m: HashMap::new() }
}
#[inline(never)]
pub fn run(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let np = s.range(2, 6);
    let text = s.ratio(2, 3);
    let mut pool: Vec<Vec<u8>> = Vec::new();
    for _ in 0..np {
        let n = match s.usize(4) {
            0 => s.range(13, 17),
            1 => s.usize(40),
            2 => s.range(126, 131),
            _ => s.range(15, 34),
        };
        let c = if text { gen_text_n(s, n).into_bytes() } else { gen_bytes_n(s, n) };
        // near misses: another content with one byte changed or cut off
        if s.ratio(1, 4) && c.len() > 1 && c.is_ascii() {
            let mut d = c.clone();
            match s.usize(3) {
                0 => {
                    d.pop();
                }
                1 => {
                    let i = s.usize(d.len());
                    d[i] ^= 1;
                    d[i] &= 0x7F;
                }
                _ => d.push(0),
            }
            pool.push(d);
        }
        pool.push(c);
    }
    let mut tabs = vec![mk(s, cx)];
    while tabs.len() < 3 && s.ratio(1, 5) {
        tabs.push(mk(s, cx));
    }
    let mut held: Vec<(ByteData<'static>, usize)> = Vec::new();
    let ops = s.usize(41);
    for _ in 0..ops {
        if s.exhausted() {
            break;
        }
        let k = s.usize(tabs.len());
        let t = &mut tabs[k];
        let hi = s.usize(t.h.len());
        let h = &t.h[hi];
        match s.weighted(&[10, 6, 6, 1, 2, 1, 1, 2]) {
            op @ 0..=2 => {
                let ci = s.usize(pool.len());
                let c = pool[ci].clone();
                let st = core::str::from_utf8(&c).is_ok() && s.bool();
                let dynamic = s.bool();
                // a borrow that is gone right afterwards, or a value of any representation
                let mut tmp = c.clone();
                let gone = s.ratio(1, 4);
                let name = ["intern", "intern_always", "get"][op];
                {
                    let (v, how) = if gone {
                        (ByteData::from_borrowed(&tmp), "a borrow")
                    } else {
                        let (v, m) = gen_bd(s, cx, &ar, &c);
                        (v, m.how)
                    };
                    let at = v.as_slice().as_ptr() as usize;
                    let kind = v.len();
                    note!(cx, "table {k}/{hi}: {name}{} of {:?} from {how}", if st { "_str" } else { "" }, Sh(&c));
                    let twin = v.clone();
                    let dh: &dyn ByteInterning<'static> = h;
                    macro_rules! go {
                        ($h:expr) => {
                            match (op, st) {
                                (0, false) => $h.intern(v),
                                (1, false) => Ok($h.intern_always(v)),
                                (_, false) => $h.get(v),
                                (o, true) => {
                                    let v = StringData::try_from_bytedata(v).unwrap_or_else(|_| unreachable!());
                                    let r = match o {
                                        0 => $h.intern_str(v),
                                        1 => Ok($h.intern_always_str(v)),
                                        _ => $h.get_str(v),
                                    };
                                    match r {
                                        Ok(v) => Ok(v.into_bytedata()),
                                        Err(v) => Err(v.into_bytedata()),
                                    }
                                }
                            }
                        };
                    }
                    let r = if dynamic { go!(dh) } else { go!(h) };
                    let entry = t.m.get(&c).copied();
                    let long = kind > 14;
                    let must_ok = match op {
                        0 => kind <= t.max || !long,
                        1 => true,
                        _ => entry.is_some(),
                    };
                    match r {
                        Err(e) => {
                            ck!(cx, Content, !must_ok, "{name} hands the value back (limit {}, {} entry)", t.max, if entry.is_some() { "an" } else { "no" });
                            ck!(cx, Content, e.as_slice() == c, "{name} hands back {:?}, must be {:?}", Sh(e.as_slice()), Sh(&c));
                            ck!(cx, Alias, !long || e.as_slice().as_ptr() as usize == at, "{name} hands back another instance");
                        }
                        Ok(x) => {
                            ck!(cx, Content, must_ok || (op == 0 && !long), "{name} must hand the value back (limit {}, {} bytes, {} entry)", t.max, c.len(), if entry.is_some() { "an" } else { "no" });
                            ck!(cx, Content, x.as_slice() == c, "{name} gives {:?}, must give {:?}", Sh(x.as_slice()), Sh(&c));
                            let p = x.as_slice().as_ptr() as usize;
                            ck!(cx, Memory, !long || !(tmp.as_ptr_range().contains(&x.as_slice().as_ptr())), "{name} gives a value that lies in the borrow");
                            if long {
                                if let Some(e) = entry {
                                    cx.nontrivial();
                                    ck!(cx, Alias, e == p, "{name} gives another instance than the one in the table");
                                } else if op != 2 {
                                    t.m.insert(c.clone(), p);
                                }
                            } else if op == 1 {
                                t.m.insert(c.clone(), 0);
                            }
                            if s.ratio(2, 3) {
                                held.push((x, ci));
                            }
                        }
                    }
                    ck!(cx, Content, twin.as_slice() == c, "a clone of the value given is now {:?}", Sh(twin.as_slice()));
                }
                tmp.fill(0xDB);
                drop(tmp);
            }
            3 => {
                note!(cx, "table {k}/{hi}: clear");
                h.clear();
                t.m.clear();
            }
            4 => {
                note!(cx, "table {k}/{hi}: clone");
                if t.h.len() < 5 {
                    let x = h.clone();
                    t.h.push(x);
                }
            }
            5 => {
                if t.h.len() > 1 {
                    note!(cx, "table {k}/{hi}: drop");
                    drop(t.h.swap_remove(hi));
                }
            }
            6 => {
                note!(cx, "table {k}: drop all, make it anew");
                tabs[k] = mk(s, cx);
            }
            7 => {
                let f = format!("{h:?}");
                note!(cx, "table {k}/{hi}: {{:?}}");
                ck!(cx, Content, f.contains(&format!("max_len: {}", t.max)), "{{:?}} of a table with limit {} is {f:?}", t.max);
            }
            _ => {
                if !held.is_empty() {
                    let i = s.usize(held.len());
                    note!(cx, "drop value {i}");
                    held.swap_remove(i);
                }
            }
        }
        for (v, c) in &held {
            ck!(cx, Memory, v.as_slice() == pool[*c], "a value handed out is now {:?}, must be {:?}", Sh(v.as_slice()), Sh(&pool[*c]));
        }
        ar.check_owner_liveness(cx, &|base, len| {
            held.iter().any(|(v, _)| (base..base + len).contains(&(v.as_slice().as_ptr() as usize))) || tabs.iter().any(|t| t.m.values().any(|p| (base..base + len).contains(p)))
        });
    }
    // everything the tables hold is still found through every handle
    for t in &tabs {
        for h in &t.h {
            for c in &pool {
                let g = h.get(ByteData::from_borrowed(c));
                let e = t.m.get(c);
                ck!(cx, Content, g.is_ok() == e.is_some(), "at the end, get of {:?} finds {}", Sh(c), g.is_ok());
                if let (Ok(g), Some(e)) = (&g, e) {
                    ck!(cx, Content, g.as_slice() == *c, "at the end, get gives {:?}, must give {:?}", Sh(g.as_slice()), Sh(c));
                    ck!(cx, Alias, c.len() <= 14 || g.as_slice().as_ptr() as usize == *e, "at the end, get gives another instance");
                }
            }
        }
    }
    let tables_first = s.bool();
    if tables_first {
        tabs.clear();
        for (v, c) in &held {
            ck!(cx, Memory, v.as_slice() == pool[*c], "after the tables are gone, a value is {:?}, must be {:?}", Sh(v.as_slice()), Sh(&pool[*c]));
        }
        held.clear();
    } else {
        held.clear();
        tabs.clear();
    }
    ar.check_owners(cx);
}
