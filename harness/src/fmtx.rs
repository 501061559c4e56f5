//! Text and hex rendering, the formatting macros and the `fmt::Write` implementations (C17).
use crate::gen::*;
use bytedata::{ByteChunk, ByteQueue, ByteStringRender, MultiByteStringRender, SharedBytesBuilder, SharedStrBuilder, StringData, StringQueue};
use core::fmt::Write as _;
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};
use std::fmt::{self, Debug, Display, LowerHex, UpperHex};

pub const RENDER: Module = Module {
    name: "render",
    rule: "a case is one content (bytes or text, with escapes, control bytes, non-ASCII) in every representation and chunking, rendered with Display, Debug, alternate Debug and hex with and without a width, text also with width, precision, fill and alignment, through the standard formatter, and into a writer which fails after a drawn number of bytes. The oracle is the same rendering of the plain slice or string. Non-trivial: something is escaped, padded, cut or split into chunks, or the writer fails halfway.",
    run: run_render,
    guided: true,
    balance: true,
};
pub const WRITE: Module = Module {
    name: "fmtwrite",
    rule: "a case is a format string from a family of templates with drawn arguments (text, numbers, byte values, values of this crate, a Display which writes many small pieces and may fail at one of them), given to format_shared!, format_queue! and, through write!, to builders, queues and a ByteChunk which already hold something. The oracle is format! and the pieces written before the failure. Non-trivial: the text is longer than 14 bytes, or the formatter fails or the chunk is full.",
    run: run_write,
    guided: true,
    balance: true,
};
fn escape(c: &[u8]) -> String {
    let mut o = String::new();
    for &b in c {
        match b {
            b'\\' => o.push_str("\\\\"),
            b'"' => o.push_str("\\\""),
            b'\n' => o.push_str("\\n"),
            b'\r' => o.push_str("\\r"),
            b'\t' => o.push_str("\\t"),
            32..=126 => o.push(b as char),
            _ => {
                o.push_str("\\x");
                o.push(char::from_digit((b >> 4).into(), 16).unwrap());
                o.push(char::from_digit((b & 15).into(), 16).unwrap());
            }
        }
    }
    o
}
fn hex(c: &[u8], up: bool, w: usize) -> String {
    let mut o = "0".repeat(w.saturating_sub(c.len() * 2));
    for &b in c {
        for d in [b >> 4, b & 15] {
            let x = char::from_digit(d.into(), 16).unwrap();
            o.push(if up { x.to_ascii_uppercase() } else { x });
        }
    }
    o
}
/// A writer which takes `left` bytes and then fails.
struct Stop {
    got: String,
    left: usize,
}
impl fmt::Write for Stop {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left {
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}
fn judge(s: &mut Src, cx: &mut Ctx, what: &str, want: &str, f: &dyn Fn(&mut dyn fmt::Write) -> fmt::Result) {
    let mut o = String::new();
    let r = f(&mut o);
    ck!(cx, Content, r.is_ok(), "{what} fails");
    ck!(cx, Content, o == want, "{what} gives {o:?}, must give {want:?}");
    if !want.is_empty() && s.ratio(1, 4) {
        let left = gen_pos_in(s, want.len() - 1);
        cx.nontrivial();
        let mut o = Stop { got: String::new(), left };
        let r = f(&mut o);
        ck!(cx, Content, r.is_err(), "{what} into a writer which takes {left} of {} bytes reports success", want.len());
        ck!(cx, Content, want.starts_with(&o.got), "{what} into a writer which fails wrote {:?}, which {want:?} does not start with", o.got);
    }
}
fn hexes<T: LowerHex + UpperHex>(s: &mut Src, cx: &mut Ctx, what: &str, v: &T, c: &[u8]) {
    let w = match s.usize(4) {
        0 => 0,
        1 => c.len() * 2 + 1 + s.usize(4),
        2 => (c.len() * 2).saturating_sub(s.usize(3)),
        _ => s.usize(40),
    };
    if w > 0 {
        cx.nontrivial();
    }
    judge(s, cx, &format!("{{:x}} of {what}"), &hex(c, false, 0), &|o| write!(o, "{v:x}"));
    judge(s, cx, &format!("{{:X}} of {what}"), &hex(c, true, 0), &|o| write!(o, "{v:X}"));
    judge(s, cx, &format!("{{:{w}x}} of {what}"), &hex(c, false, w), &|o| write!(o, "{v:w$x}"));
    judge(s, cx, &format!("{{:0{w}X}} of {what}"), &hex(c, true, w), &|o| write!(o, "{v:0w$X}"));
}
fn debugs<T: Debug>(s: &mut Src, cx: &mut Ctx, what: &str, v: &T, want: &str) {
    judge(s, cx, &format!("{{:?}} of {what}"), want, &|o| write!(o, "{v:?}"));
    judge(s, cx, &format!("{{:#?}} of {what}"), want, &|o| write!(o, "{v:#?}"));
}
fn texts<T: Display>(s: &mut Src, cx: &mut Ctx, what: &str, v: &T, c: &str) {
    judge(s, cx, &format!("{{}} of {what}"), c, &|o| write!(o, "{v}"));
    let n = c.chars().count();
    let w = match s.usize(3) {
        0 => n + 1 + s.usize(5),
        1 => n.saturating_sub(s.usize(3)),
        _ => s.usize(12),
    };
    let p = match s.usize(3) {
        0 => n + s.usize(3),
        1 => n.saturating_sub(s.usize(4)),
        _ => s.usize(10),
    };
    macro_rules! go {
        ($($f:literal),*) => {{
            let k = s.usize(const { [$($f),*].len() });
            let mut i = 0;
            $(
                if i == k {
                    cx.nontrivial();
                    let want = format!($f, v = c, w = w, p = p);
                    judge(s, cx, &format!("{} of {what} with w = {w}, p = {p}", $f), &want, &|o| write!(o, $f, v = v, w = w, p = p));
                }
                i += 1;
            )*
            let _ = i;
        }};
    }
    // every template names both
    go!("{v:w$}{v:.p$}", "{v:>w$}{v:.p$}", "{v:^w$}{v:.p$}", "{v:*<w$}{v:.p$}", "{v:é^w$}{v:.p$}", "{v:w$.p$}", "{v:>w$.p$}", "{v:_^w$.p$}", "{v:.p$}{v:>w$}", "{v:0w$.p$}", "{v:#w$.p$}");
}
#[inline(never)]
fn run_render(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    if s.bool() {
        let c = match s.usize(3) {
            0 => {
                // bytes with something to escape
                let n = gen_len_small(s);
                (0..n).map(|_| *s.pick(b"a \\\"\n\r\t'\0\x1f\x7e\x7f\x80\xff~z")).collect()
            }
            1 => gen_bytes_small(s),
            _ => gen_text_small(s).into_bytes(),
        };
        note!(cx, "bytes {:?}", Sh(&c));
        let e = escape(&c);
        let d = format!("b\"{e}\"");
        if e.len() != c.len() {
            cx.nontrivial();
        }
        let (v, m) = gen_bd(s, cx, &ar, &c);
        let what = format!("a ByteData made with {}", m.how);
        debugs(s, cx, &what, &v, &d);
        hexes(s, cx, &what, &v, &c);
        let q = gen_queue(s, cx, &ar, &c);
        if q.chunk_len() > 1 {
            cx.nontrivial();
        }
        let what = format!("a queue of {} chunks", q.chunk_len());
        debugs(s, cx, &what, &q, &d);
        hexes(s, cx, &what, &q, &c);
        let (sh, how) = gen_shared(s, &c);
        let what = format!("a SharedBytes made with {how}");
        hexes(s, cx, &what, &sh, &c);
        let f = format!("{sh:?}");
        ck!(cx, Content, f.contains(&d) && f.starts_with("SharedBytes") && f.contains(&format!("len: {}", c.len())), "{{:?}} of {what} gives {f:?}, which does not show {d:?}");
        let mut b = SharedBytesBuilder::with_capacity(s.usize(20));
        b.extend_from_slice(&c);
        hexes(s, cx, "a builder", &b, &c);
        // the helpers
        let r = match s.usize(3) {
            0 => ByteStringRender::from_slice(&c),
            1 => ByteStringRender::from_ref(&v),
            _ => ByteStringRender::from(&c[..]),
        };
        ck!(cx, Content, r.as_slice() == c, "ByteStringRender holds {:?}", Sh(r.as_slice()));
        debugs(s, cx, "a ByteStringRender", &r, &d);
        hexes(s, cx, "a ByteStringRender", &r, &c);
        judge(s, cx, "{} of a ByteStringRender", &e, &|o| write!(o, "{r}"));
        let cuts = gen_cuts(s, c.len());
        let mut parts: Vec<&[u8]> = Vec::new();
        let mut at = 0;
        for x in cuts {
            parts.push(&c[at..at + x.min(c.len() - at)]);
            at += x.min(c.len() - at);
        }
        parts.push(&c[at..]);
        let r = MultiByteStringRender::new(&parts);
        debugs(s, cx, "a MultiByteStringRender", &r, &d);
        judge(s, cx, "{} of a MultiByteStringRender", &e, &|o| write!(o, "{r}"));
        let r = MultiByteStringRender::new(&q);
        judge(s, cx, "{} of a MultiByteStringRender of a queue", &e, &|o| write!(o, "{r}"));
        if c.len() <= ByteChunk::LEN {
            let k = ByteChunk::from_slice(&c);
            debugs(s, cx, "a ByteChunk", &k, &d);
        }
        drop((v, q, sh));
    } else {
        let c = match s.usize(3) {
            0 => {
                let n = gen_len_small(s);
                (0..n).map(|_| *s.pick(&['a', ' ', '\\', '"', '\n', '\'', '\0', '\u{7f}', 'é', '€', '\u{301}', '\u{1F600}', '\u{200b}'])).collect()
            }
            _ => gen_text_small(s),
        };
        note!(cx, "text {c:?}");
        let d = format!("{c:?}");
        let (v, how) = gen_sd(s, cx, &ar, &c);
        let what = format!("a StringData made with {how}");
        debugs(s, cx, &what, &v, &d);
        texts(s, cx, &what, &v, &c);
        let q = gen_squeue(s, cx, &ar, &c);
        let what = format!("a string queue of {} chunks", q.chunk_len());
        if q.chunk_len() > 1 {
            cx.nontrivial();
        }
        texts(s, cx, &what, &q, &c);
        // Debug of a string queue lists its chunks
        let l: Vec<&str> = q.chunks().map(|x| x.as_str()).collect();
        ck!(cx, Content, l.concat() == c, "{what} has the chunks {l:?}, must hold {c:?}");
        judge(s, cx, &format!("{{:?}} of {what}"), &format!("{l:?}"), &|o| write!(o, "{q:?}"));
        judge(s, cx, &format!("{{:#?}} of {what}"), &format!("{l:#?}"), &|o| write!(o, "{q:#?}"));
        let mut b = SharedStrBuilder::with_capacity(s.usize(20));
        b.push_str(&c);
        texts(s, cx, "a string builder", &b, &c);
        let f = format!("{b:?}");
        ck!(cx, Content, f.contains(&d) && f.contains(&format!("len: {}", c.len())), "{{:?}} of a string builder gives {f:?}, which does not show {d:?}");
        ck!(cx, Content, v.to_string() == c && q.to_string() == c && b.to_string() == c, "to_string of {c:?} gives {:?}, {:?}, {:?}", v.to_string(), q.to_string(), b.to_string());
        let r = if s.bool() { ByteStringRender::from_str(&c) } else { ByteStringRender::from(&c[..]) };
        judge(s, cx, "{} of a ByteStringRender", &escape(c.as_bytes()), &|o| write!(o, "{r}"));
        drop((v, q));
    }
    ar.check_owners(cx);
}
/// Writes its pieces one by one, and fails before one of them.
struct Pieces {
    p: Vec<String>,
    fail: Option<usize>,
    chars: bool,
}
impl Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for (i, p) in self.p.iter().enumerate() {
            if self.fail == Some(i) {
                return Err(fmt::Error);
            }
            if self.chars {
                for c in p.chars() {
                    f.write_char(c)?;
                }
            } else {
                f.write_str(p)?;
            }
        }
        if self.fail == Some(self.p.len()) {
            return Err(fmt::Error);
        }
        Ok(())
    }
}
/// What a writer of bounded size gets.
struct Model {
    got: String,
    cap: usize,
}
impl fmt::Write for Model {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.cap - self.got.len() {
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}
#[inline(never)]
fn run_write(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let n = s.usize(8);
    let p: Vec<String> = (0..n).map(|_| if s.bool() { gen_text_n(s, 3) } else { gen_text_small(s) }).collect();
    let fail = if s.ratio(1, 3) { Some(s.usize(n + 1)) } else { None };
    let pc = Pieces { p, fail, chars: s.ratio(1, 4) };
    let t = gen_text_small(s);
    let (sd, _) = gen_sd(s, cx, &ar, &t);
    let bytes = gen_bytes_small(s);
    let (bd, _) = gen_bd(s, cx, &ar, &bytes);
    let sq = gen_squeue(s, cx, &ar, &t);
    let num = s.below(1 << 40);
    let w = s.usize(30);
    let plain = Pieces { p: pc.p.clone(), fail: None, chars: false };
    let pre = gen_text_small(s);
    let hb = hex(&bytes, false, 0);
    let db = format!("b\"{}\"", escape(&bytes));
    note!(cx, "pieces {:?} failing at {:?}, text {t:?}, bytes {:?}, number {num}, width {w}, before: {pre:?}", pc.p, pc.fail, Sh(&bytes));
    macro_rules! go {
        ($(($f:literal; $($own:tt)*) ($($std:tt)*) $failing:expr;)*) => {{
            let k = s.usize(const { [$($f),*].len() });
            let mut i = 0;
            $(
                if i == k {
                    note!(cx, "template {:?}", $f);
                    let will_fail = $failing && pc.fail.is_some();
                    let want = if will_fail { String::new() } else { format!($f $($std)*) };
                    if want.len() > 14 || will_fail {
                        cx.nontrivial();
                    }
                    // the macros
                    let r = cx.catch(|| bytedata::format_shared!($f $($own)*));
                    match r {
                        Err(_) => ck!(cx, Panic, will_fail, "format_shared! panics"),
                        Ok(v) => {
                            let v: StringData<'static> = v;
                            ck!(cx, Content, !will_fail, "format_shared! with a failing argument gives {v:?}");
                            ck!(cx, Utf8, core::str::from_utf8(v.as_str().as_bytes()).is_ok(), "format_shared! gives {:?}, which is not UTF-8", Sh(v.as_str().as_bytes()));
                            ck!(cx, Content, v.as_str() == want, "format_shared! gives {v:?}, must give {want:?}");
                        }
                    }
                    let r = cx.catch(|| bytedata::format_queue!($f $($own)*));
                    match r {
                        Err(_) => ck!(cx, Panic, will_fail, "format_queue! panics"),
                        Ok(v) => {
                            let v: StringQueue<'static> = v;
                            ck!(cx, Content, !will_fail, "format_queue! with a failing argument gives {v:?}");
                            let g: String = v.chunks().map(|x| x.as_str()).collect();
                            ck!(cx, Content, g == want && v.len() == want.len(), "format_queue! gives {v:?} with length {}, must give {want:?}", v.len());
                            ck!(cx, Content, v.chunks().all(|x| !x.is_empty()), "format_queue! gives an empty chunk: {v:?}");
                        }
                    }
                    // the writers, which already hold something
                    let mut m = Model { got: pre.clone(), cap: usize::MAX };
                    let mr = write!(m, $f $($std)*);
                    macro_rules! writer {
                        ($name:literal, $x:expr, $get:expr) => {{
                            let mut x = $x;
                            let r = write!(x, $f $($own)*);
                            ck!(cx, Content, r.is_err() == mr.is_err(), "write! to {} gives {r:?}, must give {mr:?}", $name);
                            let g: Vec<u8> = $get(&x);
                            ck!(cx, Content, g == m.got.as_bytes(), "write! to {} leaves {:?}, must leave {:?}", $name, Sh(&g), Sh(m.got.as_bytes()));
                        }};
                    }
                    let cap = w;
                    let pr = &pre;
                    match s.usize(4) {
                        0 => {
                            let mut b = SharedBytesBuilder::with_capacity(cap);
                            b.extend_from_slice(pr.as_bytes());
                            struct OnlyFmt(SharedBytesBuilder);
                            impl fmt::Write for OnlyFmt {
                                fn write_str(&mut self, s: &str) -> fmt::Result {
                                    fmt::Write::write_str(&mut self.0, s)
                                }
                                fn write_char(&mut self, c: char) -> fmt::Result {
                                    fmt::Write::write_char(&mut self.0, c)
                                }
                            }
                            writer!("a SharedBytesBuilder", OnlyFmt(b), |x: &OnlyFmt| x.0.as_slice().to_vec());
                        }
                        1 => {
                            let mut b = SharedStrBuilder::with_capacity(cap);
                            b.push_str(pr);
                            writer!("a SharedStrBuilder", b, |x: &SharedStrBuilder| x.as_str().as_bytes().to_vec());
                        }
                        2 => {
                            let q = gen_queue(s, cx, &ar, pr.as_bytes());
                            struct OnlyFmt<'a>(ByteQueue<'a>);
                            impl fmt::Write for OnlyFmt<'_> {
                                fn write_str(&mut self, s: &str) -> fmt::Result {
                                    fmt::Write::write_str(&mut self.0, s)
                                }
                                fn write_char(&mut self, c: char) -> fmt::Result {
                                    fmt::Write::write_char(&mut self.0, c)
                                }
                            }
                            writer!("a ByteQueue", OnlyFmt(q), |x: &OnlyFmt<'_>| {
                                let v: Vec<u8> = x.0.chunks().flat_map(|c| c.as_slice().to_vec()).collect();
                                assert_eq!(v.len(), x.0.len(), "the queue's length");
                                v
                            });
                        }
                        _ => {
                            let q = gen_squeue(s, cx, &ar, pr);
                            writer!("a StringQueue", q, |x: &StringQueue<'_>| x.chunks().map(|c| c.as_str()).collect::<String>().into_bytes());
                        }
                    }
                    // a chunk takes 14 bytes
                    let mut m = Model { got: pre.chars().take(w % 10).collect(), cap: 14 };
                    if m.got.len() <= 14 {
                        let mut full = Model { got: m.got.clone(), cap: usize::MAX };
                        let _ = write!(full, $f $($std)*);
                        let mut ch = ByteChunk::from_slice(m.got.as_bytes());
                        let mr = write!(m, $f $($std)*);
                        if mr.is_err() {
                            cx.nontrivial();
                        }
                        let r = write!(ch, $f $($own)*);
                        ck!(cx, Content, r.is_err() == mr.is_err(), "write! to a ByteChunk gives {r:?}, must give {mr:?}");
                        ck!(cx, Content, full.got.as_bytes().starts_with(ch.as_slice()) && (r.is_err() || ch.as_slice() == m.got.as_bytes()), "write! to a ByteChunk leaves {:?}, must be the start of {:?}", Sh(ch.as_slice()), Sh(full.got.as_bytes()));
                    }
                }
                i += 1;
            )*
            let _ = i;
        }};
    }
    let bx = &bytes;
    let _ = (bx, &plain);
    go! {
        ("nothing to fill in";) () false;
        ("";) () false;
        ("brackets {{}} é only";) () false;
        ("{}"; , pc) (, pc) true;
        ("<{}>"; , pc) (, pc) true;
        ("{}{}"; , plain, pc) (, plain, pc) true;
        ("{}-{}-{}"; , sd, num, pc) (, t, num, pc) true;
        ("{}"; , sd) (, t) false;
        ("{:?}|{}"; , sd, sd) (, t, t) false;
        ("{:>1$}"; , sd, w) (, t, w) false;
        ("{:^1$.3}é{2}"; , sd, w, num) (, t, w, num) false;
        ("{}"; , format_args!("{bd:x}")) (, hb) false;
        ("{}{}"; , format_args!("{bd:?}"), format_args!("{bd:x}")) (, db, hb) false;
        ("{num:>w$}{num:#x}"; , num = num, w = w) (, num = num, w = w) false;
        ("a{0}b{0}c{1:?}"; , sq, num) (, t, num) false;
        ("{:<1$}|"; , sq, w) (, t, w) false;
        ("{}"; , num) (, num) false;
    }
    drop((sd, bd, sq));
    ar.check_owners(cx);
}
