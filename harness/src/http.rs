//! HTTP bodies of both supported http-body versions (C13).
use crate::gen::*;
#[cfg(not(feature = "na"))]
use bytedata::SharedBytes;
use bytedata::{ByteData, ByteQueue};
use bytes::Buf;
use covrt::engine::{Ctx, Kind, Module, Src};
use covrt::{ck, note};
use std::convert::Infallible;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

pub const HTTP: Module = Module {
    name: "http",
    rule: "a case is one content (a third of them longer than 65535 bytes, often at a multiple of 65535 give or take one) as a ByteData, SharedBytes or ByteQueue (chunks of any size), polled as a body with http-body 0.4 or 1, directly or through &mut and Box, now and then cloned, mixed between both versions or (queues) extended halfway, until it has ended and twice more. At every point: size hint exact, end flag set exactly when nothing is left, every frame a non-empty data frame holding the next bytes and still holding them at the end, no trailers, no pending, no error. Non-trivial: at least 2 frames.",
    run,
    guided: true,
    balance: true,
};
enum Got {
    Frame(Vec<u8>),
    End,
}
/// What both versions and all types have in common.
trait Bod: Sized + Clone + Unpin {
    /// One poll with the given version and wrapping.
    fn poll(&mut self, cx: &mut Ctx, how: usize, keep: &mut Vec<(Keep, usize)>) -> Got;
    /// exact size, lower, upper, end flag
    fn hint(&self, how: usize) -> (Option<u64>, u64, Option<u64>, bool);
    fn more(&mut self, _s: &mut Src, _cx: &mut Ctx, _ar: &Arena, _c: &[u8]) -> bool {
        false
    }
    const WAYS: usize;
}
enum Keep {
    D(ByteData<'static>),
    #[cfg(not(feature = "na"))]
    S(SharedBytes),
}
impl From<ByteData<'static>> for Keep {
    fn from(x: ByteData<'static>) -> Self {
        Keep::D(x)
    }
}
#[cfg(not(feature = "na"))]
impl From<SharedBytes> for Keep {
    fn from(x: SharedBytes) -> Self {
        Keep::S(x)
    }
}
impl Keep {
    fn get(&self) -> &[u8] {
        match self {
            Keep::D(x) => x.as_slice(),
            #[cfg(not(feature = "na"))]
            Keep::S(x) => x.as_slice(),
        }
    }
}
fn drain_buf(b: impl Buf + Into<Keep> + Clone, keep: &mut Vec<(Keep, usize)>) -> Vec<u8> {
    let mut v = Vec::new();
    let mut c = b.clone();
    while c.has_remaining() {
        let n = c.chunk().len();
        v.extend_from_slice(c.chunk());
        c.advance(n);
    }
    drop(c);
    keep.push((b.into(), v.len()));
    v
}
fn poll1<B>(b: &mut B, cx: &mut Ctx, how: usize, keep: &mut Vec<(Keep, usize)>) -> Got
where
    B: http_body_1::Body<Error = Infallible> + Unpin + Clone,
    B::Data: Into<Keep> + Clone,
{
    let mut k = Context::from_waker(Waker::noop());
    let r = match how {
        0 => Pin::new(&mut *b).poll_frame(&mut k),
        1 => {
            let mut x = &mut *b;
            http_body_1::Body::poll_frame(Pin::new(&mut x), &mut k)
        }
        _ => {
            let mut x = Box::new(b.clone());
            let r = http_body_1::Body::poll_frame(Pin::new(&mut x), &mut k);
            *b = *x;
            r
        }
    };
    match r {
        Poll::Pending => cx.fail(Kind::Content, "poll_frame is pending".into()),
        Poll::Ready(None) => Got::End,
        Poll::Ready(Some(Ok(f))) => match f.into_data() {
            Ok(d) => Got::Frame(drain_buf(d, keep)),
            Err(_) => cx.fail(Kind::Content, "poll_frame gives a frame which is not data".into()),
        },
        Poll::Ready(Some(Err(e))) => match e {},
    }
}
fn poll04<B>(b: &mut B, cx: &mut Ctx, how: usize, keep: &mut Vec<(Keep, usize)>) -> Got
where
    B: http_body_04::Body<Error = Infallible> + Unpin + Clone,
    B::Data: Into<Keep> + Clone,
{
    let mut k = Context::from_waker(Waker::noop());
    let t = Pin::new(&mut *b).poll_trailers(&mut k);
    ck!(cx, Content, matches!(t, Poll::Ready(Ok(None))), "poll_trailers gives {t:?}");
    let r = match how {
        0 => Pin::new(&mut *b).poll_data(&mut k),
        1 => {
            let mut x = &mut *b;
            http_body_04::Body::poll_data(Pin::new(&mut x), &mut k)
        }
        _ => {
            let mut x = Box::new(b.clone());
            let r = http_body_04::Body::poll_data(Pin::new(&mut x), &mut k);
            *b = *x;
            r
        }
    };
    match r {
        Poll::Pending => cx.fail(Kind::Content, "poll_data is pending".into()),
        Poll::Ready(None) => Got::End,
        Poll::Ready(Some(Ok(d))) => Got::Frame(drain_buf(d, keep)),
        Poll::Ready(Some(Err(e))) => match e {},
    }
}
fn hint1<B: http_body_1::Body>(b: &B) -> (Option<u64>, u64, Option<u64>, bool) {
    let h = b.size_hint();
    (h.exact(), h.lower(), h.upper(), b.is_end_stream())
}
fn hint04<B: http_body_04::Body>(b: &B) -> (Option<u64>, u64, Option<u64>, bool) {
    let h = b.size_hint();
    (h.exact(), h.lower(), h.upper(), b.is_end_stream())
}
macro_rules! both {
    ($t:ty) => {
        impl Bod for $t {
            const WAYS: usize = 6;
            fn poll(&mut self, cx: &mut Ctx, how: usize, keep: &mut Vec<(Keep, usize)>) -> Got {
                if how < 3 {
                    poll1(self, cx, how, keep)
                } else {
                    poll04(self, cx, how - 3, keep)
                }
            }
            fn hint(&self, how: usize) -> (Option<u64>, u64, Option<u64>, bool) {
                if how < 3 {
                    hint1(self)
                } else {
                    hint04(self)
                }
            }
        }
    };
}
both!(ByteData<'static>);
#[cfg(not(feature = "na"))]
both!(SharedBytes);
impl Bod for ByteQueue<'static> {
    const WAYS: usize = 3;
    fn poll(&mut self, cx: &mut Ctx, how: usize, keep: &mut Vec<(Keep, usize)>) -> Got {
        poll1(self, cx, how, keep)
    }
    fn hint(&self, _: usize) -> (Option<u64>, u64, Option<u64>, bool) {
        hint1(self)
    }
    fn more(&mut self, s: &mut Src, cx: &mut Ctx, ar: &Arena, c: &[u8]) -> bool {
        if self.is_full() {
            return false;
        }
        self.push_back(gen_bd(s, cx, ar, c).0);
        true
    }
}
fn gen_big(s: &mut Src) -> Vec<u8> {
    if s.ratio(2, 3) {
        return gen_bytes(s);
    }
    let n = match s.weighted(&[4, 2, 3, 1]) {
        0 => 65_533 + s.usize(6),
        1 => 131_068 + s.usize(5),
        2 => 60_000 + s.usize(80_000),
        _ => 196_604 + s.usize(4),
    };
    // positions are recognisable
    let k = s.below(251) as usize;
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let i = (v.len() / 8 + k) as u64;
        v.extend_from_slice(&i.wrapping_mul(0x9E37_79B9_7F4A_7C15).to_le_bytes());
    }
    v.truncate(n);
    v
}
#[inline(never)]
pub fn run(s: &mut Src, cx: &mut Ctx) {
    let ar = Arena::new();
    let c = gen_big(s);
    match s.weighted(&[3, 2, 4]) {
        0 => {
            let r = gen_bd(s, cx, &ar, &c).0;
            drive(s, cx, &ar, r, c, "ByteData");
        }
        #[cfg(not(feature = "na"))]
        1 => {
            let r = gen_shared(s, &c).0;
            drive(s, cx, &ar, r, c, "SharedBytes");
        }
        _ => {
            let r = gen_queue(s, cx, &ar, &c);
            note!(cx, "chunks {:?}", r.chunks().map(|c| c.len()).collect::<Vec<_>>());
            drive(s, cx, &ar, r, c, "ByteQueue");
        }
    }
    ar.check_owners(cx);
}
fn drive<B: Bod>(s: &mut Src, cx: &mut Ctx, ar: &Arena, b: B, c: Vec<u8>, ty: &str) {
    let mut c = c;
    note!(cx, "{ty} of {} bytes", c.len());
    let mut bs: Vec<(B, usize)> = vec![(b, 0)];
    let mut keep: Vec<(Keep, usize)> = Vec::new();
    let mut frames = 0;
    let fixed = s.ratio(3, 4).then(|| s.usize(B::WAYS));
    let mut ends = 0;
    let mut grown = false;
    for _ in 0..400 {
        if ends >= 3 || s.exhausted() {
            break;
        }
        let i = s.usize(bs.len());
        let how = fixed.unwrap_or_else(|| s.usize(B::WAYS));
        for (k, (b, pos)) in bs.iter().enumerate() {
            let left = (c.len() - *pos) as u64;
            let h = b.hint(how);
            ck!(cx, Content, h.0 == Some(left) && h.1 == left && h.2 == Some(left), "body [{k}]: the size hint says {h:?} with {left} bytes to come");
            ck!(cx, Content, h.3 == (left == 0), "body [{k}]: is_end_stream is {} with {left} bytes to come", h.3);
        }
        let (b, pos) = &mut bs[i];
        let before = keep.len();
        match b.poll(cx, how, &mut keep) {
            Got::End => {
                ck!(cx, Content, *pos == c.len(), "body [{i}] ends with {} bytes to come", c.len() - *pos);
                note!(cx, "[{i}] #{how} end");
                ends += 1;
            }
            Got::Frame(f) => {
                note!(cx, "[{i}] #{how} frame of {}", f.len());
                ck!(cx, Content, !f.is_empty(), "body [{i}] gives an empty frame with {} bytes to come", c.len() - *pos);
                ck!(cx, Content, c[*pos..].starts_with(&f), "body [{i}] gives {:?} at byte {pos}, must give {:?}", Sh(&f), Sh(&c[*pos..c.len().min(*pos + f.len())]));
                keep[before].1 = *pos;
                *pos += f.len();
                frames += 1;
            }
        }
        let p = *pos;
        if bs.len() < 3 && s.ratio(1, 12) {
            note!(cx, "clone of [{i}]");
            let n = bs[i].0.clone();
            bs.push((n, p));
        } else if !grown && bs.len() == 1 && s.ratio(1, 12) {
            let x = gen_bytes_small(s);
            if bs[0].0.more(s, cx, ar, &x) {
                note!(cx, "extended by {} bytes", x.len());
                c.extend_from_slice(&x);
                grown = true;
            }
        }
    }
    if frames >= 2 {
        cx.nontrivial();
    }
    drop(bs);
    for (k, at) in &keep {
        ck!(cx, Content, c[*at..].starts_with(k.get()), "a frame received earlier holds {:?}, must hold the bytes from {at}", Sh(k.get()));
    }
}
