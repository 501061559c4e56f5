//! More handles than the reference count can hold (C02).
use bytedata::SharedBytes;
use bytes::Bytes;
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};
use std::mem::forget;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const REFS: Module = Module {
    name: "refs",
    rule: "a case leaks handles of one content until the library refuses or 2^32 of them are out, each made by cloning a SharedBytes, slicing one, or cloning a Bytes made from one; as long as other handles are out, the content must not count as unique, and it must still be readable. Non-trivial: every case.",
    run,
    guided: false,
    balance: false,
};
#[inline(never)]
fn out(n: u64, mut f: impl FnMut()) -> (u64, bool) {
    let mut k = 0u64;
    let r = catch_unwind(AssertUnwindSafe(|| {
        while k < n {
            f();
            k += 1;
        }
    }));
    (k, r.is_err())
}
pub fn run(s: &mut Src, cx: &mut Ctx) {
    // a single draw, because every attempt to shrink a failing case takes a minute
    let v = s.usize(400);
    let n = 1 + v / 4;
    let c: Vec<u8> = (0..n).map(|i| i as u8).collect();
    let x = SharedBytes::from_slice(&c);
    let how = v % 4;
    let first = 1 + v as u64 % 5;
    cx.nontrivial();
    // billions of steps are meant here
    covrt::cov_pause();
    // so that after exactly 2^32 of them the count would be what a sole handle has
    let total = 1u64 << 32;
    let (k, refused) = match how {
        0 => out(total, || forget(x.clone())),
        1 => out(total, || forget(x.sliced(n - 1, 1))),
        2 => {
            // `b` is one of them
            let b = Bytes::from(x.clone());
            let r = out(total - 1, || forget(b.clone()));
            forget(b);
            r
        }
        _ => {
            for _ in 0..first {
                forget(x.sliced(0, n));
            }
            out(total - first, || forget(x.clone()))
        }
    };
    note!(cx, "{n} bytes, kind {how}: {k} handles leaked, refused: {refused}");
    ck!(cx, Memory, !x.is_unique(), "after {k} leaked handles the content counts as unique: the reference count wrapped around");
    ck!(cx, Memory, x.as_slice() == &c[..], "the content changed");
    // it still works with the count at its limit
    if refused {
        let again = catch_unwind(AssertUnwindSafe(|| forget(x.clone()))).is_err();
        ck!(cx, Memory, !x.is_unique() && x.as_slice() == &c[..], "refused again: {again}, the content is damaged");
    }
    forget(x);
}
