//! Handles used from several threads at once (C03). Run under Miri.
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, StringData};
use bytedata::interning::{ByteInterning, StaticInterning};
use bytes::{Bytes, BytesMut};
use covrt::engine::{Ctx, Module, Src};
use covrt::{ck, note};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Barrier, Mutex};

pub const THREADS: Module = Module {
    name: "threads",
    rule: "a case (in general, with one content whose last handle is disputed, or about the interning table, or with all threads taking a handle of the only reference to one content at once) is 1 to 3 contents of 15 to 40 bytes held as SharedBytes, shared or external ByteData (counted owners, Vec, Box, Arc), StringData, bytes::Bytes made from them, a queue, and an interning table, handed as clones or shared references to 2 or 3 threads, each running a drawn program of up to 8 operations (clone, slice, read, drop, convert between all these types and to Vec, BytesMut and builders, change in place what it owns alone, exchange through a mailbox, queue operations, intern, look up, clear, share the table) with its own model of every handle; executed by Miri, which explores one pseudo-random interleaving with weak-memory effects per seed and stops at any data race, use after free, double free or leak; every content is compared, and every owner must be dropped once. Non-trivial: at least two threads run at least 3 operations each, or all start at once.",
    run,
    guided: false,
    balance: false,
};
pub struct Own {
    data: Box<[u8]>,
    drops: Arc<AtomicU32>,
}
impl Drop for Own {
    fn drop(&mut self) {
        self.drops.fetch_add(1, Ordering::Relaxed);
        // a write which races with any access that is not ordered before the drop
        self.data[0] ^= 0xff;
    }
}
impl bytedata::external::ExternalBytes for Own {
    const OPS: bytedata::external::ExternalOps<Self> = bytedata::external::ExternalOps::new(|x: &Self| &x.data);
}
enum H {
    S(SharedBytes),
    B(ByteData<'static>),
    T(StringData<'static>),
    Y(Bytes),
    M(SharedBytesBuilder),
    V(Vec<u8>),
    X(BytesMut),
    Q(ByteQueue<'static>),
}
use H::*;
impl H {
    fn read(&self) -> Vec<u8> {
        match self {
            S(x) => x.as_slice().to_vec(),
            B(x) => x.as_slice().to_vec(),
            T(x) => x.as_bytes().to_vec(),
            Y(x) => x.to_vec(),
            M(x) => x.as_slice().to_vec(),
            V(x) => x.clone(),
            X(x) => x.to_vec(),
            Q(x) => x.chunks().flat_map(|c| c.as_slice().to_vec()).collect(),
        }
    }
    fn name(&self) -> &'static str {
        match self {
            S(_) => "SharedBytes",
            B(_) => "ByteData",
            T(_) => "StringData",
            Y(_) => "Bytes",
            M(_) => "SharedBytesBuilder",
            V(_) => "Vec",
            X(_) => "BytesMut",
            Q(_) => "ByteQueue",
        }
    }
    fn cloned(&self) -> H {
        match self {
            S(x) => S(x.clone()),
            B(x) => B(x.clone()),
            T(x) => T(x.clone()),
            Y(x) => Y(x.clone()),
            M(x) => V(x.as_slice().to_vec()),
            V(x) => V(x.clone()),
            X(x) => X(x.clone()),
            Q(x) => Q(x.clone()),
        }
    }
    fn slice(self, a: usize, z: usize, how: usize) -> H {
        match self {
            S(x) if how == 0 => S(x.sliced(a, z - a)),
            S(x) => S(x.into_sliced(a, z - a)),
            B(x) => match how {
                0 => B(x.sliced(a..z)),
                1 => B(x.into_sliced(a..z)),
                _ => B(x.into_shared_range(a..z)),
            },
            T(x) => T(x.into_sliced(a..z)),
            Y(x) => Y(x.slice(a..z)),
            M(mut x) => {
                x.truncate(z);
                S(x.build().into_sliced(a, z - a))
            }
            V(x) => B(ByteData::from_external(x).into_sliced(a..z)),
            X(mut x) => {
                x.truncate(z);
                X(x.split_off(a))
            }
            Q(x) => Q(x.slice(a..z)),
        }
    }
    fn part(&self, a: usize, z: usize) -> H {
        match self {
            S(x) if a % 2 == 0 => S(x.sliced(a, z - a)),
            S(x) => S(x.sliced_range(a..z)),
            B(x) => B(x.sliced(a..z)),
            T(x) => T(x.sliced(a..z)),
            Y(x) => Y(x.slice(a..z)),
            Q(x) => Q(x.slice(a..z)),
            x => V(x.read()[a..z].to_vec()),
        }
    }
    /// Converts to another type.
    fn turn(self, k: usize) -> H {
        match (self, k) {
            (S(x), 0) => M(x.into()),
            (S(x), 1) => Y(x.into()),
            (S(x), 2) => B(x.into()),
            (S(x), 3) => V(Vec::from(ByteData::from(x))),
            (S(x), _) => Q(ByteQueue::with_item(x.into())),
            (B(x), 0) => S(x.into()),
            (B(x), 1) => Y(x.into()),
            (B(x), 2) => V(x.into()),
            (B(x), 3) => B(x.into_shared()),
            (B(x), _) => match StringData::try_from_bytedata(x) {
                Ok(x) => T(x),
                Err(x) => B(x),
            },
            (T(x), 0) => V(String::from(x).into_bytes()),
            (T(x), 1) => T(x.into_shared()),
            (T(x), _) => B(x.into_bytedata()),
            (Y(x), 0) => S(x.into()),
            (Y(x), 1) => B(x.into()),
            (Y(x), 2) => V(x.into()),
            (Y(x), 3) => match x.try_into_mut() {
                Ok(x) => X(x),
                Err(x) => Y(x),
            },
            (Y(x), _) => X(x.into()),
            (M(x), _) => S(x.build()),
            (V(x), 0) => B(ByteData::from_external(x)),
            (V(x), 1) => Y(x.into()),
            (V(x), _) => B(x.into()),
            (X(x), _) => Y(x.freeze()),
            (Q(x), 0) => V(x.chunks().flat_map(|c| c.as_slice().to_vec()).collect()),
            (Q(x), _) => Y(x.into()),
        }
    }
    /// Changes the first byte and appends one, where the handle owns its bytes.
    fn change(self, m: &mut Vec<u8>, b: u8) -> H {
        match self {
            S(x) if x.is_unique() => M(x.into()).change(m, b),
            M(mut x) => {
                if let Some(y) = x.as_slice_mut().first_mut() {
                    *y = b;
                    m[0] = b;
                }
                x.extend_from_slice(&[b]);
                m.push(b);
                M(x)
            }
            V(mut x) => {
                if let Some(y) = x.first_mut() {
                    *y = b;
                    m[0] = b;
                }
                x.push(b);
                m.push(b);
                V(x)
            }
            X(mut x) => {
                if let Some(y) = x.first_mut() {
                    *y = b;
                    m[0] = b;
                }
                x.extend_from_slice(&[b]);
                m.push(b);
                X(x)
            }
            Q(mut x) => {
                if let Some(c) = x.pop_front() {
                    m.drain(..c.len());
                    x.push_back(c.clone());
                    m.extend_from_slice(&c);
                }
                x.push_back(ByteData::from_byte(b));
                m.push(b);
                Q(x)
            }
            x => x,
        }
    }
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Clone(usize),
    FromRoot(usize),
    /// a part of a shared reference
    PartOfRoot(usize, usize, usize),
    Drop(usize),
    Slice(usize, usize, usize, usize),
    Read(usize),
    Turn(usize, usize),
    Change(usize, u8),
    Send(usize),
    Recv,
    Intern(usize, bool),
    Get(usize),
    Clear,
    Share,
    Yield,
}
/// The bytes are read in the order of their addresses, so that a race is seen by Miri.
fn check(h: &H, m: &[u8], what: &str) {
    let r = h.read();
    assert!(r == m, "CONTENT after {what}: a {} holds {:?}, must hold {:?}", h.name(), r.escape_ascii().to_string(), m.escape_ascii().to_string());
}
type Slot = (H, Vec<u8>);
struct World<'w> {
    /// all threads wait for each other here
    gate: &'w Option<Barrier>,
    roots: &'w [Slot],
    mail: &'w Mutex<Vec<Slot>>,
    words: &'w [Vec<u8>],
    table: &'w StaticInterning,
    /// the table is never cleared
    kept: bool,
}
/// Gives what is left, and for each word the address of the instance the table gave for it.
fn thread(w: &World<'_>, mut slots: Vec<Slot>, prog: &[Op]) -> (Vec<Slot>, Vec<Option<usize>>) {
    let mut own: Option<StaticInterning> = None;
    let mut first: Vec<Option<usize>> = vec![None; w.words.len()];
    if let Some(g) = w.gate {
        g.wait();
    }
    for op in prog {
        let n = slots.len();
        match *op {
            Op::Clone(i) if n > 0 => {
                let (h, m) = &slots[i % n];
                let x = (h.cloned(), m.clone());
                check(&x.0, &x.1, "clone");
                slots.push(x);
            }
            Op::FromRoot(i) if !w.roots.is_empty() => {
                let (h, m) = &w.roots[i % w.roots.len()];
                let x = (h.cloned(), m.clone());
                check(&x.0, &x.1, "clone of a shared reference");
                slots.push(x);
            }
            Op::PartOfRoot(i, a, z) if !w.roots.is_empty() => {
                let (h, m) = &w.roots[i % w.roots.len()];
                let a = a % (m.len() + 1);
                let z = a + z % (m.len() - a + 1);
                let x = (h.part(a, z), m[a..z].to_vec());
                check(&x.0, &x.1, "slicing a shared reference");
                slots.push(x);
            }
            Op::Drop(i) if n > 0 => drop(slots.swap_remove(i % n)),
            Op::Slice(i, a, z, how) if n > 0 => {
                let (h, m) = slots.swap_remove(i % n);
                let a = a % (m.len() + 1);
                let z = a + z % (m.len() - a + 1);
                let x = (h.slice(a, z, how), m[a..z].to_vec());
                check(&x.0, &x.1, "slicing");
                slots.push(x);
            }
            Op::Read(i) if n > 0 => check(&slots[i % n].0, &slots[i % n].1, "reading"),
            Op::Turn(i, k) if n > 0 => {
                let (h, m) = slots.swap_remove(i % n);
                let x = (h.turn(k), m);
                check(&x.0, &x.1, "conversion");
                slots.push(x);
            }
            Op::Change(i, b) if n > 0 => {
                let (h, mut m) = slots.swap_remove(i % n);
                let h = h.change(&mut m, b);
                check(&h, &m, "a change in place");
                slots.push((h, m));
            }
            Op::Send(i) if n > 0 => {
                let x = slots.swap_remove(i % n);
                w.mail.lock().unwrap().push(x);
            }
            Op::Recv => {
                let x = w.mail.lock().unwrap().pop();
                if let Some(x) = x {
                    check(&x.0, &x.1, "receiving");
                    slots.push(x);
                }
            }
            Op::Intern(k, always) => {
                let k = k % w.words.len();
                let b = &w.words[k];
                let t = own.as_ref().unwrap_or(w.table);
                let v = ByteData::from_borrowed(&b[..]);
                let r = if always { Ok(t.intern_always(v)) } else { t.intern(v) };
                let v = r.unwrap_or_else(|_| panic!("CONTENT intern refuses {} bytes", b.len()));
                let at = v.as_slice().as_ptr() as usize;
                check(&B(v), b, "interning");
                if w.kept && b.len() > 14 {
                    let f = *first[k].get_or_insert(at);
                    assert!(f == at, "CONTENT interning gives another instance the second time");
                }
            }
            Op::Get(k) => {
                let k = k % w.words.len();
                let b = &w.words[k];
                let t = own.as_ref().unwrap_or(w.table);
                match t.get(ByteData::from_borrowed(&b[..])) {
                    Ok(v) => {
                        let at = v.as_slice().as_ptr() as usize;
                        check(&B(v), b, "a look-up");
                        if w.kept && b.len() > 14 {
                            let f = *first[k].get_or_insert(at);
                            assert!(f == at, "CONTENT a look-up gives another instance");
                        }
                    }
                    Err(v) => {
                        assert!(v.as_slice() == &b[..], "CONTENT a failed look-up gives other bytes");
                        assert!(!w.kept || first[k].is_none(), "CONTENT a look-up does not find what was interned");
                    }
                }
            }
            Op::Clear if !w.kept => own.as_ref().unwrap_or(w.table).clear(),
            Op::Share => own = Some(own.as_ref().unwrap_or(w.table).clone()),
            Op::Yield => std::thread::yield_now(),
            _ => (),
        }
    }
    (slots, first)
}
const WEIGHTS: [[u32; 15]; 5] = [
    [3, 2, 4, 2, 2, 6, 4, 1, 1, 2, 1, 1, 1, 1, 2],
    // who is the last one with a handle: one thread converts and changes, the others read and drop
    [0, 0, 1, 1, 1, 8, 8, 0, 0, 0, 0, 0, 0, 4, 0],
    // the interning table
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 3, 1, 2, 1, 0],
    [1, 0, 2, 1, 2, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0],
    // the same thing at once in every thread
    [1, 6, 2, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 4],
];
fn gen_op(s: &mut Src, words: usize, focus: usize) -> Op {
    match s.weighted(&WEIGHTS[focus]) {
        0 => Op::Clone(s.usize(4)),
        1 => Op::FromRoot(s.usize(3)),
        2 => Op::Drop(s.usize(4)),
        3 => Op::Slice(s.usize(4), s.usize(41), s.usize(41), s.usize(3)),
        4 => Op::Read(s.usize(4)),
        5 => Op::Turn(s.usize(4), s.usize(5)),
        6 => Op::Change(s.usize(4), b'A' + s.usize(26) as u8),
        7 => Op::Send(s.usize(4)),
        8 => Op::Recv,
        9 => Op::Intern(s.usize(words), s.bool()),
        10 => Op::Get(s.usize(words)),
        11 => Op::Clear,
        12 => Op::Share,
        13 => Op::Yield,
        _ => Op::PartOfRoot(s.usize(3), s.usize(41), s.usize(41)),
    }
}
pub const INTERNRACE: Module = Module {
    name: "internrace",
    rule: "a case is one interning table (made empty or without its map) and 2 or 3 threads, each running a drawn program of 1 to 8 operations on it (intern one of two words of 14 to 64 bytes, look up, clear, share the table, yield), starting at once in most cases, under Miri with one pseudo-random interleaving each; every value given must hold the bytes, what was interned must be found, and as long as nothing is cleared all threads must be given the same instance of a word. Non-trivial: at least two threads run at least 3 operations each.",
    run: |s, cx| run_on(s, cx, 2),
    guided: false,
    balance: false,
};
pub fn run(s: &mut Src, cx: &mut Ctx) {
    let focus = s.weighted(&[6, 3, 1, 0, 4]);
    run_on(s, cx, focus);
}
fn run_on(s: &mut Src, cx: &mut Ctx, focus: usize) {
    let nroot = if focus == 0 { s.range(1, 3) } else { 1 };
    let mut owners: Vec<Arc<AtomicU32>> = Vec::new();
    let mut roots: Vec<Slot> = Vec::new();
    for _ in 0..nroot {
        let n = s.range(15, 40);
        let seed = s.usize(26) as u8;
        let c: Vec<u8> = (0..n).map(|k| b'a' + ((seed as usize + k * 7) % 26) as u8).collect();
        let st = || String::from_utf8(c.clone()).unwrap();
        let k = s.usize(12);
        let h = match k {
            0 => S(SharedBytes::from_slice(&c)),
            1 => {
                let mut b = SharedBytesBuilder::with_capacity(s.usize(64));
                b.extend_from_slice(&c);
                S(b.build())
            }
            2 => B(ByteData::from_shared(SharedBytes::from_slice(&c))),
            3 => {
                let d = Arc::new(AtomicU32::new(0));
                owners.push(Arc::clone(&d));
                B(ByteData::from_external(Own { data: c.clone().into_boxed_slice(), drops: d }))
            }
            4 => {
                // a view of a part of the vector
                let pre = s.usize(4);
                let mut v = vec![b'-'; pre];
                v.extend_from_slice(&c);
                B(ByteData::from_external(v).into_sliced(pre..))
            }
            5 => B(ByteData::from_external(c.clone().into_boxed_slice())),
            6 => B(ByteData::from_external(Arc::<[u8]>::from(&c[..]))),
            7 => T(StringData::from_owned(st())),
            8 => Y(Bytes::from(SharedBytes::from_slice(&c))),
            9 => B(ByteData::from(Bytes::from(c.clone()))),
            10 => Y(Bytes::from(ByteData::from_external(c.clone()))),
            _ => {
                let mut q = ByteQueue::with_item(ByteData::from_shared(SharedBytes::from_slice(&c[..n / 2])));
                q.push_back(ByteData::from_external(c[n / 2..].to_vec()));
                Q(q)
            }
        };
        note!(cx, "root {} #{k} of {n} bytes", h.name());
        roots.push((h, c));
    }
    let words: Vec<Vec<u8>> = (0..2).map(|k| vec![b'0' + k; [15, 30, 14, 64][s.usize(4)]]).collect();
    let table = if focus == 2 || s.bool() { StaticInterning::new_const(64) } else { StaticInterning::new(64) };
    let nth = if focus == 1 { 2 } else { s.range(2, 3) };
    let progs: Vec<Vec<Op>> = (0..nth)
        .map(|k| {
            let n = s.range(1, if focus == 4 || focus == 1 && k > 0 { 3 } else { 8 });
            if focus == 4 {
                let first = if s.bool() { Op::FromRoot(0) } else { Op::PartOfRoot(0, s.usize(8), 40 - s.usize(8)) };
                return std::iter::once(first).chain((1..n).map(|_| gen_op(s, 2, focus))).collect();
            }
            (0..n).map(|_| gen_op(s, 2, if focus == 1 && k > 0 { 3 } else { focus })).collect()
        })
        .collect();
    let kept = !progs.iter().flatten().any(|o| matches!(o, Op::Clear));
    for (k, p) in progs.iter().enumerate() {
        note!(cx, "thread {k}: {p:?}");
    }
    if focus == 4 || progs.iter().filter(|p| p.len() >= 3).count() >= 2 {
        cx.nontrivial();
    }
    // each thread owns clones of some roots; the roots are kept for shared references, or dropped before the threads run
    let given: Vec<Vec<Slot>> = (0..nth).map(|_| roots.iter().filter(|_| focus != 4 && (focus == 1 || s.ratio(3, 4))).map(|(h, m)| (h.cloned(), m.clone())).collect()).collect();
    if focus == 1 || focus != 4 && s.bool() {
        roots.clear();
        note!(cx, "the originals are dropped before the threads start");
    }
    let mail = Mutex::new(Vec::new());
    let gate = (focus == 4 || focus == 2 && s.ratio(3, 4)).then(|| Barrier::new(nth));
    let w = World { gate: &gate, roots: &roots, mail: &mail, words: &words, table: &table, kept };
    let mut bad: Option<String> = None;
    let mut seen: Vec<Vec<Option<usize>>> = Vec::new();
    std::thread::scope(|sc| {
        let mut hs = Vec::new();
        let mut mine = None;
        for (k, (sl, p)) in given.into_iter().zip(&progs).enumerate() {
            if k == 0 {
                mine = Some((sl, p));
                continue;
            }
            let w = &w;
            hs.push(sc.spawn(move || {
                let (l, at) = thread(w, sl, p);
                drop(l);
                at
            }));
        }
        let (sl, p) = mine.unwrap();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| thread(&w, sl, p).1)) {
            Ok(at) => seen.push(at),
            Err(e) => bad = Some(text(e)),
        }
        for h in hs {
            match h.join() {
                Ok(at) => seen.push(at),
                Err(e) => bad = Some(text(e)),
            }
        }
    });
    if let Some(b) = bad {
        ck!(cx, Content, !b.contains("CONTENT"), "{b}");
        ck!(cx, Panic, false, "a thread panics: {b}");
    }
    if kept {
        for k in 0..words.len() {
            let mut at: Vec<usize> = seen.iter().filter_map(|x| x[k]).collect();
            at.dedup();
            ck!(cx, Content, at.len() < 2, "two threads were given different instances of the interned {} bytes", words[k].len());
        }
    }
    drop(mail);
    for (h, m) in &roots {
        check(h, m, "all threads ended");
    }
    drop(roots);
    drop(table);
    for o in owners {
        let d = o.load(Ordering::Relaxed);
        ck!(cx, Memory, d == 1, "an external owner was dropped {d} times");
    }
}
fn text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_else(|| "a panic".into())
}
