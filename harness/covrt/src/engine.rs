//! Choice tapes, case context, worker loop, shrinking and reporting.
use crate::{allocs, balance, cov_for_each, cov_pause, cov_reset, enter_case, exempt, leave_case, steps};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub const STEP_LIMIT: u64 = 600_000_000;
const TAPE_CAP: usize = 1 << 15;

// ------------------------------------------------------------------ rng
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x9E37_79B9_7F4A_7C15))
    }
    #[inline(never)]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            self.next() % n
        }
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for x in b {
        h = mix(h ^ u64::from(*x)).wrapping_add(0x1234_5678_9ABC_DEF1);
    }
    h
}

// ------------------------------------------------------------------ tape
/// The draws of one case, kept in a file mapping so that they survive a crash of the worker.
struct TapeFile {
    base: *mut u64,
}
extern "C" {
    fn mmap(a: *mut core::ffi::c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut core::ffi::c_void;
    fn open(p: *const core::ffi::c_char, flags: i32, ...) -> i32;
    fn ftruncate(fd: i32, n: i64) -> i32;
    fn close(fd: i32) -> i32;
}
static KEPT: core::sync::atomic::AtomicPtr<u64> = core::sync::atomic::AtomicPtr::new(core::ptr::null_mut());
impl TapeFile {
    fn new(path: Option<&Path>) -> Self {
        let bytes = (TAPE_CAP + 2) * 8;
        if cfg!(miri) || path.is_none() {
            let old = KEPT.load(core::sync::atomic::Ordering::Relaxed);
            if !old.is_null() {
                return TapeFile { base: old };
            }
            let v = vec![0_u64; TAPE_CAP + 2].into_boxed_slice();
            let base = Box::leak(v).as_mut_ptr();
            // reachable, so that it is no leak for Miri
            KEPT.store(base, core::sync::atomic::Ordering::Relaxed);
            return TapeFile { base };
        }
        unsafe {
            let p = std::ffi::CString::new(path.unwrap().to_str().unwrap()).unwrap();
            let fd = open(p.as_ptr().cast(), 0o102 | 0o1000, 0o644_u32);
            assert!(fd >= 0, "cannot create {path:?}");
            assert_eq!(ftruncate(fd, bytes as i64), 0);
            let m = mmap(core::ptr::null_mut(), bytes, 3, 1, fd, 0);
            assert!(m as isize != -1, "mmap failed");
            close(fd);
            TapeFile { base: m.cast() }
        }
    }
    fn set_len(&mut self, case: u64, n: usize) {
        unsafe {
            *self.base = case;
            *self.base.add(1) = n as u64;
        }
    }
    fn put(&mut self, i: usize, v: u64) {
        unsafe {
            *self.base.add(2 + i) = v;
            *self.base.add(1) = i as u64 + 1;
        }
    }
    fn read(path: &Path) -> Option<(u64, Vec<u64>)> {
        let b = std::fs::read(path).ok()?;
        let w: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let n = *w.get(1)? as usize;
        Some((w[0], w.get(2..2 + n)?.to_vec()))
    }
}

/// Under Miri: print each draw, for a process that will be aborted.
pub static ECHO: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);

enum Tail {
    Zero,
    Rng(Rng),
}
/// The source of every choice of a case. Zero is always the simplest choice.
pub struct Src {
    replay: Vec<u64>,
    rpos: usize,
    tail: Tail,
    file: *mut TapeFile,
    n: usize,
}
impl Src {
    #[inline(never)]
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 || self.n >= TAPE_CAP {
            return 0;
        }
        let raw = if self.rpos < self.replay.len() {
            self.rpos += 1;
            self.replay[self.rpos - 1]
        } else {
            match &mut self.tail {
                Tail::Zero => 0,
                Tail::Rng(r) => r.next(),
            }
        };
        let v = raw % n;
        unsafe { (*self.file).put(self.n, v) };
        self.n += 1;
        #[cfg(miri)]
        if ECHO.load(core::sync::atomic::Ordering::Relaxed) {
            println!("D {v}");
        }
        v
    }
    pub fn exhausted(&self) -> bool {
        self.n >= TAPE_CAP || (self.rpos >= self.replay.len() && matches!(self.tail, Tail::Zero))
    }
    #[inline(never)]
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    #[inline(never)]
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo) as u64 + 1) as usize
    }
    #[inline(never)]
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability a/b
    #[inline(never)]
    pub fn ratio(&mut self, a: u64, b: u64) -> bool {
        self.below(b) >= b - a
    }
    #[inline(never)]
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u64 = w.iter().map(|x| u64::from(*x)).sum();
        let mut k = self.below(t);
        for (i, x) in w.iter().enumerate() {
            if k < u64::from(*x) {
                return i;
            }
            k -= u64::from(*x);
        }
        0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
}

// ------------------------------------------------------------------ failures and context
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// wrong bytes, lengths, positions, results
    Content,
    /// memory protocol: leaks, double frees, poisoned reads, owners not dropped exactly once
    Memory,
    /// invalid UTF-8
    Utf8,
    /// copied where documented not to copy, or a visible change through another handle
    Alias,
    /// a panic, crash or missing panic
    Panic,
}
pub struct Fail {
    pub kind: Kind,
    pub msg: String,
}
pub struct Ctx {
    pub rec: bool,
    /// print the log as it is made (replays)
    pub live: bool,
    log: Vec<String>,
    nontrivial: bool,
    labels: Vec<(&'static str, u64)>,
}
impl Ctx {
    fn new(rec: bool, live: bool) -> Self {
        Ctx { rec, live, log: Vec::new(), nontrivial: false, labels: Vec::new() }
    }
    #[inline(never)]
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.rec {
            let _e = exempt();
            let s = f();
            if self.live {
                println!("  {s}");
            }
            if self.log.len() < 400 {
                self.log.push(s);
            }
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    #[inline(never)]
    pub fn label(&mut self, l: &'static str) {
        for e in &mut self.labels {
            if core::ptr::eq(e.0, l) {
                e.1 += 1;
                return;
            }
        }
        let _e = exempt();
        self.labels.push((l, 1));
    }
    #[inline(never)]
    pub fn fail(&mut self, kind: Kind, msg: String) -> ! {
        let msg = { let _e = exempt(); msg.clone() };
        QUIET.with(|q| q.set(true));
        std::panic::panic_any(Fail { kind, msg })
    }
    /// Runs `f`, catching a panic (expected or not) and giving its message.
    #[inline(never)]
    pub fn catch<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        let r = catch_unwind(AssertUnwindSafe(f));
        match r {
            Ok(v) => Ok(v),
            Err(p) => {
                if p.is::<Fail>() {
                    std::panic::resume_unwind(p);
                }
                let _e = exempt();
                let mut m = LAST.with(|l| std::mem::take(&mut *l.borrow_mut()));
                if m.is_empty() {
                    m.push_str("panic");
                }
                drop(p);
                Err(m)
            }
        }
    }
}
thread_local! {
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _e = exempt();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        if m.starts_with("unsafe precondition") {
            // this one aborts
            eprintln!("FATAL: {}", m.lines().next().unwrap_or(""));
        }
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST.try_with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = format!("{m}{loc}");
            }
        });
    }));
}
/// `ck!(cx, Kind, condition, "format", args...)`
#[macro_export]
macro_rules! ck {
    ($cx:expr, $k:ident, $c:expr, $($f:tt)+) => {
        if !$c {
            let m = { let _e = $crate::exempt(); format!($($f)+) };
            $cx.fail($crate::engine::Kind::$k, m)
        }
    };
}
#[macro_export]
macro_rules! note {
    ($cx:expr, $($f:tt)+) => {
        if $cx.rec { $cx.note(|| format!($($f)+)) }
    };
}

// ------------------------------------------------------------------ running one case
pub struct Module {
    pub name: &'static str,
    pub rule: &'static str,
    pub run: fn(&mut Src, &mut Ctx),
    /// `false` for modules whose code is not deterministic enough for coverage feedback
    pub guided: bool,
    /// do not check the allocation balance (the tested code keeps memory on purpose)
    pub balance: bool,
}
pub struct Outcome {
    pub fail: Option<(Kind, String)>,
    pub nontrivial: bool,
    pub labels: Vec<(&'static str, u64)>,
    pub log: Vec<String>,
    pub tape: Vec<u64>,
    pub steps: u64,
}
fn run_case(m: &Module, file: &mut TapeFile, case: u64, replay: Vec<u64>, tail: Tail, rec: bool, live: bool) -> Outcome {
    let ex = exempt();
    file.set_len(case, 0);
    let mut src = Src { replay, rpos: 0, tail, file, n: 0 };
    let mut cx = Ctx::new(rec, live);
    drop(ex);
    cov_reset(STEP_LIMIT);
    let before = balance();
    enter_case();
    let r = catch_unwind(AssertUnwindSafe(|| (m.run)(&mut src, &mut cx)));
    leave_case();
    let after = balance();
    let st = cov_pause();
    let _e = exempt();
    let mut fail = match r {
        Ok(()) => None,
        Err(p) => Some(match p.downcast::<Fail>() {
            Ok(f) => (f.kind, f.msg),
            Err(_) => (Kind::Panic, format!("unexpected panic: {}", LAST.with(|l| std::mem::take(&mut *l.borrow_mut())))),
        }),
    };
    if fail.is_none() {
        crate::check_quarantine();
        if m.balance && crate::CHECKING && before != after {
            fail = Some((
                Kind::Memory,
                format!(
                    "heap balance changed over the case: {} blocks / {} bytes before, {} blocks / {} bytes after",
                    before.live, before.bytes, after.live, after.bytes
                ),
            ));
        }
    }
    let n = src.n;
    let tape = unsafe { std::slice::from_raw_parts(file.base.add(2), n).to_vec() };
    Outcome { fail, nontrivial: cx.nontrivial, labels: cx.labels, log: cx.log, tape, steps: st }
}
fn is_leak(o: &Outcome) -> bool {
    matches!(&o.fail, Some((Kind::Memory, m)) if m.starts_with("heap balance"))
}

fn mutate(r: &mut Rng, t: &mut Vec<u64>, other: Option<&Vec<u64>>) {
    let k = 1 + r.below(6);
    for _ in 0..k {
        if t.is_empty() {
            t.push(r.next());
            continue;
        }
        let n = t.len() as u64;
        match r.below(8) {
            0 | 1 => {
                let i = r.below(n) as usize;
                t[i] = r.next() >> r.below(64);
            }
            2 => {
                let i = r.below(n) as usize;
                t[i] = t[i].wrapping_add(1 + r.below(2) * (u64::MAX - 1));
            }
            3 => {
                let i = r.below(n) as usize;
                let l = 1 + r.below(8.min(n - i as u64)) as usize;
                t.drain(i..i + l);
            }
            4 => {
                let i = r.below(n) as usize;
                let l = 1 + r.below(12.min(n - i as u64)) as usize;
                let seg: Vec<u64> = t[i..i + l].to_vec();
                let at = r.below(n + 1) as usize;
                t.splice(at..at, seg);
            }
            5 => {
                let i = r.below(n) as usize;
                let ins: Vec<u64> = (0..1 + r.below(4)).map(|_| r.next()).collect();
                t.splice(i..i, ins);
            }
            6 => {
                if let Some(o) = other {
                    let a = r.below(n + 1) as usize;
                    let b = r.below(o.len() as u64 + 1) as usize;
                    t.truncate(a);
                    t.extend_from_slice(&o[b..]);
                }
            }
            _ => {
                let i = r.below(n + 1) as usize;
                t.truncate(i);
            }
        }
    }
    t.truncate(TAPE_CAP);
}

fn module<'a>(mods: &'a [Module], name: &str) -> &'a Module {
    mods.iter().find(|m| m.name == name).unwrap_or_else(|| panic!("no module {name}"))
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A small set of cheap tapes covering every edge the corpora reach, best rate of new edges first, then one
/// covering every edge a second time where it can, and so on: lines `steps new module tape`.
fn cover(corpora: &[(&Module, Vec<Vec<u64>>)], file: &mut TapeFile, passes: usize) -> String {
    let mut all: Vec<(u64, Vec<usize>, &str, &Vec<u64>)> = Vec::new();
    for (m, corpus) in corpora {
        for t in corpus {
            let o = run_case(m, file, 0, t.clone(), Tail::Zero, false, false);
            let mut e = Vec::new();
            cov_for_each(|x, _| e.push(x));
            if o.fail.is_none() {
                all.push((o.steps, e, m.name, t));
            }
        }
    }
    let mut s = String::new();
    let mut left: Vec<usize> = (0..all.len()).collect();
    for _ in 0..passes {
        let mut done = vec![false; crate::MAP];
        // the rates only go down
        let rate = |i: usize, done: &[bool]| {
            let n = all[i].1.iter().filter(|x| !done[**x]).count();
            ((n as f64 / (all[i].0 as f64 + 2000.0) * 1e12) as u64, n)
        };
        let mut heap: std::collections::BinaryHeap<(u64, usize)> = left.iter().map(|i| (rate(*i, &done).0, *i)).collect();
        let mut used = std::collections::HashSet::new();
        while let Some((r, i)) = heap.pop() {
            let (now, n) = rate(i, &done);
            if n == 0 {
                continue;
            }
            if now < r {
                heap.push((now, i));
                continue;
            }
            for x in &all[i].1 {
                done[*x] = true;
            }
            used.insert(i);
            let t: Vec<String> = all[i].3.iter().map(u64::to_string).collect();
            let _ = writeln!(s, "{} {n} {} {}", all[i].0, all[i].2, t.join(","));
        }
        left.retain(|i| !used.contains(i));
    }
    s
}

fn worker(mods: &[Module], a: &[String]) -> i32 {
    // worker <module> <seed> <first> <stride> <cases> <tapefile> <outfile>
    let _main = exempt();
    let m = module(mods, &a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let first: u64 = a[2].parse().unwrap();
    let stride: u64 = a[3].parse().unwrap();
    let cases: u64 = a[4].parse().unwrap();
    let mut file = TapeFile::new(Some(Path::new(&a[5])));
    let out = PathBuf::from(&a[6]);
    let mseed = hash_bytes(mix(seed), m.name.as_bytes());
    let mut wrng = Rng::new(mseed ^ mix(first + 77));
    let mut corpus: Vec<Vec<u64>> = Vec::new();
    let keep = std::env::var_os("VERIF_CORPUS").is_some();
    let mut virgin = vec![0_u8; crate::MAP];
    let mut seen: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut sample_tapes: Vec<Vec<u64>> = Vec::new();
    let (mut evals, mut maxsteps, mut draws, mut guided) = (0_u64, 0_u64, 0_u64, 0_u64);
    let mut costs = [0_u64; 2];
    let mut failure: Option<(Kind, String, Vec<u64>)> = None;
    drop(_main);
    // warm up lazily initialised runtime state outside any case
    let _ = catch_unwind(|| panic!("warm up"));
    let mut case = first;
    while case < cases {
        let ex = exempt();
        // the corpus may drift to inputs which take very long: these get no more than their share of the time
        let dear = costs[1] > 3 * costs[0] + 20_000_000;
        let use_corpus = m.guided && !corpus.is_empty() && wrng.below(5) < 2 && !dear;
        let (replay, tail) = if use_corpus {
            guided += 1;
            let i = if wrng.below(3) == 0 { corpus.len() - 1 - wrng.below((corpus.len() as u64).min(8)) as usize } else { wrng.below(corpus.len() as u64) as usize };
            let mut t = corpus[i].clone();
            let j = wrng.below(corpus.len() as u64) as usize;
            let o = corpus[j].clone();
            mutate(&mut wrng, &mut t, Some(&o));
            (t, Tail::Rng(Rng::new(mseed ^ mix(case.wrapping_mul(2) + 1))))
        } else {
            (Vec::new(), Tail::Rng(Rng::new(mseed ^ mix(case.wrapping_mul(2)))))
        };
        drop(ex);
        let mut o = run_case(m, &mut file, case, replay, tail, false, false);
        if is_leak(&o) {
            // a leak must repeat: lazily initialised state is no leak
            o = run_case(m, &mut file, case, o.tape.clone(), Tail::Zero, false, false);
        }
        let ex = exempt();
        evals += 1;
        maxsteps = maxsteps.max(o.steps);
        costs[usize::from(use_corpus)] += o.steps;
        draws += o.tape.len() as u64;
        if let Some((k, msg)) = o.fail {
            failure = Some((k, msg, o.tape));
            drop(ex);
            break;
        }
        let mut news = false;
        cov_for_each(|e, b| {
            if virgin[e] & b != b {
                virgin[e] |= b;
                news = true;
            }
        });
        if o.nontrivial {
            let mut h = 7;
            for v in &o.tape {
                h = mix(h ^ *v).wrapping_add(0x5bd1);
            }
            if seen.insert(h) && first == 0 && (sample_tapes.len() < 2 && case > 20 || (sample_tapes.len() < 3 && case > cases / 2)) {
                sample_tapes.push(o.tape.clone());
            }
        }
        for (l, n) in &o.labels {
            *labels.entry(l).or_insert(0) += n;
        }
        if news && (m.guided || keep) && o.tape.len() < TAPE_CAP / 2 {
            if corpus.len() < 4000 {
                corpus.push(o.tape);
            } else {
                let i = wrng.below(corpus.len() as u64) as usize;
                corpus[i] = o.tape;
            }
        }
        drop(ex);
        case += stride;
    }
    let _e = exempt();
    let mut s = String::new();
    let _ = writeln!(s, "evals {evals}");
    let _ = writeln!(s, "guided {guided}");
    let _ = writeln!(s, "draws {draws}");
    let _ = writeln!(s, "maxsteps {maxsteps}");
    let _ = writeln!(s, "corpus {}", corpus.len());
    let _ = writeln!(s, "edges {} {}", virgin.iter().filter(|x| **x != 0).count(), crate::edges_total());
    let _ = writeln!(s, "allocs {}", allocs().0);
    for (l, n) in &labels {
        let _ = writeln!(s, "label {n} {l}");
    }
    for t in &sample_tapes {
        let o = run_case(m, &mut file, 0, t.clone(), Tail::Zero, true, false);
        let _ = writeln!(s, "sample {}", jstr(&o.log.join("; ")));
    }
    if let Some((k, msg, t)) = failure {
        let t: Vec<String> = t.iter().map(u64::to_string).collect();
        let _ = writeln!(s, "fail {k:?} {}", jstr(&msg));
        let _ = writeln!(s, "tape {}", t.join(" "));
    }
    let hs: Vec<u8> = seen.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(out.with_extension("seen"), hs).unwrap();
    std::fs::write(&out, s).unwrap();
    if keep {
        std::fs::write(out.with_extension("corpus"), cover(&[(m, corpus)], &mut file, 1)).unwrap();
    }
    0
}

// ------------------------------------------------------------------ parent
struct Fault {
    kind: Kind,
    msg: String,
    tape: Vec<u64>,
}
fn describe_exit(st: std::process::ExitStatus, err: &str) -> (Kind, String) {
    use std::os::unix::process::ExitStatusExt;
    let fatal = err.lines().find(|l| l.starts_with("FATAL:")).map(|l| l[7..].trim().to_string());
    let asan = err.lines().find(|l| l.contains("ERROR: AddressSanitizer")).map(|l| {
        let i = l.find("AddressSanitizer").unwrap();
        // addresses differ from run to run
        l[i..].split(" on ").next().unwrap_or("").split(" (pc").next().unwrap_or("").to_string()
    });
    if let Some(a) = asan {
        return (Kind::Memory, a);
    }
    match st.code() {
        Some(crate::EXIT_MEM) => (Kind::Memory, fatal.unwrap_or_else(|| "memory fault".into())),
        Some(crate::EXIT_STEPS) => (Kind::Content, "a call does not terminate (step budget exceeded)".into()),
        Some(crate::EXIT_BUDGET) => (Kind::Content, "unbounded growth (allocation budget exceeded)".into()),
        _ => {
            let last = err.lines().last().unwrap_or("").to_string();
            if let (Some(f), Some(_)) = (&fatal, st.signal()) {
                return (Kind::Memory, f.clone());
            }
            // SIGILL, SIGBUS, SIGSEGV
            let k = if matches!(st.signal(), Some(4 | 7 | 11)) { Kind::Memory } else { Kind::Panic };
            (k, format!("the process was ended: {} {last}", st.signal().map_or(format!("exit {:?}", st.code()), |s| format!("signal {s}"))))
        }
    }
}
fn write_replay(path: &Path, pid: &str, variant: &str, module: &str, tape: &[u64], kind: Kind, msg: &str) {
    let t: Vec<String> = tape.iter().map(u64::to_string).collect();
    std::fs::write(
        path,
        format!("property {pid}\nvariant {variant}\nmodule {module}\nkind {kind:?}\nwhat {}\ntape {}\n", msg.replace('\n', " "), t.join(" ")),
    )
    .unwrap();
}
/// Runs a tape in a process of its own. `None`: it passes.
fn try_tape(exe: &Path, tmp: &Path, module: &str, tape: &[u64]) -> Option<(Kind, String, Vec<u64>)> {
    write_replay(tmp, "-", "-", module, tape, Kind::Content, "");
    let o = Command::new(exe).arg("replay-quiet").arg(tmp).stdin(Stdio::null()).output().unwrap();
    if o.status.success() {
        return None;
    }
    let so = String::from_utf8_lossy(&o.stdout);
    let mut norm = tape.to_vec();
    let mut r = None;
    for l in so.lines() {
        if let Some(x) = l.strip_prefix("fail ") {
            let (k, m) = x.split_once(' ').unwrap();
            r = Some((parse_kind(k), m.to_string()));
        }
        if let Some(x) = l.strip_prefix("tape ") {
            norm = x.split_whitespace().map(|v| v.parse().unwrap()).collect();
        } else if l == "tape" {
            norm = Vec::new();
        }
    }
    let (k, m) = r.unwrap_or_else(|| describe_exit(o.status, &String::from_utf8_lossy(&o.stderr)));
    Some((k, m, norm))
}
fn parse_kind(k: &str) -> Kind {
    match k {
        "Memory" => Kind::Memory,
        "Utf8" => Kind::Utf8,
        "Alias" => Kind::Alias,
        "Panic" => Kind::Panic,
        _ => Kind::Content,
    }
}
fn shrink(exe: &Path, tmp: &Path, module: &str, f: Fault) -> Fault {
    let mut best = f;
    let mut left = 700_i32;
    let until = std::time::Instant::now() + std::time::Duration::from_secs(60);
    let attempt = |best: &mut Fault, cand: Vec<u64>, left: &mut i32| -> bool {
        if *left <= 0 || std::time::Instant::now() > until {
            return false;
        }
        *left -= 1;
        if let Some((k, m, norm)) = try_tape(exe, tmp, module, &cand) {
            if k == best.kind {
                let cand = if norm.len() < cand.len() || (norm.len() == cand.len() && norm < cand) { norm } else { cand };
                if cand.len() < best.tape.len() || (cand.len() == best.tape.len() && cand < best.tape) {
                    *best = Fault { kind: k, msg: m, tape: cand };
                    return true;
                }
            }
        }
        false
    };
    let mut progress = true;
    while progress && left > 0 {
        progress = false;
        let mut size = (best.tape.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.tape.len() && left > 0 {
                let mut c = best.tape.clone();
                let e = (i + size).min(c.len());
                c.drain(i..e);
                if attempt(&mut best, c, &mut left) {
                    progress = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.tape.len() && left > 0 {
            let v = best.tape[i];
            if v != 0 {
                for w in [0, v / 2, v - 1] {
                    if w < best.tape.get(i).copied().unwrap_or(0) {
                        let mut c = best.tape.clone();
                        c[i] = w;
                        if attempt(&mut best, c, &mut left) {
                            progress = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    best
}

fn kinds_of(s: &str) -> Vec<Kind> {
    if s == "all" {
        return vec![Kind::Content, Kind::Memory, Kind::Utf8, Kind::Alias, Kind::Panic];
    }
    s.split('+').map(parse_kind).collect()
}

/// check <pid> <variant> <seed> <workdir> <replaydir> <module:cases:kinds>...
/// Prints one JSON object with what was covered and, last, the violations.
fn check(mods: &[Module], a: &[String]) -> i32 {
    let pid = &a[0];
    let variant = &a[1];
    let seed: u64 = a[2].parse().unwrap();
    let work = PathBuf::from(&a[3]);
    let replays = PathBuf::from(&a[4]);
    std::fs::create_dir_all(&work).unwrap();
    std::fs::create_dir_all(&replays).unwrap();
    let exe = std::env::current_exe().unwrap();
    let nw: u64 = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut mods_json = Vec::new();
    let mut viol = Vec::new();
    let mut jobs: Vec<(usize, u64)> = Vec::new();
    let specs: Vec<(&str, u64, Vec<Kind>)> = a[5..]
        .iter()
        .map(|s| {
            let mut p = s.split(':');
            let n = p.next().unwrap();
            let c: u64 = p.next().unwrap().parse().unwrap();
            (n, c, kinds_of(p.next().unwrap_or("all")))
        })
        .collect();
    for (i, _) in specs.iter().enumerate() {
        for w in 0..nw {
            jobs.push((i, w));
        }
    }
    // a pool of processes
    type Res = (std::process::ExitStatus, String);
    let mut results: BTreeMap<(usize, u64), Res> = BTreeMap::new();
    {
        let jobs = std::sync::Mutex::new(jobs.into_iter());
        let res = std::sync::Mutex::new(&mut results);
        std::thread::scope(|sc| {
            for _ in 0..nw {
                sc.spawn(|| loop {
                    let Some((i, w)) = jobs.lock().unwrap().next() else { return };
                    let base = work.join(format!("{}-{w}", specs[i].0));
                    let _ = std::fs::remove_file(base.with_extension("out"));
                    let o = Command::new(&exe)
                        .arg("worker")
                        .arg(specs[i].0)
                        .arg(seed.to_string())
                        .arg(w.to_string())
                        .arg(nw.to_string())
                        .arg(specs[i].1.to_string())
                        .arg(base.with_extension("tape"))
                        .arg(base.with_extension("out"))
                        .stdin(Stdio::null())
                        .stdout(Stdio::null())
                        .output()
                        .unwrap();
                    let err = String::from_utf8_lossy(&o.stderr).into_owned();
                    res.lock().unwrap().insert((i, w), (o.status, err));
                });
            }
        });
    }
    for (i, (name, cases, kinds)) in specs.iter().enumerate() {
        let m = module(mods, name);
        let (mut evals, mut guided, mut draws, mut maxsteps, mut corpus, mut edges, mut edges_total) = (0_u64, 0, 0_u64, 0_u64, 0_u64, 0_u64, 0_u64);
        let mut seen: HashSet<u64> = HashSet::new();
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut samples: Vec<String> = Vec::new();
        let mut faults: Vec<Fault> = Vec::new();
        for w in 0..nw {
            let base = work.join(format!("{name}-{w}"));
            let (st, err) = &results[&(i, w)];
            let out = std::fs::read_to_string(base.with_extension("out")).unwrap_or_default();
            if !st.success() || out.is_empty() {
                let (k, msg) = describe_exit(*st, err);
                let (case, tape) = TapeFile::read(&base.with_extension("tape")).unwrap_or((0, Vec::new()));
                evals += case / nw;
                faults.push(Fault { kind: k, msg, tape });
                continue;
            }
            let mut pend: Option<(Kind, String)> = None;
            for l in out.lines() {
                let (k, v) = l.split_once(' ').unwrap_or((l, ""));
                match k {
                    "evals" => evals += v.parse::<u64>().unwrap(),
                    "guided" => guided += v.parse::<u64>().unwrap(),
                    "draws" => draws += v.parse::<u64>().unwrap(),
                    "maxsteps" => maxsteps = maxsteps.max(v.parse().unwrap()),
                    "corpus" => corpus += v.parse::<u64>().unwrap(),
                    "edges" => {
                        let (x, y) = v.split_once(' ').unwrap();
                        edges = edges.max(x.parse().unwrap());
                        edges_total = y.parse().unwrap();
                    }
                    "label" => {
                        let (n, l) = v.split_once(' ').unwrap();
                        *labels.entry(l.to_string()).or_insert(0) += n.parse::<u64>().unwrap();
                    }
                    "sample" => samples.push(v.to_string()),
                    "fail" => {
                        let (k, m) = v.split_once(' ').unwrap();
                        pend = Some((parse_kind(k), m.trim_matches('"').to_string()));
                    }
                    "tape" => {
                        let t = v.split_whitespace().map(|x| x.parse().unwrap()).collect();
                        let (kind, msg) = pend.take().unwrap();
                        faults.push(Fault { kind, msg, tape: t });
                    }
                    _ => {}
                }
            }
            let hs = std::fs::read(base.with_extension("seen")).unwrap_or_default();
            for c in hs.chunks_exact(8) {
                seen.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
            for e in ["out", "seen", "tape"] {
                let _ = std::fs::remove_file(base.with_extension(e));
            }
        }
        let foreign = faults.iter().filter(|f| !kinds.contains(&f.kind)).count();
        if let Some(f) = faults.into_iter().filter(|f| kinds.contains(&f.kind)).min_by_key(|f| f.tape.len()) {
            let tmp = work.join(format!("{name}.try"));
            let again = try_tape(&exe, &tmp, name, &f.tape);
            let note = if again.is_none() { " (needs the cases before it in the same process; not reproduced alone)" } else { "" };
            let f = if again.is_some() { shrink(&exe, &tmp, name, f) } else { f };
            let _ = std::fs::remove_file(&tmp);
            let mut h = 3;
            for v in &f.tape {
                h = mix(h ^ *v);
            }
            let path = replays.join(format!("{pid}-{variant}-{name}-{:08x}.replay", h & 0xffff_ffff));
            write_replay(&path, pid, variant, name, &f.tape, f.kind, &f.msg);
            viol.push(format!("{{\"module\":{},\"kind\":\"{:?}\",\"what\":{},\"replay\":{},\"draws\":{}}}", jstr(name), f.kind, jstr(&format!("{}{note}", f.msg)), jstr(path.to_str().unwrap()), f.tape.len()));
        }
        let labs: Vec<String> = labels.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect();
        mods_json.push(format!(
            "{{\"module\":{},\"rule\":{},\"planned\":{cases},\"evaluations\":{evals},\"guided\":{guided},\"draws\":{draws},\"max_steps\":{maxsteps},\"corpus\":{corpus},\"edges_hit\":{edges},\"edges_total\":{edges_total},\"distinct_nontrivial\":{},\"foreign_failures\":{foreign},\"labels\":{{{}}},\"samples\":[{}]}}",
            jstr(name),
            jstr(m.rule),
            seen.len(),
            labs.join(","),
            samples.join(",")
        ));
    }
    println!("{{\"modules\":[{}],\"violations\":[{}]}}", mods_json.join(","), viol.join(","));
    i32::from(!viol.is_empty())
}

fn replay(mods: &[Module], path: &str, quiet: bool) -> i32 {
    let ex = exempt();
    let txt = std::fs::read_to_string(path).unwrap();
    let mut name = "";
    let mut tape = Vec::new();
    for l in txt.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "module" => name = v,
            "tape" => tape = v.split_whitespace().map(|x| x.parse().unwrap()).collect(),
            _ => {}
        }
    }
    let m = module(mods, name);
    let mut file = TapeFile::new(None);
    drop(ex);
    let _ = catch_unwind(|| panic!("warm up"));
    let mut o = run_case(m, &mut file, 0, tape.clone(), Tail::Zero, !quiet, !quiet);
    if is_leak(&o) {
        o = run_case(m, &mut file, 0, tape, Tail::Zero, !quiet, false);
    }
    let _e = exempt();
    match o.fail {
        None => {
            if !quiet {
                println!("the case passes");
            }
            0
        }
        Some((k, msg)) => {
            let t: Vec<String> = o.tape.iter().map(u64::to_string).collect();
            println!("fail {k:?} {}", msg.replace('\n', " "));
            if quiet {
                println!("tape {}", t.join(" "));
            }
            std::io::stdout().flush().unwrap();
            1
        }
    }
}

/// Runs random cases in this process (used under Miri, where processes cannot be spawned).
pub fn run_inline(m: &Module, seed: u64, first: u64, cases: u64, rec: bool) -> Vec<Outcome> {
    let mut file = TapeFile::new(None);
    let mseed = hash_bytes(mix(seed), m.name.as_bytes());
    (first..first + cases)
        .map(|c| run_case(m, &mut file, c, Vec::new(), Tail::Rng(Rng::new(mseed ^ mix(c.wrapping_mul(2)))), rec, false))
        .collect()
}
/// Runs one tape in this process.
pub fn run_tape(m: &Module, tape: Vec<u64>, verbose: bool) -> Outcome {
    let mut file = TapeFile::new(None);
    run_case(m, &mut file, 0, tape, Tail::Zero, verbose, verbose)
}

pub fn main(mods: &[Module]) -> ! {
    install_hook();
    let a: Vec<String> = { let _e = exempt(); std::env::args().skip(1).collect() };
    let _ = steps();
    let code = match a.first().map(String::as_str) {
        Some("worker") => worker(mods, &a[1..]),
        Some("check") => check(mods, &a[1..]),
        Some("replay") => replay(mods, &a[1], false),
        // cover DIR PASSES: one small set of tapes out of the files workers left in DIR
        Some("cover") => {
            let _main = exempt();
            let mut corpora = Vec::new();
            for m in mods {
                let mut tapes = Vec::new();
                for w in 0..64 {
                    let Ok(f) = std::fs::read_to_string(format!("{}/{}-{w}.corpus", a[1], m.name)) else { continue };
                    for l in f.lines() {
                        tapes.push(l.split(' ').nth(3).unwrap_or("").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
                    }
                }
                corpora.push((m as &Module, tapes));
            }
            print!("{}", cover(&corpora, &mut TapeFile::new(None), a[2].parse().unwrap()));
            0
        }
        Some("replay-quiet") => replay(mods, &a[1], true),
        Some("list") => {
            for m in mods {
                println!("{}", m.name);
            }
            0
        }
        _ => {
            eprintln!("usage: check|worker|replay|list");
            2
        }
    };
    std::process::exit(code)
}
