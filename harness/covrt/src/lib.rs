//! Runtime kept out of coverage instrumentation:
//!  * a checking global allocator (layouts, red zones, poisoned quarantine, leak balance, budgets);
//!  * the SanitizerCoverage callbacks (edge coverage and a deterministic step counter).
//! Worker processes are single threaded while a case runs.
use std::alloc::{GlobalAlloc, Layout, System};
pub mod engine;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

// ---------------------------------------------------------------- fatal exits
pub const EXIT_MEM: i32 = 77; // memory protocol violation
pub const EXIT_STEPS: i32 = 86; // step budget exceeded: a call does not terminate
pub const EXIT_BUDGET: i32 = 87; // allocation budget exceeded: unbounded growth

extern "C" {
    fn _exit(c: i32) -> !;
    fn write(fd: i32, p: *const core::ffi::c_void, n: usize) -> isize;
}

/// Writes `msg` to stderr without allocating and ends the process.
pub fn fatal(code: i32, parts: &[&str], nums: &[u64]) -> ! {
    let mut buf = [0_u8; 512];
    let mut n = 0;
    let mut put = |s: &[u8]| {
        for b in s {
            if n < buf.len() - 1 {
                buf[n] = *b;
                n += 1;
            }
        }
    };
    put(b"FATAL: ");
    for p in parts {
        put(p.as_bytes());
        put(b" ");
    }
    for v in nums {
        let mut d = [0_u8; 20];
        let mut i = 20;
        let mut x = *v;
        loop {
            i -= 1;
            d[i] = b'0' + (x % 10) as u8;
            x /= 10;
            if x == 0 {
                break;
            }
        }
        put(&d[i..]);
        put(b" ");
    }
    put(b"\n");
    let m = n;
    unsafe {
        write(2, buf.as_ptr().cast(), m);
        _exit(code)
    }
}

// ---------------------------------------------------------------- coverage
pub const MAP: usize = 1 << 20;
static mut COUNTS: [u8; MAP] = [0; MAP];
static mut TOUCHED: [u32; MAP] = [0; MAP];
static mut NTOUCHED: usize = 0;
static mut STEPS: u64 = 0;
static mut STEP_LIMIT: u64 = u64::MAX;
static mut NEXT_GUARD: u32 = 1;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if p == stop || *p != 0 {
        return;
    }
    while p < stop {
        if (NEXT_GUARD as usize) < MAP {
            *p = NEXT_GUARD;
            NEXT_GUARD += 1;
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    STEPS += 1;
    if STEPS > STEP_LIMIT {
        fatal(EXIT_STEPS, &["step budget exceeded (the call does not terminate)"], &[STEPS]);
    }
    let i = *g as usize;
    let counts = core::ptr::addr_of_mut!(COUNTS).cast::<u8>();
    let c = counts.add(i);
    if *c == 0 {
        *core::ptr::addr_of_mut!(TOUCHED).cast::<u32>().add(NTOUCHED) = i as u32;
        NTOUCHED += 1;
    }
    *c = (*c).saturating_add(1);
}

/// Starts a case: clears the per-case coverage and sets the step budget.
pub fn cov_reset(limit: u64) {
    unsafe {
        for k in 0..NTOUCHED {
            COUNTS[TOUCHED[k] as usize] = 0;
        }
        NTOUCHED = 0;
        STEPS = 0;
        STEP_LIMIT = limit;
    }
}
/// Lets the running case take more steps (it handles a lot of data).
pub fn cov_more(n: u64) {
    unsafe { STEP_LIMIT = STEP_LIMIT.saturating_add(n) }
}
pub fn cov_pause() -> u64 {
    unsafe {
        STEP_LIMIT = u64::MAX;
        STEPS
    }
}
pub fn steps() -> u64 {
    unsafe { STEPS }
}
pub fn edges_total() -> usize {
    unsafe { NEXT_GUARD as usize - 1 }
}
/// Calls `f(edge, bucket)` for each edge touched since the reset.
pub fn cov_for_each(mut f: impl FnMut(usize, u8)) {
    unsafe {
        for k in 0..NTOUCHED {
            let e = TOUCHED[k] as usize;
            let b = match COUNTS[e] {
                0 => 0,
                1 => 1,
                2 => 2,
                3 => 4,
                4..=7 => 8,
                8..=15 => 16,
                16..=31 => 32,
                32..=127 => 64,
                _ => 128,
            };
            f(e, b);
        }
    }
}

// ---------------------------------------------------------------- allocator
pub struct CheckAlloc;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static LIVE_BYTES: AtomicUsize = AtomicUsize::new(0);
static ALLOCS: AtomicU64 = AtomicU64::new(0);
static FREES: AtomicU64 = AtomicU64::new(0);
static EXEMPT: AtomicUsize = AtomicUsize::new(0);
static IN_CASE: AtomicBool = AtomicBool::new(false);
static CASE_ALLOC_BYTES: AtomicU64 = AtomicU64::new(0);
#[cfg_attr(any(feature = "asan", miri), allow(dead_code))]
static MAX_CASE_BYTES: u64 = 3 << 30;

/// Allocations made while the returned guard lives are not counted for the leak balance.
pub struct Exempt(());
pub fn exempt() -> Exempt {
    EXEMPT.fetch_add(1, Relaxed);
    Exempt(())
}
impl Drop for Exempt {
    fn drop(&mut self) {
        EXEMPT.fetch_sub(1, Relaxed);
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Balance {
    pub live: usize,
    pub bytes: usize,
}
pub fn balance() -> Balance {
    Balance { live: LIVE.load(Relaxed), bytes: LIVE_BYTES.load(Relaxed) }
}
pub fn allocs() -> (u64, u64) {
    (ALLOCS.load(Relaxed), FREES.load(Relaxed))
}
pub fn enter_case() {
    CASE_ALLOC_BYTES.store(0, Relaxed);
    IN_CASE.store(true, Relaxed);
}
pub fn leave_case() {
    IN_CASE.store(false, Relaxed);
}
static REFUSE: AtomicUsize = AtomicUsize::new(0);
/// While the guard lives, the next `n` reallocations fail (a new allocation still succeeds).
pub struct Refusing(());
pub fn refuse_reallocs(n: usize) -> Refusing {
    REFUSE.store(n, Relaxed);
    Refusing(())
}
impl Drop for Refusing {
    fn drop(&mut self) {
        REFUSE.store(0, Relaxed);
    }
}
fn refused() -> bool {
    REFUSE.load(Relaxed) != 0 && REFUSE.fetch_sub(1, Relaxed) != 0
}
static LAZY: AtomicBool = AtomicBool::new(false);
/// While the guard lives, blocks of at least `LAZY_MIN` bytes are mapped on demand: their memory is zero, not
/// counted for the budget, grown in place or by remapping, and unmapped when freed.
pub struct Lazily(());
pub const LAZY_MIN: usize = 32 << 20;
pub fn lazy_blocks() -> Lazily {
    LAZY.store(true, Relaxed);
    Lazily(())
}
impl Drop for Lazily {
    fn drop(&mut self) {
        LAZY.store(false, Relaxed);
    }
}
pub const CHECKING: bool = cfg!(not(any(feature = "asan", miri)));

#[cfg(any(feature = "asan", miri))]
unsafe impl GlobalAlloc for CheckAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refused() {
            return core::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
#[cfg(any(feature = "asan", miri))]
pub fn check_quarantine() {}

#[cfg(not(any(feature = "asan", miri)))]
mod checking {
    use super::*;
    const ALIVE: u64 = 0xA11C_EB0B_5EED_0001;
    const FREED: u64 = 0xDEAD_BEEF_5EED_0002;
    const RED: u8 = 0xFD;
    const FRESH: u8 = 0xA5;
    const POISON: u8 = 0xDD;
    const HDR: usize = 48;
    const REAR: usize = 16;
    #[repr(C)]
    struct Header {
        magic: u64,
        size: usize,
        align: usize,
        tracked: usize,
    }
    const RING: usize = 4096;
    const QUARANTINE_BYTES: usize = 8 << 20;
    static mut RINGBUF: [*mut u8; RING] = [core::ptr::null_mut(); RING];
    static mut HEAD: usize = 0; // next slot to write
    static mut TAIL: usize = 0; // oldest entry
    static mut QBYTES: usize = 0;
    static mut CASE_MARK: usize = 0;
    static LOCK: AtomicBool = AtomicBool::new(false);
    fn lock() {
        while LOCK.compare_exchange(false, true, core::sync::atomic::Ordering::Acquire, Relaxed).is_err() {
            core::hint::spin_loop();
        }
    }
    fn unlock() {
        LOCK.store(false, core::sync::atomic::Ordering::Release);
    }
    #[inline]
    fn front(align: usize) -> usize {
        (HDR + align - 1) & !(align - 1)
    }
    unsafe fn hdr(user: *mut u8) -> *mut Header {
        user.sub(HDR).cast()
    }
    unsafe fn verify_poison(user: *mut u8) {
        let h = hdr(user);
        if (*h).magic != FREED {
            fatal(EXIT_MEM, &["header of a freed block was overwritten"], &[]);
        }
        let n = (*h).size;
        let mut i = 0;
        while i < n {
            if *user.add(i) != POISON {
                fatal(EXIT_MEM, &["write after free: block size / offset"], &[n as u64, i as u64]);
            }
            i += 1;
        }
    }
    unsafe fn evict() {
        let user = RINGBUF[TAIL % RING];
        TAIL += 1;
        verify_poison(user);
        let h = hdr(user);
        let (size, align) = ((*h).size, (*h).align);
        QBYTES -= size;
        (*h).magic = 0;
        let f = front(align.max(16));
        System.dealloc(user.sub(f), Layout::from_size_align_unchecked(f + size + REAR, align.max(16)));
    }
    /// Verifies that nothing wrote to blocks freed since the mark of this case.
    pub fn check_quarantine() {
        lock();
        unsafe {
            let mut k = CASE_MARK.max(TAIL);
            while k < HEAD {
                verify_poison(RINGBUF[k % RING]);
                k += 1;
            }
            CASE_MARK = HEAD;
        }
        unlock();
    }
    extern "C" {
        fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        fn munmap(a: *mut u8, n: usize) -> i32;
        fn mremap(a: *mut u8, old: usize, new: usize, flags: i32, ...) -> *mut u8;
    }
    const PAGE: usize = 4096;
    /// `tracked` of a lazy block
    const LAZY_BLOCK: usize = 2;
    fn span(n: usize) -> usize {
        (PAGE + n + REAR + PAGE - 1) & !(PAGE - 1)
    }
    unsafe fn lazy_alloc(l: Layout) -> *mut u8 {
        // PROT_READ | PROT_WRITE; MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
        let base = mmap(core::ptr::null_mut(), span(l.size()), 3, 0x4022, -1, 0);
        if base as isize == -1 {
            return core::ptr::null_mut();
        }
        let user = base.add(PAGE);
        core::ptr::write_bytes(user.sub(HDR), RED, HDR);
        core::ptr::write_bytes(user.add(l.size()), RED, REAR);
        hdr(user).write(Header { magic: ALIVE, size: l.size(), align: l.align(), tracked: LAZY_BLOCK | usize::from(EXEMPT.load(Relaxed) == 0) });
        ALLOCS.fetch_add(1, Relaxed);
        if EXEMPT.load(Relaxed) == 0 {
            LIVE.fetch_add(1, Relaxed);
            LIVE_BYTES.fetch_add(l.size(), Relaxed);
        }
        user
    }
    /// The checks of a block which is freed or resized.
    unsafe fn check_block(user: *mut u8, l: Layout) {
        let h = hdr(user);
        match (*h).magic {
            ALIVE => {}
            FREED => fatal(EXIT_MEM, &["double free: size"], &[l.size() as u64]),
            _ => fatal(EXIT_MEM, &["free of a pointer that is no live block: size"], &[l.size() as u64]),
        }
        if (*h).size != l.size() || (*h).align != l.align() {
            fatal(
                EXIT_MEM,
                &["freed with a different layout: allocated size/align, freed size/align"],
                &[(*h).size as u64, (*h).align as u64, l.size() as u64, l.align() as u64],
            );
        }
        for i in 0..REAR {
            if *user.add(l.size() + i) != RED {
                fatal(EXIT_MEM, &["write past the end of a block: size / offset"], &[l.size() as u64, i as u64]);
            }
        }
        for i in 1..=(HDR - core::mem::size_of::<Header>()) {
            if *user.sub(i) != RED {
                fatal(EXIT_MEM, &["write before the start of a block: size / offset"], &[l.size() as u64, i as u64]);
            }
        }
    }
    unsafe fn lazy_resize(user: *mut u8, l: Layout, n: usize) -> *mut u8 {
        check_block(user, l);
        core::ptr::write_bytes(user.add(l.size()), 0, REAR);
        // MREMAP_MAYMOVE
        let base = mremap(user.sub(PAGE), span(l.size()), span(n), 1);
        if base as isize == -1 {
            return core::ptr::null_mut();
        }
        let user = base.add(PAGE);
        core::ptr::write_bytes(user.add(n), RED, REAR);
        (*hdr(user)).size = n;
        if (*hdr(user)).tracked & 1 == 1 {
            LIVE_BYTES.fetch_add(n.wrapping_sub(l.size()), Relaxed);
        }
        user
    }
    unsafe impl GlobalAlloc for CheckAlloc {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if l.size() >= LAZY_MIN && l.align() <= PAGE && LAZY.load(Relaxed) {
                return lazy_alloc(l);
            }
            let a = l.align().max(16);
            let f = front(a);
            if IN_CASE.load(Relaxed) {
                let t = CASE_ALLOC_BYTES.fetch_add(l.size() as u64, Relaxed) + l.size() as u64;
                if t > MAX_CASE_BYTES {
                    fatal(EXIT_BUDGET, &["allocation budget of a case exceeded (unbounded growth)"], &[t]);
                }
            }
            if l.size() == 0 {
                fatal(EXIT_MEM, &["zero-size allocation requested"], &[]);
            }
            let base = System.alloc(Layout::from_size_align_unchecked(f + l.size() + REAR, a));
            if base.is_null() {
                return base;
            }
            let user = base.add(f);
            core::ptr::write_bytes(base, RED, f);
            core::ptr::write_bytes(user, FRESH, l.size());
            core::ptr::write_bytes(user.add(l.size()), RED, REAR);
            let tracked = usize::from(EXEMPT.load(Relaxed) == 0);
            hdr(user).write(Header { magic: ALIVE, size: l.size(), align: l.align(), tracked });
            ALLOCS.fetch_add(1, Relaxed);
            if tracked == 1 {
                LIVE.fetch_add(1, Relaxed);
                LIVE_BYTES.fetch_add(l.size(), Relaxed);
            }
            user
        }
        unsafe fn realloc(&self, user: *mut u8, l: Layout, n: usize) -> *mut u8 {
            if refused() {
                return core::ptr::null_mut();
            }
            if n >= LAZY_MIN && (*hdr(user)).magic == ALIVE && (*hdr(user)).tracked & LAZY_BLOCK != 0 {
                return lazy_resize(user, l, n);
            }
            let new = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !new.is_null() {
                core::ptr::copy_nonoverlapping(user, new, l.size().min(n));
                self.dealloc(user, l);
            }
            new
        }
        unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
            check_block(user, l);
            let h = hdr(user);
            FREES.fetch_add(1, Relaxed);
            if (*h).tracked & 1 == 1 {
                LIVE.fetch_sub(1, Relaxed);
                LIVE_BYTES.fetch_sub(l.size(), Relaxed);
            }
            if (*h).tracked & LAZY_BLOCK != 0 {
                munmap(user.sub(PAGE), span(l.size()));
                return;
            }
            (*h).magic = FREED;
            core::ptr::write_bytes(user, POISON, l.size());
            lock();
            if HEAD - TAIL == RING {
                evict();
            }
            RINGBUF[HEAD % RING] = user;
            HEAD += 1;
            QBYTES += l.size();
            while QBYTES > QUARANTINE_BYTES && TAIL < HEAD {
                evict();
            }
            unlock();
        }
    }
}
#[cfg(not(any(feature = "asan", miri)))]
pub use checking::check_quarantine;
