//! Interposition of the system calls through which fraos touches its files and mappings
//! (mmap, munmap, msync, mprotect, ftruncate, fsync), at the boundary of the process.
//!
//! * a thread-local handler can watch every call, and make it fail;
//! * a global delay mode sleeps or yields inside calls to widen race windows;
//! * a global quarantine mode surrounds mappings with inaccessible guard pages and turns
//!   unmapped ranges inaccessible instead of recycling them, so that an access outside or after
//!   unmapping faults at once.

use std::cell::{Cell, RefCell};
use std::collections::{HashMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Call {
    Mmap { len: usize, prot: i32, fd: i32, off: i64 },
    Munmap { addr: usize, len: usize },
    Msync { addr: usize, len: usize, sync: bool },
    Mprotect { addr: usize, len: usize },
    Ftruncate { fd: i32, len: i64 },
    Fsync { fd: i32 },
}

impl Call {
    pub fn name(&self) -> &'static str {
        match self {
            Call::Mmap { .. } => "mmap",
            Call::Munmap { .. } => "munmap",
            Call::Msync { .. } => "msync",
            Call::Mprotect { .. } => "mprotect",
            Call::Ftruncate { .. } => "ftruncate",
            Call::Fsync { .. } => "fsync",
        }
    }
}

pub trait Handler {
    /// Some(errno) makes the call fail without being performed.
    fn before(&mut self, c: &Call) -> Option<i32>;
    fn after(&mut self, c: &Call, ret: isize);
}

thread_local! {
    static IN: Cell<bool> = const { Cell::new(false) };
    static H: RefCell<Option<Box<dyn Handler>>> = const { RefCell::new(None) };
    static SKIP: Cell<bool> = const { Cell::new(false) };
}

/// Runs `f` with handler `h` on this thread's calls.
pub fn with<T>(h: Box<dyn Handler>, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            IN.with(|i| i.set(true));
            H.with(|x| x.borrow_mut().take());
            IN.with(|i| i.set(false));
        }
    }
    H.with(|x| *x.borrow_mut() = Some(h));
    let _r = Reset;
    f()
}

pub static DELAY: AtomicU32 = AtomicU32::new(0);
pub static QUARANTINE: AtomicBool = AtomicBool::new(false);
pub static SEEN: [AtomicU64; 6] = [const { AtomicU64::new(0) }; 6];
static DELAY_STATE: AtomicU64 = AtomicU64::new(88172645463325252);

pub fn seen_total() -> u64 {
    SEEN.iter().map(|x| x.load(SeqCst)).sum()
}

fn maybe_delay() {
    let d = DELAY.load(SeqCst);
    if d == 0 {
        return;
    }
    let x = common::mix(DELAY_STATE.fetch_add(0x9E37_79B9_7F4A_7C15, SeqCst));
    match x % 4 {
        0 => {}
        1 => std::thread::yield_now(),
        _ => std::thread::sleep(std::time::Duration::from_micros((x >> 8) % d as u64)),
    }
}

#[allow(dead_code)]
fn hooked(idx: usize, c: Call, real: impl FnOnce() -> isize) -> isize {
    let nested = IN.try_with(|i| i.get()).unwrap_or(true);
    if nested {
        return real();
    }
    let _ = IN.try_with(|i| i.set(true));
    SEEN[idx].fetch_add(1, SeqCst);
    let mut fail = None;
    let _ = H.try_with(|h| {
        if let Ok(mut h) = h.try_borrow_mut() {
            if let Some(h) = h.as_mut() {
                fail = h.before(&c);
            }
        }
    });
    maybe_delay();
    let ret = match fail {
        Some(e) => {
            unsafe { *libc::__errno_location() = e };
            -1
        }
        None => real(),
    };
    let errno = unsafe { *libc::__errno_location() };
    maybe_delay();
    let _ = H.try_with(|h| {
        if let Ok(mut h) = h.try_borrow_mut() {
            if let Some(h) = h.as_mut() {
                h.after(&c, ret);
            }
        }
    });
    unsafe { *libc::__errno_location() = errno };
    let _ = IN.try_with(|i| i.set(false));
    ret
}

// ------------------------------------------------------------------ quarantine
#[derive(Default)]
struct Quarantine {
    live: Option<HashMap<usize, usize>>,
    old: VecDeque<(usize, usize)>,
}
static Q: Mutex<Quarantine> = Mutex::new(Quarantine { live: None, old: VecDeque::new() });
pub static Q_MAPPED: AtomicU64 = AtomicU64::new(0);
pub static Q_RETIRED: AtomicU64 = AtomicU64::new(0);
const PAGE: usize = 4096;
const MAX_OLD: usize = 8000;

fn round(n: usize) -> usize {
    (n + PAGE - 1) & !(PAGE - 1)
}

fn q_mmap(len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> isize {
    let whole = round(len) + 2 * PAGE;
    unsafe {
        let base = sys_mmap(0, whole, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if base == -1 {
            return -1;
        }
        let at = base as usize + PAGE;
        let r = sys_mmap(at, len, prot, flags | libc::MAP_FIXED, fd, off);
        if r == -1 {
            let e = *libc::__errno_location();
            sys_munmap(base as usize, whole);
            *libc::__errno_location() = e;
            return -1;
        }
        let mut q = Q.lock().unwrap();
        q.live.get_or_insert_with(HashMap::new).insert(at, len);
        Q_MAPPED.fetch_add(1, SeqCst);
        r
    }
}

fn q_munmap(addr: usize, len: usize) -> Option<isize> {
    let mut q = Q.lock().unwrap();
    let known = q.live.get_or_insert_with(HashMap::new).remove(&addr)?;
    if in_flight(addr, len, SLOTS, false) {
        fault(1, "a mapping is unmapped while a record is copied out of it");
    }
    unsafe {
        if round(known) != round(len) {
            // partial unmapping: do what was asked, keep no guard
            return Some(sys_munmap(addr, len));
        }
        sys_mmap(addr, len, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED, -1, 0);
        Q_RETIRED.fetch_add(1, SeqCst);
        q.old.push_back((addr - PAGE, round(len) + 2 * PAGE));
        if q.old.len() > MAX_OLD {
            let (a, l) = q.old.pop_front().unwrap();
            sys_munmap(a, l);
        }
    }
    Some(0)
}

// ------------------------------------------------------------------ slow copies
/// Copies out of and into guarded mappings pause half way for up to this many microseconds.
pub static SLOW_COPY: AtomicU32 = AtomicU32::new(0);
pub static SLOW_COPIES: AtomicU64 = AtomicU64::new(0);
/// what went wrong with a copy under way: 1 unmapped under it, 2 written over
pub static COPY_FAULT: AtomicU32 = AtomicU32::new(0);
const SLOTS: usize = 64;
/// (start, length, is it a write) of the copies under way
static FLIGHT: [[AtomicUsize; 3]; SLOTS] = [const { [const { AtomicUsize::new(0) }; 3] }; SLOTS];

fn in_flight(at: usize, len: usize, but: usize, writes_only: bool) -> bool {
    FLIGHT.iter().enumerate().any(|(i, f)| {
        let (a, l, w) = (f[0].load(SeqCst), f[1].load(SeqCst), f[2].load(SeqCst));
        i != but && a > 1 && a < at + len && at < a + l && (!writes_only || w == 1)
    })
}

fn fault(kind: u32, what: &str) {
    if COPY_FAULT.swap(kind, SeqCst) == 0 {
        eprintln!("{what}");
    }
}

#[cfg(feature = "interpose")]
unsafe fn raw_copy(dst: *mut u8, src: *const u8, n: usize) {
    std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") dst => _, inout("rsi") src => _, options(nostack, preserves_flags));
}

/// A copy that touches a live mapping is announced, pauses half way, and is checked against the
/// other copies and unmappings that happen meanwhile.
#[cfg(feature = "interpose")]
unsafe fn slow_copy(dst: *mut u8, src: *const u8, n: usize) {
    if n < 2 || IN.try_with(|i| i.replace(true)).unwrap_or(true) {
        return raw_copy(dst, src, n);
    }
    let inside = |p: usize| {
        let q = Q.lock().unwrap();
        q.live.iter().flatten().any(|(a, l)| p >= *a && p + n <= a + l)
    };
    let (at, write) = if inside(src as usize) {
        (src as usize, 0)
    } else if inside(dst as usize) {
        (dst as usize, 1)
    } else {
        IN.with(|i| i.set(false));
        return raw_copy(dst, src, n);
    };
    let slot = (0..SLOTS).find(|i| FLIGHT[*i][0].compare_exchange(0, 1, SeqCst, SeqCst).is_ok());
    if let Some(s) = slot {
        FLIGHT[s][1].store(n, SeqCst);
        FLIGHT[s][2].store(write, SeqCst);
        FLIGHT[s][0].store(at, SeqCst);
        if in_flight(at, n, s, write == 0) {
            fault(2, "a copy into a mapping overlaps another copy under way");
        }
    }
    raw_copy(dst, src, n / 2);
    let d = SLOW_COPY.load(SeqCst);
    if d > 0 {
        let x = common::mix(DELAY_STATE.fetch_add(0x9E37_79B9_7F4A_7C15, SeqCst));
        let t = std::time::Instant::now();
        let us = (x >> 8) % if write == 1 { d.min(200) } else { d } as u64;
        while t.elapsed().as_micros() < us as u128 && COPY_FAULT.load(SeqCst) == 0 {
            std::thread::sleep(std::time::Duration::from_micros(us.min(500)));
        }
    }
    SLOW_COPIES.fetch_add(1, SeqCst);
    raw_copy(dst.add(n / 2), src.add(n / 2), n - n / 2);
    if let Some(s) = slot {
        FLIGHT[s][0].store(0, SeqCst);
    }
    IN.with(|i| i.set(false));
}

// ------------------------------------------------------------------ raw calls
unsafe fn sys_mmap(addr: usize, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> isize {
    libc::syscall(libc::SYS_mmap, addr, len, prot, flags, fd, off) as isize
}
unsafe fn sys_munmap(addr: usize, len: usize) -> isize {
    libc::syscall(libc::SYS_munmap, addr, len) as isize
}

/// calls of the harness itself that must not be watched
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let was = IN.with(|i| i.replace(true));
    let r = f();
    IN.with(|i| i.set(was));
    r
}

#[cfg(feature = "interpose")]
mod exported {
    use super::*;
    use libc::{c_int, c_void, off_t, size_t};

    #[no_mangle]
    pub unsafe extern "C" fn memcpy(dst: *mut u8, src: *const u8, n: size_t) -> *mut u8 {
        if SLOW_COPY.load(std::sync::atomic::Ordering::Relaxed) == 0 {
            raw_copy(dst, src, n);
        } else {
            slow_copy(dst, src, n);
        }
        dst
    }

    unsafe fn do_mmap(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void {
        let c = Call::Mmap { len, prot, fd, off };
        // stacks and other library mappings are left alone
        let plain = addr.is_null()
            && flags & (libc::MAP_FIXED | libc::MAP_STACK | libc::MAP_NORESERVE) == 0
            && (prot & libc::PROT_EXEC) == 0
            && prot != libc::PROT_NONE;
        if !plain {
            return sys_mmap(addr as usize, len, prot, flags, fd, off) as *mut c_void;
        }
        hooked(0, c, || {
            if QUARANTINE.load(SeqCst) {
                q_mmap(len, prot, flags, fd, off)
            } else {
                sys_mmap(0, len, prot, flags, fd, off)
            }
        }) as *mut c_void
    }

    #[no_mangle]
    pub unsafe extern "C" fn mmap(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off_t) -> *mut c_void {
        do_mmap(addr, len, prot, flags, fd, off)
    }
    #[no_mangle]
    pub unsafe extern "C" fn mmap64(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void {
        do_mmap(addr, len, prot, flags, fd, off)
    }
    #[no_mangle]
    pub unsafe extern "C" fn munmap(addr: *mut c_void, len: size_t) -> c_int {
        hooked(1, Call::Munmap { addr: addr as usize, len }, || {
            if QUARANTINE.load(SeqCst) {
                if let Some(r) = q_munmap(addr as usize, len) {
                    return r;
                }
            }
            sys_munmap(addr as usize, len)
        }) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn msync(addr: *mut c_void, len: size_t, flags: c_int) -> c_int {
        hooked(2, Call::Msync { addr: addr as usize, len, sync: flags & libc::MS_SYNC != 0 }, || libc::syscall(libc::SYS_msync, addr, len, flags) as isize) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn mprotect(addr: *mut c_void, len: size_t, prot: c_int) -> c_int {
        hooked(3, Call::Mprotect { addr: addr as usize, len }, || libc::syscall(libc::SYS_mprotect, addr, len, prot) as isize) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
        hooked(4, Call::Ftruncate { fd, len }, || libc::syscall(libc::SYS_ftruncate, fd, len) as isize) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
        hooked(4, Call::Ftruncate { fd, len }, || libc::syscall(libc::SYS_ftruncate, fd, len) as isize) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
        hooked(5, Call::Fsync { fd }, || libc::syscall(libc::SYS_fsync, fd) as isize) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
        hooked(5, Call::Fsync { fd }, || libc::syscall(libc::SYS_fdatasync, fd) as isize) as c_int
    }
}
