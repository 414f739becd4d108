//! Containment of crashes and endless loops of the code under test: chunks are placed directly in
//! front of an inaccessible page, and signals and a watchdog turn a crash or a hang into a replayable
//! violation.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn sigaltstack(ss: *const StackT, old: *mut StackT) -> i32;
    fn pthread_self() -> usize;
    fn pthread_kill(t: usize, sig: i32) -> i32;
    fn _exit(code: i32) -> !;
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

#[repr(C)]
struct StackT {
    sp: *mut u8,
    flags: i32,
    size: usize,
}

const SIGUSR1: i32 = 10;
const PAGE: usize = 4096;

/// A buffer that is followed by an inaccessible page.
pub struct Guard {
    map: *mut u8,
    total: usize,
    end: *mut u8,
    cap: usize,
    /// Bytes between the end of a slice and the inaccessible page: with 0 the start address depends on the
    /// length alone, so other values give a slice every other alignment.
    pub gap: std::cell::Cell<usize>,
}

/// The gap of new areas (a replay tries them all).
pub static FIRST_GAP: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

impl Guard {
    pub fn new(cap: usize) -> Guard {
        let cap = (cap + PAGE - 1) / PAGE * PAGE;
        unsafe {
            let total = cap + 2 * PAGE;
            let map = mmap(std::ptr::null_mut(), total, 3, 0x22, -1, 0);
            assert!(map as isize != -1, "mmap");
            assert!(mprotect(map, PAGE, 0) == 0);
            assert!(mprotect(map.add(PAGE + cap), PAGE, 0) == 0);
            // bytes in front of a chunk look like nothing that is ever expected
            std::ptr::write_bytes(map.add(PAGE), 0xA5, cap);
            Guard { map, total, end: map.add(PAGE + cap), cap,
                    gap: std::cell::Cell::new(FIRST_GAP.load(std::sync::atomic::Ordering::Relaxed)) }
        }
    }

    #[inline]
    pub fn place(&self, s: &[u8]) -> &'static [u8] {
        let gap = self.gap.get();
        assert!(s.len() + gap <= self.cap);
        unsafe {
            let p = self.end.sub(s.len() + gap);
            if gap > 0 {
                std::ptr::write_bytes(self.end.sub(gap), 0xA5, gap);
            }
            std::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len());
            std::slice::from_raw_parts(p, s.len())
        }
    }
}

impl Drop for Guard {
    fn drop(&mut self) {
        unsafe {
            munmap(self.map, self.total);
        }
    }
}

/// Reserve a huge readable zero area followed by an inaccessible page.
pub fn huge(len: usize) -> &'static [u8] {
    unsafe {
        let map = mmap(std::ptr::null_mut(), len + PAGE, 1, 0x4022, -1, 0);
        assert!(map as isize != -1, "mmap");
        assert!(mprotect(map.add(len / PAGE * PAGE), PAGE, 0) == 0);
        std::slice::from_raw_parts(map, len / PAGE * PAGE)
    }
}

/// A slice that is zero except for some pieces, followed by an inaccessible page. Pages that are not written
/// take no memory.
pub struct Holes {
    map: *mut u8,
    total: usize,
    len: usize,
}

impl Holes {
    pub fn new(len: usize, pieces: &[(usize, Vec<u8>)]) -> Holes {
        let round = (len + PAGE - 1) / PAGE * PAGE;
        unsafe {
            let map = mmap(std::ptr::null_mut(), round + PAGE, 3, 0x4022, -1, 0);
            assert!(map as isize != -1, "mmap");
            assert!(mprotect(map.add(round), PAGE, 0) == 0);
            let h = Holes { map, total: round + PAGE, len };
            let at = map.add(round - len);
            for (i, b) in pieces {
                assert!(i + b.len() <= len);
                std::ptr::copy_nonoverlapping(b.as_ptr(), at.add(*i), b.len());
            }
            h
        }
    }

    pub fn bytes(&self) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts(self.map.add(self.total - PAGE - self.len), self.len) }
    }
}

impl Drop for Holes {
    fn drop(&mut self) {
        unsafe {
            munmap(self.map, self.total);
        }
    }
}

/// Something that can describe what was executing when the code under test crashed.
pub trait Describe {
    /// Writes the replay file for the current call and returns the text to print.
    fn fatal(&self, what: &str, chunk: &[u8], at: u32) -> String;
}

thread_local! {
    static DESC: Cell<Option<*const dyn Describe>> = const { Cell::new(None) };
    static CHUNK: Cell<(*const u8, usize, u32)> = const { Cell::new((std::ptr::null(), 0, 0)) };
    pub static IN_CALL: Cell<bool> = const { Cell::new(false) };
    /// A call panicked.
    pub static PANICKED: Cell<bool> = const { Cell::new(false) };
    static ALT: Cell<*mut u8> = const { Cell::new(std::ptr::null_mut()) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

const SLOTS: usize = 64;
static NEXT: AtomicUsize = AtomicUsize::new(0);
static THREADS: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];
static TICKS: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
type Fallback = Box<dyn Fn(&str, &[u8]) -> String + Send + Sync>;
static FALLBACK: std::sync::OnceLock<Fallback> = std::sync::OnceLock::new();
static DYING: AtomicBool = AtomicBool::new(false);

/// Single steps, or a trap of the code under test.
extern "C" fn on_trap(sig: i32, _info: *mut u8, context: *mut u64) {
    if !crate::step::trap(context) {
        on_signal(sig);
    }
}

extern "C" fn on_signal(sig: i32) {
    let what = match sig {
        SIGUSR1 => "does not return",
        11 | 7 => "reads outside the slice it was given (memory fault)",
        6 => "aborts",
        4 | 5 => "aborts (trap)",
        8 => "aborts (arithmetic fault)",
        _ => "crashes",
    };
    if !IN_CALL.get() {
        if sig != SIGUSR1 {
            eprintln!("mc: internal crash, signal {}", sig);
            unsafe { _exit(70) }
        }
        return;
    }
    if DYING.swap(true, Ordering::SeqCst) {
        loop {
            std::thread::sleep(std::time::Duration::from_secs(60));
        }
    }
    let (p, n, at) = CHUNK.get();
    if let Some(d) = DESC.get() {
        let text = unsafe { (*d).fatal(what, std::slice::from_raw_parts(p, n), at) };
        print!("{}", text);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { _exit(1) }
    }
    if let Some(f) = FALLBACK.get() {
        let text = f(what, unsafe { std::slice::from_raw_parts(p, n) });
        print!("{}", text);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { _exit(1) }
    }
    eprintln!("mc: crash without context, signal {}", sig);
    unsafe { _exit(71) }
}

/// Handle single steps.
pub fn install_trap() {
    unsafe {
        // SA_SIGINFO, and not on the alternate stack
        let sa = SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4 | 0x40000000, restorer: 0 };
        assert!(sigaction(5, &sa, std::ptr::null_mut()) == 0);
    }
}

/// Set up signal handling and the watchdog. Called once.
pub fn install() {
    install_trap();
    unsafe {
        for sig in [11, 7, 6, 4, 8, SIGUSR1] {
            let sa = SigAction {
                handler: on_signal as *const () as usize,
                mask: [0; 16],
                // SA_ONSTACK | SA_NODEFER
                flags: 0x08000000 | 0x40000000,
                restorer: 0,
            };
            assert!(sigaction(sig, &sa, std::ptr::null_mut()) == 0);
        }
    }
    std::panic::set_hook(Box::new(|info| {
        if !IN_CALL.get() {
            eprintln!("mc: internal panic: {}", info);
        }
    }));
    std::thread::spawn(|| {
        let mut last = [(0u64, std::time::Instant::now()); SLOTS];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for i in 0..NEXT.load(Ordering::SeqCst).min(SLOTS) {
                let t = TICKS[i].load(Ordering::Relaxed);
                if t == 0 || t != last[i].0 {
                    last[i] = (t, std::time::Instant::now());
                } else if last[i].1.elapsed().as_secs() >= 20 {
                    unsafe {
                        pthread_kill(THREADS[i].load(Ordering::SeqCst), SIGUSR1);
                    }
                    last[i].1 = std::time::Instant::now();
                }
            }
        }
    });
    enter_thread();
}

/// Register the current thread with the watchdog and give it an alternate signal stack.
pub fn enter_thread() {
    unsafe {
        let size = 1 << 18;
        let sp = mmap(std::ptr::null_mut(), size, 3, 0x22, -1, 0);
        let ss = StackT { sp, flags: 0, size };
        assert!(sigaltstack(&ss, std::ptr::null_mut()) == 0);
        ALT.set(sp);
        // reuse slots of finished threads by searching a free one
        for i in 0..SLOTS {
            if THREADS[i].compare_exchange(0, pthread_self(), Ordering::SeqCst, Ordering::SeqCst).is_ok() {
                SLOT.set(i);
                TICKS[i].store(0, Ordering::SeqCst);
                NEXT.fetch_max(i + 1, Ordering::SeqCst);
                return;
            }
        }
        panic!("too many threads");
    }
}

pub fn leave_thread() {
    let i = SLOT.get();
    TICKS[i].store(0, Ordering::SeqCst);
    THREADS[i].store(0, Ordering::SeqCst);
    let sp = ALT.replace(std::ptr::null_mut());
    if !sp.is_null() {
        unsafe {
            // SS_DISABLE
            let ss = StackT { sp: std::ptr::null_mut(), flags: 2, size: 0 };
            sigaltstack(&ss, std::ptr::null_mut());
            munmap(sp, 1 << 18);
        }
    }
}

/// What to print about a crash in a call whose history is not at hand.
pub fn fallback(f: Fallback) {
    let _ = FALLBACK.set(f);
}

pub fn describe_with(d: Option<*const dyn Describe>) {
    DESC.set(d);
}

/// Run `f`, which executes the code under test. `Err(())` means it panicked.
#[inline]
pub fn call<R>(chunk: &[u8], at: u32, f: impl FnOnce() -> R) -> Result<R, ()> {
    let outer = CHUNK.replace((chunk.as_ptr(), chunk.len(), at));
    let i = SLOT.get();
    let t = &TICKS[i];
    static SEQ: AtomicU64 = AtomicU64::new(1);
    // a per-thread sequence number that is never 0
    thread_local!(static N: Cell<u64> = const { Cell::new(0) });
    let mut n = N.get();
    if n == 0 {
        n = SEQ.fetch_add(1 << 40, Ordering::Relaxed);
    }
    n += 1;
    N.set(n);
    t.store(n, Ordering::Relaxed);
    let nested = IN_CALL.replace(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if r.is_err() {
        PANICKED.set(true);
    }
    IN_CALL.set(nested);
    if nested {
        CHUNK.set(outer);
    } else {
        t.store(0, Ordering::Relaxed);
    }
    r.map_err(|_| ())
}
