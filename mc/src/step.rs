//! Parallel calls: one call is executed instruction by instruction (trap flag), and at every instruction of it another
//! parser or utility runs as if another thread had been scheduled there. All preemption points of the code itself are
//! explored; the system libraries (allocator) are not interrupted.

use crate::explore::*;
use crate::guard;
use crate::model::*;
use crate::rec::NONE;
use crate::sess::*;
use crate::tok::*;
use crate::util::Tool;
use http_box::fsm::Success;
use http_box::{http1, http2};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering};

/// A hash of everything that is observed.
pub struct Sum(u64);

impl Sum {
    #[inline]
    fn n(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
    }
}

trait Add {
    fn add(&self, s: &mut Sum);
}
macro_rules! add {
    ($($t:ty),*) => { $(impl Add for $t { #[inline] fn add(&self, s: &mut Sum) { s.n(*self as u64) } })* };
}
add!(bool, u8, u16, u32, usize);
impl Add for &[u8] {
    #[inline]
    fn add(&self, s: &mut Sum) {
        s.n(self.len() as u64);
        for b in self.iter() {
            s.n(*b as u64);
        }
    }
}

macro_rules! handler {
    ($tr:path; $($f:ident($($a:ident: $t:ty),*) $k:ident;)*) => {
        impl $tr for Sum {
            $(fn $f(&mut self, $($a: $t),*) -> bool {
                self.n($k as u64);
                $($a.add(self);)*
                true
            })*
        }
    };
}

handler! { http1::HttpHandler;
    on_body_finished() BODYFIN; on_chunk_begin() CHBEGIN; on_chunk_data(s: &[u8]) CDATA; on_chunk_extension_finished() XFIN;
    on_chunk_extension_name(s: &[u8]) XNAME; on_chunk_extension_value(s: &[u8]) XVAL; on_chunk_extensions_finished() XSFIN;
    on_chunk_length(n: usize) CHLEN; on_header_name(s: &[u8]) HNAME; on_header_value(s: &[u8]) HVAL; on_headers_finished() HDRFIN;
    on_initial_finished() INITFIN; on_method(s: &[u8]) METHOD; on_multipart_begin() MPBEGIN; on_multipart_data(s: &[u8]) MDATA;
    on_status(s: &[u8]) STATUS; on_status_code(c: u16) CODE; on_url(s: &[u8]) URL; on_url_encoded_begin() UBEGIN;
    on_url_encoded_name(s: &[u8]) UNAME; on_url_encoded_value(s: &[u8]) UVAL; on_version(a: u16, b: u16) VERSION;
}

handler! { http2::HttpHandler;
    on_data(s: &[u8], f: bool) DATA; on_frame_format(l: u32, t: u8, g: u8, i: u32) FRAME; on_go_away(i: u32, c: u32) GOAWAY;
    on_go_away_debug_data(s: &[u8], f: bool) DEBUG; on_headers(x: bool, i: u32, w: u8) HEADERS;
    on_headers_fragment(s: &[u8], f: bool) FRAG; on_ping(s: &[u8], f: bool) PING; on_priority(x: bool, i: u32, w: u8) PRIORITY;
    on_push_promise(i: u32) PUSH; on_rst_stream(c: u32) RST; on_settings(i: u16, v: u32) SETTING;
    on_unsupported(s: &[u8], f: bool) UNSUP; on_window_update(i: u32) WINDOW;
}

/// One side: what is parsed, and in slices of which size (0: in one).
#[derive(Clone)]
pub enum What {
    Stream(Start),
    Tool(Tool),
}

pub struct Case {
    pub what: What,
    pub bytes: Vec<u8>,
    pub step: usize,
}

fn result<E: std::fmt::Debug>(h: &mut Sum, r: Result<Success, E>) -> bool {
    match r {
        Ok(Success::Callback(n)) => (h.n(1), h.n(n as u64)),
        Ok(Success::Eos(n)) => (h.n(2), h.n(n as u64)),
        Ok(Success::Finished(n)) => {
            h.n(3);
            h.n(n as u64);
            return false;
        }
        Err(e) => {
            for b in format!("{:?}", e).bytes() {
                h.n(b as u64);
            }
            return false;
        }
    };
    true
}

macro_rules! drive {
    ($name:ident, $m:ident) => {
        #[inline(never)]
        fn $name(c: &Case, init: impl FnOnce(&mut $m::Parser<'static, Sum>)) -> u64 {
            let mut h = Sum(7);
            let mut p: $m::Parser<'static, Sum> = $m::Parser::new();
            init(&mut p);
            let n = c.bytes.len();
            for s in c.bytes.chunks(if c.step == 0 { n.max(1) } else { c.step }) {
                let r = p.resume(&mut h, s);
                let go = result(&mut h, r);
                h.n(p.byte_count() as u64);
                h.n(p.state() as u64);
                if !go {
                    break;
                }
            }
            h.0
        }
    };
}
drive!(drive1, http1);
drive!(drive2, http2);

/// Execute a side from its beginning to its end.
fn run_case(c: &Case) -> u64 {
    match &c.what {
        What::Stream(Start::H2) => drive2(c, |_| ()),
        What::Stream(s) => {
            let s = *s;
            drive1(c, move |p| match s {
                Start::Chunked => p.init_chunked(),
                Start::Multipart(b) => {
                    p.init_multipart();
                    p.set_boundary(b);
                }
                Start::Url(n) => {
                    p.init_url_encoded();
                    p.set_length(n);
                }
                Start::New => (),
                _ => p.init_head(),
            })
        }
        What::Tool(t) => {
            let mut h = Sum(9);
            let mut pair = |a: &str, b: Option<&str>| {
                a.as_bytes().add(&mut h);
                match b {
                    Some(b) => b.as_bytes().add(&mut h),
                    None => h.n(5),
                }
            };
            let errs = Cell::new(0u64);
            match t {
                Tool::Decode => match http_box::util::decode(&c.bytes) {
                    Ok(s) => pair(&s, None),
                    Err(e) => pair(&format!("{:?}", e), None),
                },
                Tool::Query => {
                    let mut i = http_box::util::QueryIterator::new(&c.bytes);
                    i.on_error(|e| errs.set(errs.get() * 31 + format!("{:?}", e).len() as u64));
                    for (a, b) in i.take(1000) {
                        pair(&a, b.as_deref());
                    }
                }
                Tool::Field(d, n) => {
                    let mut i = http_box::util::FieldIterator::new(&c.bytes, *d, *n);
                    i.on_error(|e| errs.set(errs.get() * 31 + format!("{:?}", e).len() as u64));
                    for (a, b) in i.take(1000) {
                        pair(&a, b.as_deref());
                    }
                }
            }
            h.n(errs.get());
            h.0
        }
    }
}

/// The other thread. It is a real one, so that what belongs to a thread is not shared.
struct Partner {
    case: AtomicPtr<Case>,
    go: AtomicU64,
    done: AtomicU64,
    result: AtomicU64,
    quit: AtomicBool,
}

impl Partner {
    fn new() -> Partner {
        Partner { case: AtomicPtr::new(std::ptr::null_mut()), go: AtomicU64::new(0), done: AtomicU64::new(0), result: AtomicU64::new(0), quit: AtomicBool::new(false) }
    }

    fn serve(&self) {
        guard::enter_thread();
        let mut idle = 0u32;
        while !self.quit.load(Ordering::Acquire) {
            let go = self.go.load(Ordering::Acquire);
            if go == self.done.load(Ordering::Relaxed) {
                idle += 1;
                if idle % 200 == 0 {
                    std::thread::yield_now();
                } else {
                    std::hint::spin_loop();
                }
                continue;
            }
            idle = 0;
            let c = unsafe { &*self.case.load(Ordering::Acquire) };
            let r = guard::call(&c.bytes, NONE, || run_case(c)).unwrap_or(PANIC);
            self.result.store(r, Ordering::Relaxed);
            self.done.store(go, Ordering::Release);
        }
        guard::leave_thread();
    }

    /// Wait for the end of the call that was asked for last, at most `turns` times.
    fn wait(&self, turns: u32) -> bool {
        let go = self.go.load(Ordering::Relaxed);
        for i in 0..turns {
            if self.done.load(Ordering::Acquire) == go {
                return true;
            }
            if i % 200 == 199 {
                unsafe { sched_yield() };
            } else {
                std::hint::spin_loop();
            }
        }
        false
    }
}

const PANIC: u64 = 0xdead_dead_dead_dead;

#[derive(Clone, Copy)]
struct Now {
    other: *const Partner,
    /// What the other delivers when alone.
    want: u64,
    /// Instructions at which it was run.
    points: u64,
    /// The first of them at which it was disturbed.
    bad: u64,
    pending: bool,
}

impl Now {
    fn look(&mut self, turns: u32) {
        let p = unsafe { &*self.other };
        if self.pending && p.wait(turns) {
            self.pending = false;
            if p.result.load(Ordering::Relaxed) != self.want && self.bad == 0 {
                self.bad = self.points;
            }
        }
    }
}

thread_local! {
    static STEP: Cell<Option<Now>> = const { Cell::new(None) };
}

extern "C" {
    static __executable_start: u8;
    static etext: u8;
    fn sched_yield() -> i32;
}

/// The trap handler. False if no stepping is under way in this thread.
pub fn trap(context: *mut u64) -> bool {
    let Some(mut now) = STEP.get() else {
        if fork_here(context) {
            return true;
        }
        // a step after a panic: no more of them
        let flags = unsafe { &mut *context.add(5 + 17) };
        let step = *flags & 0x100 != 0;
        *flags &= !0x100;
        return step;
    };
    // ucontext: uc_flags, uc_link, uc_stack (3 words), then r8.. r15, rdi, rsi, rbp, rbx, rdx, rax, rcx, rsp, rip
    let at = unsafe { *context.add(5 + 16) } as usize;
    let (lo, hi) = unsafe { (&__executable_start as *const u8 as usize, &etext as *const u8 as usize) };
    if at < lo || at >= hi {
        return true;
    }
    // the other may be blocked by what this thread holds: then it goes on later
    now.look(if now.pending { 1 } else { 0 });
    if !now.pending {
        now.points += 1;
        now.pending = true;
        unsafe { &*now.other }.go.fetch_add(1, Ordering::Release);
        now.look(400_000);
    }
    STEP.set(Some(now));
    true
}

#[cfg(target_arch = "x86_64")]
fn stepped(a: &Case, other: &Partner, want: u64) -> (u64, u64, u64) {
    STEP.set(Some(Now { other, want, points: 0, bad: 0, pending: false }));
    let got;
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        got = run_case(a);
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
    let mut now = STEP.replace(None).unwrap();
    while now.pending {
        now.look(1_000_000);
    }
    (got, now.points, now.bad)
}

#[cfg(not(target_arch = "x86_64"))]
fn stepped(a: &Case, _: &Partner, _: u64) -> (u64, u64, u64) {
    (run_case(a), 0, 0)
}

fn describe(c: &Case) -> String {
    match &c.what {
        What::Stream(s) => format!("{} \"{}\"{}", show_start(*s), esc(&c.bytes), if c.step == 1 { " byte by byte" } else { "" }),
        What::Tool(t) => format!("{} \"{}\"", t.show(), esc(&c.bytes)),
    }
}

/// Every pair of sides, both ways round.
pub fn parallel(run: &Run, cases: &[Case], pairs: &[(usize, usize)], mask: u64, mask_name: &str) {
    let t0 = std::time::Instant::now();
    let points = AtomicU64::new(0);
    let next = AtomicUsize::new(0);
    let done = AtomicU64::new(0);
    let one = |partner: &Partner, a: &Case, b: &Case| {
        let alone = |c: &Case| guard::call(&c.bytes, NONE, || run_case(c));
        let (Ok(x), Ok(y)) = (alone(a), alone(b)) else { return };
        if alone(a) != Ok(x) {
            let text = format!("{}: delivers something else the second time\n  violates: {}", describe(a), mask_name);
            if run.mask & mask != 0 {
                run.violate(&text, "bulk");
            } else {
                run.other(mask, &text);
            }
            return;
        }
        partner.case.store(b as *const Case as *mut Case, Ordering::Release);
        let r = guard::call(&a.bytes, NONE, || stepped(a, partner, y));
        STEP.set(None);
        let text = match r {
            Err(()) => "the first panics".to_string(),
            Ok((got, n, bad)) => {
                points.fetch_add(n, Ordering::Relaxed);
                if got != x {
                    "the first delivers something else than alone".to_string()
                } else if bad > 0 {
                    format!("the second, run at instruction {} of the first, delivers something else than alone", bad)
                } else {
                    return;
                }
            }
        };
        let text = format!("{} and, in another thread, {}: {}\n  violates: {}", describe(a), describe(b), text, mask_name);
        if run.mask & mask != 0 {
            run.violate(&text, "bulk");
        } else {
            run.other(mask, &text);
        }
    };
    std::thread::scope(|sc| {
        for _ in 0..(threads() / 2).max(1) {
            sc.spawn(|| {
                guard::enter_thread();
                let partner = Partner::new();
                std::thread::scope(|s2| {
                    s2.spawn(|| partner.serve());
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= pairs.len() || run.stopped() || run.out_of_time() {
                            break;
                        }
                        let (a, b) = (&cases[pairs[i].0], &cases[pairs[i].1]);
                        let start = match a.what { What::Stream(s) => s, _ => Start::Head };
                        with_context(run, start, Box::new(Vec::new), || one(&partner, a, b));
                        done.fetch_add(1, Ordering::Relaxed);
                    }
                    partner.quit.store(true, Ordering::Release);
                });
                guard::leave_thread();
            });
        }
    });
    let (n, done) = (points.load(Ordering::Relaxed), done.load(Ordering::Relaxed));
    if (done as usize) < pairs.len() && !run.stopped() {
        run.cap();
    }
    run.transitions.fetch_add(n, Ordering::Relaxed);
    run.states.fetch_add(n, Ordering::Relaxed);
    run.traces.fetch_add(done, Ordering::Relaxed);
    run.calls.fetch_add(n + done, Ordering::Relaxed);
    run.space(if n == 0 {
        "single steps are not available here: parallel calls were not explored".into()
    } else {
        format!("two threads: at each of {} instructions of a call another one runs to its end, {} of {} pairs ({:.1}s)", n, done, pairs.len(), t0.elapsed().as_secs_f64())
    });
}

// -------------------------------------------------------------------------------------------------
// The first use in a process
// -------------------------------------------------------------------------------------------------

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn alarm(seconds: u32) -> u32;
}

/// What the processes of `first` share.
#[repr(C)]
struct Shared {
    next: AtomicU64,
    points: AtomicU64,
    pairs: AtomicU64,
    /// Pair + 1, point and kind of the first failure.
    bad: [AtomicU64; 3],
    /// Value of each case when alone in a new process.
    alone: [AtomicU64; 64],
}

#[derive(Clone, Copy)]
struct Forking {
    other: *const Case,
    points: u64,
    /// 0: the stepping process; otherwise the child forked at that point.
    child: u64,
    bad: u64,
    kind: u64,
}

static CHILD_B: AtomicU64 = AtomicU64::new(0);
static CHILD_B_DONE: AtomicBool = AtomicBool::new(false);

thread_local! {
    static FORKING: Cell<Option<Forking>> = const { Cell::new(None) };
}

fn quietly(c: &Case) -> u64 {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_case(c))).unwrap_or(PANIC)
}

/// Trap handler of the stepping process: a child is forked at every instruction, in which another thread runs the
/// other side before this one goes on.
fn fork_here(context: *mut u64) -> bool {
    let Some(mut f) = FORKING.get() else { return false };
    let at = unsafe { *context.add(5 + 16) } as usize;
    let (lo, hi) = unsafe { (&__executable_start as *const u8 as usize, &etext as *const u8 as usize) };
    if at < lo || at >= hi || f.child != 0 {
        return true;
    }
    f.points += 1;
    unsafe {
        let pid = fork();
        if pid == 0 {
            alarm(150);
            f.child = f.points;
            FORKING.set(Some(f));
            // no more steps
            *context.add(5 + 17) &= !0x100;
            let other = f.other as usize;
            std::thread::spawn(move || {
                let r = quietly(&*(other as *const Case));
                CHILD_B.store(r, Ordering::SeqCst);
                CHILD_B_DONE.store(true, Ordering::SeqCst);
            });
            // it may be blocked by what this thread holds
            let t = std::time::Instant::now();
            while !CHILD_B_DONE.load(Ordering::SeqCst) && t.elapsed().as_millis() < 4 {
                sched_yield();
            }
            return true;
        }
        if pid < 0 {
            f.kind = 9;
        } else {
            let mut status = 0;
            waitpid(pid, &mut status, 0);
            if status != 0 && f.bad == 0 {
                f.bad = f.points;
                f.kind = if status & 0x7f != 0 { 4 } else { (status >> 8) as u64 & 0xff };
            }
        }
    }
    FORKING.set(Some(f));
    true
}

#[cfg(target_arch = "x86_64")]
fn forked(a: &Case, b: &Case, want_a: u64, want_b: u64) -> Forking {
    FORKING.set(Some(Forking { other: b, points: 0, child: 0, bad: 0, kind: 0 }));
    let got;
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        got = quietly(a);
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
    let f = FORKING.replace(None).unwrap();
    if f.child != 0 {
        let t = std::time::Instant::now();
        while !CHILD_B_DONE.load(Ordering::SeqCst) && t.elapsed().as_secs() < 100 {
            std::thread::yield_now();
        }
        let code = if !CHILD_B_DONE.load(Ordering::SeqCst) { 3 } else if got != want_a { 1 } else if CHILD_B.load(Ordering::SeqCst) != want_b { 2 } else { 0 };
        unsafe { _exit(code) }
    }
    f
}

#[cfg(not(target_arch = "x86_64"))]
fn forked(_: &Case, b: &Case, _: u64, _: u64) -> Forking {
    Forking { other: b, points: 0, child: 0, bad: 0, kind: 0 }
}

static FIRST: std::sync::OnceLock<(u64, u64, String)> = std::sync::OnceLock::new();

/// The first use of the library in a process, in two threads. Called before anything else has used it, and before
/// there are other threads.
pub fn first(cases: &[Case], pairs: &[(usize, usize)]) {
    assert!(cases.len() <= 64);
    let procs = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let shared: &Shared = unsafe {
        let m = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        assert!(m as isize != -1, "mmap");
        &*(m as *const Shared)
    };
    let fail = |pair: usize, point: u64, kind: u64| {
        if shared.bad[0].compare_exchange(0, pair as u64 + 1, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
            shared.bad[1].store(point, Ordering::SeqCst);
            shared.bad[2].store(kind, Ordering::SeqCst);
        }
    };
    std::panic::set_hook(Box::new(|_| ()));
    let child = |f: &dyn Fn()| -> i32 {
        unsafe {
            let pid = fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                f();
                _exit(0);
            }
            let mut status = 0;
            waitpid(pid, &mut status, 0);
            status
        }
    };
    for (i, c) in cases.iter().enumerate() {
        let status = child(&|| {
            unsafe { alarm(150) };
            let x = quietly(c);
            shared.alone[i].store(x, Ordering::SeqCst);
            if quietly(c) != x {
                fail(i, 0, 5);
            }
        });
        if status != 0 {
            fail(i, 0, 4);
        }
    }
    if shared.bad[0].load(Ordering::SeqCst) == 0 {
        guard::install_trap();
        let next = &shared.next;
        let until = std::time::Instant::now() + std::time::Duration::from_secs(90);
        let mut pids = Vec::new();
        for _ in 0..procs {
            let pid = unsafe { fork() };
            assert!(pid >= 0, "fork");
            if pid == 0 {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst) as usize;
                    if i >= pairs.len() || shared.bad[0].load(Ordering::SeqCst) != 0 || std::time::Instant::now() > until {
                        unsafe { _exit(0) }
                    }
                    let (a, b) = pairs[i];
                    // a process for each pair, so that nothing has been used before
                    let status = child(&|| {
                        let f = forked(&cases[a], &cases[b], shared.alone[a].load(Ordering::SeqCst), shared.alone[b].load(Ordering::SeqCst));
                        shared.points.fetch_add(f.points, Ordering::SeqCst);
                        if f.bad != 0 {
                            fail(i, f.bad, f.kind);
                        }
                    });
                    if status != 0 {
                        fail(i, 0, 4);
                    }
                    shared.pairs.fetch_add(1, Ordering::SeqCst);
                }
            }
            pids.push(pid);
        }
        for p in pids {
            let mut status = 0;
            unsafe { waitpid(p, &mut status, 0) };
        }
    }
    let _ = std::panic::take_hook();
    let bad = shared.bad[0].load(Ordering::SeqCst) as usize;
    let (point, kind) = (shared.bad[1].load(Ordering::SeqCst), shared.bad[2].load(Ordering::SeqCst));
    let text = match (bad, kind) {
        (0, _) => String::new(),
        (i, 5) => format!("{}: the first use in a process delivers something else than the second", describe(&cases[i - 1])),
        (i, k) if point == 0 && k == 4 => format!("{}: the first use in a process crashes", describe(&cases[if i <= cases.len() { i - 1 } else { pairs[i - 1].0 }])),
        (i, k) => {
            let (a, b) = pairs[i - 1];
            format!("first use in a process: {}, and another thread that runs at its instruction {}, {}: {}", describe(&cases[a]), point, describe(&cases[b]), match k {
                1 => "the first delivers something else than alone",
                2 => "the other delivers something else than alone",
                3 => "the other does not end",
                _ => "the process crashes",
            })
        }
    };
    let _ = FIRST.set((shared.points.load(Ordering::SeqCst), shared.pairs.load(Ordering::SeqCst), text));
}

pub fn first_report(run: &Run, mask: u64, mask_name: &str) {
    let Some((points, pairs, text)) = FIRST.get() else { return };
    run.transitions.fetch_add(*points, Ordering::Relaxed);
    run.states.fetch_add(*points, Ordering::Relaxed);
    run.traces.fetch_add(*points, Ordering::Relaxed);
    run.space(format!("first use in a process, in two threads: a process for each of {} instructions of {} pairs", points, pairs));
    if !text.is_empty() {
        let text = format!("{}\n  violates: {}", text, mask_name);
        if run.mask & mask != 0 {
            run.violate(&text, "bulk");
        } else {
            run.other(mask, &text);
        }
    }
}

/// Called first of all: for H01 the parsers, for F07 the utilities.
pub fn first_of(id: &str, thorough: bool) {
    let mut cases = Vec::new();
    match id {
        "H01" => {
            for v in crate::chains::sides() {
                for (s, b) in v.into_iter().take(if thorough { 4 } else { 2 }) {
                    cases.push(Case { what: What::Stream(s), bytes: b, step: 0 });
                }
            }
        }
        "F07" => {
            for t in [Tool::Decode, Tool::Query, Tool::Field(b';', true), Tool::Field(b',', false)] {
                for b in [&b"a=%41%zz"[..], b"A%c3+b=\"c\";D=%20d,E=\x01", b"B%43=\"\\\"\";e; F=x"] {
                    cases.push(Case { what: What::Tool(t), bytes: b.to_vec(), step: 0 });
                }
            }
        }
        _ => return,
    }
    let n = cases.len();
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect();
    first(&cases, &pairs);
}
