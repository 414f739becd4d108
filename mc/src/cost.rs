//! Resources: the processor time and heap memory that a piece of input costs when it is repeated. Every loop of a set
//! of documents (a piece that can follow itself) is repeated to two lengths; time may grow in proportion only, what a
//! parser or iterator holds may not grow at all, and nothing may be left behind.

use crate::explore::*;
use crate::guard;
use crate::model::*;
use crate::numeric::{h2hdr, par};
use crate::rec::NONE;
use crate::sess::*;
use crate::tok::esc;
use crate::util::Tool;
use http_box::fsm::Success;
use http_box::{http1, http2};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering};

/// Counts what each thread holds.
pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

#[inline]
fn count(n: i64) {
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n);
        if n > 0 {
            let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// A handler that keeps nothing.
struct Tally {
    n: u64,
    go: bool,
    declared: Option<usize>,
}

macro_rules! tally {
    ($tr:path; $($f:ident($($t:ty),*);)* ; $($rest:item)*) => {
        impl $tr for Tally {
            $($rest)*
            $(tally!(@ $f $($t),*);)*
        }
    };
    (@ $f:ident) => { fn $f(&mut self) -> bool { self.n += 1; self.go } };
    (@ $f:ident $a:ty) => { fn $f(&mut self, _: $a) -> bool { self.n += 1; self.go } };
    (@ $f:ident $a:ty, $b:ty) => { fn $f(&mut self, _: $a, _: $b) -> bool { self.n += 1; self.go } };
    (@ $f:ident $a:ty, $b:ty, $c:ty) => { fn $f(&mut self, _: $a, _: $b, _: $c) -> bool { self.n += 1; self.go } };
    (@ $f:ident $a:ty, $b:ty, $c:ty, $d:ty) => { fn $f(&mut self, _: $a, _: $b, _: $c, _: $d) -> bool { self.n += 1; self.go } };
}

tally! { http1::HttpHandler;
    on_body_finished(); on_chunk_begin(); on_chunk_data(&[u8]); on_chunk_extension_finished();
    on_chunk_extension_name(&[u8]); on_chunk_extension_value(&[u8]); on_chunk_extensions_finished();
    on_chunk_length(usize); on_header_name(&[u8]); on_header_value(&[u8]); on_headers_finished();
    on_initial_finished(); on_method(&[u8]); on_multipart_begin(); on_multipart_data(&[u8]);
    on_status(&[u8]); on_status_code(u16); on_url(&[u8]); on_url_encoded_begin();
    on_url_encoded_name(&[u8]); on_url_encoded_value(&[u8]); on_version(u16, u16); ;
    fn content_length(&mut self) -> Option<usize> { self.declared }
}
tally! { http2::HttpHandler;
    on_data(&[u8], bool); on_frame_format(u32, u8, u8, u32); on_go_away(u32, u32);
    on_go_away_debug_data(&[u8], bool); on_headers(bool, u32, u8); on_headers_fragment(&[u8], bool); on_ping(&[u8], bool);
    on_priority(bool, u32, u8); on_push_promise(u32); on_rst_stream(u32); on_settings(u16, u32);
    on_unsupported(&[u8], bool); on_window_update(u32); ;
}

/// How a load is put through.
#[derive(Clone, Copy, PartialEq)]
enum Way {
    Whole,
    Bytes,
    /// Every slice is one piece; errors are followed by a reset.
    Pieces,
}

#[derive(Clone)]
enum What {
    Stream(Start, Option<usize>),
    Tool(Tool),
}

#[derive(Clone)]
struct Load {
    what: What,
    prefix: Vec<u8>,
    piece: Vec<u8>,
    way: Way,
    stop: bool,
}

struct Done {
    /// The state at the end.
    state: u64,
    errors: u64,
    used: usize,
    callbacks: u64,
}

macro_rules! drive {
    ($name:ident, $m:ident, $init:expr) => {
        #[inline(never)]
        fn $name(l: &Load, b: &[u8], start: Start, declared: Option<usize>) -> Done {
            let mut h = Tally { n: 0, go: !l.stop, declared };
            let mut p: $m::Parser<'static, Tally> = $m::Parser::new();
            $init(&mut p, start);
            let mut d = Done { state: 0, errors: 0, used: 0, callbacks: 0 };
            let size = match l.way { Way::Whole => b.len(), Way::Bytes => 1, Way::Pieces => l.piece.len() };
            let (first, others) = b.split_at(if l.way == Way::Pieces { l.prefix.len() } else { 0 });
            let mut again = false;
            let mut turns = 0usize;
            for s in std::iter::once(first).chain(others.chunks(size.max(1))) {
                let mut rest = s;
                loop {
                    turns += 1;
                    if turns > 8 * b.len() + 64 {
                        d.errors += 1;
                        return d;
                    }
                    match p.resume(&mut h, rest) {
                        Ok(Success::Callback(n)) => {
                            d.used += n;
                            rest = &rest[n.min(rest.len())..];
                        }
                        Ok(Success::Eos(n)) => {
                            d.used += n;
                            break;
                        }
                        Ok(Success::Finished(n)) => {
                            d.used += n;
                            rest = &rest[n.min(rest.len())..];
                            again = !again;
                            if again {
                                p.reset();
                            }
                            $init(&mut p, start);
                            if rest.is_empty() {
                                break;
                            }
                        }
                        Err(_) => {
                            d.errors += 1;
                            if l.way != Way::Pieces {
                                return d;
                            }
                            again = !again;
                            if again {
                                p.reset();
                            }
                            $init(&mut p, start);
                            break;
                        }
                    }
                }
            }
            d.state = p.state() as u64;
            d.callbacks = h.n;
            d
        }
    };
}
drive!(drive1, http1, |p: &mut http1::Parser<'static, Tally>, s: Start| match s {
    Start::Chunked => p.init_chunked(),
    Start::Multipart(b) => {
        p.init_multipart();
        p.set_boundary(b);
    }
    Start::Url(n) => {
        p.init_url_encoded();
        p.set_length(n);
    }
    Start::New => (),
    _ => p.init_head(),
});
drive!(drive2, http2, |p: &mut http2::Parser<'static, Tally>, _: Start| if p.state() as u64 == http2::ParserState::Dead as u64 { p.reset() });

fn put(l: &Load, b: &[u8]) -> Done {
    match &l.what {
        What::Stream(Start::H2, _) => drive2(l, b, Start::H2, None),
        What::Stream(s, n) => drive1(l, b, *s, *n),
        What::Tool(t) => {
            let errors = Cell::new(0);
            let mut used = 0;
            let mut entries = 0;
            match *t {
                Tool::Decode => match http_box::util::decode(b) {
                    Ok(_) => used = b.len(),
                    Err(_) => errors.set(1),
                },
                Tool::Query => {
                    let mut i = http_box::util::QueryIterator::new(b);
                    i.on_error(|_| errors.set(errors.get() + 1000));
                    i.on_error(|_| errors.set(errors.get() + 1));
                    while entries <= b.len() as u64 && i.next().is_some() {
                        entries += 1;
                    }
                    used = b.len();
                }
                Tool::Field(d, n) => {
                    let mut i = http_box::util::FieldIterator::new(b, d, n);
                    i.on_error(|_| errors.set(errors.get() + 1000));
                    i.on_error(|_| errors.set(errors.get() + 1));
                    while entries <= b.len() as u64 && i.next().is_some() {
                        entries += 1;
                    }
                    used = b.len();
                }
            }
            Done { state: 0, errors: errors.get(), used, callbacks: entries }
        }
    }
}

extern "C" {
    fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
}

/// Processor time of this thread in nanoseconds.
fn clock() -> i64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] * 1_000_000_000 + t[1]
}

impl Load {
    fn bytes(&self, times: usize) -> Vec<u8> {
        let mut v = self.prefix.clone();
        for _ in 0..times {
            v.extend_from_slice(&self.piece);
        }
        v
    }

    fn show(&self) -> String {
        let what = match &self.what {
            What::Stream(s, None) => show_start(*s),
            What::Stream(s, Some(n)) => format!("{} declared {}", show_start(*s), n),
            What::Tool(t) => t.show(),
        };
        format!("{} \"{}\" followed by \"{}\" again and again{}{}", what, esc(&self.prefix), esc(&self.piece),
                match self.way { Way::Whole => "", Way::Bytes => ", byte by byte", Way::Pieces => ", piece by piece" }, if self.stop { ", interrupted at every callback" } else { "" })
    }
}

const SMALL: usize = 32 << 10;
const TIMES: usize = 8;

/// What is wrong with the cost of a load.
fn examine(l: &Load, total: &AtomicU64) -> Option<String> {
    let k = SMALL / l.piece.len() + 1;
    let stream = matches!(l.what, What::Stream(..));
    let texts = [l.bytes(k), l.bytes(TIMES * k)];
    let mut peaks = [0; 2];
    let mut times = [1i64 << 40; 2];
    let mut entries = 0;
    for turn in 0..8 {
        // processor time is taken again if there is too much of it
        let late = turn > 0 && times[1] > 2 * TIMES as i64 * times[0] + 30_000_000;
        if turn >= 2 && !late || turn >= 3 && times[1] > 1_000_000_000 {
            break;
        }
        for (i, b) in texts.iter().enumerate() {
            let before = LIVE.get();
            PEAK.set(before);
            let t = clock();
            let d = guard::call(b, NONE, || put(l, b)).ok()?;
            times[i] = times[i].min(clock() - t);
            total.fetch_add(b.len() as u64, Ordering::Relaxed);
            entries = d.callbacks;
            let left = LIVE.get() - before;
            peaks[i] = PEAK.get() - before;
            if left != 0 && (turn, i) != (0, 0) {
                return Some(format!("{} bytes of memory are left behind after {} bytes", left, b.len()));
            }
        }
    }
    let [a, b] = peaks;
    let n = TIMES * k;
    if (stream || entries as usize >= n / 2) && b > a + 1024 {
        return Some(format!("holds {} bytes of memory for {} pieces, {} for {}", a, k, b, n));
    }
    if b > 2 * TIMES as i64 * a + 4096 || b > 16 * texts[1].len() as i64 + 4096 {
        return Some(format!("takes {} bytes of memory for {} pieces, {} for {}", a, k, b, n));
    }
    if times[1] > 2 * TIMES as i64 * times[0] + 30_000_000 {
        return Some(format!("takes more than {} times as long for {} pieces as for {} ({} and {} ms)", 2 * TIMES, n, k, times[1] / 1_000_000, times[0] / 1_000_000));
    }
    None
}

/// Pieces that can follow themselves.
fn loads(th: bool) -> Vec<Load> {
    let ab = Start::Multipart(b"ab");
    let big = Start::Url(1 << 40);
    let mut docs: Vec<(Start, Option<usize>, Vec<u8>)> = [
        (Start::New, None, &b"\r\n GET /a HTTP/1.1\r\nHost: \"q\\\"\" b\r\n c\r\nDate:x\r\n\r\n"[..]),
        (Start::Head, None, b"XYZ /a HTTP/13.57\r\nAb-c: d\te\r\n\t f\r\n\r\n"),
        (Start::Head, None, b"HTTP/1.1 200 OK k\r\nA: b\r\n\r\n"),
        (Start::Head, None, b"HTTP/24.68 591 \xe9\r\nC:\r\n\r\n"),
        (Start::Chunked, None, b"3;a=\"b\\\"c\";d=e;f\r\nabc\r\n0\r\nT: t\r\nU: \"\\\\\"\r\n\r\n"),
        (Start::Chunked, None, b"1;g\r\nx\r\n0;h=\"i\"\r\n\r\n"),
        (Start::Chunked, None, b"ffffffff\r\n"),
        (ab, None, b"--ab\r\nA: b\r\n\r\nx\r\n--a\r\n--ab\r\nC: \"d\"\r\n\r\n\r\n--ab--"),
        (Start::Multipart(b"--ab--ab--"), None, b"----ab--ab--\r\n\r\nx\r\n----ab--ab--y\r\n----ab--ab----"),
        (ab, Some(5), b"--ab\r\nA: b\r\n\r\n12345\r\n--ab\r\n\r\n\r\n--a\r\r\n--ab--"),
        (ab, Some(1 << 40), b"--ab\r\nA: b\r\n\r\n12345"),
        (big, None, b"ab=%41&c+d;e&f=g+%42"),
        (Start::Url(11), None, b"a=%41&b+c=d"),
    ].iter().map(|(s, n, b)| (*s, *n, b.to_vec())).collect();
    for (ty, fl, n) in [(0u8, 8u8, 5u32), (0, 0, 3), (1, 0x28, 9), (1, 0x20, 6), (1, 8, 3), (2, 0, 5), (3, 0, 4), (4, 0, 12), (5, 8, 8), (6, 0, 8), (7, 0, 11), (8, 0, 4), (9, 0, 3), (10, 0, 3), (0, 0, 0), (4, 0, 0)] {
        let mut v = h2hdr(n, ty, fl, 1);
        v.extend(std::iter::once(1).chain(2..).take(n as usize).map(|x: u8| x));
        docs.push((Start::H2, None, v));
        // payloads without an end
        let mut v = h2hdr(0xffffff, ty, fl, 1);
        v.extend_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]);
        if n > 0 && ![2, 3, 6, 8].contains(&ty) {
            docs.push((Start::H2, None, v));
        }
    }
    let alphabet: Vec<Vec<u8>> = b"\r\n\t \"\\;=:a-%+&A0/\xe9,*".iter().map(|x| vec![*x])
        .chain([&b"\r\n"[..], b"\r\n-", b"\r\n--", b"\r\n--a", b"\r\n--aX", b"\\\"", b"\r\n x", b"-\r\n", b"\r\r\n", b"%41", b"a;", b"\"\"", b"a=b", b"\r\n--ab\r\n", b"\r\n----ab--", b"\r\n----ab--ab-", b"A: b\r\n"].iter().map(|s| s.to_vec())).collect();
    let mut seen = HashSet::new();
    let mut v = Vec::new();
    for (start, declared, d) in &docs {
        for k in 0..=d.len() {
            let mut pieces: Vec<Vec<u8>> = (1..=30.min(d.len() - k)).map(|j| d[k..k + j].to_vec()).collect();
            pieces.push(d[k..].to_vec());
            pieces.extend(alphabet.iter().cloned());
            let at = |piece: &[u8], times: usize, way: Way| {
                let l = Load { what: What::Stream(*start, *declared), prefix: d[..k].to_vec(), piece: piece.to_vec(), way, stop: false };
                let b = l.bytes(times);
                guard::call(&b, NONE, || put(&l, &b)).ok().map(|d| (d.errors, d.used == b.len(), d.state))
            };
            let Some((0, true, state)) = at(b"x", 0, Way::Whole) else { continue };
            for p in pieces {
                if p.is_empty() {
                    continue;
                }
                let text = format!("{:?} {:?} {} {}", start, declared, state, esc(&p));
                let fine = matches!(at(&p, 6, Way::Whole), Some((0, true, _)));
                if !fine && !(k == 0 || th) {
                    continue;
                }
                if !seen.insert(text) {
                    continue;
                }
                let ways: &[(Way, bool)] = if fine { &[(Way::Whole, false), (Way::Whole, true), (Way::Bytes, true), (Way::Pieces, false)] } else { &[(Way::Pieces, true)] };
                for (way, stop) in ways {
                    if p.len() == 1 && *way == Way::Pieces && fine || p.len() > 8 && *way == Way::Bytes && !th {
                        continue;
                    }
                    v.push(Load { what: What::Stream(*start, *declared), prefix: d[..k].to_vec(), piece: p.clone(), way: *way, stop: *stop });
                }
            }
        }
    }
    for t in [Tool::Decode, Tool::Query, Tool::Field(b';', true), Tool::Field(b',', false)] {
        let texts: &[&[u8]] = match t {
            Tool::Decode => &[b"ab%41+%c3%a9"],
            Tool::Query => &[b"ab=c%41+&%42c=d;e&f=%c3%a9"],
            _ => &[b"Ab=c; d=\"e\\\"f\" ,g/H;I= j", b"a=\"b\\\\\\c\xc3\xa9\", D=e;f"],
        };
        for d in texts {
            for k in 0..=d.len() {
                let pieces = (1..=d.len() - k).map(|j| d[k..k + j].to_vec()).chain(alphabet.iter().filter(|p| !p.contains(&b'\r')).cloned());
                for p in pieces {
                    let l = Load { what: What::Tool(t), prefix: d[..k].to_vec(), piece: p, way: Way::Whole, stop: false };
                    let b = l.bytes(6);
                    if matches!(guard::call(&b, NONE, || put(&l, &b)), Ok(d) if d.errors == 0) && seen.insert(format!("{:?} {} {}", t.show(), esc(&d[k.saturating_sub(if th { 3 } else { 1 })..k]), esc(&l.piece))) {
                        v.push(l);
                    }
                }
            }
        }
    }
    v
}

pub fn costs(run: &Run) {
    let loads = loads(run.thorough);
    let total = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    par(run, "pieces repeated until 32 KB and 256 KB: processor time and memory", loads.len() as u64, |_, i| {
        let l = &loads[i as usize];
        done.fetch_add(1, Ordering::Relaxed);
        if let Some(what) = examine(l, &total) {
            let text = format!("{}: {}\n  violates: H03", l.show(), what);
            if run.mask & H03 != 0 {
                run.violate(&text, "bulk");
            } else {
                run.other(H03, &text);
            }
        }
    });
    let (n, done) = (total.load(Ordering::Relaxed), done.load(Ordering::Relaxed));
    run.states.fetch_add(done, Ordering::Relaxed);
    run.transitions.fetch_add(n, Ordering::Relaxed);
    run.traces.fetch_add(4 * done, Ordering::Relaxed);
    run.space(format!("{} of {} repeated pieces (every loop of the documents), {} bytes put through", done, loads.len(), n));
}
