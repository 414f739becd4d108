//! Handlers that implement only some callbacks: what they leave out changes nothing.

use crate::explore::*;
use crate::guard;
use crate::model::*;
use crate::rec::NONE;
use crate::sess::*;
use crate::tok::*;
use http_box::fsm::Success;
use http_box::{http1, http2};
use std::sync::atomic::{AtomicU64, Ordering};

/// Arguments of a callback as numbers.
trait Enc {
    fn enc(&self, v: &mut Vec<u64>);
}
macro_rules! enc {
    ($($t:ty),*) => { $(impl Enc for $t { fn enc(&self, v: &mut Vec<u64>) { v.push(*self as u64) } })* };
}
enc!(bool, u8, u16, u32, usize);
impl Enc for &[u8] {
    fn enc(&self, v: &mut Vec<u64>) {
        v.push(self.len() as u64);
        v.extend(self.iter().map(|b| *b as u64));
    }
}

/// The calls of one callback, and whether each is answered with false.
#[derive(Default)]
pub struct Log {
    log: Vec<Vec<u64>>,
    stop: bool,
}

impl Log {
    fn hit(&mut self, v: Vec<u64>) -> bool {
        self.log.push(v);
        !self.stop
    }
}

trait Logged: Default {
    fn log(&mut self) -> &mut Log;
}

/// Implements every callback and watches one.
#[derive(Default)]
pub struct All {
    kind: u8,
    l: Log,
}

impl Logged for All {
    fn log(&mut self) -> &mut Log {
        &mut self.l
    }
}

macro_rules! handlers {
    ($module:ident, $tr:path, $kinds:ident; $($f:ident($($a:ident: $t:ty),*) $k:ident;)*) => {
        impl $tr for All {
            $(fn $f(&mut self, $($a: $t),*) -> bool {
                if self.kind != $k {
                    return true;
                }
                #[allow(unused_mut)]
                let mut v = Vec::new();
                $($a.enc(&mut v);)*
                self.l.hit(v)
            })*
        }
        mod $module {
            use super::*;
            $(
                #[derive(Default)]
                pub struct $k(pub Log);
                impl Logged for $k {
                    fn log(&mut self) -> &mut Log {
                        &mut self.0
                    }
                }
                impl $tr for $k {
                    fn $f(&mut self, $($a: $t),*) -> bool {
                        #[allow(unused_mut)]
                        let mut v = Vec::new();
                        $($a.enc(&mut v);)*
                        self.0.hit(v)
                    }
                }
            )*
        }
        const $kinds: &[u8] = &[$($k),*];
    };
}

handlers! { only1, http1::HttpHandler, KINDS1;
    on_body_finished() BODYFIN; on_chunk_begin() CHBEGIN; on_chunk_data(s: &[u8]) CDATA; on_chunk_extension_finished() XFIN;
    on_chunk_extension_name(s: &[u8]) XNAME; on_chunk_extension_value(s: &[u8]) XVAL; on_chunk_extensions_finished() XSFIN;
    on_chunk_length(n: usize) CHLEN; on_header_name(s: &[u8]) HNAME; on_header_value(s: &[u8]) HVAL; on_headers_finished() HDRFIN;
    on_initial_finished() INITFIN; on_method(s: &[u8]) METHOD; on_multipart_begin() MPBEGIN; on_multipart_data(s: &[u8]) MDATA;
    on_status(s: &[u8]) STATUS; on_status_code(c: u16) CODE; on_url(s: &[u8]) URL; on_url_encoded_begin() UBEGIN;
    on_url_encoded_name(s: &[u8]) UNAME; on_url_encoded_value(s: &[u8]) UVAL; on_version(a: u16, b: u16) VERSION;
}

handlers! { only2, http2::HttpHandler, KINDS2;
    on_data(s: &[u8], f: bool) DATA; on_frame_format(l: u32, t: u8, g: u8, i: u32) FRAME; on_go_away(i: u32, c: u32) GOAWAY;
    on_go_away_debug_data(s: &[u8], f: bool) DEBUG; on_headers(x: bool, i: u32, w: u8) HEADERS;
    on_headers_fragment(s: &[u8], f: bool) FRAG; on_ping(s: &[u8], f: bool) PING; on_priority(x: bool, i: u32, w: u8) PRIORITY;
    on_push_promise(i: u32) PUSH; on_rst_stream(c: u32) RST; on_settings(i: u16, v: u32) SETTING;
    on_unsupported(s: &[u8], f: bool) UNSUP; on_window_update(i: u32) WINDOW;
}

/// Implements only the length of a part.
#[derive(Default)]
struct Length(Log);
impl Logged for Length {
    fn log(&mut self) -> &mut Log {
        &mut self.0
    }
}
impl http1::HttpHandler for Length {
    fn content_length(&mut self) -> Option<usize> {
        Some(2)
    }
}

/// Implements everything that `Length` does and the rest as well.
#[derive(Default)]
struct LengthAll(Log);
impl Logged for LengthAll {
    fn log(&mut self) -> &mut Log {
        &mut self.0
    }
}
impl http1::HttpHandler for LengthAll {
    fn content_length(&mut self) -> Option<usize> {
        Some(2)
    }
    fn on_header_name(&mut self, _: &[u8]) -> bool { true }
    fn on_header_value(&mut self, _: &[u8]) -> bool { true }
    fn on_headers_finished(&mut self) -> bool { true }
    fn on_multipart_begin(&mut self) -> bool { true }
    fn on_multipart_data(&mut self, _: &[u8]) -> bool { true }
    fn on_body_finished(&mut self) -> bool { true }
}

/// Implements nothing.
#[derive(Default)]
struct Nothing(Log);
impl Logged for Nothing {
    fn log(&mut self) -> &mut Log {
        &mut self.0
    }
}
impl http1::HttpHandler for Nothing {}
impl http2::HttpHandler for Nothing {}

/// What a run showed: every result with the running total and the state, then every recorded call.
type Shown = (Vec<(Out, usize, u32)>, Vec<Vec<u64>>);

fn out<E: std::fmt::Debug>(r: Result<Success, E>) -> Out {
    match r {
        Ok(Success::Callback(n)) => Out::Cb(n),
        Ok(Success::Eos(n)) => Out::Eos(n),
        Ok(Success::Finished(n)) => Out::Fin(n),
        Err(e) => {
            // distinguishes errors without naming them
            let s = format!("{:?}", e);
            Out::Err(s.len() as u8, s.bytes().fold(0u8, |a, b| a.wrapping_mul(31).wrapping_add(b)))
        }
    }
}

fn slices(doc: &[u8], cuts: &[usize]) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut a = 0;
    for c in cuts.iter().copied().chain(std::iter::once(doc.len())) {
        v.push((a, c.max(a)));
        a = c.max(a);
    }
    v
}

macro_rules! driver {
    ($name:ident, $m:ident, $init:expr) => {
        fn $name<H: $m::HttpHandler + Logged + 'static>(cx: &mut Cx, mut h: H, start: Start, doc: &[u8], cuts: &[usize]) -> Shown {
            let mut p: $m::Parser<'static, H> = $m::Parser::new();
            let mut outs = Vec::new();
            if guard::call(b"", NONE, || $init(&mut p, start)).is_err() {
                outs.push((Out::Panic, 0, 0));
                return (outs, Vec::new());
            }
            for (a, b) in slices(doc, cuts) {
                let mut a = a;
                loop {
                    let buf = cx.guard.place(&doc[a..b]);
                    cx.calls += 1;
                    let r = guard::call(buf, NONE, || out(p.resume(&mut h, buf)));
                    let r = match r {
                        Ok(r) => r,
                        Err(_) => {
                            outs.push((Out::Panic, 0, 0));
                            return (outs, std::mem::take(&mut h.log().log));
                        }
                    };
                    outs.push((r, p.byte_count(), p.state() as u32));
                    match r {
                        Out::Cb(n) if a + n <= b && outs.len() < 4 * doc.len() + 64 => a += n,
                        Out::Eos(_) => break,
                        _ => return (outs, std::mem::take(&mut h.log().log)),
                    }
                }
            }
            (outs, std::mem::take(&mut h.log().log))
        }
    };
}

fn init1<H: http1::HttpHandler + 'static>(p: &mut http1::Parser<'static, H>, start: Start) {
    match start {
        Start::Chunked => p.init_chunked(),
        Start::Multipart(b) => {
            p.init_multipart();
            p.set_boundary(b);
        }
        Start::Url(n) => {
            p.init_url_encoded();
            p.set_length(n);
        }
        Start::New => (),
        _ => p.init_head(),
    }
}

driver!(drive1, http1, init1);
driver!(drive2, http2, |_: &mut http2::Parser<'static, H>, _| ());

fn only(cx: &mut Cx, kind: u8, stop: bool, start: Start, doc: &[u8], cuts: &[usize]) -> Shown {
    macro_rules! pick {
        ($d:ident, $m:ident, $($k:ident),*) => {
            match kind {
                $($k => return $d(cx, $m::$k(Log { log: vec![], stop }), start, doc, cuts),)*
                _ => (),
            }
        };
    }
    pick!(drive1, only1, BODYFIN, CHBEGIN, CDATA, XFIN, XNAME, XVAL, XSFIN, CHLEN, HNAME, HVAL, HDRFIN, INITFIN, METHOD, MPBEGIN,
          MDATA, STATUS, CODE, URL, UBEGIN, UNAME, UVAL, VERSION);
    pick!(drive2, only2, DATA, FRAME, GOAWAY, DEBUG, HEADERS, FRAG, PING, PRIORITY, PUSH, RST, SETTING, UNSUP, WINDOW);
    unreachable!()
}

/// Documents in which the number `n` stands for everything that is a number (or a length).
fn numbered(n: u64) -> Vec<Doc> {
    let mut v = Vec::new();
    let mut add = |start: Start, bytes: Vec<u8>| v.push(Doc { start, bytes });
    let fr = |len: u32, ty: u8, fl: u8, id: u32, p: &[u8]| {
        let mut x = crate::numeric::h2hdr(len, ty, fl, id);
        x.extend_from_slice(p);
        x
    };
    if n < 65536 {
        let b = (n as u16).to_be_bytes();
        add(Start::Chunked, format!("{:x}\r\nab", n).into_bytes());
        if n < 1000 {
            add(Start::Head, format!("HTTP/1.1 {:03} X\r\n\r\n", n).into_bytes());
            for m in [0, 1, 9, 10, 99, 100, 999] {
                add(Start::Head, format!("HTTP/{}.{} 200 X\r\n\r\n", n, m).into_bytes());
                add(Start::Head, format!("HTTP/{}.{} 200 X\r\n\r\n", m, n).into_bytes());
                add(Start::Head, format!("G / HTTP/{}.{}\r\n\r\n", n, m).into_bytes());
                add(Start::Head, format!("G / HTTP/{}.{}\r\n\r\n", m, n).into_bytes());
            }
        }
        // frame type and flags, identifiers of settings, codes and lengths
        add(Start::H2, fr(8, b[0], b[1], 1, &[1, 0, 0, 0, 2, 3, 4, 5]));
        add(Start::H2, fr(6, 4, 0, 0, &[b[0], b[1], 0, 0, 0, 1]));
        add(Start::H2, fr(6, 4, 0, 0, &[0, (n % 8) as u8, 0, 0, b[0], b[1]]));
        add(Start::H2, fr(4, 3, 0, 1, &[0, 0, b[0], b[1]]));
        add(Start::H2, fr(4, 8, 0, 1, &[0, 0, b[0], b[1]]));
        add(Start::H2, fr(8, 7, 0, 0, &[0, 0, b[0], b[1], 0, 0, b[0], b[1]]));
        add(Start::H2, fr(5, 2, 0, 1, &[0, 0, 0, b[0], b[1]]));
        add(Start::H2, fr(5, 1, 0x20, 1, &[0, 0, 0, b[0], b[1]]));
        add(Start::H2, fr(4, 5, 0, 1, &[0, 0, b[0], b[1]]));
        for ty in [0, 1, 5, 6, 7, 9, 200] {
            add(Start::H2, fr(n as u32, ty, 0, n as u32, b"12345678ab"));
        }
        add(Start::H2, fr(b[0] as u32, 0, 8, 1, &[b[1], 1, 2, 3]));
    } else {
        // around powers of two, and lengths of texts
        let k = n - 65536;
        let x = (1u64 << (k % 33)).wrapping_add(k / 33 % 5).wrapping_sub(2) as u32;
        let b = x.to_be_bytes();
        add(Start::Chunked, format!("{:x}\r\nab", x).into_bytes());
        add(Start::H2, fr(x & 0xffffff, (k % 11) as u8, 0, x, &[b[0], b[1], b[2], b[3], b[0], b[1], b[2], b[3], 1]));
        add(Start::H2, fr(6, 4, 0, 0, &[0, (k / 165) as u8, b[0], b[1], b[2], b[3]]));
        add(Start::H2, fr(4, 3, 0, x, &b));
        add(Start::H2, fr(4, 8, 0, x, &b));
        add(Start::H2, fr(8, 7, 0, 0, &[b[0], b[1], b[2], b[3], b[3], b[2], b[1], b[0]]));
        add(Start::H2, fr(8, 7, 0, 0, &[0, 0, 0, 1, b[0], b[1], b[2], b[3]]));
        add(Start::H2, fr(5, 2, 0, x, &[b[0], b[1], b[2], b[3], k as u8]));
        add(Start::H2, fr(4, 5, 0, x, &b));
        let a = vec![b'a'; k as usize];
        let cat = |v: &[&[u8]]| v.concat();
        add(Start::Head, cat(&[&vec![b'A'; k as usize], b" / HTTP/1.1\r\n\r\n"]));
        add(Start::Head, cat(&[b"G /", &a, b" HTTP/1.1\r\nA", &a, b": b", &a, b"\r\n\r\n"]));
        add(Start::Head, cat(&[b"HTTP/1.1 200 ", &a, b"\r\n\r\n"]));
        add(Start::Chunked, cat(&[b"1;a", &a, b"=b", &a, b";c=\"", &a, b"\"\r\nx\r\n0\r\n\r\n"]));
        add(Start::Chunked, cat(&[format!("{:x}\r\n", k.max(1)).as_bytes(), &vec![b'a'; k.max(1) as usize], b"\r\n0\r\n\r\n"]));
        add(Start::Multipart(b"ab"), cat(&[b"--ab\r\nA: b\r\n\r\n", &a, b"\r\n--ab--"]));
        add(Start::Url(2 * k as usize + 1), cat(&[&a, b"=", &a]));
    }
    v
}

/// Every base document cut in three, every document of the families cut in two, with every handler that implements
/// nothing, one callback, or the part length, answering true or false.
pub fn sparse(run: &Run) {
    let mut docs = Vec::new();
    for m in ["request", "response", "headers", "chunked", "multipart", "url", "h2"] {
        docs.extend(crate::docs::bases(m));
    }
    docs.push(Doc { start: Start::Chunked, bytes: b"3;a\r\nabcX".to_vec() });
    docs.push(Doc { start: Start::Url(6), bytes: b"a=%4z;".to_vec() });
    let lengths = Doc { start: Start::Multipart(b"ab"), bytes: b"--ab\r\nA: b\r\n\r\n--\r\n--ab\r\n\r\n\r\n\r\n--ab--".to_vec() };
    docs.push(lengths);
    let first = docs.len();
    use crate::docs as f;
    for family in [f::request_lines, f::response_lines, f::header_blocks, f::chunked, f::multipart, f::url, f::h2] {
        docs.extend(family(run.thorough));
    }
    let mut cases: Vec<(usize, Vec<usize>)> = Vec::new();
    for (i, d) in docs.iter().enumerate() {
        let n = d.bytes.len();
        for a in 0..=n {
            cases.push((i, vec![a]));
            if i < first {
                for b in a..=n {
                    cases.push((i, vec![a, b]));
                }
            }
        }
        // byte by byte
        cases.push((i, (1..n).collect()));
    }
    let runs = AtomicU64::new(0);
    crate::numeric::par(run, "handlers with one callback, the part length only or nothing", cases.len() as u64, |cx, c| {
        let (i, cuts) = &cases[c as usize];
        let d = &docs[*i];
        let shown = |s: &Shown| format!("{:?} {:?}", s.0, s.1);
        let hist: Vec<Op> = slices(&d.bytes, cuts).iter().map(|s| Op::Feed(d.bytes[s.0..s.1].to_vec(), NONE)).collect();
        let h2 = d.start == Start::H2;
        let fail = |what: String, full: &Shown, part: &Shown| {
            let text = format!("a handler that implements only {} is served differently from one that implements everything\n  {}\n  everything: {}\n  only that: {}\n  violates: H02",
                               what, show_ops(d.start, &hist), shown(full), shown(part));
            if run.mask & H02 != 0 {
                run.violate(&text, &show_ops(d.start, &hist));
            } else {
                run.other(H02, &text);
            }
        };
        with_context(run, d.start, Box::new(|| hist.clone()), || {
            for k in if h2 { KINDS2 } else { KINDS1 } {
                for stop in [false, true] {
                    let h = All { kind: *k, l: Log { log: vec![], stop } };
                    let full = if h2 { drive2(cx, h, d.start, &d.bytes, cuts) } else { drive1(cx, h, d.start, &d.bytes, cuts) };
                    let part = only(cx, *k, stop, d.start, &d.bytes, cuts);
                    runs.fetch_add(2, Ordering::Relaxed);
                    if full != part {
                        fail(format!("{}{}", kind_name(*k), if stop { " and answers false" } else { "" }), &full, &part);
                        return;
                    }
                    if !stop {
                        let none = if h2 { drive2(cx, Nothing::default(), d.start, &d.bytes, cuts) } else { drive1(cx, Nothing::default(), d.start, &d.bytes, cuts) };
                        runs.fetch_add(1, Ordering::Relaxed);
                        if none.0 != full.0 {
                            fail("nothing".into(), &full, &none);
                            return;
                        }
                    }
                }
            }
            if let Start::Multipart(_) = d.start {
                let full = drive1(cx, LengthAll::default(), d.start, &d.bytes, cuts);
                let part = drive1(cx, Length::default(), d.start, &d.bytes, cuts);
                runs.fetch_add(2, Ordering::Relaxed);
                if full != part {
                    fail("the part length".into(), &full, &part);
                }
            }
        });
    });
    let rest = AtomicU64::new(0);
    let mut all: Vec<Doc> = Vec::new();
    for m in ["request", "response", "headers", "chunked", "multipart", "url", "h2"] {
        all.extend(f::substituted(&f::bases(m), true));
    }
    let numbers = 65536u64 + 4096;
    crate::numeric::par(run, "all numbers and all bytes, handed to a handler that implements nothing", numbers + all.len() as u64, |cx, c| {
        let mut one = |d: &Doc| {
            let h2 = d.start == Start::H2;
            let hist = vec![Op::Feed(d.bytes.clone(), NONE)];
            with_context(run, d.start, Box::new(|| hist.clone()), || {
                let h = All { kind: if h2 { DATA } else { CHLEN }, l: Log { log: vec![], stop: false } };
                let full = if h2 { drive2(cx, h, d.start, &d.bytes, &[]) } else { drive1(cx, h, d.start, &d.bytes, &[]) };
                let none = if h2 { drive2(cx, Nothing::default(), d.start, &d.bytes, &[]) } else { drive1(cx, Nothing::default(), d.start, &d.bytes, &[]) };
                rest.fetch_add(2, Ordering::Relaxed);
                if none.0 != full.0 {
                    let text = format!("a handler that implements nothing is served differently from one that implements everything\n  {}\n  everything: {:?}\n  nothing: {:?}\n  violates: H02",
                                       show_ops(d.start, &hist), full.0, none.0);
                    if run.mask & H02 != 0 {
                        run.violate(&text, &show_ops(d.start, &hist));
                    } else {
                        run.other(H02, &text);
                    }
                }
            });
        };
        if c >= numbers {
            return one(&all[(c - numbers) as usize]);
        }
        for d in numbered(c) {
            one(&d);
        }
    });
    let n = runs.load(Ordering::Relaxed) + rest.load(Ordering::Relaxed);
    run.states.fetch_add(numbers + (cases.len() + all.len()) as u64, Ordering::Relaxed);
    run.space(format!("{} runs to the end of the stream, resumed after every interruption", n));
}
