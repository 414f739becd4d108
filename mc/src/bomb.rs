//! Callbacks that panic: the caller catches the panic, re-initialises the parser and uses it again. Every callback of
//! every document, under every cut in three slices, followed by every way of going on.

use crate::explore::*;
use crate::guard;
use crate::model::*;
use crate::numeric::par;
use crate::rec::NONE;
use crate::sess::*;
use crate::tok::*;
use http_box::fsm::Success;
use http_box::{http1, http2};
use std::sync::atomic::{AtomicU64, Ordering};

struct Bomb {
    hash: u64,
    /// Callbacks left until the one that panics.
    left: u64,
    declared: Option<usize>,
}

impl Bomb {
    fn new(left: u64) -> Bomb {
        Bomb { hash: 11, left, declared: None }
    }

    fn n(&mut self, x: u64) {
        self.hash = (self.hash ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
    }

    fn called(&mut self) {
        self.left = self.left.wrapping_sub(1);
        if self.left == 0 {
            panic!("callback");
        }
    }
}

trait Add {
    fn add(&self, s: &mut Bomb);
}
macro_rules! add {
    ($($t:ty),*) => { $(impl Add for $t { fn add(&self, s: &mut Bomb) { s.n(*self as u64) } })* };
}
add!(bool, u8, u16, u32, usize);
impl Add for &[u8] {
    fn add(&self, s: &mut Bomb) {
        s.n(self.len() as u64);
        for b in self.iter() {
            s.n(*b as u64);
        }
    }
}

macro_rules! handler {
    ($tr:path; $($f:ident($($a:ident: $t:ty),*) $k:ident;)* ; $($rest:item)*) => {
        impl $tr for Bomb {
            $($rest)*
            $(fn $f(&mut self, $($a: $t),*) -> bool {
                self.called();
                self.n($k as u64);
                $($a.add(self);)*
                true
            })*
        }
    };
}

handler! { http1::HttpHandler;
    on_body_finished() BODYFIN; on_chunk_begin() CHBEGIN; on_chunk_data(s: &[u8]) CDATA; on_chunk_extension_finished() XFIN;
    on_chunk_extension_name(s: &[u8]) XNAME; on_chunk_extension_value(s: &[u8]) XVAL; on_chunk_extensions_finished() XSFIN;
    on_chunk_length(n: usize) CHLEN; on_header_name(s: &[u8]) HNAME; on_header_value(s: &[u8]) HVAL; on_headers_finished() HDRFIN;
    on_initial_finished() INITFIN; on_method(s: &[u8]) METHOD; on_multipart_begin() MPBEGIN; on_multipart_data(s: &[u8]) MDATA;
    on_status(s: &[u8]) STATUS; on_status_code(c: u16) CODE; on_url(s: &[u8]) URL; on_url_encoded_begin() UBEGIN;
    on_url_encoded_name(s: &[u8]) UNAME; on_url_encoded_value(s: &[u8]) UVAL; on_version(a: u16, b: u16) VERSION; ;
    fn content_length(&mut self) -> Option<usize> { self.called(); self.declared }
}

handler! { http2::HttpHandler;
    on_data(s: &[u8], f: bool) DATA; on_frame_format(l: u32, t: u8, g: u8, i: u32) FRAME; on_go_away(i: u32, c: u32) GOAWAY;
    on_go_away_debug_data(s: &[u8], f: bool) DEBUG; on_headers(x: bool, i: u32, w: u8) HEADERS;
    on_headers_fragment(s: &[u8], f: bool) FRAG; on_ping(s: &[u8], f: bool) PING; on_priority(x: bool, i: u32, w: u8) PRIORITY;
    on_push_promise(i: u32) PUSH; on_rst_stream(c: u32) RST; on_settings(i: u16, v: u32) SETTING;
    on_unsupported(s: &[u8], f: bool) UNSUP; on_window_update(i: u32) WINDOW; ;
}

/// What the parser does with a document from here on. `Err` is a panic.
macro_rules! follow {
    ($p:expr, $bytes:expr, $cut:expr, $declared:expr) => {{
        let mut h = Bomb::new(0);
        h.declared = $declared;
        let base = $p.byte_count();
        h.n($p.state() as u64);
        let mut ok = true;
        for s in [&$bytes[..$cut], &$bytes[$cut..]] {
            match guard::call(s, NONE, || $p.resume(&mut h, s)) {
                Err(()) => {
                    ok = false;
                    break;
                }
                Ok(Ok(Success::Eos(n))) => h.n(2 + 4 * n as u64),
                Ok(Ok(Success::Finished(n))) => {
                    h.n(3 + 4 * n as u64);
                    break;
                }
                Ok(Ok(Success::Callback(n))) => h.n(1 + 4 * n as u64),
                Ok(Err(e)) => {
                    for b in format!("{:?}", e).bytes() {
                        h.n(b as u64);
                    }
                    break;
                }
            }
            h.n($p.byte_count().wrapping_sub(base) as u64);
            h.n($p.state() as u64);
        }
        if ok { Ok(h.hash) } else { Err(()) }
    }};
}

/// Feeds until the panic. False if there was none.
macro_rules! explode {
    ($p:expr, $bytes:expr, $cuts:expr, $k:expr, $declared:expr) => {{
        let mut h = Bomb::new($k);
        h.declared = $declared;
        let mut at = 0;
        let mut hit = false;
        for c in $cuts.iter().cloned().chain([$bytes.len()]) {
            let s = &$bytes[at..c];
            at = c;
            match guard::call(s, NONE, || $p.resume(&mut h, s)) {
                Err(()) => {
                    hit = true;
                    break;
                }
                Ok(Ok(Success::Eos(_))) => (),
                _ => break,
            }
        }
        hit
    }};
}

type P1 = http1::Parser<'static, Bomb>;
type P2 = http2::Parser<'static, Bomb>;

fn set(p: &mut P1, s: Start, again: bool) {
    match s {
        Start::Chunked if !again => p.init_chunked(),
        Start::Multipart(_) if !again => p.init_multipart(),
        Start::Url(_) if !again => p.init_url_encoded(),
        _ if !again => p.init_head(),
        _ => p.reset(),
    }
    match s {
        Start::Multipart(b) => p.set_boundary(b),
        Start::Url(n) => p.set_length(n),
        _ => (),
    }
}

pub fn bombs(run: &Run) {
    let mut docs: Vec<(Start, Vec<u8>, Option<usize>)> = Vec::new();
    for m in ["request", "response", "headers", "chunked", "multipart", "declared", "url", "h2"] {
        for d in crate::docs::bases(m) {
            docs.push((d.start, d.bytes.clone(), None));
            if m == "declared" {
                docs.push((d.start, d.bytes, Some(4)));
            }
        }
    }
    docs.push((Start::Multipart(b"ab"), b"--ab\r\nA: 4\r\n\r\n1234\r\n--ab\r\n\r\n5678\r\n--ab--".to_vec(), Some(4)));
    for v in crate::chains::sides() {
        for (s, b) in v {
            docs.push((s, b, None));
        }
    }
    // how to go on: a document of every mode, two cuts each
    let mut next: Vec<(Start, Vec<u8>, Option<usize>)> = [(Start::Head, &b"\r\nGET /a HTTP/1.1\r\nA: \"b\"\r\n\r\n"[..], None), (Start::Head, b"HTTP/1.1 200 OK\r\n\r\n", None),
        (Start::Chunked, b"2;a=\"b\"\r\nxy\r\n0\r\nT: t\r\n\r\n", None), (Start::Multipart(b"cd"), b"--cd\r\nA: b\r\n\r\nx\r\n--c\r\n--cd--", None),
        (Start::Multipart(b"cd"), b"--cd\r\n\r\n12\r\n--cd--", Some(2)), (Start::Url(7), b"a=%41&bc", None)].iter().map(|(s, b, n)| (*s, b.to_vec(), *n)).collect();
    next.extend(docs.iter().filter(|d| d.0 == Start::H2).map(|d| (d.0, d.1.clone(), None)).take(if run.thorough { 20 } else { 4 }));
    let mut cases: Vec<(usize, Vec<usize>)> = Vec::new();
    for (i, d) in docs.iter().enumerate() {
        let n = d.1.len();
        cases.push((i, (1..n).collect()));
        for a in 0..=n {
            cases.push((i, vec![a]));
            cases.extend((a + 1..n).map(|b| (i, vec![a, b])));
        }
    }
    // what new parsers do before there has been any panic
    let wants: Vec<[Result<u64, ()>; 2]> = next.iter().map(|(s2, b2, n2)| [0, b2.len() / 2].map(|cut2| if *s2 == Start::H2 {
        let mut q: P2 = P2::new();
        follow!(q, b2, cut2, None)
    } else {
        let mut q: P1 = P1::new();
        set(&mut q, *s2, false);
        follow!(q, b2, cut2, *n2)
    })).collect();
    let explosions = AtomicU64::new(0);
    let follows = AtomicU64::new(0);
    par(run, "callbacks that panic: every callback, every cut in three, every way to go on", cases.len() as u64, |_, i| {
        let (i, cuts) = &cases[i as usize];
        let (start, bytes, declared) = &docs[*i];
        for k in 1.. {
            if run.stopped() {
                return;
            }
            let mut any = false;
            for ((s2, b2, n2), wants) in next.iter().zip(&wants).filter(|n| (n.0 .0 == Start::H2) == (*start == Start::H2)) {
                for (cut2, want) in [0, b2.len() / 2].into_iter().zip(wants) {
                    for again in [false, true] {
                        let got;
                        if *start == Start::H2 {
                            let mut p: P2 = P2::new();
                            if again || !explode!(p, bytes, cuts, k, None) {
                                continue;
                            }
                            p.reset();
                            got = follow!(p, b2, cut2, None);
                        } else {
                            if again && std::mem::discriminant(s2) != std::mem::discriminant(start) {
                                continue;
                            }
                            let mut p: P1 = P1::new();
                            set(&mut p, *start, false);
                            if !explode!(p, bytes, cuts, k, *declared) {
                                continue;
                            }
                            set(&mut p, *s2, again);
                            got = follow!(p, b2, cut2, *n2);
                        }
                        any = true;
                        follows.fetch_add(1, Ordering::Relaxed);
                        if got != *want && want.is_ok() {
                            let text = format!("{} \"{}\" cut at {:?}, the callback number {} panics; then {} and {} \"{}\" cut at {}: {}\n  violates: H04", show_start(*start), esc(bytes), cuts, k,
                                               if again { "reset" } else { "re-initialised" }, show_start(*s2), esc(b2), cut2,
                                               if got.is_err() { "panics" } else { "delivers something else than a new parser" });
                            if run.mask & H04 != 0 {
                                run.violate(&text, "bulk");
                            } else {
                                run.other(H04, &text);
                            }
                            return;
                        }
                    }
                }
            }
            if !any {
                break;
            }
            explosions.fetch_add(1, Ordering::Relaxed);
        }
    });
    let (e, f) = (explosions.load(Ordering::Relaxed), follows.load(Ordering::Relaxed));
    run.states.fetch_add(e, Ordering::Relaxed);
    run.transitions.fetch_add(f, Ordering::Relaxed);
    run.traces.fetch_add(f, Ordering::Relaxed);
    run.space(format!("{} panics in callbacks of {} documents, {} continuations", e, docs.len(), f));
}
