//! The handler given to the real parsers. It records every callback and answers `false` to exactly
//! one chosen callback of a call (or to none).

use crate::tok::*;

pub const NONE: u32 = u32::MAX;

/// Outside of any part; within the header fields of one; after them; after the question.
const OUTSIDE: u8 = 0;
const IN_HEADERS: u8 = 1;
const DUE: u8 = 2;
const ASKED: u8 = 3;

pub struct Rec {
    pub toks: Vec<Tok>,
    /// Offset of each token's byte within the caller's buffer, NONE when it is not in it.
    pub pos: Vec<u32>,
    /// Number of tokens before each callback.
    pub cbs: Vec<u32>,
    pub ncb: u32,
    /// Index of the callback to answer with false.
    pub at: u32,
    pub stopped: bool,
    /// A callback was made after one that answered false.
    pub after: bool,
    pub base: usize,
    pub len: usize,
    pub cap: u32,
    pub flood: bool,
    /// Last header value byte of the current part decides the declared length (see `declared`).
    pub clv: u8,
    pub cl_override: Option<usize>,
    /// Where the question for the length of the current part stands.
    pub ask: u8,
    /// The question was asked at a wrong time, twice, or not at all.
    pub ask_bad: Option<&'static str>,
    /// In bulk mode data is recorded as slices only.
    pub bulk: bool,
    pub bulks: Vec<(u8, u32, usize, usize)>,
    /// What is to happen within the callback of this index.
    pub within: Option<(u32, Within)>,
}

/// A function that is called within a callback.
pub struct Within(pub *mut dyn FnMut());

/// The length the handler declares for a multipart part whose last header value byte is `clv`.
pub fn declared(clv: u8) -> Option<usize> {
    if clv >= b'0' && clv <= b'9' {
        Some((clv - b'0') as usize)
    } else {
        None
    }
}

impl Rec {
    pub fn new() -> Rec {
        Rec {
            toks: Vec::with_capacity(64),
            pos: Vec::with_capacity(64),
            cbs: Vec::with_capacity(64),
            ncb: 0,
            at: NONE,
            stopped: false,
            after: false,
            base: 0,
            len: 0,
            cap: NONE,
            flood: false,
            clv: 0,
            cl_override: None,
            ask: OUTSIDE,
            ask_bad: None,
            bulk: false,
            bulks: Vec::new(),
            within: None,
        }
    }

    pub fn start(&mut self, base: *const u8, len: usize, at: u32, clv: u8) {
        self.toks.clear();
        self.pos.clear();
        self.cbs.clear();
        self.bulks.clear();
        self.ncb = 0;
        self.at = at;
        self.stopped = false;
        self.after = false;
        self.flood = false;
        self.base = base as usize;
        self.len = len;
        self.cap = len.saturating_mul(6).saturating_add(64).min(NONE as usize - 1) as u32;
        self.clv = clv & 0x3f;
        self.ask = clv >> 6;
        self.ask_bad = None;
    }

    /// What the handler remembers from one call to the next.
    pub fn carry(&self) -> u8 {
        (if declared(self.clv).is_some() { self.clv } else { 0 }) | self.ask << 6
    }

    fn asked(&mut self) {
        if self.ask == DUE {
            self.ask = ASKED;
        } else if self.ask_bad.is_none() {
            self.ask_bad = Some(match self.ask {
                OUTSIDE => "the length of a part is asked for where there is none",
                IN_HEADERS => "the length of a part is asked for before the end of its header fields",
                _ => "the length of a part is asked for twice",
            });
        }
    }

    fn answered(&mut self) {
        if self.ask == DUE && self.ask_bad.is_none() {
            self.ask_bad = Some("the length of a part is not asked for");
        }
    }

    #[inline]
    fn ret(&mut self) -> bool {
        let i = self.ncb;
        self.ncb += 1;
        if self.stopped {
            self.after = true;
        }
        if self.ncb > self.cap {
            self.flood = true;
            panic!("callback flood");
        }
        if let Some((k, f)) = &self.within {
            if *k == i {
                unsafe { (*f.0)() }
            }
        }
        if i == self.at {
            self.stopped = true;
            return false;
        }
        true
    }

    #[inline]
    fn data(&mut self, k: u8, s: &[u8]) -> bool {
        self.cbs.push(self.toks.len() as u32);
        let p = s.as_ptr() as usize;
        if self.bulk {
            self.bulks.push((k, self.toks.len() as u32, p.wrapping_sub(self.base), s.len()));
        } else {
            let inside = p >= self.base && p + s.len() <= self.base + self.len;
            for (i, b) in s.iter().enumerate() {
                self.toks.push(d(k, *b));
                self.pos.push(if inside { (p - self.base + i) as u32 } else { NONE });
            }
        }
        if k == MDATA {
            self.answered();
        }
        if k == HVAL {
            if let Some(b) = s.last() {
                self.clv = *b;
            }
        }
        let r = self.ret();
        self.same(k, s);
        r
    }

    /// After something else was done within the callback its data has to be what it was.
    #[inline]
    fn same(&mut self, k: u8, s: &[u8]) {
        if self.within.is_some() && !self.bulk {
            let from = self.cbs.last().map_or(0, |c| *c as usize);
            let old: Vec<u8> = self.toks[from..].iter().filter(|t| t.k == k).map(|t| t.a as u8).collect();
            if old != s {
                self.toks.push(e(CHANGED, k as u32, 0));
                self.pos.push(NONE);
            }
        }
    }

    #[inline]
    fn ev(&mut self, k: u8, a: u32, b: u64) -> bool {
        self.cbs.push(self.toks.len() as u32);
        self.toks.push(e(k, a, b));
        self.pos.push(NONE);
        if k == MPBEGIN {
            self.answered();
            self.clv = 0;
            self.ask = IN_HEADERS;
        } else if k == HDRFIN && self.ask == IN_HEADERS {
            self.ask = DUE;
        } else if k == BODYFIN {
            self.answered();
            self.ask = OUTSIDE;
        }
        self.ret()
    }

    #[inline]
    fn pay(&mut self, k: u8, s: &[u8], fin: bool) -> bool {
        self.cbs.push(self.toks.len() as u32);
        let p = s.as_ptr() as usize;
        if self.bulk {
            self.bulks.push((k, self.toks.len() as u32, p.wrapping_sub(self.base), s.len()));
        } else {
            let inside = p >= self.base && p + s.len() <= self.base + self.len;
            for (i, b) in s.iter().enumerate() {
                self.toks.push(d(k, *b));
                self.pos.push(if inside { (p - self.base + i) as u32 } else { NONE });
            }
        }
        if fin {
            self.toks.push(e(PEND, k as u32, 0));
            self.pos.push(NONE);
        }
        let r = self.ret();
        self.same(k, s);
        r
    }
}

impl http_box::http1::HttpHandler for Rec {
    fn content_length(&mut self) -> Option<usize> {
        self.asked();
        if self.cl_override.is_some() {
            return self.cl_override;
        }
        declared(self.clv)
    }
    fn on_body_finished(&mut self) -> bool { self.ev(BODYFIN, 0, 0) }
    fn on_chunk_begin(&mut self) -> bool { self.ev(CHBEGIN, 0, 0) }
    fn on_chunk_data(&mut self, s: &[u8]) -> bool { self.data(CDATA, s) }
    fn on_chunk_extension_finished(&mut self) -> bool { self.ev(XFIN, 0, 0) }
    fn on_chunk_extension_name(&mut self, s: &[u8]) -> bool { self.data(XNAME, s) }
    fn on_chunk_extension_value(&mut self, s: &[u8]) -> bool { self.data(XVAL, s) }
    fn on_chunk_extensions_finished(&mut self) -> bool { self.ev(XSFIN, 0, 0) }
    fn on_chunk_length(&mut self, n: usize) -> bool { self.ev(CHLEN, 0, n as u64) }
    fn on_header_name(&mut self, s: &[u8]) -> bool { self.data(HNAME, s) }
    fn on_header_value(&mut self, s: &[u8]) -> bool { self.data(HVAL, s) }
    fn on_headers_finished(&mut self) -> bool { self.ev(HDRFIN, 0, 0) }
    fn on_initial_finished(&mut self) -> bool { self.ev(INITFIN, 0, 0) }
    fn on_method(&mut self, s: &[u8]) -> bool { self.data(METHOD, s) }
    fn on_multipart_begin(&mut self) -> bool { self.ev(MPBEGIN, 0, 0) }
    fn on_multipart_data(&mut self, s: &[u8]) -> bool { self.data(MDATA, s) }
    fn on_status(&mut self, s: &[u8]) -> bool { self.data(STATUS, s) }
    fn on_status_code(&mut self, c: u16) -> bool { self.ev(CODE, c as u32, 0) }
    fn on_url(&mut self, s: &[u8]) -> bool { self.data(URL, s) }
    fn on_url_encoded_begin(&mut self) -> bool { self.ev(UBEGIN, 0, 0) }
    fn on_url_encoded_name(&mut self, s: &[u8]) -> bool { self.data(UNAME, s) }
    fn on_url_encoded_value(&mut self, s: &[u8]) -> bool { self.data(UVAL, s) }
    fn on_version(&mut self, a: u16, b: u16) -> bool { self.ev(VERSION, a as u32, b as u64) }
}

impl http_box::http2::HttpHandler for Rec {
    fn on_data(&mut self, s: &[u8], f: bool) -> bool { self.pay(DATA, s, f) }
    fn on_frame_format(&mut self, l: u32, t: u8, f: u8, i: u32) -> bool {
        self.cbs.push(self.toks.len() as u32);
        self.toks.push(frame(l, t, f, i));
        self.pos.push(NONE);
        self.ret()
    }
    fn on_go_away(&mut self, i: u32, c: u32) -> bool { self.ev(GOAWAY, i, c as u64) }
    fn on_go_away_debug_data(&mut self, s: &[u8], f: bool) -> bool { self.pay(DEBUG, s, f) }
    fn on_headers(&mut self, x: bool, i: u32, w: u8) -> bool {
        self.ev(HEADERS, i, (x as u64) << 8 | w as u64)
    }
    fn on_headers_fragment(&mut self, s: &[u8], f: bool) -> bool { self.pay(FRAG, s, f) }
    fn on_ping(&mut self, s: &[u8], f: bool) -> bool { self.pay(PING, s, f) }
    fn on_priority(&mut self, x: bool, i: u32, w: u8) -> bool {
        self.ev(PRIORITY, i, (x as u64) << 8 | w as u64)
    }
    fn on_push_promise(&mut self, i: u32) -> bool { self.ev(PUSH, i, 0) }
    fn on_rst_stream(&mut self, c: u32) -> bool { self.ev(RST, c, 0) }
    fn on_settings(&mut self, i: u16, v: u32) -> bool { self.ev(SETTING, i as u32, v as u64) }
    fn on_unsupported(&mut self, s: &[u8], f: bool) -> bool { self.pay(UNSUP, s, f) }
    fn on_window_update(&mut self, i: u32) -> bool { self.ev(WINDOW, i, 0) }
}
