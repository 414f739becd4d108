//! Reference model of HTTP/1 head, chunked, multipart and URL encoded parsing. It consumes one byte at
//! a time and emits what the handler must have observed as soon as the bytes seen so far decide it.

use crate::model::*;
use crate::rec::declared;
use crate::tok::*;

pub const ERR_NAMES: [&str; 17] = [
    "ChunkExtensionName", "ChunkExtensionValue", "ChunkLength", "CrlfSequence", "Dead",
    "HeaderName", "HeaderValue", "ChunkLengthOverflow", "Method", "Multipart",
    "MultipartBoundary", "Status", "StatusCode", "Url", "UrlEncodedName", "UrlEncodedValue",
    "Version",
];
pub const X_XNAME: u8 = 0;
pub const X_XVAL: u8 = 1;
pub const X_CHLEN: u8 = 2;
pub const X_CRLF: u8 = 3;
pub const X_DEAD: u8 = 4;
pub const X_HNAME: u8 = 5;
pub const X_HVAL: u8 = 6;
pub const X_METHOD: u8 = 8;
pub const X_MPB: u8 = 10;
pub const X_STATUS: u8 = 11;
pub const X_CODE: u8 = 12;
pub const X_URL: u8 = 13;
pub const X_UNAME: u8 = 14;
pub const X_UVAL: u8 = 15;
pub const X_VERSION: u8 = 16;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum S {
    Strip, NoStrip, Det, Method, Url0, Url, ReqHttp, Maj, Min, Code, Reason0, Reason, InitLf,
    HStart, HLf2, HName, HStripV, HVal, HQuote, HEsc, HLf1,
    ChLen0, ChLen, ExtStrip, ExtName, EvStrip, EvVal, EvQuote, EvEsc, ChLf, ChData, ChDCr, ChDLf,
    MpInit, MpAfter, MpEnd, MpData, MpLen, MpLenB,
    UName0, UName, UNh1, UNh2, UVal, UVh1, UVh2,
    End,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Mode { Head, Chunked, Multipart, Url }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct H1 {
    pub mode: Mode,
    pub st: S,
    pub status: Status,
    deferred: bool,
    /// Remaining bytes of a counted element, or the chunk length read so far.
    pub n: u64,
    a: u16,
    b: u16,
    digits: u8,
    idx: u16,
    esc: u8,
    resp: bool,
    hdr: bool,
    clv: u8,
    /// A part with a declared length has been seen.
    pub decl: bool,
    pub boundary: &'static [u8],
}

fn ev(out: &mut Vec<MTok>, k: u8, a: u32, b: u64) {
    out.push(MTok { t: e(k, a, b), inplace: false });
}

fn dat(out: &mut Vec<MTok>, k: u8, b: u8) {
    out.push(MTok { t: d(k, b), inplace: true });
}

fn copy(out: &mut Vec<MTok>, k: u8, b: u8) {
    out.push(MTok { t: d(k, b), inplace: false });
}

impl H1 {
    fn err(&mut self, k: u8, b: u8) {
        self.status = Status::Err(k, b);
    }

    fn go(&mut self, s: S) {
        self.st = s;
    }

    fn version(&mut self, out: &mut Vec<MTok>) {
        ev(out, VERSION, self.a as u32, self.b as u64);
        self.a = 0;
        self.b = 0;
        self.digits = 0;
    }

    fn finish(&mut self, out: &mut Vec<MTok>) {
        ev(out, BODYFIN, 0, 0);
        self.st = S::End;
        self.status = Status::Done;
    }

    fn headers_done(&mut self, out: &mut Vec<MTok>) {
        ev(out, HDRFIN, 0, 0);
        self.hdr = false;
        match self.mode {
            Mode::Head | Mode::Url => {
                self.st = S::End;
                self.status = Status::Done;
            }
            Mode::Chunked => self.finish(out),
            Mode::Multipart => {
                self.idx = 0;
                if let Some(n) = declared(self.clv) {
                    self.n = n as u64;
                    self.decl = true;
                    self.st = if n == 0 { S::MpLenB } else { S::MpLen };
                } else {
                    self.st = S::MpData;
                }
                self.clv = 0;
            }
        }
    }

    fn hval(&mut self, out: &mut Vec<MTok>, b: u8) {
        dat(out, HVAL, b);
        if self.mode == Mode::Multipart {
            self.clv = if declared(b).is_some() { b } else { 1 };
        }
    }

    fn delim(&self, i: usize) -> Option<u8> {
        if i < 4 { Some(b"\r\n--"[i]) } else { self.boundary.get(i - 4).copied() }
    }

    /// One byte of the URL encoded body, without the end-of-body rule.
    fn url_step(&mut self, b: u8, out: &mut Vec<MTok>) {
        loop {
            match self.st {
                S::UName0 => {
                    ev(out, UBEGIN, 0, 0);
                    self.go(S::UName);
                    continue;
                }
                S::UName => match b {
                    b'%' => self.go(S::UNh1),
                    b'+' => copy(out, UNAME, b' '),
                    b'=' => self.go(S::UVal),
                    b'&' | b';' => self.go(S::UName0),
                    _ if is_visible(b) => dat(out, UNAME, b),
                    _ => self.err(X_UNAME, b),
                },
                S::UVal => match b {
                    b'%' => self.go(S::UVh1),
                    b'+' => copy(out, UVAL, b' '),
                    b'&' | b';' => self.go(S::UName0),
                    _ if is_visible(b) => dat(out, UVAL, b),
                    _ => self.err(X_UVAL, b),
                },
                S::UNh1 | S::UVh1 => match hexv(b) {
                    Some(h) => {
                        self.esc = h;
                        self.go(if self.st == S::UNh1 { S::UNh2 } else { S::UVh2 });
                    }
                    None => {
                        let k = if self.st == S::UNh1 { X_UNAME } else { X_UVAL };
                        self.err(k, b)
                    }
                },
                S::UNh2 | S::UVh2 => {
                    let name = self.st == S::UNh2;
                    match hexv(b) {
                        Some(h) => {
                            let v = self.esc << 4 | h;
                            // kept only to bound the exploration
                            self.a = v as u16;
                            self.esc = 0;
                            copy(out, if name { UNAME } else { UVAL }, v);
                            self.go(if name { S::UName } else { S::UVal });
                        }
                        None => self.err(if name { X_UNAME } else { X_UVAL }, b),
                    }
                }
                _ => unreachable!(),
            }
            return;
        }
    }
}

impl Model for H1 {
    fn new(start: Start, v: Variant) -> H1 {
        let (mode, st, n, bd): (Mode, S, u64, &'static [u8]) = match start {
            Start::New => {
                (Mode::Head, if v.new_nostrip { S::NoStrip } else { S::Strip }, 0, b"")
            }
            Start::Head => (Mode::Head, S::Strip, 0, b""),
            Start::Chunked => (Mode::Chunked, S::ChLen0, 0, b""),
            Start::Multipart(b) => (Mode::Multipart, S::MpInit, 0, b),
            Start::Url(n) => (Mode::Url, S::UName0, n as u64, b""),
            Start::H2 => unreachable!(),
        };
        H1 {
            mode, st, n, boundary: bd, status: Status::Run, deferred: false, a: 0, b: 0, digits: 0,
            idx: 0, esc: 0, resp: false, hdr: false, clv: 0, decl: false,
        }
    }

    fn begin(&mut self, out: &mut Vec<MTok>) {
        if self.mode == Mode::Url && self.n == 0 {
            self.finish(out);
        }
    }

    fn step(&mut self, b: u8, out: &mut Vec<MTok>) {
        if self.mode == Mode::Url {
            self.n -= 1;
            self.url_step(b, out);
            if self.status == Status::Run && self.n == 0 {
                match self.st {
                    S::UNh1 | S::UNh2 => {
                        self.deferred = true;
                        self.err(X_UNAME, b'%')
                    }
                    S::UVh1 | S::UVh2 => {
                        self.deferred = true;
                        self.err(X_UVAL, b'%')
                    }
                    _ => self.finish(out),
                }
            }
            return;
        }
        loop {
            match self.st {
                S::Strip => {
                    if !b"\r\n\t ".contains(&b) {
                        self.go(S::NoStrip);
                        continue;
                    }
                }
                S::NoStrip => {
                    if b == b'H' {
                        self.idx = 1;
                        self.go(S::Det);
                    } else if b.is_ascii_uppercase() {
                        copy(out, METHOD, b);
                        self.go(S::Method);
                    } else {
                        self.err(X_METHOD, b);
                    }
                }
                S::Det => {
                    let i = self.idx as usize;
                    if b == b"HTTP/"[i] {
                        self.idx += 1;
                        if self.idx == 5 {
                            self.idx = 0;
                            self.resp = true;
                            self.go(S::Maj);
                        }
                    } else if b == b' ' || b.is_ascii_uppercase() {
                        for x in &b"HTTP"[..i] {
                            copy(out, METHOD, *x);
                        }
                        self.idx = 0;
                        self.go(S::Method);
                        continue;
                    } else {
                        self.err(X_METHOD, b);
                    }
                }
                S::Method => {
                    if b == b' ' {
                        self.go(S::Url0);
                    } else if b.is_ascii_uppercase() {
                        copy(out, METHOD, b);
                    } else {
                        self.err(X_METHOD, b);
                    }
                }
                S::Url0 | S::Url => {
                    if is_visible(b) {
                        dat(out, URL, b);
                        self.go(S::Url);
                    } else if b == b' ' && self.st == S::Url {
                        self.go(S::ReqHttp);
                    } else {
                        self.err(X_URL, b);
                    }
                }
                S::ReqHttp => {
                    if b == b"HTTP/"[self.idx as usize] {
                        self.idx += 1;
                        if self.idx == 5 {
                            self.idx = 0;
                            self.go(S::Maj);
                        }
                    } else {
                        self.err(X_VERSION, b);
                    }
                }
                S::Maj => {
                    if b.is_ascii_digit() && self.digits < 3 {
                        self.a = self.a * 10 + (b - b'0') as u16;
                        self.digits += 1;
                    } else if b == b'.' && self.digits > 0 {
                        self.digits = 0;
                        self.go(S::Min);
                    } else {
                        self.err(X_VERSION, b);
                    }
                }
                S::Min => {
                    let end = if self.resp { b' ' } else { b'\r' };
                    if b.is_ascii_digit() && self.digits < 3 {
                        self.b = self.b * 10 + (b - b'0') as u16;
                        self.digits += 1;
                    } else if b == end && self.digits > 0 {
                        self.version(out);
                        if self.resp {
                            self.go(S::Code);
                        } else {
                            ev(out, INITFIN, 0, 0);
                            self.go(S::InitLf);
                        }
                    } else {
                        self.err(X_VERSION, b);
                    }
                }
                S::Code => {
                    if b.is_ascii_digit() && self.digits < 3 {
                        self.a = self.a * 10 + (b - b'0') as u16;
                        self.digits += 1;
                    } else if b == b' ' && self.digits == 3 {
                        ev(out, CODE, self.a as u32, 0);
                        self.a = 0;
                        self.digits = 0;
                        self.go(S::Reason0);
                    } else {
                        self.err(X_CODE, b);
                    }
                }
                S::Reason0 | S::Reason => {
                    if b > 0x1f && b != 0x7f {
                        dat(out, STATUS, b);
                        self.go(S::Reason);
                    } else if b == b'\r' && self.st == S::Reason {
                        ev(out, INITFIN, 0, 0);
                        self.go(S::InitLf);
                    } else {
                        self.err(X_STATUS, b);
                    }
                }
                S::InitLf => {
                    if b == b'\n' { self.go(S::HStart) } else { self.err(X_CRLF, b) }
                }
                S::HStart => {
                    if b == b'\r' {
                        self.go(S::HLf2);
                    } else if self.hdr && (b == b' ' || b == b'\t') {
                        self.go(S::HVal);
                    } else if is_token(b) {
                        self.hdr = true;
                        self.go(S::HName);
                        continue;
                    } else {
                        self.err(X_HNAME, b);
                    }
                }
                S::HLf2 => {
                    if b == b'\n' { self.headers_done(out) } else { self.err(X_CRLF, b) }
                }
                S::HName => {
                    if b == b':' {
                        self.go(S::HStripV);
                    } else if b.is_ascii_uppercase() {
                        copy(out, HNAME, b + 0x20);
                    } else if is_token(b) {
                        // known names come from a table, so they need not be in place
                        copy(out, HNAME, b);
                    } else {
                        self.err(X_HNAME, b);
                    }
                }
                S::HStripV => {
                    if b != b' ' && b != b'\t' {
                        if is_visible(b) {
                            self.go(S::HVal);
                            continue;
                        }
                        self.err(X_HVAL, b);
                    }
                }
                S::HVal => {
                    if b == b'\r' {
                        self.go(S::HLf1);
                    } else if b == b'"' {
                        self.hval(out, b);
                        self.go(S::HQuote);
                    } else if is_field(b) {
                        self.hval(out, b);
                    } else {
                        self.err(X_HVAL, b);
                    }
                }
                S::HQuote => {
                    if b == b'"' {
                        self.hval(out, b);
                        self.go(S::HVal);
                    } else if b == b'\\' {
                        self.hval(out, b);
                        self.go(S::HEsc);
                    } else if is_quoted_field(b) {
                        self.hval(out, b);
                    } else {
                        self.err(X_HVAL, b);
                    }
                }
                S::HEsc => {
                    if is_escapable(b) {
                        self.hval(out, b);
                        self.go(S::HQuote);
                    } else {
                        self.err(X_HVAL, b);
                    }
                }
                S::HLf1 => {
                    if b == b'\n' { self.go(S::HStart) } else { self.err(X_CRLF, b) }
                }

                // chunked
                S::ChLen0 => match hexv(b) {
                    Some(h) => {
                        ev(out, CHBEGIN, 0, 0);
                        self.n = h as u64;
                        self.digits = if h == 0 { 8 } else { 1 };
                        self.go(S::ChLen);
                    }
                    None => self.err(X_CHLEN, b),
                },
                S::ChLen => match hexv(b) {
                    Some(h) if self.digits < 8 => {
                        self.n = self.n << 4 | h as u64;
                        self.digits += 1;
                    }
                    _ if b == b'\r' => {
                        ev(out, CHLEN, 0, self.n);
                        if self.n > 0 {
                            ev(out, XSFIN, 0, 0);
                        }
                        self.digits = 0;
                        self.go(S::ChLf);
                    }
                    _ if b == b';' => {
                        ev(out, CHLEN, 0, self.n);
                        self.digits = 0;
                        self.go(S::ExtStrip);
                    }
                    _ => self.err(X_CHLEN, b),
                },
                S::ExtStrip => {
                    if b != b' ' && b != b'\t' {
                        if is_visible(b) {
                            self.go(S::ExtName);
                            continue;
                        }
                        self.err(X_XNAME, b);
                    }
                }
                S::ExtName => {
                    if b == b'=' {
                        self.go(S::EvStrip);
                    } else if b == b'\r' {
                        ev(out, XFIN, 0, 0);
                        ev(out, XSFIN, 0, 0);
                        self.go(S::ChLf);
                    } else if b == b';' {
                        ev(out, XFIN, 0, 0);
                        self.go(S::ExtStrip);
                    } else if b.is_ascii_uppercase() {
                        copy(out, XNAME, b + 0x20);
                    } else if is_token(b) {
                        dat(out, XNAME, b);
                    } else {
                        self.err(X_XNAME, b);
                    }
                }
                S::EvStrip => {
                    if b != b' ' && b != b'\t' {
                        if is_visible(b) {
                            self.go(S::EvVal);
                            continue;
                        }
                        self.err(X_XVAL, b);
                    }
                }
                S::EvVal => {
                    if b == b'\r' {
                        ev(out, XFIN, 0, 0);
                        ev(out, XSFIN, 0, 0);
                        self.go(S::ChLf);
                    } else if b == b';' {
                        ev(out, XFIN, 0, 0);
                        self.go(S::ExtStrip);
                    } else if b == b'"' {
                        self.go(S::EvQuote);
                    } else if is_field(b) {
                        dat(out, XVAL, b);
                    } else {
                        self.err(X_XVAL, b);
                    }
                }
                S::EvQuote => {
                    if b == b'"' {
                        self.go(S::EvVal);
                    } else if b == b'\\' {
                        self.go(S::EvEsc);
                    } else if is_quoted_field(b) {
                        dat(out, XVAL, b);
                    } else {
                        self.err(X_XVAL, b);
                    }
                }
                S::EvEsc => {
                    if is_escapable(b) {
                        copy(out, XVAL, b);
                        self.go(S::EvQuote);
                    } else {
                        self.err(X_XVAL, b);
                    }
                }
                S::ChLf => {
                    if b == b'\n' {
                        self.go(if self.n == 0 { S::HStart } else { S::ChData });
                    } else {
                        self.err(X_CRLF, b);
                    }
                }
                S::ChData => {
                    dat(out, CDATA, b);
                    self.n -= 1;
                    if self.n == 0 {
                        self.go(S::ChDCr);
                    }
                }
                S::ChDCr => {
                    if b == b'\r' { self.go(S::ChDLf) } else { self.err(X_CRLF, b) }
                }
                S::ChDLf => {
                    if b == b'\n' { self.go(S::ChLen0) } else { self.err(X_CRLF, b) }
                }

                // multipart
                S::MpInit | S::MpLenB => {
                    // MpInit starts without the line break
                    let skip = if self.st == S::MpInit { 2 } else { 0 };
                    if Some(b) == self.delim(self.idx as usize + skip) {
                        self.idx += 1;
                        if self.delim(self.idx as usize + skip).is_none() {
                            self.idx = 0;
                            self.go(S::MpAfter);
                        }
                    } else {
                        self.err(X_MPB, b);
                    }
                }
                S::MpAfter => {
                    if b == b'\r' {
                        ev(out, MPBEGIN, 0, 0);
                        self.clv = 0;
                        self.go(S::InitLf);
                    } else if b == b'-' {
                        self.go(S::MpEnd);
                    } else {
                        self.err(X_MPB, b);
                    }
                }
                S::MpEnd => {
                    if b == b'-' { self.finish(out) } else { self.err(X_MPB, b) }
                }
                S::MpData => {
                    if Some(b) == self.delim(self.idx as usize) {
                        self.idx += 1;
                        if self.delim(self.idx as usize).is_none() {
                            self.idx = 0;
                            self.go(S::MpAfter);
                        }
                    } else if self.idx > 0 {
                        for i in 0..self.idx as usize {
                            copy(out, MDATA, self.delim(i).unwrap());
                        }
                        self.idx = 0;
                        continue;
                    } else {
                        dat(out, MDATA, b);
                    }
                }
                S::MpLen => {
                    dat(out, MDATA, b);
                    self.n -= 1;
                    if self.n == 0 {
                        self.go(S::MpLenB);
                    }
                }
                S::UName0 | S::UName | S::UNh1 | S::UNh2 | S::UVal | S::UVh1 | S::UVh2 | S::End => {
                    unreachable!()
                }
            }
            // the initial line of a multipart part is only its line break
            return;
        }
    }

    fn status(&self) -> Status {
        self.status
    }

    fn set_status(&mut self, s: Status) {
        self.status = s;
    }

    fn deferred(&self) -> bool {
        self.deferred
    }

    fn keep(&self, l: &Limits) -> bool {
        let dec = |v: u16, set: &[u8]| {
            let mut v = v;
            loop {
                if !set.contains(&((v % 10) as u8)) {
                    return false;
                }
                v /= 10;
                if v == 0 {
                    return true;
                }
            }
        };
        if l.only != 0 && self.region() & l.only == 0 {
            return false;
        }
        match self.st {
            S::Maj => self.digits == 0 || dec(self.a, &l.ver),
            S::Min => dec(self.a, &l.ver) && (self.digits == 0 || dec(self.b, &l.ver)),
            S::Code => self.digits == 0 || dec(self.a, &l.code),
            S::ChLen => {
                let mut n = self.n;
                while n > 0 {
                    if !l.hex.contains(&((n & 15) as u8)) && self.n > l.max_n {
                        return false;
                    }
                    n >>= 4;
                }
                true
            }
            S::ExtStrip | S::ExtName | S::EvStrip | S::EvVal | S::EvQuote | S::EvEsc | S::ChLf
            | S::ChData | S::MpLen => self.n <= l.max_n,
            S::UNh2 | S::UVh2 => l.esc.iter().any(|e| e >> 4 == self.esc),
            S::UName0 | S::UName | S::UNh1 | S::UVal | S::UVh1 => {
                self.a == 0 || l.esc.contains(&(self.a as u8))
            }
            _ => true,
        }
    }

    fn region(&self) -> u64 {
        let h = match self.mode {
            Mode::Chunked => B03 | B05,
            _ => B03,
        };
        let mp = if self.decl { B06 | B07 } else { B06 };
        match self.st {
            S::Strip | S::NoStrip | S::Det => B01 | B02,
            S::Method | S::Url0 | S::Url | S::ReqHttp => B01,
            S::Maj | S::Min => if self.resp { B02 } else { B01 },
            S::Code | S::Reason0 | S::Reason => B02,
            S::InitLf => match self.mode {
                Mode::Multipart => mp,
                _ => if self.resp { B02 } else { B01 },
            },
            S::HStart | S::HName | S::HStripV | S::HVal | S::HQuote | S::HEsc | S::HLf1
            | S::HLf2 => h,
            S::ChLen0 | S::ChLen | S::ChData | S::ChDCr | S::ChDLf => B04,
            S::ChLf => B04 | B05,
            S::ExtStrip | S::ExtName | S::EvStrip | S::EvVal | S::EvQuote | S::EvEsc => B05,
            S::MpInit | S::MpAfter | S::MpEnd | S::MpData => mp,
            S::MpLen | S::MpLenB => B07,
            S::UName0 | S::UName | S::UNh1 | S::UNh2 | S::UVal | S::UVh1 | S::UVh2 => B08,
            S::End => match self.mode {
                Mode::Head => B03,
                Mode::Chunked => B04 | B05,
                Mode::Multipart => mp,
                Mode::Url => B08,
            },
        }
    }

    fn tok_region(&self, t: &Tok) -> u64 {
        let mp = if self.decl { B06 | B07 } else { B06 };
        match t.k {
            METHOD | URL => B01,
            VERSION => if self.resp { B02 } else { B01 },
            STATUS | CODE => B02,
            INITFIN => if self.resp { B02 } else { B01 },
            HNAME | HVAL => if self.mode == Mode::Chunked { B03 | B05 } else { B03 },
            HDRFIN => match self.mode {
                Mode::Chunked => B03 | B05,
                Mode::Multipart => B03 | B06,
                _ => B03,
            },
            CHBEGIN | CHLEN | CDATA => B04,
            XNAME | XVAL | XFIN | XSFIN => B05,
            BODYFIN => match self.mode {
                Mode::Chunked => B04 | B05,
                Mode::Multipart => mp,
                _ => B08,
            },
            MPBEGIN => mp,
            MDATA => if self.st == S::MpLen || self.st == S::MpLenB { B07 } else { mp },
            UBEGIN | UNAME | UVAL => B08,
            _ => 0,
        }
    }

    fn name(&self) -> String {
        format!("{:?}/{:?}", self.mode, self.st)
    }

    fn partial_kind(&self) -> Option<u8> {
        match self.st {
            S::Det | S::Method => Some(METHOD),
            S::Url0 | S::Url => Some(URL),
            S::Reason0 | S::Reason => Some(STATUS),
            S::HName => Some(HNAME),
            S::HVal | S::HQuote | S::HEsc => Some(HVAL),
            S::ExtName => Some(XNAME),
            S::EvVal | S::EvQuote | S::EvEsc => Some(XVAL),
            S::UName | S::UNh1 | S::UNh2 => Some(UNAME),
            S::UVal | S::UVh1 | S::UVh2 => Some(UVAL),
            _ => None,
        }
    }
}
