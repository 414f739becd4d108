//! One step of the product of a real parser and its reference model.

use crate::guard::{self, Guard};
use crate::model::*;
use crate::rec::{declared, Rec, NONE};
use crate::tok::*;
use http_box::fsm::Success;
use std::hash::{Hash, Hasher};
use std::mem::MaybeUninit;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Out {
    Cb(usize),
    Eos(usize),
    Fin(usize),
    Err(u8, u8),
    Panic,
}

pub trait Proto: Sized + Send + Sync + 'static {
    type M: Model;
    type P;
    fn make(start: Start) -> Self::P;
    /// Re-initialise. With `via_reset` only `reset()` is used, which keeps the mode.
    fn init(p: &mut Self::P, start: Start, via_reset: bool);
    fn resume(p: &mut Self::P, r: &mut Rec, s: &[u8]) -> Out;
    fn byte_count(p: &Self::P) -> usize;
    fn state(p: &Self::P) -> String;
    /// The reported state as a number, and whether it says that parsing has failed or finished.
    fn st(p: &Self::P) -> (u32, bool, bool);
    fn err_name(k: u8, b: u8) -> String;
    /// `reset()` also zeroes the running total.
    const RESET_ZEROES: bool;
    /// Property masks: segmentation, interruption, accounting, reset, crash, error, late.
    const SEG: u64;
    const INT: u64;
    const ACC: u64;
    const RST: u64;
    const CRASH: u64;
    const ERR: u64;
    const LATE: u64;
    const STATE: u64;
}

pub struct H1P;
pub struct H2P;

fn success(s: Success) -> Out {
    match s {
        Success::Callback(n) => Out::Cb(n),
        Success::Eos(n) => Out::Eos(n),
        Success::Finished(n) => Out::Fin(n),
    }
}

impl Proto for H1P {
    type M = crate::h1model::H1;
    type P = http_box::http1::Parser<'static, Rec>;

    fn make(start: Start) -> Self::P {
        let mut p = http_box::http1::Parser::new();
        if start != Start::New {
            Self::init(&mut p, start, false);
        }
        p
    }

    fn init(p: &mut Self::P, start: Start, via_reset: bool) {
        match start {
            Start::New | Start::Head => if via_reset { p.reset() } else { p.init_head() },
            Start::Chunked => if via_reset { p.reset() } else { p.init_chunked() },
            Start::Multipart(b) => {
                if via_reset { p.reset() } else { p.init_multipart() }
                p.set_boundary(b);
            }
            Start::Url(n) => {
                if via_reset { p.reset() } else { p.init_url_encoded() }
                // without a length, the body is empty
                if n > 0 {
                    p.set_length(n);
                }
            }
            Start::H2 => unreachable!(),
        }
    }

    fn resume(p: &mut Self::P, r: &mut Rec, s: &[u8]) -> Out {
        use http_box::http1::ParserError as E;
        match p.resume(r, s) {
            Ok(s) => success(s),
            Err(e) => {
                let (k, b) = match e {
                    E::ChunkExtensionName(b) => (0, b),
                    E::ChunkExtensionValue(b) => (1, b),
                    E::ChunkLength(b) => (2, b),
                    E::CrlfSequence(b) => (3, b),
                    E::Dead => (4, 0),
                    E::HeaderName(b) => (5, b),
                    E::HeaderValue(b) => (6, b),
                    E::ChunkLengthOverflow => (7, 0),
                    E::Method(b) => (8, b),
                    E::Multipart(b) => (9, b),
                    E::MultipartBoundary(b) => (10, b),
                    E::Status(b) => (11, b),
                    E::StatusCode(b) => (12, b),
                    E::Url(b) => (13, b),
                    E::UrlEncodedName(b) => (14, b),
                    E::UrlEncodedValue(b) => (15, b),
                    E::Version(b) => (16, b),
                };
                Out::Err(k, b)
            }
        }
    }

    fn byte_count(p: &Self::P) -> usize {
        p.byte_count()
    }

    fn state(p: &Self::P) -> String {
        format!("{:?}", p.state())
    }

    #[inline]
    fn st(p: &Self::P) -> (u32, bool, bool) {
        use http_box::http1::ParserState as S;
        let s = p.state();
        (s as u32, s == S::Dead, s == S::Finished)
    }

    fn err_name(k: u8, b: u8) -> String {
        match k {
            4 | 7 => crate::h1model::ERR_NAMES[k as usize].to_string(),
            _ => format!("{}({:#04x})", crate::h1model::ERR_NAMES[k as usize], b),
        }
    }

    const RESET_ZEROES: bool = false;
    const SEG: u64 = A01;
    const INT: u64 = A02;
    const ACC: u64 = A03;
    const RST: u64 = A04;
    const CRASH: u64 = A05;
    const ERR: u64 = A06;
    const LATE: u64 = A07;
    const STATE: u64 = A09;
}

impl Proto for H2P {
    type M = crate::h2model::H2;
    type P = http_box::http2::Parser<'static, Rec>;

    fn make(_: Start) -> Self::P {
        http_box::http2::Parser::new()
    }

    fn init(p: &mut Self::P, _: Start, _: bool) {
        p.reset();
    }

    fn resume(p: &mut Self::P, r: &mut Rec, s: &[u8]) -> Out {
        match p.resume(r, s) {
            Ok(s) => success(s),
            // the error type is not nameable from outside; its only meaning is "failed"
            Err(_) => Out::Err(4, 0),
        }
    }

    fn byte_count(p: &Self::P) -> usize {
        p.byte_count()
    }

    fn state(p: &Self::P) -> String {
        format!("{:?}", p.state())
    }

    #[inline]
    fn st(p: &Self::P) -> (u32, bool, bool) {
        use http_box::http2::ParserState as S;
        let s = p.state();
        (s as u32, s == S::Dead, false)
    }

    fn err_name(_: u8, _: u8) -> String {
        "error".to_string()
    }

    const RESET_ZEROES: bool = true;
    const SEG: u64 = E01;
    const INT: u64 = E02;
    const ACC: u64 = E08;
    const RST: u64 = E08;
    const CRASH: u64 = E06;
    const ERR: u64 = E06;
    const LATE: u64 = E07;
    const STATE: u64 = E10;
}

/// A parser that is cloned bit by bit. Only used for parsers that own nothing.
pub struct Raw<P>(MaybeUninit<P>);

impl<P> Raw<P> {
    pub fn new(p: P) -> Raw<P> {
        let mut m = MaybeUninit::<P>::zeroed();
        unsafe { m.as_mut_ptr().write(p) };
        Raw(m)
    }
    #[inline]
    pub fn get(&self) -> &P {
        unsafe { self.0.assume_init_ref() }
    }
    #[inline]
    pub fn get_mut(&mut self) -> &mut P {
        unsafe { self.0.assume_init_mut() }
    }
    #[inline]
    pub fn bits(&self) -> Raw<P> {
        unsafe { Raw(std::ptr::read(&self.0)) }
    }
    #[inline]
    pub fn bytes(&self) -> &[u8] {
        unsafe {
            std::slice::from_raw_parts(self.0.as_ptr() as *const u8, std::mem::size_of::<P>())
        }
    }
}

unsafe impl<P> Send for Raw<P> {}
unsafe impl<P> Sync for Raw<P> {}

/// An operation of an exploration, by value.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Op {
    Feed(Vec<u8>, u32),
    Init(Start, bool),
}

pub struct Sess<X: Proto> {
    pub p: Raw<X::P>,
    pub m: X::M,
    pub clv: u8,
    /// Expected observations that have not been made yet.
    pub pending: Vec<Tok>,
    /// Observations the model does not know yet; `forced` are the unconsumed bytes that decide them.
    pub ahead: Vec<Tok>,
    pub forced: Vec<u8>,
    pub bc: usize,
    /// History, only kept when the parser cannot be cloned bit by bit.
    hist: Option<(Start, Vec<Op>)>,
}

/// A new parser as a copy of one that was created once, so that its padding bytes are always the same.
fn fresh<X: Proto>(start: Start) -> Raw<X::P> {
    use std::cell::RefCell;
    use std::any::TypeId;
    use std::collections::HashMap;
    use std::sync::Mutex;
    static BASE: Mutex<Option<HashMap<TypeId, Vec<u8>>>> = Mutex::new(None);
    thread_local!(static MINE: RefCell<HashMap<TypeId, Vec<u8>>> = RefCell::new(HashMap::new()));
    let id = TypeId::of::<X>();
    let mut r: Raw<X::P> = MINE.with(|m| {
        let mut m = m.borrow_mut();
        let bytes = m.entry(id).or_insert_with(|| {
            let mut g = BASE.lock().unwrap();
            g.get_or_insert_with(HashMap::new).entry(id).or_insert_with(|| {
                let r = Raw::new(X::make(if TypeId::of::<X>() == TypeId::of::<H2P>() { Start::H2 } else { Start::New }));
                r.bytes().to_vec()
            }).clone()
        });
        unsafe {
            let mut x = MaybeUninit::<X::P>::uninit();
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), x.as_mut_ptr() as *mut u8, bytes.len());
            Raw(x)
        }
    });
    if start != Start::New && start != Start::H2 {
        X::init(r.get_mut(), start, false);
    }
    r
}

/// Which bytes of a parser object take part in its identity.
pub struct KeyMask {
    pub mask: Vec<u8>,
    pub opaque: bool,
}

pub struct Cx {
    pub rec: Rec,
    pub guard: Guard,
    mt: Vec<MTok>,
    exp: Vec<Exp>,
    pub strict_late: bool,
    pub var: Variant,
    pub calls: u64,
}

#[derive(Clone, Copy)]
struct Exp {
    t: Tok,
    pos: u32,
    region: u64,
}

impl Cx {
    pub fn new(strict_late: bool, var: Variant) -> Cx {
        Cx {
            rec: Rec::new(),
            guard: Guard::new(1 << 20),
            mt: Vec::with_capacity(16),
            exp: Vec::with_capacity(256),
            strict_late,
            var,
            calls: 0,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum MK {
    Panic,
    Flood,
    After,
    IgnoredStop,
    Count,
    Total,
    Tokens,
    Late,
    Lost,
    Finish,
    Over,
    ErrDiff,
    NotFinal,
    Place,
    State,
    Asked,
}

#[derive(Clone, Debug)]
pub struct Mis {
    pub kind: MK,
    /// Properties that speak about the grammar element.
    pub region: u64,
    /// Properties violated by the mere kind of the mismatch.
    pub direct: u64,
    /// One of the two outcomes is an error.
    pub err: bool,
    pub text: String,
    pub before: String,
    pub got: Vec<Tok>,
}

pub struct Fed {
    pub ncb: u32,
    pub used: usize,
    pub out: Out,
}

pub fn show_out<X: Proto>(o: Out) -> String {
    match o {
        Out::Cb(n) => format!("Callback({})", n),
        Out::Eos(n) => format!("Eos({})", n),
        Out::Fin(n) => format!("Finished({})", n),
        Out::Err(k, b) => format!("Err({})", X::err_name(k, b)),
        Out::Panic => "panic".to_string(),
    }
}

#[derive(Default)]
struct Fx2 {
    a: u64,
    b: u64,
}

impl Fx2 {
    fn add(&mut self, x: u64) {
        self.a = (self.a.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
        self.b = (self.b.rotate_left(23) ^ x ^ 0x9e3779b97f4a7c15).wrapping_mul(0xff51afd7ed558ccd);
        self.b ^= self.b >> 29;
    }
}

impl Hasher for Fx2 {
    fn finish(&self) -> u64 {
        self.a
    }
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(x));
        }
        self.add(bytes.len() as u64);
    }
    fn write_u8(&mut self, x: u8) { self.add(x as u64) }
    fn write_u16(&mut self, x: u16) { self.add(x as u64) }
    fn write_u32(&mut self, x: u32) { self.add(x as u64) }
    fn write_u64(&mut self, x: u64) { self.add(x) }
    fn write_usize(&mut self, x: usize) { self.add(x as u64) }
}

pub type Fp = (u64, u64);

impl<X: Proto> Sess<X> {
    pub fn new(start: Start, var: Variant) -> Sess<X> {
        let mut m = X::M::new(start, var);
        let needs_drop = std::mem::needs_drop::<X::P>();
        let mut o = Vec::new();
        m.begin(&mut o);
        Sess {
            p: if needs_drop { Raw::new(X::make(start)) } else { fresh::<X>(start) },
            m,
            clv: 0,
            pending: o.iter().map(|t| t.t).collect(),
            ahead: Vec::new(),
            forced: Vec::new(),
            bc: 0,
            hist: if needs_drop { Some((start, Vec::new())) } else { None },
        }
    }

    pub fn dup(&self, cx: &mut Cx) -> Sess<X> {
        let p = match self.hist {
            None => self.p.bits(),
            Some((start, ref ops)) => {
                // this parser owns something: rebuild it from its history
                let mut p = X::make(start);
                let mut clv = 0;
                for op in ops {
                    match op {
                        Op::Feed(c, at) => {
                            let buf = cx.guard.place(c);
                            cx.rec.start(buf.as_ptr(), buf.len(), *at, clv);
                            let rec = &mut cx.rec;
                            let _ = guard::call(buf, *at, || X::resume(&mut p, rec, buf));
                            clv = cx.rec.carry();
                        }
                        Op::Init(s, r) => {
                            X::init(&mut p, *s, *r);
                            clv = 0;
                        }
                    }
                }
                Raw::new(p)
            }
        };
        Sess {
            p,
            m: self.m.clone(),
            clv: self.clv,
            pending: self.pending.clone(),
            ahead: self.ahead.clone(),
            forced: self.forced.clone(),
            bc: self.bc,
            hist: self.hist.clone(),
        }
    }

    pub fn fp(&self, km: &KeyMask) -> Fp {
        let mut h = Fx2 { a: 0x1234, b: 0x98765 };
        if km.opaque {
            h.write(X::state(self.p.get()).as_bytes());
        } else {
            let raw = self.p.bytes();
            let mut i = 0;
            while i < raw.len() {
                let n = (raw.len() - i).min(8);
                let mut x = [0u8; 8];
                for j in 0..n {
                    x[j] = raw[i + j] & km.mask[i + j];
                }
                h.add(u64::from_le_bytes(x));
                i += n;
            }
        }
        self.m.hash(&mut h);
        self.pending.hash(&mut h);
        self.ahead.hash(&mut h);
        self.forced.hash(&mut h);
        h.write_u8(self.clv);
        h.add(0x55);
        (h.a, h.b)
    }

    pub fn init(&mut self, start: Start, via_reset: bool, cx: &mut Cx) -> Result<(), Mis> {
        let before = self.m.name();
        let bc0 = X::byte_count(self.p.get());
        let p = self.p.get_mut();
        if guard::call(b"", NONE, || X::init(p, start, via_reset)).is_err() {
            return Err(Mis {
                kind: MK::Panic, region: 0, direct: X::CRASH | X::RST, err: false,
                text: "re-initialisation panics".into(), before, got: vec![],
            });
        }
        let want = if X::RESET_ZEROES { 0 } else { bc0 };
        let bc = X::byte_count(self.p.get());
        if bc != want {
            return Err(Mis {
                kind: MK::Total, region: 0, direct: X::ACC, err: false,
                text: format!("running total is {} after re-initialisation, expected {}", bc, want),
                before, got: vec![],
            });
        }
        let (a, b) = (X::st(self.p.get()), X::st(fresh::<X>(if start == Start::New { Start::Head } else { start }).get()));
        if a != b {
            return Err(Mis {
                kind: MK::State, region: 0, direct: X::STATE, err: false,
                text: format!("state() is {} after re-initialisation", X::state(self.p.get())), before, got: vec![],
            });
        }
        let mut m = X::M::new(if start == Start::New { Start::Head } else { start }, cx.var);
        cx.mt.clear();
        m.begin(&mut cx.mt);
        self.m = m;
        self.pending = cx.mt.iter().map(|t| t.t).collect();
        self.ahead.clear();
        self.forced.clear();
        self.clv = 0;
        self.bc = bc;
        if let Some((_, ref mut ops)) = self.hist {
            ops.push(Op::Init(start, via_reset));
        }
        Ok(())
    }

    pub fn apply(&mut self, op: &Op, cx: &mut Cx) -> Result<Option<Fed>, Mis> {
        match op {
            Op::Feed(c, at) => self.feed(cx, c, *at).map(Some),
            Op::Init(s, r) => self.init(*s, *r, cx).map(|_| None),
        }
    }

    /// Execute one call of the real parser and compare it with the model.
    pub fn feed(&mut self, cx: &mut Cx, chunk: &[u8], at: u32) -> Result<Fed, Mis> {
        cx.calls += 1;
        if let Some((_, ref mut ops)) = self.hist {
            ops.push(Op::Feed(chunk.to_vec(), at));
        }
        let buf = cx.guard.place(chunk);
        cx.rec.start(buf.as_ptr(), buf.len(), at, self.clv);
        let bc0 = X::byte_count(self.p.get());
        let was_fin = X::st(self.p.get()).2;
        let r = {
            let rec = &mut cx.rec;
            let p = self.p.get_mut();
            guard::call(buf, at, || X::resume(p, rec, buf))
        };
        let st0 = self.m.status();
        if st0 == Status::Unspec {
            return match r {
                Ok(out) => Ok(Fed { ncb: cx.rec.ncb, used: 0, out }),
                Err(()) => Err(self.mis(cx, MK::Panic, X::CRASH, 0, false, "the call panics", Out::Panic, chunk, at)),
            };
        }
        let out = match r {
            Ok(out) => out,
            Err(()) if cx.rec.flood => {
                return Err(self.mis(cx, MK::Flood, X::CRASH, self.m.region(), false,
                                    "the call keeps making callbacks without end", Out::Panic, chunk, at));
            }
            Err(()) => {
                return Err(self.mis(cx, MK::Panic, X::CRASH, self.m.region(), false,
                                    "the call panics", Out::Panic, chunk, at));
            }
        };
        let bc1 = X::byte_count(self.p.get());
        let used = match out {
            Out::Cb(n) | Out::Eos(n) | Out::Fin(n) => n,
            _ => 0,
        };
        if used > chunk.len() {
            return Err(self.mis(cx, MK::Count, X::ACC, self.m.region(), false,
                                "more bytes reported than there are", out, chunk, at));
        }
        if !matches!(out, Out::Err(..)) && bc1 != bc0 + used {
            return Err(self.mis(cx, MK::Total, X::ACC, 0, false,
                                &format!("running total goes from {} to {}", bc0, bc1), out, chunk, at));
        }
        if cx.rec.after {
            return Err(self.mis(cx, MK::After, X::INT, 0, false,
                                "a callback is made although the previous one asked to stop", out, chunk, at));
        }
        if cx.rec.stopped != matches!(out, Out::Cb(_)) {
            let t = if cx.rec.stopped {
                "a callback asked to stop, but the call does not report it"
            } else {
                "the call reports a callback that asked to stop, but there was none"
            };
            let m = self.mis(cx, MK::IgnoredStop, X::INT, 0, false, t, out, chunk, at);
            return Err(m);
        }

        // what the model expects
        let mut m = self.m.clone();
        cx.exp.clear();
        for t in &self.pending {
            cx.exp.push(Exp { t: *t, pos: NONE, region: m.tok_region(t) });
        }
        let limit = match out {
            Out::Err(..) => chunk.len(),
            _ => used,
        };
        let mut i = 0;
        while i < limit && m.status() == Status::Run {
            step(&mut m, chunk[i], i, &mut cx.mt, &mut cx.exp);
            i += 1;
        }
        if m.status() == Status::Unspec {
            self.m = m;
            self.pending.clear();
            self.ahead.clear();
            self.forced.clear();
            return Ok(Fed { ncb: cx.rec.ncb, used, out });
        }

        // compare observations
        let na = self.ahead.len();
        let nd = na + cx.rec.toks.len();
        // Bytes the parser may have seen already, but has not consumed.
        let seen: Vec<u8> = match out {
            Out::Cb(_) | Out::Eos(_) if m.status() == Status::Run => {
                let all = if self.forced.len() > chunk.len() { &self.forced[..] } else { chunk };
                all[used..].to_vec()
            }
            _ => Vec::new(),
        };
        // Observations for consumed bytes; the parser may have looked at following bytes to decide
        // that a callback is due.
        let ne0 = cx.exp.len();
        if ne0 < nd && !seen.is_empty() {
            let mut m2 = m.clone();
            for (j, b) in seen.iter().enumerate() {
                if cx.exp.len() >= nd || m2.status() != Status::Run {
                    break;
                }
                step(&mut m2, *b, used + j, &mut cx.mt, &mut cx.exp);
            }
            if cx.exp.len() < nd {
                cx.exp.truncate(ne0);
            }
        }
        let ne = if cx.exp.len() > ne0 { nd } else { ne0 };
        for x in 0..nd.min(ne) {
            let (t, pos) = if x < na {
                (self.ahead[x], NONE)
            } else {
                (cx.rec.toks[x - na], cx.rec.pos[x - na])
            };
            let w = cx.exp[x];
            if t != w.t {
                let reg = w.region | m.tok_region(&t);
                let err = matches!(out, Out::Err(..)) || matches!(m.status(), Status::Err(..));
                return Err(self.mis(cx, MK::Tokens, 0, reg, err && x + 1 >= ne,
                                    &format!("observation {} is {} instead of {}", x, show(&[t]), show(&[w.t])),
                                    out, chunk, at));
            }
            if w.pos != NONE && pos != w.pos {
                return Err(self.mis(cx, MK::Place, A08, 0, false,
                                    &format!("byte {} of the slice is not delivered in place", w.pos),
                                    out, chunk, at));
            }
            if let Out::Cb(n) = out {
                if w.pos != NONE && w.pos as usize >= n {
                    return Err(self.mis(cx, MK::Count, X::ACC, w.region, false,
                                        "delivered data is not reported as consumed", out, chunk, at));
                }
            }
        }

        let reg = m.region() | self.m.region();
        if nd > ne {
            let t = if ne < na { self.ahead[ne] } else { cx.rec.toks[ne - na] };
            let reg = reg | m.tok_region(&t);
            let err = matches!(m.status(), Status::Err(..)) || matches!(out, Out::Err(..))
                || st0 == Status::Dead;
            let nf = if matches!(st0, Status::Dead | Status::Done) && self.pending.is_empty() { X::RST } else { 0 };
            return Err(self.mis(cx, MK::Tokens, nf, reg, err,
                                &format!("unexpected observation {}", show(&[t])), out, chunk, at));
        }
        let missing_region = cx.exp.get(nd).map(|x| x.region).unwrap_or(0);
        let missing = cx.exp.get(nd).map(|x| x.t);

        // compare outcomes
        match out {
            Out::Cb(n) => {
                match m.status() {
                    Status::Dead => {
                        return Err(self.mis(cx, MK::NotFinal, X::RST, reg, true, "the parser had failed before", out, chunk, at));
                    }
                    Status::Err(k, b) if !(m.deferred() && i == n) => {
                        let w = format!("Err({}) was expected", X::err_name(k, b));
                        return Err(self.mis(cx, MK::ErrDiff, 0, reg, true, &w, out, chunk, at));
                    }
                    _ => {}
                }
                if i < n {
                    return Err(self.mis(cx, MK::Over, X::ACC, reg, false,
                                        "bytes after the end of the message are consumed", out, chunk, at));
                }
                // a byte that is taken verbatim cannot be delivered later
                if let Some(w) = cx.exp[nd..].iter().find(|w| w.pos != NONE && (w.pos as usize) < n) {
                    let r = w.region;
                    return Err(self.mis(cx, MK::Over, X::ACC | X::INT, r, false,
                                        "data is consumed, but not delivered", out, chunk, at));
                }
                self.settle(cx, nd, ne0, seen);
                self.m = m;
            }
            Out::Eos(n) => {
                if n != chunk.len() {
                    return Err(self.mis(cx, MK::Count, X::ACC, 0, false, "not all bytes reported as consumed", out, chunk, at));
                }
                match m.status() {
                    Status::Run => {}
                    Status::Dead => {
                        return Err(self.mis(cx, MK::NotFinal, X::RST, 0, true, "the parser had failed before", out, chunk, at));
                    }
                    Status::Err(k, b) => {
                        let w = format!("Err({}) was expected", X::err_name(k, b));
                        return Err(self.mis(cx, MK::ErrDiff, 0, reg, true, &w, out, chunk, at));
                    }
                    _ => {
                        let dir = if st0 == Status::Done && self.pending.is_empty() { X::RST } else { X::LATE }
                            | if i < n { X::ACC } else { 0 };
                        return Err(self.mis(cx, MK::Finish, dir, reg, false, "the message is finished", out, chunk, at));
                    }
                }
                if nd < ne {
                    let t = format!("{} is missing", show(&[missing.unwrap()]));
                    if cx.strict_late {
                        return Err(self.mis(cx, MK::Late, X::LATE, missing_region, false, &t, out, chunk, at));
                    }
                    if ne - nd > 12 {
                        return Err(self.mis(cx, MK::Lost, X::LATE, missing_region, false, &t, out, chunk, at));
                    }
                }
                self.settle(cx, nd, ne0, seen);
                self.m = m;
            }
            Out::Fin(n) => {
                if st0 == Status::Dead {
                    return Err(self.mis(cx, MK::NotFinal, X::RST, 0, true, "the parser had failed before", out, chunk, at));
                }
                if i < n {
                    return Err(self.mis(cx, MK::Over, X::ACC, reg, false,
                                        "bytes after the end of the message are consumed", out, chunk, at));
                }
                match m.status() {
                    Status::Done => {}
                    Status::Err(k, b) => {
                        let w = format!("Err({}) was expected", X::err_name(k, b));
                        return Err(self.mis(cx, MK::ErrDiff, 0, reg, true, &w, out, chunk, at));
                    }
                    _ => {
                        // either finished too early, or the count is wrong
                        let mut m2 = m.clone();
                        let mut j = n;
                        let mut q = Vec::new();
                        while j < chunk.len() && m2.status() == Status::Run {
                            m2.step(chunk[j], &mut q);
                            j += 1;
                        }
                        let dir = if m2.status() == Status::Done { X::ACC } else { 0 };
                        return Err(self.mis(cx, MK::Finish, dir, reg, m2.status() != Status::Done && m2.status() != Status::Run,
                                            "the message is not finished", out, chunk, at));
                    }
                }
                if nd < ne {
                    let t = format!("{} is missing", show(&[missing.unwrap()]));
                    return Err(self.mis(cx, MK::Tokens, 0, missing_region, false, &t, out, chunk, at));
                }
                self.pending.clear();
                self.ahead.clear();
                self.forced.clear();
                self.m = m;
            }
            Out::Err(k, b) => {
                let want = match m.status() {
                    Status::Dead => (crate::h1model::X_DEAD, 0),
                    Status::Err(k, b) => (k, b),
                    Status::Done => {
                        let dir = if st0 == Status::Done { X::RST } else { 0 };
                        return Err(self.mis(cx, MK::NotFinal, dir, reg, true, "the message is finished", out, chunk, at));
                    }
                    _ => {
                        return Err(self.mis(cx, MK::ErrDiff, 0, reg, true, "the stream is a valid prefix", out, chunk, at));
                    }
                };
                if want != (k, b) {
                    let dir = if st0 == Status::Dead { X::RST } else { 0 };
                    let w = format!("Err({}) was expected", X::err_name(want.0, want.1));
                    // the wrong error is not a statement about the element itself
                    return Err(self.mis(cx, MK::ErrDiff, dir | X::ERR, 0, true, &w, out, chunk, at));
                }
                if bc1 - bc0 != if st0 == Status::Dead { 0 } else { i } {
                    return Err(self.mis(cx, MK::Count, A11, 0, true, &format!("after the error the total has grown by {} instead of {}", bc1 - bc0, i), out, chunk, at));
                }
                let pk = m.partial_kind();
                if let Some(w) = cx.exp[nd..].iter().find(|w| Some(w.t.k) != pk) {
                    let (t, r) = (w.t, w.region);
                    return Err(self.mis(cx, MK::Tokens, 0, r, true, &format!("{} is missing", show(&[t])), out, chunk, at));
                }
                self.pending.clear();
                self.ahead.clear();
                self.forced.clear();
                self.m = m;
                self.m.set_status(Status::Dead);
            }
            Out::Panic => unreachable!(),
        }
        // what the parser says about itself
        let (_, dead, fin) = X::st(self.p.get());
        let text = if dead != (self.m.status() == Status::Dead) {
            if dead { "state() says that parsing has failed" } else { "state() does not say that parsing has failed" }
        } else if matches!(out, Out::Fin(_)) && !fin {
            "state() does not say that parsing is finished"
        } else if was_fin && out != Out::Fin(0) {
            "state() has said that parsing is finished"
        } else if fin && self.m.status() == Status::Run {
            "state() says that parsing is finished"
        } else {
            ""
        };
        if !text.is_empty() {
            return Err(self.mis(cx, MK::State, X::STATE, 0, false, text, out, chunk, at));
        }
        if let Some(t) = cx.rec.ask_bad {
            return Err(self.mis(cx, MK::Asked, B10, 0, false, t, out, chunk, at));
        }
        self.clv = cx.rec.carry();
        self.bc = bc1;
        Ok(Fed { ncb: cx.rec.ncb, used, out })
    }

    /// Remember what is due, or was observed early, after a call.
    fn settle(&mut self, cx: &Cx, nd: usize, ne0: usize, seen: Vec<u8>) {
        if nd > ne0 {
            let mut all = std::mem::take(&mut self.ahead);
            all.extend_from_slice(&cx.rec.toks);
            self.ahead = all.split_off(ne0);
            self.pending.clear();
        } else {
            self.pending = cx.exp[nd..ne0].iter().map(|x| x.t).collect();
            self.ahead.clear();
        }
        self.forced = seen;
    }

    #[cold]
    fn mis(&self, cx: &Cx, kind: MK, direct: u64, region: u64, err: bool, text: &str, out: Out,
           chunk: &[u8], at: u32) -> Mis {
        let mut s = format!("{}: {}\n  in model state {} (parser state {})\n  call: resume(\"{}\")",
                            format!("{:?}", kind).to_lowercase(), text, self.m.name(),
                            if out == Out::Panic { "?".into() } else { X::state(self.p.get()) }, esc(chunk));
        if at != NONE {
            s += &format!(" with callback {} answering false", at);
        }
        s += &format!("\n  returned: {}\n  observed: {}", show_out::<X>(out), show(&cx.rec.toks));
        if !self.pending.is_empty() {
            s += &format!("\n  still due from before: {}", show(&self.pending));
        }
        if !self.ahead.is_empty() {
            s += &format!("\n  already made before: {}", show(&self.ahead));
        }
        // expectation for the whole chunk
        let mut m = self.m.clone();
        let mut q = Vec::new();
        let mut n = 0;
        while n < chunk.len() && m.status() == Status::Run {
            m.step(chunk[n], &mut q);
            n += 1;
        }
        let v: Vec<Tok> = q.iter().map(|t| t.t).collect();
        s += &format!("\n  expected for the slice, without stopping: {} then {:?} after {} bytes", show(&v), m.status(), n);
        let mut got = self.ahead.clone();
        got.extend_from_slice(&cx.rec.toks);
        Mis {
            kind, region, direct: direct | if err { X::ERR } else { 0 }, err, text: s,
            before: self.m.name(), got,
        }
    }
}

#[inline]
fn step<M: Model>(m: &mut M, b: u8, i: usize, mt: &mut Vec<MTok>, exp: &mut Vec<Exp>) {
    mt.clear();
    let r0 = m.region();
    m.step(b, mt);
    for t in mt.iter() {
        exp.push(Exp {
            t: t.t,
            pos: if t.inplace { i as u32 } else { NONE },
            region: m.tok_region(&t.t) | (r0 & !(B01 | B02 | B03 | B04 | B05 | B06 | B07)),
        });
    }
}

/// Find out which bytes of the parser object identify its state.
pub fn key_mask<X: Proto>(start: Start, cx: &mut Cx, sample: &[u8]) -> KeyMask {
    let n = std::mem::size_of::<X::P>();
    if std::mem::needs_drop::<X::P>() {
        return KeyMask { mask: vec![0; n], opaque: true };
    }
    let mut mask = vec![0xffu8; n];
    // padding bytes keep whatever was there before
    let fill = |x: u8| unsafe {
        let mut m = MaybeUninit::<X::P>::uninit();
        std::ptr::write_bytes(m.as_mut_ptr() as *mut u8, x, n);
        m.as_mut_ptr().write(X::make(start));
        std::slice::from_raw_parts(m.as_ptr() as *const u8, n).to_vec()
    };
    let (a, b) = (fill(0), fill(0xff));
    for i in 0..n {
        if a[i] != b[i] {
            mask[i] = 0;
        }
    }
    // the running total only grows, and is compared on every call instead
    let mut cand8: Vec<bool> = vec![true; n / 8];
    let mut cand4: Vec<bool> = vec![true; n / 4];
    let mut s = Sess::<X>::new(start, cx.var);
    let mut distinct = 0;
    // other counters: what grows by the same amount with every single byte, through all states of the sample
    let mut steps = 0;
    let mut prev: Vec<u8> = Vec::new();
    let mut by: Vec<Option<u16>> = vec![None; n / 2];
    let mut cand2: Vec<bool> = vec![true; n / 2];
    for (i, c) in sample.iter().enumerate() {
        let buf = cx.guard.place(std::slice::from_ref(c));
        cx.rec.start(buf.as_ptr(), 1, NONE, 0);
        let rec = &mut cx.rec;
        let p = s.p.get_mut();
        if guard::call(buf, NONE, || X::resume(p, rec, buf)).is_err() {
            break;
        }
        let bc = X::byte_count(s.p.get());
        if bc == i + 1 {
            distinct += 1;
        }
        let raw = s.p.bytes();
        if !prev.is_empty() {
            steps += 1;
            for w in 0..n / 2 {
                let at = |r: &[u8]| u16::from_le_bytes(r[w * 2..w * 2 + 2].try_into().unwrap());
                let d = at(raw).wrapping_sub(at(&prev));
                cand2[w] &= d > 0 && d < 0x100 && *by[w].get_or_insert(d) == d;
            }
        }
        prev = raw.to_vec();
        for w in 0..n / 8 {
            let v = u64::from_ne_bytes(raw[w * 8..w * 8 + 8].try_into().unwrap());
            cand8[w] &= v == bc as u64;
        }
        for w in 0..n / 4 {
            let v = u32::from_ne_bytes(raw[w * 4..w * 4 + 4].try_into().unwrap());
            cand4[w] &= v == bc as u32;
        }
    }
    if distinct >= 3 {
        if let Some(w) = cand8.iter().position(|x| *x) {
            mask[w * 8..w * 8 + 8].fill(0);
        } else if let Some(w) = cand4.iter().position(|x| *x) {
            mask[w * 4..w * 4 + 4].fill(0);
        }
    }
    if steps >= 20 {
        for w in 0..n / 2 {
            if cand2[w] {
                mask[w * 2..w * 2 + 2].fill(0);
            }
        }
    }
    KeyMask { mask, opaque: false }
}
