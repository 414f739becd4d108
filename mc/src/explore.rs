//! The two exploration engines: breadth-first search over all product states of a real parser and its
//! model, and exhaustive cutting and interrupting of given documents.

use crate::guard::{self, Describe};
use crate::model::*;
use crate::rec::NONE;
use crate::sess::*;
use crate::tok::*;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// Worker threads: one per core.
pub fn threads() -> usize {
    static N: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *N.get_or_init(|| std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get())).clamp(1, 32))
}

/// What one check run accumulates.
pub struct Run {
    pub prop: String,
    pub mask: u64,
    pub thorough: bool,
    pub seed: u64,
    pub var: Variant,
    pub begin: Instant,
    pub deadline: Instant,
    /// Milliseconds after `begin` at which the current exploration has to end.
    pub slot: AtomicU64,
    pub stop: AtomicBool,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub calls: AtomicU64,
    /// Paths whose re-execution behaved as expected, but ended in a differently stored state.
    pub unmatched: AtomicU64,
    pub outcomes: Mutex<HashSet<u64>>,
    pub rep: Mutex<Report>,
}

#[derive(Default)]
pub struct Report {
    pub violation: Option<String>,
    pub samples: Vec<String>,
    pub spaces: Vec<String>,
    /// Mismatches that do not concern the checked property, by property mask.
    pub other: HashMap<u64, (u64, String)>,
    pub classified: HashMap<String, u32>,
    pub unclassified: u64,
    pub capped: bool,
    pub known: Vec<String>,
    pub assumptions: Vec<String>,
    pub extra: Vec<(String, String)>,
}

impl Run {
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    pub fn out_of_time(&self) -> bool {
        let now = Instant::now();
        now > self.deadline || (now - self.begin).as_millis() as u64 > self.slot.load(Ordering::Relaxed)
    }

    /// The next exploration may take this part of the remaining time, so that one whose state space is
    /// larger than expected leaves time for the others.
    pub fn slot(&self, part: f64) {
        let now = Instant::now();
        let left = self.deadline.saturating_duration_since(now).as_millis() as f64;
        self.slot.store((now - self.begin).as_millis() as u64 + (left * part) as u64, Ordering::Relaxed);
    }

    pub fn sample(&self, s: String) {
        let mut r = self.rep.lock().unwrap();
        if r.samples.len() < 12 {
            r.samples.push(s);
        }
    }

    pub fn space(&self, s: String) {
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("[{:7.2}s] {}", self.begin.elapsed().as_secs_f64(), s);
        }
        self.rep.lock().unwrap().spaces.push(s);
    }

    pub fn cap(&self) {
        self.rep.lock().unwrap().capped = true;
    }

    /// Record a violation of the checked property.
    pub fn violate(&self, text: &str, replay: &str) {
        let mut r = self.rep.lock().unwrap();
        if r.violation.is_none() {
            r.violation = Some(violation_text(&self.prop, text, replay));
        }
        self.stop.store(true, Ordering::Relaxed);
    }

    pub fn other(&self, mask: u64, text: &str) {
        let mut r = self.rep.lock().unwrap();
        let e = r.other.entry(mask).or_insert((0, text.to_string()));
        e.0 += 1;
        if self.mask == 0 && r.other.values().map(|v| v.0).sum::<u64>() > 60 {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
}

pub fn violation_text(prop: &str, text: &str, replay: &str) -> String {
    let dir = std::env::var("MC_REPLAYS").unwrap_or_else(|_| "replays".to_string());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.txt", dir, prop, std::process::id());
    let mut body = format!("property {}\n", prop);
    body += replay;
    body += "\n";
    for l in text.lines() {
        body += &format!("# {}\n", l);
    }
    let _ = std::fs::write(&path, body);
    format!("VIOLATION property={} replay={}\n{}\n", prop, path, text)
}

pub fn show_start(s: Start) -> String {
    match s {
        Start::New => "new".into(),
        Start::Head => "head".into(),
        Start::Chunked => "chunked".into(),
        Start::Multipart(b) => format!("multipart {}", hex(b)),
        Start::Url(n) => format!("url {}", n),
        Start::H2 => "h2".into(),
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn show_ops(start: Start, ops: &[Op]) -> String {
    let mut s = format!("start {}\n", show_start(start));
    for op in ops {
        match op {
            Op::Feed(c, at) => {
                s += &format!("feed {}", if c.is_empty() { "-".into() } else { hex(c) });
                if *at != NONE {
                    s += &format!(" stop {}", at);
                }
                s += "\n";
            }
            Op::Init(st, r) => {
                s += &format!("{} {}\n", if *r { "reset" } else { "init" }, show_start(*st));
            }
        }
    }
    s
}

pub fn show_ops_text(start: Start, ops: &[Op]) -> String {
    let mut s = format!("{}:", show_start(start));
    for op in ops {
        match op {
            Op::Feed(c, at) => {
                s += &format!(" \"{}\"", esc(c));
                if *at != NONE {
                    s += &format!("!{}", at);
                }
            }
            Op::Init(st, r) => {
                s += &format!(" {}({})", if *r { "reset" } else { "init" }, show_start(*st));
            }
        }
    }
    s
}

// -------------------------------------------------------------------------------------------------
// Classification of mismatches by differential runs of the real parser
// -------------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct Norm {
    toks: Vec<Tok>,
    out: Out,
    used: usize,
}

fn norm_eq(a: &Norm, b: &Norm) -> bool {
    let same = match (a.out, b.out) {
        (Out::Eos(_), Out::Eos(_)) => true,
        (Out::Fin(_), Out::Fin(_)) => a.used == b.used,
        (x, y) => x == y,
    };
    if !same {
        return false;
    }
    if a.toks == b.toks {
        return true;
    }
    if matches!(a.out, Out::Err(..)) {
        // data of an item that an error cut short may be delivered up to any point
        let (s, l) = if a.toks.len() < b.toks.len() { (a, b) } else { (b, a) };
        let n = s.toks.len();
        return l.toks[..n] == s.toks[..] && is_data(l.toks[n].k)
            && l.toks[n..].iter().all(|t| t.k == l.toks[n].k);
    }
    false
}

/// Plain execution of the real parser.
struct Real<X: Proto> {
    p: X::P,
    clv: u8,
}

impl<X: Proto> Real<X> {
    fn new(start: Start) -> Real<X> {
        Real { p: X::make(start), clv: 0 }
    }

    fn call(&mut self, cx: &mut Cx, chunk: &[u8], at: u32) -> Out {
        let buf = cx.guard.place(chunk);
        cx.rec.start(buf.as_ptr(), buf.len(), at, self.clv);
        let rec = &mut cx.rec;
        let p = &mut self.p;
        match guard::call(buf, at, || X::resume(p, rec, buf)) {
            Ok(o) => {
                self.clv = cx.rec.carry();
                o
            }
            Err(()) => Out::Panic,
        }
    }

    fn op(&mut self, cx: &mut Cx, op: &Op) -> Out {
        match op {
            Op::Feed(c, at) => self.call(cx, c, *at),
            Op::Init(s, r) => {
                let p = &mut self.p;
                let ok = guard::call(b"", NONE, || X::init(p, *s, *r)).is_ok();
                self.clv = 0;
                if ok { Out::Eos(0) } else { Out::Panic }
            }
        }
    }
}

fn drive<X: Proto>(cx: &mut Cx, start: Start, prefix: &[Op], slices: &[Vec<u8>], ats: &[u32]) -> Norm {
    let mut r = Real::<X>::new(start);
    let mut n = Norm { toks: vec![], out: Out::Eos(0), used: 0 };
    for op in prefix {
        if r.op(cx, op) == Out::Panic {
            n.out = Out::Panic;
            return n;
        }
    }
    let empty = Vec::new();
    for (i, s) in slices.iter().chain(std::iter::once(&empty)).enumerate() {
        let mut rest = &s[..];
        let mut at = ats.get(i).copied().unwrap_or(NONE);
        let mut turns = 0;
        loop {
            let o = r.call(cx, rest, at);
            n.toks.extend_from_slice(&cx.rec.toks);
            n.out = o;
            at = NONE;
            match o {
                Out::Cb(k) => {
                    if k > rest.len() || turns > 64 {
                        return n;
                    }
                    n.used += k;
                    rest = &rest[k..];
                    turns += 1;
                }
                Out::Eos(k) => {
                    n.used += k;
                    break;
                }
                Out::Fin(k) => {
                    n.used += k;
                    return n;
                }
                _ => return n,
            }
        }
    }
    n
}

/// Observed callbacks since the last initialisation.
fn observed<X: Proto>(cx: &mut Cx, start: Start, ops: &[Op]) -> Vec<Tok> {
    let mut r = Real::<X>::new(start);
    let mut v = Vec::new();
    for op in ops {
        let o = r.op(cx, op);
        match op {
            Op::Init(..) => v.clear(),
            _ => v.extend_from_slice(&cx.rec.toks),
        }
        if o == Out::Panic {
            break;
        }
    }
    v
}

fn last_init(start: Start, ops: &[Op]) -> (usize, Start) {
    let mut k = 0;
    let mut st = start;
    for (i, op) in ops.iter().enumerate() {
        if let Op::Init(s, _) = op {
            k = i + 1;
            st = *s;
        }
    }
    (k, st)
}

pub fn classify<X: Proto>(cx: &mut Cx, start: Start, ops: &[Op], mis: &Mis) -> u64 {
    let mut mask = mis.direct;
    if mis.kind != MK::Late {
        mask |= mis.region;
    }
    let (k, st) = last_init(start, ops);
    let prefix = &ops[..k];
    let suffix = &ops[k..];

    // the consumed stream, in the slices it was consumed in
    let mut r = Real::<X>::new(start);
    for op in prefix {
        r.op(cx, op);
    }
    let mut slices: Vec<Vec<u8>> = Vec::new();
    let mut ats = Vec::new();
    for (i, op) in suffix.iter().enumerate() {
        if let Op::Feed(c, at) = op {
            let o = r.call(cx, c, *at);
            let n = match o {
                Out::Cb(n) if i + 1 < suffix.len() => n.min(c.len()),
                _ => c.len(),
            };
            slices.push(c[..n].to_vec());
            ats.push(*at);
        }
    }
    let stream: Vec<u8> = slices.concat();
    let interrupted = ats.iter().any(|a| *a != NONE);

    let as_run = drive::<X>(cx, start, prefix, &slices, &[]);
    let whole = drive::<X>(cx, start, prefix, &[stream.clone()], &[]);
    let single: Vec<Vec<u8>> = stream.iter().map(|b| vec![*b]).collect();
    let bytewise = drive::<X>(cx, start, prefix, &single, &[]);
    if !norm_eq(&as_run, &whole) || !norm_eq(&whole, &bytewise) || !norm_eq(&as_run, &bytewise) {
        mask |= X::SEG;
    } else {
        // a longer slice may take another path
        for tail in [&b" / HTTP/1.1\r\n\r\n"[..], b"\r\n\r\n", b"0123456789abcdef", b": value\r\n\r\n", b"\0\0\0\0\0\0\0\0\0\0\0\0"] {
            let mut a = slices.clone();
            a.push(tail.to_vec());
            let mut b = stream.clone();
            b.extend_from_slice(tail);
            let x = drive::<X>(cx, start, prefix, &a, &[]);
            let y = drive::<X>(cx, start, prefix, &[b], &[]);
            if !norm_eq(&x, &y) {
                mask |= X::SEG;
                break;
            }
        }
    }
    if interrupted {
        let with = drive::<X>(cx, start, prefix, &slices, &ats);
        if !norm_eq(&with, &as_run) {
            mask |= X::INT;
        }
        // would another consumed count have been right?
        if let Some(i) = suffix.iter().rposition(|op| matches!(op, Op::Feed(_, at) if *at != NONE)) {
            if repair::<X>(cx, start, prefix, suffix, i) {
                mask |= X::ACC;
            }
        }
    }
    if k > 0 {
        let mut s = Sess::<X>::new(if st == Start::New { Start::Head } else { st }, cx.var);
        if suffix.iter().all(|op| s.apply(op, cx).is_ok()) {
            mask |= X::RST;
        }
    }
    if X::SEG == A01 {
        let v = observed::<X>(cx, start, ops);
        if !lifecycle(st, &v) {
            mask |= B09;
        }
    }
    mask
}

/// Resume the interrupted call `i` at a slightly different offset and see whether that conforms.
fn repair<X: Proto>(cx: &mut Cx, start: Start, prefix: &[Op], suffix: &[Op], i: usize) -> bool {
    let (chunk, at) = match &suffix[i] {
        Op::Feed(c, at) => (c.clone(), *at),
        _ => return false,
    };
    let mut r = Real::<X>::new(start);
    for op in prefix.iter().chain(&suffix[..i]) {
        r.op(cx, op);
    }
    let n = match r.call(cx, &chunk, at) {
        Out::Cb(n) if n <= chunk.len() => n as isize,
        _ => return false,
    };
    // what follows the consumed bytes
    let mut rest = chunk[n as usize..].to_vec();
    if i + 1 < suffix.len() {
        rest.clear();
        for op in &suffix[i + 1..] {
            if let Op::Feed(c, _) = op {
                rest.extend_from_slice(c);
            }
        }
    }
    let mut stream = chunk[..n as usize].to_vec();
    stream.extend_from_slice(&rest);
    let plain = {
        let mut s: Vec<Vec<u8>> = suffix[..i].iter().filter_map(|o| match o {
            Op::Feed(c, _) => Some(c.clone()),
            _ => None,
        }).collect();
        s.push(stream.clone());
        drive::<X>(cx, start, prefix, &s, &[])
    };
    for dlt in [-1isize, 1, -2, 2] {
        let m = n + dlt;
        if m < 0 || m as usize > stream.len() {
            continue;
        }
        let mut r = Real::<X>::new(start);
        let mut toks = Vec::new();
        for op in prefix {
            r.op(cx, op);
        }
        for op in &suffix[..i] {
            r.op(cx, op);
            toks.extend_from_slice(&cx.rec.toks);
        }
        r.call(cx, &chunk, at);
        toks.extend_from_slice(&cx.rec.toks);
        let mut out = r.call(cx, &stream[m as usize..], NONE);
        toks.extend_from_slice(&cx.rec.toks);
        let mut used = m as usize;
        if let Out::Eos(k) = out {
            used += k;
            out = r.call(cx, b"", NONE);
            toks.extend_from_slice(&cx.rec.toks);
        }
        if let Out::Fin(k) = out {
            used += k;
        }
        let alt = Norm { toks, out, used: plain.used };
        let _ = used;
        if norm_eq(&alt, &plain) {
            return true;
        }
    }
    false
}

/// Is this a prefix of a callback sequence the documentation allows?
pub fn lifecycle(start: Start, toks: &[Tok]) -> bool {
    let mut st = 0u32;
    let mut len = 0u64;
    let mut end = false;
    for t in toks {
        if end {
            return false;
        }
        // headers: 20 names allowed or end, 21 in name, 22 in value
        let next = match (start, st, t.k) {
            (_, 21, HNAME) => 21,
            (_, 21, HVAL) => 22,
            (_, 22, HVAL) => 22,
            (_, 20 | 22, HNAME) => 21,
            (_, 20 | 22, HDRFIN) => match start {
                Start::Chunked => 30,
                Start::Multipart(_) => 31,
                _ => { end = true; 0 }
            },

            (Start::New | Start::Head, 0 | 1, METHOD) => 1,
            (Start::New | Start::Head, 1 | 2, URL) => 2,
            (Start::New | Start::Head, 2, VERSION) => 3,
            (Start::New | Start::Head, 0, VERSION) => 4,
            (Start::New | Start::Head, 4, CODE) => 5,
            (Start::New | Start::Head, 5 | 6, STATUS) => 6,
            (Start::New | Start::Head, 3 | 6, INITFIN) => 20,

            (Start::Chunked, 0 | 7, CHBEGIN) => 1,
            (Start::Chunked, 1, CHLEN) => { len = t.b; if len == 0 { 9 } else { 2 } }
            (Start::Chunked, 9, HNAME) => 21,
            (Start::Chunked, 9, HDRFIN) => 30,
            (Start::Chunked, 2 | 9 | 3 | 5, XNAME) => 3,
            (Start::Chunked, 2 | 9 | 3 | 4 | 5, XVAL) => 4,
            (Start::Chunked, 2 | 9 | 3 | 4 | 5, XFIN) => 5,
            (Start::Chunked, 2 | 5, XSFIN) => if len == 0 { 20 } else { 6 },
            (Start::Chunked, 6 | 7, CDATA) => 7,
            (Start::Chunked, 30, BODYFIN) => { end = true; 0 }

            (Start::Multipart(_), 0 | 31, MPBEGIN) => 20,
            (Start::Multipart(_), 0 | 31, BODYFIN) => { end = true; 0 }
            (Start::Multipart(_), 31, MDATA) => 31,

            (Start::Url(_), 0 | 1 | 2, UBEGIN) => 1,
            (Start::Url(_), 1, UNAME) => 1,
            (Start::Url(_), 1 | 2, UVAL) => 2,
            (Start::Url(_), 0 | 1 | 2, BODYFIN) => { end = true; 0 }
            _ => return false,
        };
        st = next;
    }
    true
}

// -------------------------------------------------------------------------------------------------
// Mismatch handling
// -------------------------------------------------------------------------------------------------

pub fn handle<X: Proto>(run: &Run, cx: &mut Cx, start: Start, ops: &[Op], mis: &Mis) {
    if run.stopped() {
        return;
    }
    let sig = format!("{:?}|{}|{:x}|{:x}|{}", mis.kind, mis.before, mis.region, mis.direct,
                      ops.iter().any(|o| matches!(o, Op::Feed(_, a) if *a != NONE)));
    {
        let mut r = run.rep.lock().unwrap();
        let total: u32 = r.classified.values().sum();
        let c = r.classified.entry(sig).or_insert(0);
        *c += 1;
        if *c > 60 || total > 6000 {
            r.unclassified += 1;
            return;
        }
    }
    let mask = classify::<X>(cx, start, ops, mis);
    let text = format!("{}\n  violates: {}\n  history: {}", mis.text, mask_names(mask), show_ops_text(start, ops));
    if mask & run.mask != 0 {
        run.violate(&text, &show_ops(start, ops));
    } else {
        run.other(mask, &text);
    }
}

/// Describes the current call for the signal handler.
pub struct Now<'a> {
    pub run: &'a Run,
    pub start: Start,
    pub ops: Mutex<Box<dyn Fn() -> Vec<Op> + 'a>>,
}

impl<'a> Describe for Now<'a> {
    fn fatal(&self, what: &str, chunk: &[u8], at: u32) -> String {
        let mut ops = match self.ops.try_lock() {
            Ok(f) => f(),
            Err(_) => vec![],
        };
        ops.push(Op::Feed(chunk.to_vec(), at));
        let text = format!("the call {}\n  history: {}", what, show_ops_text(self.start, &ops));
        violation_text(&self.run.prop, &text, &show_ops(self.start, &ops))
    }
}

/// Run `f` with the signal handler knowing the history `ops`.
pub fn with_context<'a, R>(run: &'a Run, start: Start, ops: Box<dyn Fn() -> Vec<Op> + 'a>,
                           f: impl FnOnce() -> R) -> R {
    let now = Now { run, start, ops: Mutex::new(ops) };
    let d: *const (dyn Describe + 'a) = &now;
    guard::describe_with(Some(unsafe { std::mem::transmute::<*const (dyn Describe + 'a), *const (dyn Describe + 'static)>(d) }));
    let r = f();
    guard::describe_with(None);
    r
}

// -------------------------------------------------------------------------------------------------
// Graph exploration
// -------------------------------------------------------------------------------------------------

pub struct Graph {
    pub name: String,
    pub starts: Vec<Start>,
    pub chunks: Vec<Vec<u8>>,
    pub limits: Limits,
    pub interrupts: bool,
    /// Re-initialisations tried in every state.
    pub inits: Vec<(Start, bool)>,
    pub max_states: usize,
    pub strict_late: bool,
    /// After an interruption, also hand over the rest in pieces.
    pub cut_rest: bool,
}

#[derive(Clone, Copy)]
enum MiniOp {
    Root(u8),
    Feed(u32, u32),
    /// The first bytes of what the last interrupted call left over.
    Forced(u32, u32),
    Init(u8),
}

struct Node {
    parent: u32,
    op: MiniOp,
    fp: Fp,
    /// Number of bytes an interrupted call left over.
    left: u32,
}

/// A sample stream on which every mode consumes at least three bytes.
fn sample_for(start: Start) -> Vec<u8> {
    match start {
        Start::New | Start::Head => b"GET /abc HTTP/1.1\r\nAb: cd\r\nE: f\r\n\r\n".to_vec(),
        Start::Chunked => b"1;abcdef".to_vec(),
        Start::Multipart(b) => {
            let mut v = b"--".to_vec();
            v.extend_from_slice(b);
            v.extend_from_slice(b"\r\na:b");
            v
        }
        Start::Url(n) => vec![b'a'; n.min(8)],
        Start::H2 => vec![0, 0, 4, 0, 0, 0, 0, 0, 1, 5, 6, 7, 8, 0, 0, 5, 2, 0, 0, 0, 0, 2, 1, 2, 3, 4, 5, 0, 0, 8, 6, 0, 0, 0, 0, 0, 7, 7, 7],
    }
}

/// Key masks are the same for all starts of a protocol; use the one that identifies the total.
pub fn protocol_mask<X: Proto>(cx: &mut Cx, start: Start) -> KeyMask {
    let s = if start == Start::H2 { Start::H2 } else { Start::Head };
    key_mask::<X>(s, cx, &sample_for(s))
}

impl Graph {
    fn path(&self, nodes: &[Node], mut i: u32) -> (Start, Vec<Op>) {
        let mut rev = Vec::new();
        let start = loop {
            let n = &nodes[i as usize];
            if let MiniOp::Root(s) = n.op {
                break self.starts[s as usize];
            }
            rev.push(n);
            i = n.parent;
        };
        let mut ops = Vec::new();
        let mut left: Vec<u8> = Vec::new();
        for n in rev.iter().rev() {
            let op = match n.op {
                MiniOp::Root(_) => unreachable!(),
                MiniOp::Feed(c, at) => Op::Feed(self.chunks[c as usize].clone(), at),
                MiniOp::Forced(j, at) => Op::Feed(left[..j as usize].to_vec(), at),
                MiniOp::Init(k) => {
                    let (s, r) = self.inits[k as usize];
                    Op::Init(s, r)
                }
            };
            match &op {
                Op::Feed(c, _) => {
                    // what the call left over is a suffix of everything that was on offer
                    let all = if left.len() > c.len() { left.clone() } else { c.clone() };
                    let k = (n.left as usize).min(all.len());
                    left = all[all.len() - k..].to_vec();
                }
                _ => left.clear(),
            }
            ops.push(op);
        }
        (start, ops)
    }

    pub fn run<X: Proto>(&self, run: &Run) {
        if run.stopped() {
            return;
        }
        let t0 = Instant::now();
        let mut cx = Cx::new(self.strict_late, run.var);
        let km = protocol_mask::<X>(&mut cx, self.starts[0]);
        let mut nodes: Vec<Node> = Vec::new();
        let mut seen: HashSet<Fp> = HashSet::new();
        let mut frontier: Vec<(u32, Sess<X>)> = Vec::new();
        for (i, s) in self.starts.iter().enumerate() {
            let se = Sess::<X>::new(*s, run.var);
            let fp = se.fp(&km);
            if seen.insert(fp) {
                frontier.push((nodes.len() as u32, se));
                nodes.push(Node { parent: 0, op: MiniOp::Root(i as u8), fp, left: 0 });
            }
        }
        let mut depth = 0;
        let mut capped = false;
        let trans = AtomicU64::new(0);
        let calls = AtomicU64::new(0);
        // terminal states only need a few probes
        let probes: Vec<u32> = (0..self.chunks.len() as u32)
            .filter(|i| {
                let c = &self.chunks[*i as usize];
                c.is_empty() || (c.len() == 1 && b"\r\nG0-a\0\xff".contains(&c[0])) || (c.len() > 3 && *i % 37 == 0)
            })
            .collect();
        while !frontier.is_empty() && !run.stopped() {
            if nodes.len() > self.max_states || run.out_of_time() {
                capped = true;
                break;
            }
            let next = AtomicUsize::new(0);
            let fr = &frontier;
            let nodes_ref = &nodes;
            let seen_ref = &seen;
            let km_ref = &km;
            let trans_ref = &trans;
            let calls_ref = &calls;
            let probes_ref = &probes;
            let results: Vec<Vec<(u32, MiniOp, Fp, u32, Option<Sess<X>>)>> = std::thread::scope(|sc| {
                let mut hs = Vec::new();
                for _ in 0..threads() {
                    let next = &next;
                    hs.push(sc.spawn(move || {
                        guard::enter_thread();
                        let mut cx = Cx::new(self.strict_late, run.var);
                        let mut out: Vec<(u32, MiniOp, Fp, u32, Option<Sess<X>>)> = Vec::new();
                        let mut local: HashSet<Fp> = HashSet::new();
                        let mut n_tr = 0u64;
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= fr.len() || run.stopped() || (i % 64 == 0 && run.out_of_time()) {
                                break;
                            }
                            let (id, se) = &fr[i];
                            let (start, ops) = (self.root_start(nodes_ref, *id), Box::new(move || self.path(nodes_ref, *id).1));
                            with_context(run, start, ops, || {
                                self.expand::<X>(run, &mut cx, nodes_ref, *id, se, seen_ref, &mut local, km_ref,
                                                 &mut out, &mut n_tr, probes_ref);
                            });
                        }
                        trans_ref.fetch_add(n_tr, Ordering::Relaxed);
                        calls_ref.fetch_add(cx.calls, Ordering::Relaxed);
                        guard::leave_thread();
                        out
                    }));
                }
                hs.into_iter().map(|h| h.join().expect("worker")).collect()
            });
            let mut newf = Vec::new();
            for r in results {
                for (parent, op, fp, left, se) in r {
                    if seen.insert(fp) {
                        if let Some(se) = se {
                            newf.push((nodes.len() as u32, se));
                        }
                        nodes.push(Node { parent, op, fp, left });
                    }
                }
            }
            frontier = newf;
            depth += 1;
        }
        if !run.stopped() {
            let traces = self.validate::<X>(run, &nodes, &km);
            run.traces.fetch_add(traces, Ordering::Relaxed);
        }
        run.states.fetch_add(nodes.len() as u64, Ordering::Relaxed);
        run.transitions.fetch_add(trans.load(Ordering::Relaxed), Ordering::Relaxed);
        run.calls.fetch_add(calls.load(Ordering::Relaxed), Ordering::Relaxed);
        if capped {
            run.cap();
        }
        if nodes.len() > 2 {
            let (s, o) = self.path(&nodes, nodes.len() as u32 - 1);
            run.sample(show_ops_text(s, &o));
            let (s, o) = self.path(&nodes, nodes.len() as u32 / 2);
            run.sample(show_ops_text(s, &o));
        }
        run.space(format!("graph {}: {} states, {} transitions, {} levels, {} slices per state{}{} ({:.1}s)",
                          self.name, nodes.len(), trans.load(Ordering::Relaxed), depth, self.chunks.len(),
                          if self.interrupts { ", every callback interrupted" } else { "" },
                          if capped { ", stopped at the cap" } else { ", complete" }, t0.elapsed().as_secs_f64()));
    }

    fn root_start(&self, nodes: &[Node], mut i: u32) -> Start {
        loop {
            let n = &nodes[i as usize];
            if let MiniOp::Root(s) = n.op {
                return self.starts[s as usize];
            }
            i = n.parent;
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn expand<X: Proto>(&self, run: &Run, cx: &mut Cx, nodes: &[Node], id: u32, se: &Sess<X>,
                        seen: &HashSet<Fp>, local: &mut HashSet<Fp>, km: &KeyMask,
                        out: &mut Vec<(u32, MiniOp, Fp, u32, Option<Sess<X>>)>, n_tr: &mut u64, probes: &[u32]) {
        let terminal = se.m.status() != Status::Run && se.pending.is_empty();
        let all: Vec<u32>;
        let list: &[u32] = if terminal {
            probes
        } else {
            all = (0..self.chunks.len() as u32).collect();
            &all
        };
        let mut child = |cx: &mut Cx, op: MiniOp, c: &[u8], at: u32, n_tr: &mut u64| -> Option<u32> {
            let mut s = se.dup(cx);
            *n_tr += 1;
            match s.feed(cx, c, at) {
                Ok(f) => {
                    if s.m.status() == Status::Unspec {
                        return Some(f.ncb);
                    }
                    let fp = s.fp(km);
                    if !seen.contains(&fp) && local.insert(fp) {
                        let keep = s.m.keep(&self.limits) && s.pending.len() < 12;
                        let left = s.forced.len() as u32;
                        out.push((id, op, fp, left, if keep { Some(s) } else { None }));
                    }
                    Some(f.ncb)
                }
                Err(m) => {
                    let (start, mut ops) = self.path(nodes, id);
                    ops.push(Op::Feed(c.to_vec(), at));
                    handle::<X>(run, cx, start, &ops, &m);
                    None
                }
            }
        };
        if se.forced.is_empty() {
            for &ci in list {
                let c = &self.chunks[ci as usize];
                let n = child(cx, MiniOp::Feed(ci, NONE), c, NONE, n_tr);
                if self.interrupts {
                    for i in 0..n.unwrap_or(0) {
                        child(cx, MiniOp::Feed(ci, i), c, i, n_tr);
                    }
                }
            }
        } else {
            // the caller continues with what was not consumed, in any two pieces
            let f = &se.forced;
            for j in 0..=f.len() {
                if j < f.len() && !self.cut_rest {
                    continue;
                }
                let n = child(cx, MiniOp::Forced(j as u32, NONE), &f[..j], NONE, n_tr);
                for i in 0..n.unwrap_or(0) {
                    child(cx, MiniOp::Forced(j as u32, i), &f[..j], i, n_tr);
                }
            }
        }
        for (k, (st, via)) in self.inits.iter().enumerate() {
            // reset() keeps the mode, so it is only comparable within it
            if *via && !same_mode::<X>(&se.m, *st) {
                continue;
            }
            let mut s = se.dup(cx);
            *n_tr += 1;
            match s.init(*st, *via, cx) {
                Ok(()) => {
                    let fp = s.fp(km);
                    if !seen.contains(&fp) && local.insert(fp) {
                        out.push((id, MiniOp::Init(k as u8), fp, 0, Some(s)));
                    }
                }
                Err(m) => {
                    let (start, mut ops) = self.path(nodes, id);
                    ops.push(Op::Init(*st, *via));
                    handle::<X>(run, cx, start, &ops, &m);
                }
            }
        }
    }

    /// Re-execute the path of every explored state on a fresh parser and compare the reached state.
    fn validate<X: Proto>(&self, run: &Run, nodes: &[Node], km: &KeyMask) -> u64 {
        let mut leaf = vec![true; nodes.len()];
        for n in nodes {
            leaf[n.parent as usize] = false;
        }
        let idx: Vec<u32> = (0..nodes.len() as u32).filter(|i| leaf[*i as usize]).collect();
        let limit = if run.thorough { 2_000_000 } else { 200_000 };
        let stride = (idx.len() / limit).max(1);
        let next = AtomicUsize::new(0);
        let done = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for _ in 0..threads() {
                sc.spawn(|| {
                    guard::enter_thread();
                    let mut cx = Cx::new(self.strict_late, run.var);
                    loop {
                        let j = next.fetch_add(1, Ordering::Relaxed) * stride;
                        if j >= idx.len() || run.stopped() {
                            break;
                        }
                        let i = idx[j];
                        let (start, ops) = self.path(nodes, i);
                        let o2 = ops.clone();
                        with_context(run, start, Box::new(move || o2.clone()), || {
                            let mut s = Sess::<X>::new(start, run.var);
                            for (n, op) in ops.iter().enumerate() {
                                if let Err(m) = s.apply(op, &mut cx) {
                                    handle::<X>(run, &mut cx, start, &ops[..=n], &m);
                                    return;
                                }
                            }
                            if s.fp(km) == nodes[i as usize].fp {
                                done.fetch_add(1, Ordering::Relaxed);
                            } else {
                                run.unmatched.fetch_add(1, Ordering::Relaxed);
                            }
                        });
                    }
                    guard::leave_thread();
                });
            }
        });
        done.load(Ordering::Relaxed)
    }
}

fn same_mode<X: Proto>(m: &X::M, st: Start) -> bool {
    let n = m.name();
    match st {
        Start::New | Start::Head => n.starts_with("Head"),
        Start::Chunked => n.starts_with("Chunked"),
        Start::Multipart(_) => n.starts_with("Multipart"),
        Start::Url(_) => n.starts_with("Url"),
        Start::H2 => true,
    }
}

// -------------------------------------------------------------------------------------------------
// Document lattices
// -------------------------------------------------------------------------------------------------

#[derive(Clone)]
pub struct Doc {
    pub start: Start,
    pub bytes: Vec<u8>,
}

#[derive(Clone, Copy)]
pub struct Cuts {
    /// Longest slice besides "everything that is left".
    pub max: usize,
    /// Documents that are longer than the first number only get slices of up to the second one.
    pub long: (usize, usize),
    pub interrupts: bool,
    pub empties: bool,
    pub strict_late: bool,
}

/// All ways to cut a document into slices, combined with every interruption.
pub fn lattice<X: Proto>(run: &Run, cx: &mut Cx, km: &KeyMask, doc: &Doc, cuts: Cuts) -> (u64, u64) {
    struct N {
        parent: u32,
        op: (usize, usize, u32),
    }
    let n = doc.bytes.len();
    let max = if n > cuts.long.0 { cuts.max.min(cuts.long.1) } else { cuts.max };
    let mut nodes: Vec<N> = vec![N { parent: 0, op: (0, 0, 0) }];
    let mut seen: HashSet<(usize, Fp)> = HashSet::new();
    let root = Sess::<X>::new(doc.start, run.var);
    seen.insert((0, root.fp(km)));
    let mut stack: Vec<(u32, usize, Sess<X>)> = vec![(0, 0, root)];
    let mut tr = 0;
    let path = |nodes: &Vec<N>, mut i: u32| {
        let mut v = Vec::new();
        while i != 0 {
            let x = &nodes[i as usize];
            v.push(Op::Feed(doc.bytes[x.op.0..x.op.1].to_vec(), x.op.2));
            i = x.parent;
        }
        v.reverse();
        v
    };
    while let Some((id, pos, se)) = stack.pop() {
        if run.stopped() {
            break;
        }
        let hist = path(&nodes, id);
        let h2 = hist.clone();
        with_context(run, doc.start, Box::new(move || h2.clone()), || {
            let terminal = se.m.status() != Status::Run && se.pending.is_empty();
            let lo = pos + if cuts.empties || pos == n { 0 } else { 1 };
            for q in lo..=n {
                if q != n && q - pos > max {
                    continue;
                }
                if terminal && q != n && q != pos {
                    continue;
                }
                let chunk = &doc.bytes[pos..q];
                let mut ncb = 0;
                let mut at = NONE;
                loop {
                    let mut s = se.dup(cx);
                    tr += 1;
                    match s.feed(cx, chunk, at) {
                        Ok(f) => {
                            if at == NONE {
                                ncb = f.ncb;
                            }
                            let p2 = match f.out {
                                Out::Eos(_) => q,
                                Out::Err(..) => q,
                                _ => pos + f.used,
                            };
                            if s.m.status() != Status::Unspec {
                                let key = (p2, s.fp(km));
                                if seen.insert(key) {
                                    nodes.push(N { parent: id, op: (pos, q, at) });
                                    stack.push((nodes.len() as u32 - 1, p2, s));
                                }
                            }
                        }
                        Err(m) => {
                            let mut ops = hist.clone();
                            ops.push(Op::Feed(chunk.to_vec(), at));
                            handle::<X>(run, cx, doc.start, &ops, &m);
                            if run.stopped() {
                                return;
                            }
                        }
                    }
                    let i = if at == NONE { 0 } else { at + 1 };
                    if !cuts.interrupts || i >= ncb {
                        break;
                    }
                    at = i;
                }
            }
        });
    }
    // the whole document at every alignment
    if !run.stopped() {
        for gap in 1..16 {
            cx.guard.gap.set(gap);
            with_context(run, doc.start, Box::new(Vec::new), || {
                straight::<X>(run, cx, doc.start, &[&doc.bytes], &[]);
            });
            tr += 1;
            if run.stopped() {
                break;
            }
        }
        cx.guard.gap.set(0);
    }
    (nodes.len() as u64, tr)
}

/// Explore many documents in parallel.
pub fn lattices<X: Proto>(run: &Run, name: &str, docs: &[Doc], cuts: Cuts) {
    if run.stopped() || docs.is_empty() {
        return;
    }
    let t0 = Instant::now();
    let next = AtomicUsize::new(0);
    let st = AtomicU64::new(0);
    let tr = AtomicU64::new(0);
    let calls = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..threads() {
            sc.spawn(|| {
                guard::enter_thread();
                let mut cx = Cx::new(cuts.strict_late, run.var);
                let km = protocol_mask::<X>(&mut cx, docs[0].start);
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= docs.len() || run.stopped() || run.out_of_time() {
                        break;
                    }
                    let (a, b) = lattice::<X>(run, &mut cx, &km, &docs[i], cuts);
                    st.fetch_add(a, Ordering::Relaxed);
                    tr.fetch_add(b, Ordering::Relaxed);
                    done.fetch_add(1, Ordering::Relaxed);
                }
                calls.fetch_add(cx.calls, Ordering::Relaxed);
                guard::leave_thread();
            });
        }
    });
    let done = done.load(Ordering::Relaxed);
    run.states.fetch_add(st.load(Ordering::Relaxed), Ordering::Relaxed);
    run.transitions.fetch_add(tr.load(Ordering::Relaxed), Ordering::Relaxed);
    run.calls.fetch_add(calls.load(Ordering::Relaxed), Ordering::Relaxed);
    // every document is executed from a fresh parser
    run.traces.fetch_add(done, Ordering::Relaxed);
    let capped = (done as usize) < docs.len();
    if capped && !run.stopped() {
        run.cap();
    }
    run.sample(format!("{}: \"{}\"", show_start(docs[docs.len() / 2].start), esc(&docs[docs.len() / 2].bytes)));
    run.space(format!("documents {}: {} of {} documents, {} states, {} transitions, slices up to {}{}{} ({:.1}s)",
                      name, done, docs.len(), st.load(Ordering::Relaxed), tr.load(Ordering::Relaxed),
                      if cuts.max >= 1 << 20 { format!("any length (up to {} or the rest in documents of over {} bytes)", cuts.long.1, cuts.long.0) }
                      else { format!("{} bytes or the rest", cuts.max) },
                      if cuts.interrupts { ", every callback interrupted" } else { "" },
                      if capped { ", stopped at the cap" } else { "" }, t0.elapsed().as_secs_f64()));
}

/// Feed a document in given slices without branching.
pub fn straight<X: Proto>(run: &Run, cx: &mut Cx, start: Start, slices: &[&[u8]], stops: &[u32]) -> bool {
    let mut s = Sess::<X>::new(start, run.var);
    let mk = || {
        let mut v: Vec<Op> = Vec::new();
        for (i, c) in slices.iter().enumerate() {
            v.push(Op::Feed(c.to_vec(), stops.get(i).copied().unwrap_or(NONE)));
        }
        v
    };
    for (i, c) in slices.iter().enumerate() {
        let at = stops.get(i).copied().unwrap_or(NONE);
        if s.m.status() == Status::Unspec {
            break;
        }
        match s.feed(cx, c, at) {
            Ok(_) => {}
            Err(m) => {
                let ops: Vec<Op> = mk()[..=i].to_vec();
                handle::<X>(run, cx, start, &ops, &m);
                return false;
            }
        }
    }
    true
}
