//! Sequences of messages on one connection, and several parsers side by side.

use crate::explore::*;
use crate::guard;
use crate::model::*;
use crate::numeric::h2hdr;
use crate::rec::{Within, NONE};
use crate::sess::*;
use crate::tok::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

/// The phases of one connection and the bytes that follow the last one.
#[derive(Clone)]
pub struct Chain {
    pub phases: Vec<(Start, Vec<u8>)>,
    pub tail: Vec<u8>,
}

fn ph(s: Start, b: &str) -> (Start, Vec<u8>) {
    (s, b.as_bytes().to_vec())
}

const AB: Start = Start::Multipart(b"ab");

fn chain_docs(th: bool) -> Vec<Chain> {
    let heads = ["GET / HTTP/1.1\r\n\r\n", "P /a HTTP/1.0\r\nA: b\r\n\r\n", "HTTP/1.1 200 OK\r\nB: \"q\\\"\"\r\n c\r\n\r\n", "\r\nHEAD * HTTP/1.1\r\n\r\n"];
    let bodies = [
        ph(Start::Chunked, "0\r\n\r\n"), ph(Start::Chunked, "2;a=b\r\n\r\n\r\n1\r\nx\r\n0;c\r\nT: t\r\n\r\n"), ph(AB, "--ab\r\nA: b\r\n\r\nx\r\n--ab--"),
        ph(AB, "--ab\r\nA: 3\r\n\r\n\r\n-\r\n--ab\r\n\r\n\r\n--ab--"), ph(Start::Multipart(b"-"), "---\r\n\r\n\r\n--\r\n-----"), ph(Start::Url(7), "a=%41&b"), ph(Start::Url(0), ""), ph(Start::Url(3), "x;y"),
    ];
    let tails = ["", "GET", "\r\n", "0\r\n\r\n", "--ab", "x=y"];
    let mut all: Vec<(Start, Vec<u8>)> = heads.iter().map(|h| ph(Start::Head, h)).collect();
    all.extend(bodies);
    // every sequence of three, and in the thorough tier of four messages
    let k = all.len();
    let len = if th { 4 } else { 3 };
    let mut v = Vec::new();
    for n in 0..k.pow(len) {
        let mut x = n;
        let mut phases = Vec::new();
        for _ in 0..len {
            phases.push(all[x % k].clone());
            x /= k;
        }
        v.push(Chain { phases, tail: tails[n % tails.len()].as_bytes().to_vec() });
    }
    v
}

fn one_chain(run: &Run, cx: &mut Cx, km: &KeyMask, ch: &Chain, max: usize, interrupts: bool) -> (u64, u64) {
    struct N {
        parent: u32,
        op: Op,
    }
    let mut doc = Vec::new();
    let mut ends = Vec::new();
    for (_, b) in &ch.phases {
        doc.extend_from_slice(b);
        ends.push(doc.len());
    }
    doc.extend_from_slice(&ch.tail);
    let n = doc.len();
    let start = ch.phases[0].0;
    let mut nodes: Vec<N> = vec![N { parent: 0, op: Op::Init(start, true) }];
    let root = Sess::<H1P>::new(start, run.var);
    let mut seen: HashSet<(usize, usize, Fp)> = HashSet::new();
    seen.insert((0, 0, root.fp(km)));
    let mut stack = vec![(0u32, 0usize, 0usize, root)];
    let mut tr = 0;
    let path = |nodes: &Vec<N>, mut i: u32| {
        let mut v = Vec::new();
        while i != 0 {
            v.push(nodes[i as usize].op.clone());
            i = nodes[i as usize].parent;
        }
        v.reverse();
        v
    };
    while let Some((id, phase, pos, se)) = stack.pop() {
        if run.stopped() {
            break;
        }
        let hist = path(&nodes, id);
        let h2 = hist.clone();
        with_context(run, start, Box::new(move || h2.clone()), || {
            let fail = |cx: &mut Cx, m: &Mis, op: Op| {
                let mut ops = hist.clone();
                ops.push(op);
                let mut m = m.clone();
                m.direct |= if phase > 0 { A10 } else { 0 };
                handle::<H1P>(run, cx, start, &ops, &m);
            };
            for q in pos..=n {
                if q != n && q - pos > max {
                    continue;
                }
                let chunk = &doc[pos..q];
                let mut ncb = 0;
                let mut at = NONE;
                loop {
                    let mut s = se.dup(cx);
                    tr += 1;
                    match s.feed(cx, chunk, at) {
                        Ok(f) => {
                            if at == NONE {
                                ncb = f.ncb;
                            }
                            let p2 = match f.out {
                                Out::Eos(_) | Out::Err(..) => q,
                                _ => pos + f.used,
                            };
                            let op = Op::Feed(chunk.to_vec(), at);
                            let mut next = phase;
                            let mut par = id;
                            let mut add = vec![op];
                            if let Out::Fin(_) = f.out {
                                let m = Mis { kind: MK::Count, region: 0, direct: A10 | A03, err: false, text: String::new(), before: s.m.name(), got: vec![] };
                                if p2 != ends[phase] {
                                    fail(cx, &Mis { text: format!("phase {} of the connection ends after {} bytes instead of {}", phase + 1, p2, ends[phase]), ..m }, add[0].clone());
                                    return;
                                }
                                if H1P::byte_count(s.p.get()) != p2 {
                                    fail(cx, &Mis { text: format!("the running total is {} after {} bytes", H1P::byte_count(s.p.get()), p2), ..m }, add[0].clone());
                                    return;
                                }
                                if phase + 1 < ch.phases.len() {
                                    next += 1;
                                    let st = ch.phases[next].0;
                                    add.push(Op::Init(st, false));
                                    if let Err(mut m) = s.init(st, false, cx) {
                                        m.direct |= A10;
                                        fail(cx, &m, add[0].clone());
                                        return;
                                    }
                                }
                            } else if p2 > ends[phase] {
                                let m = Mis { kind: MK::Finish, region: 0, direct: A10 | A03, err: false,
                                              text: format!("phase {} of the connection does not end after {} bytes", phase + 1, ends[phase]), before: s.m.name(), got: vec![] };
                                fail(cx, &m, add[0].clone());
                                return;
                            }
                            if seen.insert((next, p2, s.fp(km))) {
                                for o in add {
                                    nodes.push(N { parent: par, op: o });
                                    par = nodes.len() as u32 - 1;
                                }
                                stack.push((par, next, p2, s));
                            }
                        }
                        Err(m) => {
                            fail(cx, &m, Op::Feed(chunk.to_vec(), at));
                            if run.stopped() {
                                return;
                            }
                        }
                    }
                    let i = if at == NONE { 0 } else { at + 1 };
                    if !interrupts || i >= ncb {
                        break;
                    }
                    at = i;
                }
                // a finished connection is not continued
                if phase + 1 == ch.phases.len() && se.m.status() == Status::Done && se.pending.is_empty() {
                    break;
                }
            }
        });
    }
    (nodes.len() as u64, tr)
}

/// Whole connections in every cutting, with and without interruptions.
pub fn connections(run: &Run) {
    let docs = chain_docs(run.thorough);
    for (max, interrupts) in if run.thorough { [(1 << 20, false), (12, true)] } else { [(1 << 20, false), (6, true)] } {
        if run.stopped() {
            return;
        }
        let t0 = std::time::Instant::now();
        let next = AtomicUsize::new(0);
        let (st, tr, calls, done) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
        std::thread::scope(|sc| {
            for _ in 0..threads() {
                sc.spawn(|| {
                    guard::enter_thread();
                    let mut cx = Cx::new(false, run.var);
                    let km = protocol_mask::<H1P>(&mut cx, Start::Head);
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= docs.len() || run.stopped() || run.out_of_time() {
                            break;
                        }
                        let (a, b) = one_chain(run, &mut cx, &km, &docs[i], max, interrupts);
                        st.fetch_add(a, Ordering::Relaxed);
                        tr.fetch_add(b, Ordering::Relaxed);
                        done.fetch_add(1, Ordering::Relaxed);
                    }
                    calls.fetch_add(cx.calls, Ordering::Relaxed);
                    guard::leave_thread();
                });
            }
        });
        let done = done.load(Ordering::Relaxed);
        run.states.fetch_add(st.load(Ordering::Relaxed), Ordering::Relaxed);
        run.transitions.fetch_add(tr.load(Ordering::Relaxed), Ordering::Relaxed);
        run.calls.fetch_add(calls.load(Ordering::Relaxed), Ordering::Relaxed);
        run.traces.fetch_add(done, Ordering::Relaxed);
        if (done as usize) < docs.len() && !run.stopped() {
            run.cap();
        }
        run.sample(format!("connection: {}", docs[docs.len() / 3].phases.iter().map(|p| format!("{} \"{}\"", show_start(p.0), esc(&p.1))).collect::<Vec<_>>().join(" ")));
        run.space(format!("connections: {} of {} sequences of up to 4 messages, {} states, {} transitions, slices of up to {} bytes or the rest{} ({:.1}s)",
                          done, docs.len(), st.load(Ordering::Relaxed), tr.load(Ordering::Relaxed), max, if interrupts { ", every callback interrupted" } else { "" }, t0.elapsed().as_secs_f64()));
    }
}

// -------------------------------------------------------------------------------------------------
// Several parsers
// -------------------------------------------------------------------------------------------------

/// What one call showed.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Seen {
    out: Out,
    toks: Vec<Tok>,
    total: usize,
    state: u32,
}

/// One parser with its stream cut into slices.
trait Side {
    fn steps(&self) -> usize;
    fn reset(&mut self);
    fn step(&mut self, cx: &mut Cx, i: usize) -> Seen;
    fn text(&self) -> String;
}

struct One<X: Proto> {
    start: Start,
    slices: Vec<Vec<u8>>,
    p: Option<X::P>,
    clv: u8,
}

impl<X: Proto> One<X> {
    fn boxed(start: Start, doc: &[u8], cuts: &[usize]) -> Box<dyn Side>
    where X: 'static {
        let mut slices = Vec::new();
        let mut a = 0;
        for c in cuts.iter().copied().chain(std::iter::once(doc.len())) {
            let c = c.min(doc.len());
            slices.push(doc[a..c].to_vec());
            a = c;
        }
        Box::new(One::<X> { start, slices, p: None, clv: 0 })
    }
}

impl<X: Proto> Side for One<X> {
    fn steps(&self) -> usize {
        // creation, the slices, re-initialisation and the first slice again
        self.slices.len() + 3
    }

    fn reset(&mut self) {
        self.p = None;
        self.clv = 0;
    }

    fn step(&mut self, cx: &mut Cx, i: usize) -> Seen {
        let n = self.slices.len();
        if i == 0 {
            self.p = guard::call(b"", NONE, || X::make(self.start)).ok();
            self.clv = 0;
        }
        let p = match &mut self.p {
            Some(p) => p,
            None => return Seen { out: Out::Panic, toks: vec![], total: 0, state: 0 },
        };
        let mut out = Out::Eos(0);
        cx.rec.toks.clear();
        if i == n + 1 {
            let st = self.start;
            self.clv = 0;
            if guard::call(b"", NONE, || X::init(p, st, false)).is_err() {
                out = Out::Panic;
            }
        } else if i > 0 {
            let s = &self.slices[if i <= n { i - 1 } else { 0 }];
            let buf = cx.guard.place(s);
            cx.rec.start(buf.as_ptr(), buf.len(), NONE, self.clv);
            cx.calls += 1;
            let rec = &mut cx.rec;
            out = guard::call(buf, NONE, || X::resume(p, rec, buf)).unwrap_or(Out::Panic);
            self.clv = cx.rec.carry();
        }
        if out == Out::Panic {
            self.p = None;
            return Seen { out, toks: vec![], total: 0, state: 0 };
        }
        Seen { out, toks: cx.rec.toks.clone(), total: X::byte_count(p), state: X::st(p).0 }
    }

    fn text(&self) -> String {
        let v: Vec<String> = self.slices.iter().map(|s| format!("\"{}\"", esc(s))).collect();
        format!("{}: {}", show_start(self.start), v.join(" "))
    }
}

fn side(d: &(Start, Vec<u8>), cuts: &[usize]) -> Box<dyn Side> {
    if d.0 == Start::H2 { One::<H2P>::boxed(d.0, &d.1, cuts) } else { One::<H1P>::boxed(d.0, &d.1, cuts) }
}

pub fn sides() -> Vec<Vec<(Start, Vec<u8>)>> {
    let d = |s: Start, b: &str| (s, b.as_bytes().to_vec());
    let mut h2a = h2hdr(7, 1, 0x28, 3);
    h2a.extend_from_slice(&[1, 0x81, 2, 3, 4, 5, 0]);
    h2a.extend_from_slice(&h2hdr(8, 7, 0, 0));
    h2a.extend_from_slice(&[0x81, 2, 3, 4, 5, 6, 7, 8]);
    let mut h2b = h2hdr(3, 0, 8, 5);
    h2b.extend_from_slice(&[1, b'x', 0]);
    h2b.extend_from_slice(&h2hdr(6, 4, 0, 0));
    h2b.extend_from_slice(&[0, 3, 0x81, 2, 3, 4]);
    // frames of every type, all fields different
    let frames = |types: &[u8], base: u8| -> Vec<u8> {
        let mut v = vec![];
        let mut x = base;
        for t in types {
            let (flags, len): (u8, u32) = match *t { 0 => (8, 4), 1 => (0x28, 9), 2 => (0, 5), 3 => (0, 4), 4 => (0, 6), 5 => (8, 7), 6 => (0, 8), 7 => (0, 9), 8 => (0, 4), 9 => (0, 3), _ => (base, 3) };
            v.extend_from_slice(&h2hdr(len, *t, flags, 0x01020300 + x as u32));
            let padded = flags & 8 != 0 && *t < 10;
            for i in 0..len {
                x = x.wrapping_add(0x1d);
                v.push(if padded && i == 0 { 1 } else { x });
            }
        }
        v
    };
    // frames that are only begun, of lengths with three different bytes
    let begun = |ty: u8, x: u8| -> Vec<u8> {
        let mut v = h2hdr((x as u32) << 16 | (x as u32 + 1) << 8 | (x as u32 + 2), ty, if ty == 0 { 8 } else { 0 }, 0xf1f2f300 + x as u32);
        v.extend_from_slice(&[x + 3, x + 4]);
        v
    };
    let mut bad = h2hdr(2, 0, 8, 5);
    bad.extend_from_slice(&[9, 0]);
    vec![
        vec![d(Start::Head, "GET /a HTTP/1.1\r\nA: b\r\n\r\n"), d(Start::Head, "HTTP/2.0 404 Gone\r\nHost: \"q\\\"\"\r\n\r\n"), d(Start::New, "POST * HTTP/1.0\r\n\r\n"), d(Start::Head, "HTTP/1.x"),
             d(Start::Head, "HTTP/13.57 591 K o\r\nC:\td\r\n e\r\n\r\n"), d(Start::Head, "DELETE http://x HTTP/24.68\r\nDate: x\r\nE:f\r\n\r\n")],
        vec![d(Start::Chunked, "3;a=\"b\\\"\"\r\nabc\r\n0\r\nT: t\r\n\r\n"), d(Start::Chunked, "1f;C\r\nx"), d(Start::Chunked, "xyz"),
             d(Start::Chunked, "2;n=v;m\r\nde\r\n0;o=w\r\n\r\n"), d(Start::Chunked, "1;p\r\n\r\r\n7c4;=z\r\ny"), d(Start::Chunked, "fedcba98;q=r\r\nz")],
        vec![d(AB, "--ab\r\nA: b\r\n\r\nx\r\n--a\r\n--ab--"), d(Start::Multipart(b"b-c"), "--b-c\r\nA: 2\r\n\r\n\r\n\r\n--b-c--"), d(AB, "--aX"),
             d(AB, "--ab\r\nA: 3\r\n\r\n--a\r\n--ab\r\n\r\n\r\n--ab--"), d(Start::Multipart(b"-"), "---\r\nB: 1\r\n\r\ny\r\n-----")],
        vec![d(Start::Url(9), "a=%41&b+c"), d(Start::Url(4), "%zz="), d(Start::Url(5), "x;y=z"), d(Start::Url(14), "%72=%6b&s=%35+"), d(Start::Url(11), "%24+d&%53=%")],
        vec![(Start::H2, h2a), (Start::H2, h2b), (Start::H2, bad), (Start::H2, frames(&[0, 1], 3)), (Start::H2, frames(&[1, 0], 9)), (Start::H2, frames(&[2, 3], 3)), (Start::H2, frames(&[3, 2], 9)),
             (Start::H2, frames(&[4, 5], 3)), (Start::H2, frames(&[5, 4], 9)), (Start::H2, frames(&[6, 7], 3)), (Start::H2, frames(&[7, 6], 9)), (Start::H2, frames(&[8, 9, 10], 3)), (Start::H2, frames(&[10, 9, 8], 9)), (Start::H2, begun(0, 0x11)), (Start::H2, begun(77, 0x25))],
    ]
}

/// Two parsers, every interleaving of their calls: each sees what it sees when it is alone.
/// Pairs of streams and of utilities for parallel execution.
pub fn parallel(run: &Run) {
    use crate::step::*;
    let mut cases = Vec::new();
    let mut group = Vec::new();
    for (m, v) in sides().into_iter().enumerate() {
        for (i, (s, b)) in v.into_iter().enumerate() {
            for step in [0, 1] {
                cases.push(Case { what: What::Stream(s), bytes: b.clone(), step });
                group.push((m, i));
            }
        }
    }
    let mut pairs = Vec::new();
    for a in 0..cases.len() {
        for b in 0..cases.len() {
            if run.thorough || group[a].0 == group[b].0 || group[a].1 < 2 && group[b].1 < 2 {
                pairs.push((a, b));
            }
        }
    }
    crate::step::parallel(run, &cases, &pairs, H01, "H01");
}

pub fn interleavings(run: &Run) {
    let sides = sides();
    // documents of the same mode are all paired; of different modes, the first two of each
    let all: Vec<(usize, usize, (Start, Vec<u8>))> = sides.iter().enumerate().flat_map(|(m, v)| v.iter().enumerate().map(move |(i, d)| (m, i, d.clone()))).collect();
    let n = all.len();
    let pieces = if run.thorough { 3 } else { 2 };
    // every pair of documents, every cutting of both into `pieces` slices (one of them coarser)
    let mut cases: Vec<(usize, usize, Vec<usize>, Vec<usize>)> = Vec::new();
    for a in 0..n {
        for b in 0..n {
            if all[a].0 != all[b].0 && (all[a].1 > 1 || all[b].1 > 1) && !run.thorough {
                continue;
            }
            let (la, lb) = (all[a].2 .1.len(), all[b].2 .1.len());
            for i in 0..=la {
                for j in 0..=lb {
                    if pieces == 2 {
                        cases.push((a, b, vec![i], vec![j]));
                    } else {
                        cases.push((a, b, vec![i / 2, i], vec![j / 2, j]));
                    }
                }
            }
        }
    }
    let hist = AtomicU64::new(0);
    crate::numeric::par(run, &format!("two parsers side by side: every interleaving of their calls, streams in {} slices", pieces), cases.len() as u64, |cx, c| {
        let (a, b, ca, cb) = &cases[c as usize];
        let mut x = side(&all[*a].2, ca);
        let mut y = side(&all[*b].2, cb);
        let alone = |cx: &mut Cx, s: &mut Box<dyn Side>| -> Vec<Seen> {
            s.reset();
            (0..s.steps()).map(|i| s.step(cx, i)).collect()
        };
        with_context(run, all[*a].2 .0, Box::new(Vec::new), || {
            let (wx, wy) = (alone(cx, &mut x), alone(cx, &mut y));
            let (nx, ny) = (x.steps(), y.steps());
            // all merges, as bit patterns
            for bits in 0u32..1 << (nx + ny) {
                if bits.count_ones() as usize != nx {
                    continue;
                }
                x.reset();
                y.reset();
                let (mut i, mut j) = (0, 0);
                let mut order = String::new();
                hist.fetch_add(1, Ordering::Relaxed);
                for k in 0..nx + ny {
                    let first = bits >> k & 1 == 1;
                    order.push(if first { 'a' } else { 'b' });
                    let (got, want) = if first {
                        i += 1;
                        (x.step(cx, i - 1), &wx[i - 1])
                    } else {
                        j += 1;
                        (y.step(cx, j - 1), &wy[j - 1])
                    };
                    if got != *want {
                        let text = format!("parser {} behaves differently beside another parser\n  order of calls: {}\n  a is {}\n  b is {}\n  alone: {:?} {}\n  now: {:?} {}\n  violates: H01",
                                           if first { "a" } else { "b" }, order, x.text(), y.text(), want.out, show(&want.toks), got.out, show(&got.toks));
                        if run.mask & H01 != 0 {
                            run.violate(&text, "bulk");
                        } else {
                            run.other(H01, &text);
                        }
                        return;
                    }
                }
            }
        });
    });
    run.states.fetch_add(cases.len() as u64, Ordering::Relaxed);
    run.traces.fetch_add(hist.load(Ordering::Relaxed), Ordering::Relaxed);
    run.space(format!("interleavings executed: {}", hist.load(Ordering::Relaxed)));
    nested(run, &all);
    moved(run, &all);
}

fn differs(run: &Run, what: &str, x: &str, y: &str, want: &Seen, got: &Seen) {
    let text = format!("{}\n  a is {}\n  b is {}\n  alone: {:?} {} total {}\n  now: {:?} {} total {}\n  violates: H01",
                       what, x, y, want.out, show(&want.toks), want.total, got.out, show(&got.toks), got.total);
    if run.mask & H01 != 0 {
        run.violate(&text, "bulk");
    } else {
        run.other(H01, &text);
    }
}

/// One parser is used, and another one created, within a callback of the first.
fn nested(run: &Run, all: &[(usize, usize, (Start, Vec<u8>))]) {
    let mut cases: Vec<(usize, usize, usize, usize)> = Vec::new();
    for a in 0..all.len() {
        for b in 0..all.len() {
            let near = all[a].0 == all[b].0 || run.thorough;
            let (la, lb) = (all[a].2 .1.len(), all[b].2 .1.len());
            for i in 0..=la {
                for j in 0..=lb {
                    if near || (i == 0 && j == 0) || (i == la / 2 && j == lb / 2) {
                        cases.push((a, b, i, j));
                    }
                }
            }
        }
    }
    let hist = AtomicU64::new(0);
    crate::numeric::par(run, "one parser within every callback of another, the streams of both cut anywhere", cases.len() as u64, |cx, c| {
        let (a, b, i, j) = cases[c as usize];
        let mut x = side(&all[a].2, &[i]);
        let mut y = side(&all[b].2, &[j]);
        // the second parser has a buffer of its own
        thread_local!(static INNER: std::cell::RefCell<Option<Cx>> = const { std::cell::RefCell::new(None) });
        let mut inner = INNER.with(|c| c.borrow_mut().take()).unwrap_or_else(|| Cx::new(false, run.var));
        with_context(run, all[a].2 .0, Box::new(Vec::new), || {
            let (wx, calls) = {
                x.reset();
                let mut v = Vec::new();
                let mut calls = Vec::new();
                for n in 0..x.steps() {
                    cx.rec.ncb = 0;
                    v.push(x.step(cx, n));
                    calls.push(cx.rec.ncb);
                }
                (v, calls)
            };
            y.reset();
            let wy: Vec<Seen> = (0..y.steps()).map(|n| y.step(cx, n)).collect();
            // within callback k of step n of the first, steps from..to of the second are made; it is
            // created and fed its first slice before the first, or all within the callback
            for n in 1..3 {
                for k in 0..calls[n] {
                    for from in [0, 2] {
                        hist.fetch_add(1, Ordering::Relaxed);
                        x.reset();
                        y.reset();
                        let mut gy: Vec<Seen> = Vec::new();
                        let mut gx: Vec<Seen> = Vec::new();
                        for m in 0..from {
                            gy.push(y.step(&mut inner, m));
                        }
                        for m in 0..x.steps() {
                            if m == n {
                                let mut f = || {
                                    for m in from..y.steps() {
                                        let s = y.step(&mut inner, m);
                                        gy.push(s);
                                    }
                                };
                                let p: *mut (dyn FnMut() + '_) = &mut f;
                                let p: *mut (dyn FnMut() + 'static) = unsafe { std::mem::transmute(p) };
                                cx.rec.within = Some((k, Within(p)));
                                gx.push(x.step(cx, m));
                                cx.rec.within = None;
                            } else {
                                gx.push(x.step(cx, m));
                            }
                        }
                        for (g, w) in gx.iter().zip(&wx) {
                            if g != w {
                                return differs(run, &format!("parser a behaves differently when parser b is used within its callback {}", k), &x.text(), &y.text(), w, g);
                            }
                        }
                        if gy.len() != wy.len() {
                            return differs(run, "a callback is missing when another parser is used in between", &x.text(), &y.text(), &wx[n], &gx[n]);
                        }
                        for (g, w) in gy.iter().zip(&wy) {
                            if g != w {
                                return differs(run, &format!("parser b behaves differently within callback {} of parser a", k), &x.text(), &y.text(), w, g);
                            }
                        }
                    }
                }
            }
        });
        INNER.with(|c| *c.borrow_mut() = Some(inner));
    });
    run.traces.fetch_add(hist.load(Ordering::Relaxed), Ordering::Relaxed);
    run.space(format!("nested uses executed: {}", hist.load(Ordering::Relaxed)));
}

struct Moved<T>(T);
unsafe impl<T> Send for Moved<T> {}

/// Every step of a parser on another thread, on which another parser was used before.
fn moved(run: &Run, all: &[(usize, usize, (Start, Vec<u8>))]) {
    let mut cases: Vec<(usize, usize)> = Vec::new();
    for a in 0..all.len() {
        for i in 0..=all[a].2 .1.len() {
            if run.thorough || all[a].1 < 6 || i % 3 == 0 {
                cases.push((a, i));
            }
        }
    }
    crate::numeric::par(run, "every call of a parser on another thread", cases.len() as u64, |cx, c| {
        let (a, i) = cases[c as usize];
        let mut x = side(&all[a].2, &[i]);
        x.reset();
        let wx: Vec<Seen> = (0..x.steps()).map(|n| x.step(cx, n)).collect();
        x.reset();
        let mut gx: Vec<Seen> = Vec::new();
        let var = run.var;
        for n in 0..x.steps() {
            let m = Moved(&mut x);
            let g = std::thread::scope(|sc| {
                sc.spawn(move || {
                    let m = m;
                    guard::enter_thread();
                    let mut cx = Cx::new(false, var);
                    let g = m.0.step(&mut cx, n);
                    guard::leave_thread();
                    g
                }).join().unwrap()
            });
            gx.push(g);
        }
        for (g, w) in gx.iter().zip(&wx) {
            if g != w {
                return differs(run, "a parser behaves differently when every call is made on another thread", &x.text(), "none", w, g);
            }
        }
    });
}
