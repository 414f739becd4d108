//! Exhaustive enumeration of inputs of the utilities (decoder, query and field iterator, byte classes,
//! HTTP/2 registries) against reference automata.

use crate::explore::*;
use crate::guard::{self, Describe, Guard};
use crate::model::*;
use crate::tok::esc;
use http_box::util::{decode, DecodeError, FieldError, FieldIterator, QueryError, QueryIterator};
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

pub type Pair = (Vec<u8>, Option<Vec<u8>>);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum UErr {
    /// decoder
    Byte(u8),
    Hex(u8),
    /// iterators
    Name(u8),
    Value(u8),
}

/// What a utility must deliver for an input.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Want {
    pub pairs: Vec<Pair>,
    pub err: Option<UErr>,
    /// The error is about invalid UTF-8.
    pub utf8: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tool {
    Decode,
    Query,
    Field(u8, bool),
}

impl Tool {
    pub fn show(&self) -> String {
        match self {
            Tool::Decode => "decode".into(),
            Tool::Query => "query".into(),
            Tool::Field(d, n) => format!("field {:02x} {}", d, *n as u8),
        }
    }
    pub fn main_prop(&self) -> u64 {
        match self {
            Tool::Decode => F01,
            Tool::Query => F02,
            Tool::Field(..) => F03,
        }
    }
}

// -------------------------------------------------------------------------------------------------
// Reference automata
// -------------------------------------------------------------------------------------------------

/// The first byte that makes `s` invalid UTF-8, by the definition of well-formed sequences.
pub fn bad_utf8(s: &[u8]) -> Option<u8> {
    let mut i = 0;
    while i < s.len() {
        let b = s[i];
        let (n, lo, hi) = match b {
            0..=0x7f => (0, 0, 0),
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xe1..=0xec | 0xee | 0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return Some(b),
        };
        for k in 1..=n {
            let ok = match s.get(i + k) {
                Some(c) if k == 1 => *c >= lo && *c <= hi,
                Some(c) => *c >= 0x80 && *c <= 0xbf,
                None => false,
            };
            if !ok {
                // the sequence starting here is not valid
                return Some(b);
            }
        }
        i += n + 1;
    }
    None
}

/// Reads the escape after the percent sign at `i`.
fn escape(s: &[u8], i: usize) -> Result<u8, u8> {
    let rest = &s[i + 1..];
    if rest.len() < 2 {
        return Err(*rest.first().unwrap_or(&b'%'));
    }
    let h = hexv(rest[0]).ok_or(rest[0])?;
    let l = hexv(rest[1]).ok_or(rest[1])?;
    Ok(h << 4 | l)
}

pub fn want_decode(s: &[u8]) -> Want {
    let mut out = Vec::new();
    let mut i = 0;
    let bad = |e, utf8| Want { pairs: vec![], err: Some(e), utf8 };
    while i < s.len() {
        match s[i] {
            b'+' => out.push(b' '),
            b'%' => match escape(s, i) {
                Ok(b) => {
                    out.push(b);
                    i += 2;
                }
                Err(b) => return bad(UErr::Hex(b), false),
            },
            b if is_visible(b) => out.push(b),
            b => return bad(UErr::Byte(b), false),
        }
        i += 1;
    }
    match bad_utf8(&out) {
        Some(b) => bad(UErr::Byte(b), true),
        None => Want { pairs: vec![(out, None)], err: None, utf8: false },
    }
}

fn emit(w: &mut Want, name: &[u8], value: Option<&[u8]>) -> bool {
    if let Some(b) = bad_utf8(name) {
        w.err = Some(UErr::Name(b));
        w.utf8 = true;
        return false;
    }
    if let Some(v) = value {
        if let Some(b) = bad_utf8(v) {
            w.err = Some(UErr::Value(b));
            w.utf8 = true;
            return false;
        }
    }
    w.pairs.push((name.to_vec(), value.map(|v| v.to_vec())));
    true
}

pub fn want_query(s: &[u8]) -> Want {
    let mut w = Want { pairs: vec![], err: None, utf8: false };
    let mut i = 0;
    while i < s.len() {
        let mut name = Vec::new();
        let mut value: Option<Vec<u8>> = None;
        loop {
            if i == s.len() {
                break;
            }
            let b = s[i];
            match b {
                b'%' => match escape(s, i) {
                    Ok(x) => {
                        value.as_mut().unwrap_or(&mut name).push(x);
                        i += 2;
                    }
                    Err(x) => {
                        w.err = Some(if value.is_some() { UErr::Value(x) } else { UErr::Name(x) });
                        return w;
                    }
                },
                b'+' => value.as_mut().unwrap_or(&mut name).push(b' '),
                b'=' if value.is_none() => {
                    if i == 0 {
                        w.err = Some(UErr::Name(b));
                        return w;
                    }
                    value = Some(vec![]);
                }
                b'&' | b';' => {
                    if i == 0 {
                        w.err = Some(UErr::Name(b));
                        return w;
                    }
                    i += 1;
                    break;
                }
                _ if is_visible(b) => value.as_mut().unwrap_or(&mut name).push(b),
                _ => {
                    w.err = Some(if value.is_some() { UErr::Value(b) } else { UErr::Name(b) });
                    return w;
                }
            }
            i += 1;
        }
        if !emit(&mut w, &name, value.as_deref()) {
            return w;
        }
    }
    w
}

pub fn want_field(s: &[u8], delim: u8, norm: bool) -> Want {
    let mut w = Want { pairs: vec![], err: None, utf8: false };
    let mut i = 0;
    let ws = |b: u8| b == b' ' || b == b'\t';
    while i < s.len() {
        while i < s.len() && ws(s[i]) {
            i += 1;
        }
        if i == s.len() {
            return w;
        }
        // name
        let mut name = Vec::new();
        let mut has_value = false;
        while i < s.len() {
            let b = s[i];
            i += 1;
            if b == b'=' {
                has_value = true;
                break;
            } else if b == delim {
                break;
            } else if is_token(b) || b == b'/' {
                name.push(if norm { b.to_ascii_lowercase() } else { b });
            } else {
                w.err = Some(UErr::Name(b));
                return w;
            }
        }
        if has_value {
            while i < s.len() && ws(s[i]) {
                i += 1;
            }
            if i == s.len() {
                has_value = false;
            }
        }
        if !has_value {
            if !emit(&mut w, &name, None) {
                return w;
            }
            continue;
        }
        let mut value = Vec::new();
        if s[i] == b'"' {
            i += 1;
            loop {
                if i == s.len() {
                    w.err = Some(UErr::Value(s[i - 1]));
                    return w;
                }
                let b = s[i];
                i += 1;
                if b == b'"' {
                    break;
                } else if b == b'\\' {
                    if i == s.len() {
                        w.err = Some(UErr::Value(b));
                        return w;
                    }
                    value.push(s[i]);
                    i += 1;
                } else if is_quoted_field(b) {
                    value.push(b);
                } else {
                    w.err = Some(UErr::Value(b));
                    return w;
                }
            }
            while i < s.len() && ws(s[i]) {
                i += 1;
            }
            if i < s.len() {
                let b = s[i];
                i += 1;
                if b != delim {
                    w.err = Some(UErr::Value(b));
                    return w;
                }
            }
        } else {
            while i < s.len() {
                let b = s[i];
                i += 1;
                if b == delim {
                    break;
                } else if is_field(b) {
                    value.push(b);
                } else {
                    w.err = Some(UErr::Value(b));
                    return w;
                }
            }
        }
        if !emit(&mut w, &name, Some(&value)) {
            return w;
        }
    }
    w
}

pub fn want(t: Tool, s: &[u8]) -> Want {
    match t {
        Tool::Decode => want_decode(s),
        Tool::Query => want_query(s),
        Tool::Field(d, n) => want_field(s, d, n),
    }
}

// -------------------------------------------------------------------------------------------------
// Real code
// -------------------------------------------------------------------------------------------------

pub struct Got {
    pub pairs: Vec<Pair>,
    pub errs: Vec<UErr>,
    /// The iterator still yields entries after a bound no input of this size allows.
    pub endless: bool,
    /// Entries yielded after the end.
    pub late: usize,
    pub errs_at_end: usize,
}

fn drain<I: Iterator<Item = (String, Option<String>)>>(mut it: I, n: usize, errs: &Rc<RefCell<Vec<UErr>>>) -> Got {
    let mut g = Got { pairs: vec![], errs: vec![], endless: false, late: 0, errs_at_end: 0 };
    loop {
        match it.next() {
            Some((a, b)) => g.pairs.push((a.into_bytes(), b.map(|x| x.into_bytes()))),
            None => break,
        }
        if g.pairs.len() > n + 2 {
            g.endless = true;
            break;
        }
    }
    g.errs_at_end = errs.borrow().len();
    for _ in 0..3 {
        if it.next().is_some() {
            g.late += 1;
        }
    }
    g.errs = errs.borrow().clone();
    g
}

pub fn run_tool(t: Tool, s: &'static [u8]) -> Got {
    match t {
        Tool::Decode => {
            let mut g = Got { pairs: vec![], errs: vec![], endless: false, late: 0, errs_at_end: 0 };
            match decode(s) {
                Ok(x) => g.pairs.push((x.into_bytes(), None)),
                Err(DecodeError::Byte(b)) => g.errs.push(UErr::Byte(b)),
                Err(DecodeError::HexSequence(b)) => g.errs.push(UErr::Hex(b)),
            }
            g.errs_at_end = g.errs.len();
            g
        }
        Tool::Query => {
            let errs = Rc::new(RefCell::new(Vec::new()));
            let e2 = errs.clone();
            let mut it = QueryIterator::new(s);
            it.on_error(move |e| {
                e2.borrow_mut().push(match e {
                    QueryError::Name(b) => UErr::Name(b),
                    QueryError::Value(b) => UErr::Value(b),
                })
            });
            drain(it, s.len(), &errs)
        }
        Tool::Field(d, n) => {
            let errs = Rc::new(RefCell::new(Vec::new()));
            let e2 = errs.clone();
            let mut it = FieldIterator::new(s, d, n);
            it.on_error(move |e| {
                e2.borrow_mut().push(match e {
                    FieldError::Name(b) => UErr::Name(b),
                    FieldError::Value(b) => UErr::Value(b),
                })
            });
            drain(it, s.len(), &errs)
        }
    }
}

fn show_pairs(p: &[Pair]) -> String {
    p.iter().map(|(a, b)| match b {
        Some(b) => format!("(\"{}\", \"{}\")", esc(a), esc(b)),
        None => format!("(\"{}\")", esc(a)),
    }).collect::<Vec<_>>().join(" ")
}

struct UNow<'a> {
    run: &'a Run,
    tool: std::cell::Cell<Tool>,
}

impl<'a> Describe for UNow<'a> {
    fn fatal(&self, what: &str, chunk: &[u8], _: u32) -> String {
        let t = self.tool.get();
        violation_text(&self.run.prop, &format!("{} of \"{}\" {}", t.show(), esc(chunk), what),
                       &format!("util {} {}", t.show(), if chunk.is_empty() { "-".into() } else { hex(chunk) }))
    }
}

pub struct Worker<'a> {
    run: &'a Run,
    guard: Guard,
    now: Box<UNow<'a>>,
    outcomes: HashSet<u64>,
    bytes: u64,
    inputs: u64,
}

impl<'a> Worker<'a> {
    pub fn new(run: &'a Run) -> Worker<'a> {
        Worker {
            run,
            guard: Guard::new(1 << 22),
            now: Box::new(UNow { run, tool: std::cell::Cell::new(Tool::Decode) }),
            outcomes: HashSet::new(),
            bytes: 0,
            inputs: 0,
        }
    }

    /// Execute one input at several alignments.
    pub fn aligned(&mut self, t: Tool, s: &[u8], gaps: usize) {
        for gap in 0..gaps {
            self.guard.gap.set(gap);
            if !self.check(t, s) {
                break;
            }
        }
        self.guard.gap.set(0);
    }

    /// Execute one input and compare. Returns false on a mismatch.
    pub fn check(&mut self, t: Tool, s: &[u8]) -> bool {
        let w = want(t, s);
        self.inputs += 1;
        self.bytes += s.len() as u64;
        if self.outcomes.len() < 2_000_000 {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            w.hash(&mut h);
            t.main_prop().hash(&mut h);
            self.outcomes.insert(h.finish());
        }
        self.now.tool.set(t);
        let d: *const (dyn Describe + '_) = &*self.now;
        guard::describe_with(Some(unsafe {
            std::mem::transmute::<*const (dyn Describe + '_), *const (dyn Describe + 'static)>(d)
        }));
        let buf = self.guard.place(s);
        let r = guard::call(buf, 0, || run_tool(t, buf));
        guard::describe_with(None);
        let iter = t != Tool::Decode;
        let fin = if iter { F04 } else { 0 };
        let main = t.main_prop();
        let (mask, text) = match r {
            Err(()) => (main | fin | if w.utf8 { F05 } else { 0 }, "it panics".to_string()),
            Ok(g) => {
                let mut mask = 0;
                let mut text = String::new();
                let mut add = |m: u64, t: String| {
                    if text.is_empty() {
                        text = t;
                    }
                    mask |= m;
                };
                let texts = g.pairs.iter().flat_map(|(a, b)| std::iter::once(a).chain(b.iter()));
                for x in texts {
                    if bad_utf8(x).is_some() || std::str::from_utf8(x).is_err() {
                        add(F05 | main, format!("the text \"{}\" is not valid UTF-8", esc(x)));
                    }
                }
                if g.endless {
                    add(fin, "it does not end".into());
                }
                if g.late > 0 {
                    add(fin, format!("it yields {} more entries after its end", g.late));
                }
                if g.errs.len() > g.errs_at_end {
                    add(fin, "it reports an error again after its end".into());
                }
                let errs = &g.errs[..g.errs_at_end.min(g.errs.len())];
                let want_errs: Vec<UErr> = w.err.iter().copied().collect();
                if errs != &want_errs[..] {
                    // for well-formed input the entries are missing as well
                    let m = if iter { F04 } else { F01 };
                    let m = if w.err.is_none() { m | main } else { m };
                    let m = if w.utf8 { m | F05 } else { m };
                    // an accepted malformed escape contradicts the other decoders
                    let m = if w.err.is_some() && errs.is_empty() && !w.utf8 { m | F06 } else { m };
                    add(m, format!("it reports {:?} instead of {:?}", errs, want_errs));
                }
                if g.pairs != w.pairs {
                    let m = if w.err.is_some() {
                        if iter { F04 } else { F01 }
                    } else {
                        main
                    };
                    let m = if g.pairs.len() != w.pairs.len() { m | fin } else { m };
                    add(m, format!("it yields {} instead of {}", show_pairs(&g.pairs), show_pairs(&w.pairs)));
                }
                if mask == 0 {
                    return true;
                }
                (mask, text)
            }
        };
        let text = format!("{} of \"{}\": {}\n  violates: {}", t.show(), esc(s), text, mask_names(mask));
        let replay = format!("util {} {}", t.show(), if s.is_empty() { "-".into() } else { hex(s) });
        if mask & self.run.mask != 0 {
            self.run.violate(&text, &replay);
        } else {
            self.run.other(mask, &text);
        }
        false
    }
}

impl<'a> Drop for Worker<'a> {
    fn drop(&mut self) {
        let run = self.run;
        run.transitions.fetch_add(self.bytes, Ordering::Relaxed);
        run.traces.fetch_add(self.inputs, Ordering::Relaxed);
        let mut o = run.outcomes.lock().unwrap();
        o.extend(self.outcomes.iter().copied());
    }
}

/// Run `f` for every index below `n` on all cores.
pub fn par<F: Fn(&mut Worker, u64) + Sync>(run: &Run, name: &str, n: u64, f: F) {
    if run.stopped() {
        return;
    }
    let t0 = std::time::Instant::now();
    let next = AtomicU64::new(0);
    let block = (n / 4096).clamp(1, 4096);
    let done = AtomicUsize::new(0);
    let tr0 = run.traces.load(Ordering::Relaxed);
    std::thread::scope(|sc| {
        for _ in 0..threads() {
            sc.spawn(|| {
                guard::enter_thread();
                let mut w = Worker::new(run);
                loop {
                    let i = next.fetch_add(block, Ordering::Relaxed);
                    if i >= n || run.stopped() || run.out_of_time() {
                        break;
                    }
                    for j in i..(i + block).min(n) {
                        f(&mut w, j);
                        if run.stopped() {
                            break;
                        }
                    }
                    done.fetch_add(((i + block).min(n) - i) as usize, Ordering::Relaxed);
                }
                drop(w);
                guard::leave_thread();
            });
        }
    });
    let done = done.load(Ordering::Relaxed) as u64;
    if done < n && !run.stopped() {
        run.cap();
    }
    run.space(format!("{}: {} of {} cases, {} executions ({:.1}s)", name, done, n,
                      run.traces.load(Ordering::Relaxed) - tr0, t0.elapsed().as_secs_f64()));
}

/// The string number `i` over `alpha` in order of length.
pub fn nth(alpha: &[u8], mut i: u64, out: &mut Vec<u8>) {
    out.clear();
    let k = alpha.len() as u64;
    let mut n = 0;
    let mut c = 1;
    while i >= c {
        i -= c;
        c *= k;
        n += 1;
    }
    for _ in 0..n {
        out.push(alpha[(i % k) as usize]);
        i /= k;
    }
}

pub fn count(alpha: &[u8], len: u32) -> u64 {
    (0..=len).map(|n| (alpha.len() as u64).pow(n)).sum()
}

fn all_strings(run: &Run, t: Tool, alpha: &[u8], len: u32) {
    par(run, &format!("{} of all strings up to {} bytes over \"{}\"", t.show(), len, esc(alpha)), count(alpha, len), |w, i| {
        let mut v = Vec::with_capacity(16);
        nth(alpha, i, &mut v);
        w.check(t, &v);
    });
}

/// Every one-byte replacement and insertion in the given texts.
fn substitutions(run: &Run, tools: &[Tool], texts: &[Vec<u8>]) {
    par(run, "one-byte replacements (at 8 alignments), insertions and deletions in sample texts", texts.len() as u64, |w, i| {
        let s = &texts[i as usize];
        for t in tools {
            w.check(*t, s);
            for p in 0..=s.len() {
                w.check(*t, &s[..p]);
                for b in 0..=255u8 {
                    let mut v = s.clone();
                    v.insert(p, b);
                    w.check(*t, &v);
                    if p < s.len() {
                        let mut v = s.clone();
                        v[p] = b;
                        w.aligned(*t, &v, 8);
                    }
                }
                if p < s.len() {
                    let mut v = s.clone();
                    v.remove(p);
                    w.check(*t, &v);
                }
            }
        }
    });
}

/// Every combination of two one-byte replacements.
fn substitutions2(run: &Run, tools: &[Tool], s: &[u8]) {
    let n = s.len();
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect();
    par(run, "two-byte replacements in a sample text", pairs.len() as u64 * 256, |w, i| {
        let (a, b) = pairs[(i / 256) as usize];
        let mut v = s.to_vec();
        v[a] = (i % 256) as u8;
        for y in 0..=255u8 {
            v[b] = y;
            for t in tools {
                w.check(*t, &v);
            }
        }
    });
}

const UTF8_CLASSES: [u8; 26] = [
    0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xaf, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee,
    0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff,
];

fn pct(v: &mut Vec<u8>, b: u8, lower: bool) {
    let d = if lower { b"0123456789abcdef" } else { b"0123456789ABCDEF" };
    v.push(b'%');
    v.push(d[(b >> 4) as usize]);
    v.push(d[(b & 15) as usize]);
}

fn utf8(run: &Run, depth: u32) {
    let mut all: Vec<u8> = UTF8_CLASSES.to_vec();
    all.sort();
    par(run, &format!("UTF-8: all sequences of up to {} bytes of the classes that matter, escaped and raw", depth), count(&all, depth), |w, i| {
        let mut s = Vec::new();
        nth(&all, i, &mut s);
        let mut e = Vec::new();
        for b in &s {
            pct(&mut e, *b, i & 1 == 0);
        }
        w.check(Tool::Decode, &e);
        w.check(Tool::Query, &e);
        let mut q = b"n=".to_vec();
        q.extend_from_slice(&e);
        q.extend_from_slice(b"&m");
        w.check(Tool::Query, &q);
        let mut q = b"k=v;".to_vec();
        q.extend_from_slice(&e);
        q.extend_from_slice(b"=v&w");
        w.check(Tool::Query, &q);
        for (pre, post) in [(&b"a="[..], &b""[..]), (b"a=x", b";b"), (b"a=\"", b"\""), (b"k;a=\"", b"\" ; b=c")] {
            let mut f = pre.to_vec();
            f.extend_from_slice(&s);
            f.extend_from_slice(post);
            w.check(Tool::Field(b';', true), &f);
            w.check(Tool::Field(b';', false), &f);
        }
        let mut f = b"a=\"".to_vec();
        for b in &s {
            f.push(b'\\');
            f.push(*b);
        }
        f.push(b'"');
        w.check(Tool::Field(b';', true), &f);
    });
    // all sequences of two arbitrary bytes
    par(run, "UTF-8: all sequences of two bytes", 65536, |w, i| {
        let (a, b) = ((i >> 8) as u8, i as u8);
        let mut e = Vec::new();
        pct(&mut e, a, true);
        pct(&mut e, b, false);
        w.check(Tool::Decode, &e);
        w.check(Tool::Query, &e);
        e.splice(0..0, b"a=".iter().copied());
        w.check(Tool::Query, &e);
        w.check(Tool::Field(b';', false), &[b'a', b'=', a, b]);
        w.check(Tool::Field(b';', false), &[b'a', b'=', b'"', a, b, b'"']);
        w.check(Tool::Field(b';', false), &[a, b]);
    });
}

fn escapes(run: &Run, tools: &[Tool]) {
    par(run, "all 65536 escapes, alone, in the middle, at the end and cut off", 65536, |w, i| {
        let e = [b'%', (i >> 8) as u8, i as u8];
        for t in tools {
            for (pre, post) in [(&b""[..], &b""[..]), (b"a", b"b"), (b"a=", b""), (b"a=b", b"c&d"), (b"a;", b"=x"), (b"%41", b"%42+")] {
                let mut v = pre.to_vec();
                v.extend_from_slice(&e);
                v.extend_from_slice(post);
                w.check(*t, &v);
            }
            if i & 255 == 0 {
                w.check(*t, &e[..2]);
                w.check(*t, &[b'a', b'=', e[0], e[1]]);
                w.check(*t, &[b'a', e[0], e[1]]);
            }
        }
    });
}

/// Elements of all lengths up to 300 and around powers of two, at every kind of place.
fn long(run: &Run, tools: &[Tool]) {
    let mut ns: Vec<usize> = (0..=300).collect();
    for e in 9..=if run.thorough { 17 } else { 16 } {
        ns.extend((1usize << e) - 2..=(1usize << e) + 2);
    }
    par(run, "elements of 0..300 bytes (at 16 alignments) and around powers of two up to 2^16", ns.len() as u64, |w, i| {
        let n = ns[i as usize];
        let rep = |x: &[u8]| -> Vec<u8> { x.iter().copied().cycle().take(x.len() * n).collect() };
        // all 26 letters, so that a shifted copy shows
        let abc: Vec<u8> = (0..n).map(|k| b'a' + (k % 26) as u8).collect();
        let cat = |v: &[&[u8]]| v.concat();
        for t in tools {
            let docs: Vec<Vec<u8>> = match t {
                Tool::Decode => vec![
                    abc.clone(), cat(&[&abc, b"%41"]), cat(&[&abc, b"%4"]), cat(&[&abc, b"%"]), cat(&[&abc, b"%zz", &abc]), cat(&[&abc, b"+", &abc]),
                    rep(b"+"), rep(b"%41"), rep(b"%c3%A9"), rep(b"a%2b+"), cat(&[&abc, b" ", &abc]), cat(&[b"%41", &abc, b"\xc3"]), cat(&[&abc, b"%C3%a9"]), cat(&[&abc, b"%e2%82"]),
                ],
                Tool::Query => vec![
                    abc.clone(), cat(&[&abc, b"=b"]), cat(&[b"a=", &abc]), cat(&[b"a=", &abc, b"&", &abc, b"=d"]), cat(&[&abc, b";", &abc, b"&c=", &abc]), rep(b"a&"), rep(b"a=b;"), rep(b"ab=%41+&"),
                    cat(&[b"a=", &rep(b"%41")]), cat(&[b"x", &rep(b"%41"), b"=y"]), cat(&[b"a=", &rep(b"+")]), cat(&[b"a", &rep(b"+"), b"=+"]), cat(&[b"a=", &abc, b"%4"]), cat(&[b"a=", &abc, b"%"]),
                    cat(&[&abc, b"%z"]), cat(&[&abc, b"%", b"4"]), cat(&[b"a=", &abc, b"\x80b&c"]), cat(&[b"k&", &abc, b"\x01b=c"]), cat(&[b"a=", &rep(b"=")]), cat(&[&rep(b"a=b&"), b"%"]), cat(&[&rep(b"a&"), b"="]),
                ],
                Tool::Field(d, _) => {
                    let d = &[*d][..];
                    let up: Vec<u8> = abc.iter().map(|b| b - 32).collect();
                    vec![
                        abc.clone(), up.clone(), cat(&[&up, b"=", &up]), cat(&[&abc, b"=\"", &abc, b"\"", d, &up]), cat(&[b"a=", &abc, d, &abc, b"=b"]), cat(&[&rep(b" "), b"a=b"]), cat(&[b"a=", &rep(b" "), b"b", d, &rep(b"\t"), b"c"]),
                        cat(&[b"a=\"b\"", &rep(b" "), d, b"c"]), cat(&[b"a=\"", &rep(b"\\\""), b"\""]), cat(&[b"a=\"", &rep(b"x\\y"), b"\"", d, b"b"]), rep(&cat(&[b"aB=c", d])), rep(&cat(&[b"a", d])), rep(&cat(&[b"a=\"q\"", d])),
                        cat(&[b"a=\"", &abc]), cat(&[b"a=\"", &abc, b"\\"]), cat(&[b"a=", &abc, b"\x01"]), cat(&[&abc, b"\x01", d, b"b"]), cat(&[&rep(&cat(&[b"a=b", d])), b"\x02"]), cat(&[&abc, b"/", &up, b"/", d, b"c"]), cat(&[b"a=\"", &abc, b"\"x"]),
                    ]
                }
            };
            // repeated pieces, with an error or another piece at the end
            let units: &[&[u8]] = match t {
                Tool::Field(..) => &[b"x", b"\\\"", b"\xc3\xa9", b" ", b"\\x"],
                _ => &[b"x", b"%41", b"+", b"%C3%A9", b"a%41"],
            };
            let (befores, tails): (&[&[u8]], &[&[u8]]) = match t {
                Tool::Decode => (&[b""], &[b"%c3", b"%4", b"%zz", b"\xc3", b" ", b"%41"]),
                Tool::Query => (&[b"", b"a="], &[b"%c3", b"%4", b"%zz", b"\xc3", b" ", b"%41", b"&b=c", b"%c3&b"]),
                Tool::Field(..) => (&[b"a=\"", b"a="], &[b"\xc3\"", b"\"", b"\x01", b"\xc3", b"\\\"\"", b"\xff;b"]),
            };
            let mut docs = docs;
            if n <= 300 || n.is_power_of_two() {
                for u in units {
                    let r = rep(u);
                    for b in befores {
                        docs.extend(tails.iter().map(|e| cat(&[b, &r, e])));
                    }
                }
            }
            for d in docs {
                w.aligned(*t, &d, if n <= 300 { 16 } else { 1 });
            }
        }
    });
}

/// Every byte as delimiter.
fn delimiters(run: &Run) {
    let list: Vec<u8> = (0..=255u8).filter(|b| !b.is_ascii_alphanumeric() && !b"=\"\\ \t/".contains(b)).collect();
    par(run, "every delimiter byte", list.len() as u64 * 2, |w, i| {
        let d = list[(i / 2) as usize];
        let t = Tool::Field(d, i % 2 == 1);
        for n in 0..count(&[b'A', b'=', b'"', b' ', d], 6) {
            let mut v = Vec::new();
            nth(&[b'A', b'=', b'"', b' ', d], n, &mut v);
            w.check(t, &v);
        }
    });
}

fn samples(t: Tool) -> Vec<Vec<u8>> {
    let v: &[&[u8]] = match t {
        Tool::Decode => &[b"", b"a", b"a%20b+c", b"%e2%82%ac", b"abcdefghijklmnopqrstuvwxyz%41", b"%", b"++%2b"],
        Tool::Query => &[b"", b"a=b", b"a=b&c=d;e", b"a%20b=c+d&%41=%42", b"name=value&name2=value2&x", b"a=b=c", b"a&&b;;=c", b"a=&b="],
        Tool::Field(..) => &[
            b"", b"a=b", b"a=b; c=d", b"A=\"q\\\"r\" ; B=c,d", b"text/html; charset=utf-8", b"name=\"a b\";name2=\"c\",x",
            b"a;b ; c", b"a = b", b"a= \"b\"\t;c", b"a=\"\\\\\"", b"a=\"b", b"COMPRESSION=bzip; BOUNDARY=\"longrandomboundarystring\"",
        ],
    };
    v.iter().map(|x| x.to_vec()).collect()
}

fn fields() -> Vec<Tool> {
    let mut v = Vec::new();
    for d in [b';', b',', b'&'] {
        for n in [true, false] {
            v.push(Tool::Field(d, n));
        }
    }
    v
}

pub fn check_utils(run: &Run, id: &str) {
    let th = run.thorough;
    let dec = || {
        all_strings(run, Tool::Decode, b"a+%2fG \xc3", if th { 9 } else { 7 });
        all_strings(run, Tool::Decode, b"%0aF", if th { 12 } else { 10 });
        long(run, &[Tool::Decode]);
        substitutions(run, &[Tool::Decode], &samples(Tool::Decode));
        substitutions2(run, &[Tool::Decode], b"a%2b+%C3%A9z");
        escapes(run, &[Tool::Decode]);
    };
    let que = || {
        all_strings(run, Tool::Query, b"a=&;%+4G", if th { 9 } else { 7 });
        all_strings(run, Tool::Query, b"a=&%41", if th { 11 } else { 8 });
        long(run, &[Tool::Query]);
        substitutions(run, &[Tool::Query], &samples(Tool::Query));
        substitutions2(run, &[Tool::Query], b"ab=%4e&+=%C3%A9;z");
        escapes(run, &[Tool::Query]);
    };
    let fld = || {
        for t in fields() {
            all_strings(run, t, b"aA=;\"\\ ,/\x01\xc3", if th { 8 } else { 6 });
        }
        for t in [Tool::Field(b';', true), Tool::Field(b';', false)] {
            all_strings(run, t, b"A=;\"\\\t", if th { 10 } else { 8 });
        }
        long(run, &fields()[..3]);
        delimiters(run);
        substitutions(run, &fields(), &samples(Tool::Field(b';', true)));
        substitutions2(run, &fields()[..2], b"a=\"b\\\"c\" ; D/e=f,g");
    };
    match id {
        "F01" => dec(),
        "F02" => que(),
        "F03" => fld(),
        "F04" => {
            que();
            fld();
        }
        "F05" => {
            utf8(run, if th { 5 } else { 4 });
            dec();
            que();
            fld();
        }
        "F06" => {
            dec();
            que();
            agree(run);
        }
        "F07" => iterators(run),
        "G01" => classes(run),
        "G02" => texts(run),
        "E09" => registries(run),
        _ => unreachable!(),
    }
    let n = run.outcomes.lock().unwrap().len() as u64;
    run.states.fetch_add(n, Ordering::Relaxed);
}

// -------------------------------------------------------------------------------------------------
// Agreement of the three decoders of URL encoded text
// -------------------------------------------------------------------------------------------------

/// Pairs the body parser delivers, or none if it rejects the text.
fn body(s: &'static [u8]) -> Option<Vec<(Vec<u8>, Vec<u8>)>> {
    struct B(Vec<(Vec<u8>, Vec<u8>)>);
    impl http_box::http1::HttpHandler for B {
        fn on_url_encoded_begin(&mut self) -> bool {
            self.0.push((vec![], vec![]));
            true
        }
        fn on_url_encoded_name(&mut self, x: &[u8]) -> bool {
            if let Some(p) = self.0.last_mut() {
                p.0.extend_from_slice(x);
            }
            true
        }
        fn on_url_encoded_value(&mut self, x: &[u8]) -> bool {
            if let Some(p) = self.0.last_mut() {
                p.1.extend_from_slice(x);
            }
            true
        }
    }
    let mut b = B(vec![]);
    let ok = {
        let mut p = http_box::http1::Parser::new();
        p.init_url_encoded();
        p.set_length(s.len());
        matches!(p.resume(&mut b, s), Ok(http_box::fsm::Success::Finished(_)))
    };
    if ok { Some(b.0) } else { None }
}

fn malformed_escape(s: &[u8]) -> bool {
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'%' {
            if escape(s, i).is_err() {
                return true;
            }
            i += 2;
        }
        i += 1;
    }
    false
}

fn agree_one(w: &mut Worker, s: &[u8]) {
    w.inputs += 1;
    w.bytes += s.len() as u64;
    let buf = w.guard.place(s);
    w.now.tool.set(Tool::Query);
    let d: *const (dyn Describe + '_) = &*w.now;
    guard::describe_with(Some(unsafe {
        std::mem::transmute::<*const (dyn Describe + '_), *const (dyn Describe + 'static)>(d)
    }));
    let r = guard::call(buf, 0, || {
        let b = body(buf);
        let q = run_tool(Tool::Query, buf);
        let mut parts: Option<Vec<(Vec<u8>, Vec<u8>)>> = Some(vec![]);
        let mut i = 0;
        // split at delimiters and at the first equals sign, then decode each piece
        while i < buf.len() {
            let e = buf[i..].iter().position(|c| *c == b'&' || *c == b';').map(|x| i + x).unwrap_or(buf.len());
            let piece = &buf[i..e];
            let (n, v) = match piece.iter().position(|c| *c == b'=') {
                Some(x) => (&piece[..x], &piece[x + 1..]),
                None => (piece, &piece[..0]),
            };
            match (decode(n), decode(v)) {
                (Ok(n), Ok(v)) => {
                    if let Some(p) = parts.as_mut() {
                        p.push((n.into_bytes(), v.into_bytes()));
                    }
                }
                _ => parts = None,
            }
            i = e + 1;
        }
        (b, q, parts)
    });
    guard::describe_with(None);
    let (b, q, parts) = match r {
        Ok(x) => x,
        Err(()) => return report(w, s, "one of the decoders panics"),
    };
    let q: Option<Vec<(Vec<u8>, Vec<u8>)>> = if q.errs.is_empty() {
        Some(q.pairs.into_iter().map(|(a, b)| (a, b.unwrap_or_default())).collect())
    } else {
        None
    };
    if malformed_escape(s) && (b.is_some() || q.is_some() || parts.is_some()) {
        return report(w, s, &format!("a malformed escape is accepted (body parser {}, query iterator {}, decoder {})",
                                     b.is_some(), q.is_some(), parts.is_some()));
    }
    if let (Some(mut b), Some(q), Some(p)) = (b, q, parts) {
        // an empty pair after the last delimiter is not announced by the iterator
        if s.is_empty() || s.ends_with(b"&") || s.ends_with(b";") {
            if b.len() > p.len() && b.last() == Some(&(vec![], vec![])) {
                b.pop();
            }
        }
        if b != q || q != p {
            return report(w, s, "the body parser, the query iterator and the decoder deliver different pairs");
        }
    }
}

fn report(w: &mut Worker, s: &[u8], text: &str) {
    let t = format!("\"{}\": {}\n  violates: F06", esc(s), text);
    if w.run.mask & F06 != 0 {
        w.run.violate(&t, &format!("util agree {}", if s.is_empty() { "-".into() } else { hex(s) }));
    } else {
        w.run.other(F06, &t);
    }
}

fn agree(run: &Run) {
    let th = run.thorough;
    for (a, n) in [(&b"a=&;%+41"[..], if th { 8 } else { 7 }), (b"a=&%G", if th { 9 } else { 8 })] {
        par(run, &format!("agreement on all texts up to {} bytes over \"{}\"", n, esc(a)), count(a, n), |w, i| {
            let mut v = Vec::new();
            nth(a, i, &mut v);
            agree_one(w, &v);
        });
    }
    par(run, "agreement on all 65536 escapes", 65536, |w, i| {
        for (pre, post) in [(&b""[..], &b""[..]), (b"a=", b""), (b"a=b", b"c&d"), (b"x&a", b"b=c")] {
            let mut v = pre.to_vec();
            v.extend_from_slice(&[b'%', (i >> 8) as u8, i as u8]);
            v.extend_from_slice(post);
            agree_one(w, &v);
        }
    });
    let mut ns: Vec<usize> = (0..=300).collect();
    for e in 9..=16 {
        ns.extend((1usize << e) - 2..=(1usize << e) + 2);
    }
    par(run, "agreement on elements of 0..300 bytes and around powers of two up to 2^16", ns.len() as u64, |w, i| {
        let n = ns[i as usize];
        let abc: Vec<u8> = (0..n).map(|k| b'a' + (k % 26) as u8).collect();
        let rep = |x: &[u8]| -> Vec<u8> { x.iter().copied().cycle().take(x.len() * n).collect() };
        for v in [
            [&abc[..], b"=b"].concat(), [b"a=", &abc[..], b"&c=", &abc].concat(), [&abc[..], b"%4F=", &abc, b"%2b+"].concat(), rep(b"a=%41&"), rep(b"%6a+=;"), [b"a=", &rep(b"%41+")[..]].concat(),
            [b"x", &rep(b"%7a+")[..], b"=y"].concat(), [b"a=", &abc[..], b"%4"].concat(), [&abc[..], b"%"].concat(), [b"a=", &abc[..], b"%4g"].concat(), [&rep(b"a=b;")[..], b"c=%"].concat(),
        ] {
            agree_one(w, &v);
        }
    });
    par(run, "agreement on one-byte replacements", 256, |w, i| {
        for s in samples(Tool::Query) {
            for p in 0..s.len() {
                let mut v = s.clone();
                v[p] = i as u8;
                agree_one(w, &v);
            }
        }
    });
}

// -------------------------------------------------------------------------------------------------
// Byte classes and registries
// -------------------------------------------------------------------------------------------------

fn table(run: &Run, prop: u64, n: u64, text: String, ok: bool) {
    run.transitions.fetch_add(1, Ordering::Relaxed);
    let _ = n;
    if !ok {
        let t = format!("{}\n  violates: {}", text, mask_names(prop));
        if run.mask & prop != 0 {
            run.violate(&t, &format!("table {}", text));
        } else {
            run.other(prop, &t);
        }
    }
}

/// The words and numbers of a text.
fn words(s: &str) -> Vec<String> {
    s.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect()
}

/// Errors and results describe themselves.
fn texts(run: &Run) {
    use http_box::fsm::Success;
    use http_box::http1::ParserError as E;
    use http_box::util::{DecodeError, FieldError, QueryError};
    use std::fmt::{Debug, Display};
    let mut seen: std::collections::HashMap<String, String> = std::collections::HashMap::new();
    let mut n = 0u64;
    let mut one = |x: &(dyn Fn() -> (String, String)), what: String, group: &str, kind: &str, number: Option<u64>, kind_in_display: bool| {
        n += 1;
        run.traces.fetch_add(1, Ordering::Relaxed);
        let r = guard::call(b"", 0, x);
        let (dbg, dsp) = match r {
            Ok(x) => x,
            Err(()) => return table(run, G02, 0, format!("formatting {} panics", what), false),
        };
        for (t, with_kind) in [(&dbg, true), (&dsp, kind_in_display)] {
            let w = words(t);
            if with_kind && !w.iter().any(|x| x == kind) {
                table(run, G02, 0, format!("{} is shown as \"{}\", which does not name its kind", what, t), false);
            }
            if let Some(b) = number {
                if !w.iter().any(|x| *x == b.to_string()) {
                    table(run, G02, 0, format!("{} is shown as \"{}\", which does not name the number {}", what, t, b), false);
                }
            }
        }
        table(run, G02, 0, String::new(), true);
        let key = format!("{}/{}", group, dbg);
        if let Some(o) = seen.insert(key, what.clone()) {
            table(run, G02, 0, format!("{} and {} are both shown as \"{}\"", o, what, dbg), false);
        }
    };
    fn show<T: Debug + Display>(x: &T) -> (String, String) {
        (format!("{:?}", x), format!("{}", x))
    }
    for b in 0..=255u8 {
        let kinds: [(&str, E); 15] = [
            ("ChunkExtensionName", E::ChunkExtensionName(b)), ("ChunkExtensionValue", E::ChunkExtensionValue(b)), ("ChunkLength", E::ChunkLength(b)),
            ("CrlfSequence", E::CrlfSequence(b)), ("HeaderName", E::HeaderName(b)), ("HeaderValue", E::HeaderValue(b)), ("Method", E::Method(b)),
            ("Multipart", E::Multipart(b)), ("MultipartBoundary", E::MultipartBoundary(b)), ("Status", E::Status(b)), ("StatusCode", E::StatusCode(b)),
            ("Url", E::Url(b)), ("UrlEncodedName", E::UrlEncodedName(b)), ("UrlEncodedValue", E::UrlEncodedValue(b)), ("Version", E::Version(b)),
        ];
        for (k, e) in kinds {
            one(&|| show(&e), format!("ParserError::{}({})", k, b), "ParserError", k, Some(b as u64), true);
        }
        one(&|| show(&DecodeError::Byte(b)), format!("DecodeError::Byte({})", b), "DecodeError", "Byte", Some(b as u64), true);
        one(&|| show(&DecodeError::HexSequence(b)), format!("DecodeError::HexSequence({})", b), "DecodeError", "HexSequence", Some(b as u64), true);
        one(&|| show(&QueryError::Name(b)), format!("QueryError::Name({})", b), "QueryError", "Name", Some(b as u64), true);
        one(&|| show(&QueryError::Value(b)), format!("QueryError::Value({})", b), "QueryError", "Value", Some(b as u64), true);
        one(&|| show(&FieldError::Name(b)), format!("FieldError::Name({})", b), "FieldError", "Name", Some(b as u64), true);
        one(&|| show(&FieldError::Value(b)), format!("FieldError::Value({})", b), "FieldError", "Value", Some(b as u64), true);
    }
    one(&|| show(&E::Dead), "ParserError::Dead".into(), "ParserError", "Dead", None, true);
    one(&|| show(&E::ChunkLengthOverflow), "ParserError::ChunkLengthOverflow".into(), "ParserError", "ChunkLengthOverflow", None, true);
    let mut counts: Vec<usize> = (0..=4096).collect();
    for k in 13..64 {
        counts.extend_from_slice(&[(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    counts.push(usize::MAX);
    for c in counts {
        one(&|| show(&Success::Callback(c)), format!("Success::Callback({})", c), "Success", "Callback", Some(c as u64), false);
        one(&|| show(&Success::Eos(c)), format!("Success::Eos({})", c), "Success", "Eos", Some(c as u64), false);
        one(&|| show(&Success::Finished(c)), format!("Success::Finished({})", c), "Success", "Finished", Some(c as u64), false);
    }
    let mut o = run.outcomes.lock().unwrap();
    for i in 0..26 {
        o.insert(1 << 40 | i);
    }
    drop(o);
    run.space(format!("texts of all errors with all 256 bytes and of results with counts around all powers of two: {} values", n));
}

fn classes(run: &Run) {
    use http_box::byte::*;
    let mut st = HashSet::new();
    for b in 0..=255u8 {
        for (name, f, want) in [
            ("is_token", is_token as fn(u8) -> bool, crate::model::is_token(b)),
            ("is_header_field", is_header_field as fn(u8) -> bool, is_field(b)),
            ("is_quoted_header_field", is_quoted_header_field as fn(u8) -> bool, is_quoted_field(b)),
        ] {
            let r = guard::call(b"", 0, || f(b));
            run.traces.fetch_add(1, Ordering::Relaxed);
            st.insert((name, want));
            let t = match r {
                Ok(x) => format!("{}({:#04x}) is {}", name, b, x),
                Err(()) => format!("{}({:#04x}) panics", name, b),
            };
            table(run, G01, b as u64, t, r == Ok(want));
        }
    }
    let mut o = run.outcomes.lock().unwrap();
    for (i, x) in st.iter().enumerate() {
        let _ = x;
        o.insert(i as u64);
    }
    drop(o);
    run.space("byte classes: 256 values in 3 classes".into());
    // the classes as they show in the parsers
    let mut cx = crate::sess::Cx::new(false, run.var);
    let mut n = 0;
    for b in 0..=255u8 {
        for (pre, post) in [
            (&b"GET / HTTP/1.1\r\nA"[..], &b"b: c\r\n\r\n"[..]),
            (b"GET / HTTP/1.1\r\n", b"b: c\r\n\r\n"),
            (b"GET / HTTP/1.1\r\nA: b", b"c\r\n\r\n"),
            (b"GET / HTTP/1.1\r\nA: \"b", b"c\"\r\n\r\n"),
        ] {
            let mut v = pre.to_vec();
            v.push(b);
            v.extend_from_slice(post);
            class_doc(run, &mut cx, Start::Head, &v);
            n += 1;
        }
        for (pre, post) in [(&b"1;a"[..], &b"b=c\r\n"[..]), (b"1;a=b", b"c\r\n"), (b"1;a=\"b", b"c\"\r\n")] {
            let mut v = pre.to_vec();
            v.push(b);
            v.extend_from_slice(post);
            class_doc(run, &mut cx, Start::Chunked, &v);
            n += 1;
        }
        let mut w = Worker::new(run);
        for t in fields() {
            w.check(t, &[b'a', b, b'b', b'=', b'c']);
            w.check(t, &[b'a', b'=', b'c', b, b'd']);
            w.check(t, &[b'a', b'=', b'"', b, b'"']);
        }
    }
    run.space(format!("byte classes as used by the parsers: {} documents", n));
}

fn class_doc(run: &Run, cx: &mut crate::sess::Cx, start: Start, v: &[u8]) {
    use crate::sess::*;
    let mut s = Sess::<H1P>::new(start, run.var);
    run.traces.fetch_add(1, Ordering::Relaxed);
    run.transitions.fetch_add(v.len() as u64, Ordering::Relaxed);
    if let Err(m) = s.feed(cx, v, crate::rec::NONE) {
        let t = format!("{}\n  violates: G01", m.text);
        if run.mask & G01 != 0 {
            run.violate(&t, &show_ops(start, &[Op::Feed(v.to_vec(), crate::rec::NONE)]));
        }
    }
}

fn registries(run: &Run) {
    use http_box::http2::{ErrorCode, Flags, FrameType, Setting};
    let ev = |name: &str, n: u64, ok: Result<bool, ()>| {
        run.traces.fetch_add(1, Ordering::Relaxed);
        let t = match ok {
            Ok(_) => format!("{} is wrong for {:#x}", name, n),
            Err(()) => format!("{} panics for {:#x}", name, n),
        };
        table(run, E09, n, t, ok == Ok(true));
    };
    let mut outs: HashSet<String> = HashSet::new();

    // flags
    for b in 0..=255u8 {
        let f = || Flags::from_u8(b);
        outs.insert(format!("flags {}", b & 0x2d));
        let c = |g: &dyn Fn() -> bool| guard::call(b"", 0, g);
        ev("Flags::as_byte", b as u64, c(&|| f().as_byte() == b));
        ev("Flags::is_ack", b as u64, c(&|| f().is_ack() == (b & 1 != 0)));
        ev("Flags::is_end_stream", b as u64, c(&|| f().is_end_stream() == (b & 1 != 0)));
        ev("Flags::is_end_headers", b as u64, c(&|| f().is_end_headers() == (b & 4 != 0)));
        ev("Flags::is_padded", b as u64, c(&|| f().is_padded() == (b & 8 != 0)));
        ev("Flags::is_priority", b as u64, c(&|| f().is_priority() == (b & 0x20 != 0)));
        ev("Flags::is_empty", b as u64, c(&|| f().is_empty() == (b == 0)));
        ev("Flags::fmt", b as u64, c(&|| !format!("{:?}{}", f(), f()).is_empty()));
    }

    // frame types
    let types: [(u8, &str, fn(&FrameType) -> bool); 11] = [
        (0, "data", FrameType::is_data),
        (1, "headers", FrameType::is_headers),
        (2, "priority", FrameType::is_priority),
        (3, "rst_stream", FrameType::is_rst_stream),
        (4, "settings", FrameType::is_settings),
        (5, "push_promise", FrameType::is_push_promise),
        (6, "ping", FrameType::is_push_ping),
        (7, "go_away", FrameType::is_go_away),
        (8, "window_update", FrameType::is_window_update),
        (9, "continuation", FrameType::is_continuation),
        (255, "unsupported", FrameType::is_unsupported),
    ];
    for b in 0..=255u8 {
        let reg = if b <= 9 { b } else { 255 };
        outs.insert(format!("type {}", reg));
        for (n, name, q) in types {
            ev(&format!("FrameType query {}", name), b as u64, guard::call(b"", 0, || q(&FrameType::from_u8(b)) == (reg == n)));
        }
        ev("FrameType::as_byte", b as u64, guard::call(b"", 0, || FrameType::from_u8(b).as_byte() == reg));
        ev("FrameType::fmt", b as u64, guard::call(b"", 0, || {
            !format!("{:?}{}", FrameType::from_u8(b), FrameType::from_u8(b)).is_empty()
        }));
        // display texts are distinct per type
        for c in 0..=9u8 {
            if c != reg {
                ev("FrameType::fmt distinct", b as u64, guard::call(b"", 0, || {
                    format!("{:?}", FrameType::from_u8(b)) != format!("{:?}", FrameType::from_u8(c))
                }));
            }
        }
    }

    // error codes
    let codes: [(u8, &str, fn(&ErrorCode) -> bool); 14] = [
        (0, "no_error", ErrorCode::is_no_error),
        (1, "protocol", ErrorCode::is_protocol),
        (2, "internal", ErrorCode::is_internal),
        (3, "flow_control", ErrorCode::is_flow_control),
        (4, "settings_timeout", ErrorCode::is_settings_timeout),
        (5, "stream_closed", ErrorCode::is_stream_closed),
        (6, "frame_size", ErrorCode::is_frame_size),
        (7, "refused_stream", ErrorCode::is_refused_stream),
        (8, "cancel", ErrorCode::is_cancel),
        (9, "compression", ErrorCode::is_compression),
        (10, "connect", ErrorCode::is_connect),
        (11, "enhance_your_calm", ErrorCode::is_enhance_your_calm),
        (12, "inadequate_security", ErrorCode::is_inadequate_security),
        (13, "http_1_1_required", ErrorCode::is_http_1_1_required),
    ];
    for b in 0..=255u8 {
        let reg = if b <= 13 { b } else { 255 };
        outs.insert(format!("code {}", reg));
        for (n, name, q) in codes {
            ev(&format!("ErrorCode query {}", name), b as u64, guard::call(b"", 0, || q(&ErrorCode::from_u8(b)) == (reg == n)));
        }
        ev("ErrorCode::as_byte", b as u64, guard::call(b"", 0, || ErrorCode::from_u8(b).as_byte() == reg));
        for c in 0..=13u8 {
            if c != reg {
                ev("ErrorCode::fmt distinct", b as u64, guard::call(b"", 0, || {
                    format!("{:?}", ErrorCode::from_u8(b)) != format!("{:?}", ErrorCode::from_u8(c))
                        && format!("{}", ErrorCode::from_u8(b)) != format!("{}", ErrorCode::from_u8(c))
                }));
            }
        }
    }

    // settings
    let settings: [(u16, &str, fn(&Setting) -> bool); 6] = [
        (1, "header_table_size", Setting::is_header_table_size),
        (2, "enable_push", Setting::is_enable_push),
        (3, "max_concurrent_streams", Setting::is_max_concurrent_streams),
        (4, "initial_window_size", Setting::is_initial_window_size),
        (5, "max_frame_size", Setting::is_max_frame_size),
        (6, "max_header_list_size", Setting::is_max_header_list_size),
    ];
    // a setting is created through any existing one
    let mut seed = Setting::Unsupported(0);
    for id in 0..=65535u16 {
        for v in [0u32, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304] {
            if id > 20 && v != 0x01020304 && id % 257 != 0 {
                continue;
            }
            let s = match guard::call(b"", 0, || seed.new(id, v)) {
                Ok(s) => s,
                Err(()) => {
                    ev("Setting::new", id as u64, Err(()));
                    return;
                }
            };
            outs.insert(format!("setting {}", if id <= 6 { id } else { 0 }));
            for (n, name, q) in settings {
                ev(&format!("Setting query {}", name), id as u64, guard::call(b"", 0, || q(&s) == (id == n)));
            }
            ev("Setting::is_unsupported", id as u64, guard::call(b"", 0, || s.is_unsupported() == (id == 0 || id > 6)));
            ev("Setting::value", id as u64, guard::call(b"", 0, || s.value() == v));
            if v == 0x01020304 && id < 20 {
                for other in 1..=7u16 {
                    let same = other == id || (other == 7 && (id == 0 || id > 6));
                    let t = seed.new(other, v);
                    ev("Setting::fmt", id as u64, guard::call(b"", 0, || (format!("{:?}{}", s, s) == format!("{:?}{}", t, t)) == same));
                }
                ev("Setting::fmt value", id as u64, guard::call(b"", 0, || format!("{}", s).contains("16909060")));
            }
        }
    }

    // frame format: composed of plain integers, but only creatable from an existing one
    let mut ff: http_box::http2::FrameFormat = unsafe { std::mem::MaybeUninit::zeroed().assume_init() };
    for len in [0u32, 1, 0xff, 0x100, 0xffff, 0x10000, 0x010203, 0xfefdfc, 0xffffff] {
        for ty in 0..=255u8 {
            for fl in [0u8, 1, 4, 8, 0x20, 0xd2, 0xff] {
                for id in [0u32, 1, 0x01020304, 0x7fffffff] {
                    let ok = guard::call(b"", 0, || {
                        let f = ff.new(len, ty, fl, id);
                        f.payload_length() == len && f.stream_id() == id && f.flags().as_byte() == fl
                            && f.frame_type().as_byte() == if ty <= 9 { ty } else { 255 }
                    });
                    ev("FrameFormat", (len as u64) << 8 | ty as u64, ok);
                }
            }
        }
    }
    let mut o = run.outcomes.lock().unwrap();
    for s in outs {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        o.insert(h.finish());
    }
    drop(o);
    run.space("registries: 256 flag octets, 256 frame types, 256 error octets, 65536 settings identifiers, every query on each".into());
}

/// Replay one recorded case.
pub fn replay(run: &Run, line: &str) {
    let f: Vec<&str> = line.split_whitespace().collect();
    let un = |s: &str| -> Vec<u8> {
        if s == "-" {
            return vec![];
        }
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    };
    let mut w = Worker::new(run);
    match f[1] {
        "decode" => {
            w.check(Tool::Decode, &un(f[2]));
        }
        "query" => {
            w.check(Tool::Query, &un(f[2]));
        }
        "field" => {
            w.check(Tool::Field(un(f[2])[0], f[3] == "1"), &un(f[4]));
        }
        "agree" => agree_one(&mut w, &un(f[2])),
        "iter" => {
            let tool = |k: &mut usize| {
                *k += 1;
                if f[*k - 1] == "field" {
                    *k += 2;
                    Tool::Field(un(f[*k - 2])[0], f[*k - 1] == "1")
                } else {
                    Tool::Query
                }
            };
            let mut k = 2;
            let t = tool(&mut k);
            let s = un(f[k]);
            k += 1;
            if k < f.len() {
                let t2 = tool(&mut k);
                let s2 = un(f[k]);
                w.value_case(t, &s, Some((t2, &s2)), true);
            } else {
                w.value_case(t, &s, None, true);
            }
        }
        _ => panic!("unknown replay line"),
    }
}

// -------------------------------------------------------------------------------------------------
// Iterators as values: when the error callback is set, how they are driven, who else is running
// -------------------------------------------------------------------------------------------------

type Errs = Rc<RefCell<Vec<UErr>>>;
type Item = (String, Option<String>);

/// Both iterators.
trait Both<'a>: Iterator<Item = Item> {
    fn listen(&mut self, to: &Errs);
}

impl<'a> Both<'a> for QueryIterator<'a> {
    fn listen(&mut self, to: &Errs) {
        let to = to.clone();
        self.on_error(move |e| {
            // a callback may use the library itself
            let _ = decode(b"%41+");
            let _ = QueryIterator::new(b"a=%").count();
            to.borrow_mut().push(match e {
                QueryError::Name(b) => UErr::Name(b),
                QueryError::Value(b) => UErr::Value(b),
            })
        });
    }
}

impl<'a> Both<'a> for FieldIterator<'a> {
    fn listen(&mut self, to: &Errs) {
        let to = to.clone();
        self.on_error(move |e| {
            let _ = decode(b"%41+");
            let _ = FieldIterator::new(b"A=\"", b';', true).count();
            to.borrow_mut().push(match e {
                FieldError::Name(b) => UErr::Name(b),
                FieldError::Value(b) => UErr::Value(b),
            })
        });
    }
}

fn both<'a>(t: Tool, s: &'a [u8]) -> Box<dyn Both<'a> + 'a> {
    match t {
        Tool::Field(d, n) => Box::new(FieldIterator::new(s, d, n)),
        _ => Box::new(QueryIterator::new(s)),
    }
}

/// A concrete iterator, driven through its own adapters.
fn adapt<'a, I: Both<'a>>(make: &dyn Fn() -> I, r: &[Item], err: Option<UErr>) -> Result<(), String> {
    let errs = || Errs::default();
    let same = |what: &str, got: &Errs, end: bool| {
        let want: Vec<UErr> = if end { err.into_iter().collect() } else { vec![] };
        if *got.borrow() == want { Ok(()) } else { Err(format!("{}: it reports {:?} instead of {:?}", what, got.borrow(), want)) }
    };
    let no = |what: String| Err(what);
    let e = errs();
    let mut it = make();
    it.listen(&e);
    if it.count() != r.len() {
        return no(format!("count() is not {}", r.len()));
    }
    same("count()", &e, true)?;
    let e = errs();
    let mut it = make();
    it.listen(&e);
    if it.last().as_ref() != r.last() {
        return no("last() is not the last entry".into());
    }
    same("last()", &e, true)?;
    let e = errs();
    let mut it = make();
    it.listen(&e);
    let v = it.fold(Vec::new(), |mut v, x| { v.push(x); v });
    if v != r {
        return no("fold() sees other entries".into());
    }
    same("fold()", &e, true)?;
    for i in 0..=r.len() {
        let e = errs();
        let mut it = make();
        it.listen(&e);
        if it.nth(i).as_ref() != r.get(i) {
            return no(format!("nth({}) is another entry", i));
        }
        same(&format!("nth({})", i), &e, i == r.len())?;
        let rest: Vec<Item> = it.by_ref().collect();
        if rest != r[(i + 1).min(r.len())..] {
            return no(format!("after nth({}) other entries follow", i));
        }
        same("collect()", &e, true)?;
        let e = errs();
        let mut it = make();
        it.listen(&e);
        let a: Vec<Item> = it.by_ref().take(i).collect();
        let b: Vec<Item> = it.skip(1).collect();
        if a != r[..i] || b != r[(i + 1).min(r.len())..] {
            return no(format!("take({}) and skip(1) yield other entries", i));
        }
        same("skip()", &e, true)?;
    }
    let e = errs();
    let mut it = make();
    it.listen(&e);
    let v: Vec<Item> = it.step_by(2).collect();
    if !v.iter().eq(r.iter().step_by(2)) {
        return no("step_by(2) yields other entries".into());
    }
    same("step_by()", &e, true)
}

/// The entries and the error of a plain run.
fn plain(t: Tool, s: &[u8]) -> Result<(Vec<Item>, Option<UErr>), String> {
    let errs = Errs::default();
    let mut it = both(t, s);
    it.listen(&errs);
    let mut r: Vec<Item> = Vec::new();
    while let Some(x) = it.next() {
        if r.len() > s.len() {
            return Err("it does not end".into());
        }
        r.push(x);
    }
    let e = errs.borrow();
    if e.len() > 1 {
        return Err(format!("it reports {:?}", e));
    }
    Ok((r, e.first().copied()))
}

fn values_of(t: Tool, s: &[u8], more: bool) -> Result<(), String> {
    let (r, err) = plain(t, s)?;
    let calls = r.len() + 3;
    // callbacks set before call `a` and replaced before call `b`, or never set at all
    for a in 0..=calls {
        for b in a..=calls {
            if !more && a != 0 && a != r.len() && b != calls {
                continue;
            }
            let (x, y) = (Errs::default(), Errs::default());
            let mut it = both(t, s);
            for c in 0..calls {
                if c == a {
                    it.listen(&x);
                }
                if c == b {
                    it.listen(&y);
                }
                let (lo, hi) = it.size_hint();
                let left = r.len().saturating_sub(c);
                if lo > left || hi.map_or(false, |h| h < left) {
                    return Err(format!("size_hint() is {:?} with {} entries left", (lo, hi), left));
                }
                if it.next().as_ref() != r.get(c) {
                    return Err(format!("call {} yields another entry if callbacks are set before calls {} and {}", c, a, b));
                }
            }
            drop(it);
            let end = r.len();
            let (mut wx, mut wy) = (vec![], vec![]);
            if let Some(e) = err {
                if b <= end {
                    wy.push(e);
                } else if a <= end {
                    wx.push(e);
                }
            }
            if (&*x.borrow(), &*y.borrow()) != (&wx, &wy) {
                return Err(format!("callbacks set before calls {} and {} get {:?} and {:?} instead of {:?} and {:?}", a, b, x.borrow(), y.borrow(), wx, wy));
            }
        }
    }
    match t {
        Tool::Field(d, n) => adapt(&|| FieldIterator::new(s, d, n), &r, err)?,
        _ => adapt(&|| QueryIterator::new(s), &r, err)?,
    }
    // next to another iterator over the same text and one over another text
    for (t2, s2) in [(t, s), (Tool::Query, &b"x=%79&z=+;q"[..]), (Tool::Field(b';', true), b"X=\"y\\\"z\" ; Q;W=\"")] {
        let (r2, err2) = plain(t2, s2)?;
        let (x, y) = (Errs::default(), Errs::default());
        let (mut i, mut j) = (both(t, s), both(t2, s2));
        i.listen(&x);
        j.listen(&y);
        for c in 0..calls.max(r2.len() + 3) {
            if i.next().as_ref() != r.get(c) || j.next().as_ref() != r2.get(c) {
                return Err(format!("call {} yields another entry next to {} of \"{}\"", c, t2.show(), esc(s2)));
            }
        }
        if x.borrow().iter().copied().ne(err) || y.borrow().iter().copied().ne(err2) {
            return Err(format!("the errors differ next to {} of \"{}\"", t2.show(), esc(s2)));
        }
    }
    Ok(())
}

/// All merge orders of the calls of two iterators.
fn merges(t: Tool, s: &[u8], t2: Tool, s2: &[u8]) -> Result<(), String> {
    let ((r, err), (r2, err2)) = (plain(t, s)?, plain(t2, s2)?);
    let n = r.len() + r2.len() + 4;
    for order in 0u32..1 << n {
        if order.count_ones() as usize != r2.len() + 2 {
            continue;
        }
        let (x, y) = (Errs::default(), Errs::default());
        let (mut i, mut j) = (both(t, s), both(t2, s2));
        i.listen(&x);
        j.listen(&y);
        let (mut a, mut b) = (0, 0);
        for c in 0..n {
            let ok = if order >> c & 1 == 0 {
                a += 1;
                i.next().as_ref() == r.get(a - 1)
            } else {
                b += 1;
                j.next().as_ref() == r2.get(b - 1)
            };
            if !ok {
                return Err(format!("next to {} of \"{}\" in order {:b} another entry comes", t2.show(), esc(s2), order));
            }
        }
        if x.borrow().iter().copied().ne(err) || y.borrow().iter().copied().ne(err2) {
            return Err(format!("next to {} of \"{}\" in order {:b} the errors differ", t2.show(), esc(s2), order));
        }
    }
    Ok(())
}

impl<'a> Worker<'a> {
    fn value_case(&mut self, t: Tool, s: &[u8], other: Option<(Tool, &[u8])>, more: bool) {
        self.inputs += 1;
        self.bytes += s.len() as u64;
        self.now.tool.set(t);
        let d: *const (dyn Describe + '_) = &*self.now;
        guard::describe_with(Some(unsafe {
            std::mem::transmute::<*const (dyn Describe + '_), *const (dyn Describe + 'static)>(d)
        }));
        let buf = self.guard.place(s);
        let r = guard::call(buf, 0, || match other {
            None => values_of(t, buf, more),
            Some((t2, s2)) => merges(t, buf, t2, s2),
        });
        guard::describe_with(None);
        if self.outcomes.len() < 2_000_000 {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (t.show(), s).hash(&mut h);
            self.outcomes.insert(h.finish());
        }
        let text = match r {
            Ok(Ok(())) => return,
            Ok(Err(t)) => t,
            Err(()) => "it panics".into(),
        };
        let text = format!("{} of \"{}\": {}\n  violates: F07", t.show(), esc(s), text);
        let h = |s: &[u8]| if s.is_empty() { "-".to_string() } else { hex(s) };
        let mut replay = format!("util iter {} {}", t.show(), h(s));
        if let Some((t2, s2)) = other {
            replay += &format!(" {} {}", t2.show(), h(s2));
        }
        if self.run.mask & F07 != 0 {
            self.run.violate(&text, &replay);
        } else {
            self.run.other(F07, &text);
        }
    }
}

/// Pairs of texts in two threads.
fn parallel(run: &Run) {
    use crate::step::*;
    let mut cases = Vec::new();
    for t in [Tool::Decode, Tool::Query, Tool::Field(b';', true), Tool::Field(b',', false)] {
        let mut v = samples(t);
        v.push(b"A=\"b".to_vec());
        v.push(b"A%20b=%zz&\x01".to_vec());
        v.push(b"xY/Z=%C3%a9+\xc3".to_vec());
        for b in v {
            cases.push(Case { what: What::Tool(t), bytes: b, step: 0 });
        }
    }
    let tools = cases.len();
    for side in crate::chains::sides() {
        let (s, b) = side[0].clone();
        cases.push(Case { what: What::Stream(s), bytes: b, step: 0 });
    }
    let n = cases.len();
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).filter(|(a, b)| *a < tools || *b < tools).collect();
    crate::step::parallel(run, &cases, &pairs, F07, "F07");
}

fn iterators(run: &Run) {
    let th = run.thorough;
    crate::step::first_report(run, F07, "F07");
    parallel(run);
    let two = |d| vec![Tool::Field(d, true), Tool::Field(d, false)];
    let sets: Vec<(Vec<Tool>, &[u8], u32)> = vec![
        (vec![Tool::Query], b"a=&%41\xc3", if th { 8 } else { 6 }),
        (vec![Tool::Query], b"a=;+", if th { 10 } else { 8 }),
        (two(b';'), b"A=;\"\\ ", if th { 8 } else { 6 }),
        (two(b','), b"A=,\"/\x01", if th { 7 } else { 6 }),
        (two(b';'), b"a=;\"", if th { 10 } else { 8 }),
    ];
    for (ts, alpha, n) in sets {
        for t in ts {
            par(run, &format!("{}: all strings up to {} bytes over \"{}\", every point at which callbacks are set and replaced, every adapter, next to others",
                              t.show(), n, esc(alpha)), count(alpha, n), |w, i| {
                let mut v = Vec::new();
                nth(alpha, i, &mut v);
                w.value_case(t, &v, None, true);
            });
        }
    }
    let mut long: Vec<(Tool, Vec<u8>)> = Vec::new();
    for t in [Tool::Query, Tool::Field(b';', true), Tool::Field(b',', false)] {
        long.extend(samples(t).into_iter().map(|s| (t, s)));
        let sep = if let Tool::Field(d, _) = t { d } else { b'&' };
        for n in if th { vec![1usize, 7, 8, 9, 31, 32, 33, 100] } else { vec![1, 8, 33] } {
            for tail in [&b""[..], b"%", b"=\x01", b"a=\"b"] {
                let mut s = Vec::new();
                for k in 0..n {
                    s.extend_from_slice(format!("n{}=v", k).as_bytes());
                    s.push(sep);
                }
                s.extend_from_slice(tail);
                long.push((t, s));
            }
        }
    }
    par(run, "sample texts and texts of many entries", long.len() as u64, |w, i| {
        let (t, s) = &long[i as usize];
        w.value_case(*t, s, None, s.len() < 60);
    });
    let pairs: Vec<(Tool, &[u8])> = vec![
        (Tool::Query, b"a=b&c"), (Tool::Query, b"a=%4"), (Tool::Query, b"%41=+&b=%C3%A9;c=%C3"), (Tool::Query, b""),
        (Tool::Field(b';', true), b"A=\"b\\\"c\"; D=e"), (Tool::Field(b';', false), b"A=\"b"), (Tool::Field(b',', false), b"a,B,c=d"), (Tool::Field(b';', true), b"A=\x01"),
    ];
    par(run, "every merge order of the calls of two iterators", (pairs.len() * pairs.len()) as u64, |w, i| {
        let (a, b) = (pairs[i as usize / pairs.len()], pairs[i as usize % pairs.len()]);
        w.value_case(a.0, a.1, Some(b), true);
    });
}
